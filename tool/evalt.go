package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
)

// Numeric evaluation of terms under a pseudo-random interpretation: a self check of the term layer.

var evalDebug = os.Getenv("GOVC_EVAL") != ""

type evalEnv struct {
	seed int
	v    map[*Term]float64
}

func hashF(s string) float64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return float64(h.Sum64()%2003)/500 - 2
}

func (e *evalEnv) b(t *Term) bool {
	return e.ev(t) != 0
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func (e *evalEnv) ev(t *Term) float64 {
	switch t.op {
	case OConst:
		f, _ := t.rat.Float64()
		return f
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OStr:
		return hashF("s" + t.name)
	case OVar:
		if x, ok := e.v[t]; ok {
			return x
		}
		x := hashF(fmt.Sprint(e.seed, t.name))
		if t.sort == SInt {
			x = math.Floor(math.Abs(x)*2) + 1
		}
		if t.sort == SBool {
			x = b2f(x > 0)
		}
		if t == tInf {
			x = 1e15
		}
		return x
	case OPoly:
		s := 0.
		for _, m := range t.mons {
			c, _ := m.c.Float64()
			for _, f := range m.f {
				c *= math.Pow(e.ev(f.t), float64(f.p))
			}
			s += c
		}
		return s
	case OInv:
		x := e.ev(t.args[0])
		if math.Abs(x) < 1e-12 {
			return 0
		}
		return 1 / x
	case OToR:
		return e.ev(t.args[0])
	case OTrunc:
		return math.Trunc(e.ev(t.args[0]))
	case ODiv:
		return math.Floor(e.ev(t.args[0]) / e.ev(t.args[1]))
	case OMod:
		a, b := e.ev(t.args[0]), e.ev(t.args[1])
		return a - b*math.Floor(a/b)
	case OIte:
		if e.b(t.args[0]) {
			return e.ev(t.args[1])
		}
		return e.ev(t.args[2])
	case OInd:
		return b2f(e.b(t.args[0]))
	case OMin, OMax:
		r := e.ev(t.args[0])
		for _, a := range t.args[1:] {
			if t.op == OMin {
				r = math.Min(r, e.ev(a))
			} else {
				r = math.Max(r, e.ev(a))
			}
		}
		return r
	case OAbs:
		return math.Abs(e.ev(t.args[0]))
	case OApp:
		s := fmt.Sprint(e.seed, t.name)
		for _, a := range t.args {
			s += fmt.Sprintf(",%.6f", e.ev(a)+0)
		}
		x := hashF(s)
		if t.sort == SInt {
			x = math.Floor(math.Abs(x) * 2)
		}
		if t.sort == SBool {
			x = b2f(x > 0)
		}
		return x
	case ONot:
		return b2f(!e.b(t.args[0]))
	case OAnd:
		for _, a := range t.args {
			if !e.b(a) {
				return 0
			}
		}
		return 1
	case OOr:
		for _, a := range t.args {
			if e.b(a) {
				return 1
			}
		}
		return 0
	case OEq0:
		return b2f(math.Abs(e.ev(t.args[0])) < 1e-7)
	case OLe0:
		return b2f(e.ev(t.args[0]) <= 1e-7)
	case OLt0:
		return b2f(e.ev(t.args[0]) < -1e-7)
	case OEqS:
		return b2f(e.ev(t.args[0]) == e.ev(t.args[1]))
	case OBind:
		var vs []*Term
		for _, b := range t.bvs {
			vs = append(vs, fresh("ev", b.sort))
		}
		in := openWith(t, vs)
		at := func(x float64) float64 { e.v[vs[0]] = x; return e.ev(in[0]) }
		if t.nout == 0 {
			return 0
		}
		n := e.ev(t.args[0])
		switch t.name {
		case "sum":
			s := 0.
			for i := 0.; i < n; i++ {
				s += at(i)
			}
			return s
		case "forall":
			for i := 0.; i < n; i++ {
				if at(i) == 0 {
					return 0
				}
			}
			return 1
		case "first":
			for i := 0.; i < n; i++ {
				if at(i) != 0 {
					return i
				}
			}
			return math.Max(n, 0)
		}
		panic("no eval for " + t.name)
	}
	panic("eval")
}

// evalSame checks numerically that a and b agree on some random interpretations (debugging aid).
func evalSame(what string, a, b *Term) {
	if !evalDebug || a == b {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && len(s) > 7 && s[:7] == "no eval" {
				return
			}
			panic(r)
		}
	}()
	for s := 0; s < 3; s++ {
		x, y := (&evalEnv{s, map[*Term]float64{}}).ev(a), (&evalEnv{s, map[*Term]float64{}}).ev(b)
		if math.Abs(x-y) > 1e-6*(1+math.Abs(x)) {
			fmt.Fprintf(os.Stderr, "EVAL MISMATCH in %s: %g vs %g\n  %v\n  %v\n", what, x, y, a, b)
			panic("eval mismatch")
		}
	}
}
