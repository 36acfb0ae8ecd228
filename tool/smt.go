package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver statistics
var (
	statQueries  int
	statUnsat    int
	statSat      int
	statUnknown  int
	statSolverNS int64
	statQuick    int
)

type z3proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	raw io.WriteCloser
}

var z3p *z3proc

func z3Path() string {
	for _, p := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "z3"
}

func z3start() *z3proc {
	cmd := exec.Command(z3Path(), "-in", "-smt2", "memory_max_size=4000")
	w, _ := cmd.StdinPipe()
	r, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fatal("cannot start z3: %v", err)
	}
	return &z3proc{cmd, bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16), w}
}

func (z *z3proc) kill() {
	z.raw.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

// smtQuery runs one script in a fresh push/pop scope; returns "unsat","sat","unknown".
func smtQuery(script string, timeoutMS int) string {
	if z3p == nil {
		z3p = z3start()
	}
	t0 := time.Now()
	statQueries++
	z := z3p
	fmt.Fprintf(z.in, "(push)\n(set-option :timeout %d)\n%s(check-sat)\n(pop)\n(echo \"done\")\n", timeoutMS, script)
	z.in.Flush()
	ch := make(chan string, 1)
	go func() {
		res := "unknown"
		for {
			l, err := z.out.ReadString('\n')
			if err != nil {
				ch <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "sat" || l == "unsat" || l == "unknown" || l == "timeout":
				res = l
			case l == "done" || l == "\"done\"":
				ch <- res
				return
			case strings.HasPrefix(l, "(error"):
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "z3:", l)
				}
				res = "error"
			}
		}
	}()
	var res string
	select {
	case res = <-ch:
	case <-time.After(time.Duration(timeoutMS*2+3000) * time.Millisecond):
		res = "dead"
	}
	if res == "dead" {
		z.kill()
		z3p = nil
		res = "unknown"
	}
	statSolverNS += int64(time.Since(t0))
	switch res {
	case "unsat":
		statUnsat++
	case "sat":
		statSat++
	default:
		statUnknown++
	}
	if d := os.Getenv("GOVC_SLOW"); d != "" && time.Since(t0) > 300*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %v %s\n", time.Since(t0), res)
		if d == "2" {
			os.WriteFile(fmt.Sprintf("/tmp/slow%d.smt2", statQueries), []byte(script+"(check-sat)\n"), 0644)
		}
	}
	return res
}

// ---- encoding

type encoder struct {
	recd    []*Term
	decl    map[string]string
	asserts []string
	nl      bool // nonlinear arithmetic kept native
	done    map[*Term]bool
	axq     []*Term
	bound   map[int32]bool
	imons   map[string]Mono // int nonlinear monomials
	imonT   map[string]*Term
	quant   bool
	level   int
	linked  map[*Term]bool
	links   []string
	sorts   []*Term
}

func newEncoder(nl bool) *encoder {
	return &encoder{decl: map[string]string{}, nl: nl, done: map[*Term]bool{}, bound: map[int32]bool{}, imons: map[string]Mono{}}
}

func sortName(s Sort) string {
	switch s {
	case SInt, SStr:
		return "Int"
	case SReal:
		return "Real"
	}
	return "Bool"
}

func ratStr(r *big.Rat, s Sort) string {
	n := new(big.Int).Abs(r.Num())
	var x string
	if s == SInt || s == SStr {
		x = n.String()
	} else {
		x = n.String() + ".0"
		if !r.IsInt() {
			x = "(/ " + x + " " + r.Denom().String() + ".0)"
		}
	}
	if r.Sign() < 0 {
		return "(- " + x + ")"
	}
	return x
}

func smtName(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(n) + "|"
}

var strCodes = map[string]int{}

func strCode(s string) int {
	if c, ok := strCodes[s]; ok {
		return c
	}
	c := 1000003 + len(strCodes)
	strCodes[s] = c
	return c
}

func (e *encoder) opaque(prefix string, t *Term) string {
	// symbol for term t, as function of currently bound variables occurring in it
	name := fmt.Sprintf("|%s%d|", prefix, t.id)
	var bs []*Term
	for _, v := range t.fv {
		if e.bound[v] {
			bs = append(bs, termList[v])
		}
	}
	if len(bs) == 0 {
		e.decl[name] = fmt.Sprintf("(declare-const %s %s)\n", name, sortName(t.sort))
		return name
	}
	var ss []string
	r := "(" + name
	for _, b := range bs {
		ss = append(ss, sortName(b.sort))
		r += " " + smtName(b.name)
	}
	e.decl[name] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", name, strings.Join(ss, " "), sortName(t.sort))
	return r + ")"
}

func (e *encoder) hasBound(t *Term) bool {
	for _, v := range t.fv {
		if e.bound[v] {
			return true
		}
	}
	return false
}

// ax schedules axioms for a ground atom.
func (e *encoder) ax(t *Term) {
	if e.done[t] || e.hasBound(t) {
		return
	}
	e.done[t] = true
	e.axq = append(e.axq, t)
}

func (e *encoder) mono(m Mono, s Sort) string {
	var inds []string
	var rest []Fac
	deg := 0
	for _, f := range m.f {
		if f.t.op == OInd {
			inds = append(inds, e.enc(f.t.args[0]))
		} else {
			rest = append(rest, f)
			deg += f.p
		}
	}
	var core string
	switch {
	case deg == 0:
		core = ratStr(m.c, s)
	default:
		var prod string
		if deg == 1 {
			prod = e.enc(rest[0].t)
		} else {
			mt := mkPoly(s, []Mono{{ratOne, rest}})
			if e.nl {
				prod = "(*"
				for _, f := range rest {
					x := e.enc(f.t)
					for i := 0; i < f.p; i++ {
						prod += " " + x
					}
				}
				prod += ")"
			} else {
				for _, f := range rest {
					e.enc(f.t)
				}
				prod = e.opaque("m", mt)
			}
			if s == SInt && !e.hasBound(mt) {
				e.imons[facKey(rest)] = Mono{ratOne, rest}
			}
			if s == SReal && !e.nl && !e.hasBound(mt) {
				e.ax(mt)
			}
		}
		if m.c.Cmp(ratOne) == 0 {
			core = prod
		} else {
			core = "(* " + ratStr(m.c, s) + " " + prod + ")"
		}
	}
	if len(inds) > 0 {
		c := inds[0]
		if len(inds) > 1 {
			c = "(and " + strings.Join(inds, " ") + ")"
		}
		core = "(ite " + c + " " + core + " " + ratStr(ratZero, s) + ")"
	}
	return core
}

func (e *encoder) enc(t *Term) string {
	switch t.op {
	case OConst:
		return ratStr(t.rat, t.sort)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OStr:
		return fmt.Sprint(strCode(t.name))
	case OVar:
		n := smtName(t.name)
		if !e.bound[int32(t.id)] {
			e.decl[n] = fmt.Sprintf("(declare-const %s %s)\n", n, sortName(t.sort))
		}
		return n
	case OPoly:
		if len(t.mons) == 1 {
			return e.mono(t.mons[0], t.sort)
		}
		var sb strings.Builder
		sb.WriteString("(+")
		for _, m := range t.mons {
			sb.WriteString(" ")
			sb.WriteString(e.mono(m, t.sort))
		}
		sb.WriteString(")")
		return sb.String()
	case OInd:
		return "(ite " + e.enc(t.args[0]) + " " + ratStr(ratOne, t.sort) + " " + ratStr(ratZero, t.sort) + ")"
	case OToR:
		return "(to_real " + e.enc(t.args[0]) + ")"
	case OIte:
		return "(ite " + e.enc(t.args[0]) + " " + e.enc(t.args[1]) + " " + e.enc(t.args[2]) + ")"
	case OMin, OMax:
		op := "<="
		if t.op == OMax {
			op = ">="
		}
		r := e.enc(t.args[0])
		for _, a := range t.args[1:] {
			x := e.enc(a)
			r = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, r, x, r, x)
		}
		return r
	case OAbs:
		x := e.enc(t.args[0])
		return fmt.Sprintf("(ite (>= %s 0) %s (- %s))", x, x, x)
	case ONot:
		return "(not " + e.enc(t.args[0]) + ")"
	case OAnd, OOr:
		n := "(and"
		if t.op == OOr {
			n = "(or"
		}
		for _, a := range t.args {
			n += " " + e.enc(a)
		}
		return n + ")"
	case OEq0:
		return e.cmp("=", t.args[0])
	case OLe0:
		return e.cmp("<=", t.args[0])
	case OLt0:
		return e.cmp("<", t.args[0])
	case OEqS:
		return "(= " + e.enc(t.args[0]) + " " + e.enc(t.args[1]) + ")"
	case OApp:
		n := smtName(t.name)
		e.ax(t)
		if len(t.args) == 0 {
			e.decl[n] = fmt.Sprintf("(declare-const %s %s)\n", n, sortName(t.sort))
			return n
		}
		var ss []string
		r := "(" + n
		for _, a := range t.args {
			ss = append(ss, sortName(a.sort))
			r += " " + e.enc(a)
		}
		e.decl[n] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), sortName(t.sort))
		return r + ")"
	case ODiv, OMod:
		if y, ok := t.args[1].int64(); ok && y > 0 {
			op := "div"
			if t.op == OMod {
				op = "mod"
			}
			return fmt.Sprintf("(%s %s %d)", op, e.enc(t.args[0]), y)
		}
		e.ax(t)
		return e.opaque("d", t)
	case OInv, OTrunc:
		e.ax(t)
		e.enc(t.args[0])
		return e.opaque("i", t)
	case OBind:
		if t.name == "forall" && e.quant {
			vs, in := openBind(t)
			n := e.enc(t.args[0])
			e.bound[int32(vs[0].id)] = true
			b := e.enc(in[0])
			delete(e.bound, int32(vs[0].id))
			v := smtName(vs[0].name)
			delete(e.decl, v)
			return fmt.Sprintf("(forall ((%s Int)) (=> (and (<= 0 %s) (< %s %s)) %s))", v, v, v, n, b)
		}
		e.ax(t)
		o := e.opaque("b", t)
		if t.name == "sum" && t.sort == SReal && !e.linked[t] && len(e.bound) == 0 {
			// a sum of integers: the same number as its integer form
			if e.linked == nil {
				e.linked = map[*Term]bool{}
			}
			e.linked[t] = true
			if i := fromReal(t); i != nil {
				e.links = append(e.links, "(= "+o+" (to_real "+e.enc(i)+"))")
			}
		}
		return o
	}
	panic(fmt.Sprint("enc ", t.op))
}

func (e *encoder) cmp(op string, p *Term) string {
	// move negative monomials to the right
	var l, r []Mono
	for _, m := range p.monos() {
		if m.c.Sign() > 0 {
			l = append(l, m)
		} else {
			r = append(r, Mono{new(big.Rat).Neg(m.c), m.f})
		}
	}
	return "(" + op + " " + e.enc(mkPoly(p.sort, l)) + " " + e.enc(mkPoly(p.sort, r)) + ")"
}

func (e *encoder) assertT(t *Term) {
	e.recd = append(e.recd, t)
	e.asserts = append(e.asserts, e.enc(t))
}

type axKey struct {
	t         *Term
	round     int
	nl, quant bool
}

var axCache = map[axKey][]*Term{}

// axiom asserts the axioms of t; their terms are cached.
func (e *encoder) axiom(t *Term, round int) {
	if t.op == ODiv || t.op == OMod {
		e.axiom1(t, round)
		return
	}
	if t.op == OBind && (t.name == "sort" || t.name == "argsort") && round < 2 {
		e.sorts = append(e.sorts, t)
	}
	k := axKey{t, round, e.nl, e.quant}
	if l, ok := axCache[k]; ok {
		for _, a := range l {
			e.asserts = append(e.asserts, e.enc(a))
		}
		return
	}
	e.recd = nil
	n := len(e.asserts)
	e.axiom1(t, round)
	if len(e.asserts)-n == len(e.recd) {
		axCache[k] = e.recd
	}
	e.recd = nil
}

type lemKey struct{ s, a, b *Term }

var lemCache = map[lemKey][]*Term{}

func (e *encoder) cached(k lemKey, f func() []*Term) {
	l, ok := lemCache[k]
	if !ok {
		l = f()
		lemCache[k] = l
	}
	for _, a := range l {
		e.asserts = append(e.asserts, e.enc(a))
	}
}

func (e *encoder) axioms() {
	for round := 0; len(e.axq) > 0 && round < 3; round++ {
		q := e.axq
		e.axq = nil
		for _, t := range q {
			e.axiom(t, round)
		}
	}
	// order of entries of the same sorted sequence
	for i, a := range e.sorts {
		for _, b := range e.sorts[:i] {
			if a.name != b.name || a.args[0] != b.args[0] || a.args[1] == b.args[1] {
				continue
			}
			p, q := mkVar("so@a", SInt), mkVar("so@b", SInt)
			if openWith(a, []*Term{p, q}[:len(a.bvs)])[0] != openWith(b, []*Term{p, q}[:len(b.bvs)])[0] {
				continue
			}
			n, x, y := a.args[0], a.args[1], b.args[1]
			in := mkAnd(mkLe(mkInt(0), x), mkLe(mkInt(0), y), mkLt(x, n), mkLt(y, n))
			if a.name == "sort" {
				e.assertT(mkImp(mkAnd(in, mkLe(x, y)), mkLe(a, b)))
				e.assertT(mkImp(mkAnd(in, mkLe(y, x)), mkLe(b, a)))
				continue
			}
			e.assertT(mkImp(mkAnd(in, mkNot(mkEq(x, y))), mkNot(mkEq(a, b))))
			e.assertT(mkImp(mkAnd(in, mkLt(x, y)), mkNot(openWith(a, []*Term{b, a})[0])))
			e.assertT(mkImp(mkAnd(in, mkLt(y, x)), mkNot(openWith(a, []*Term{a, b})[0])))
		}
	}
	for round := 2; len(e.axq) > 0 && round < 4; round++ {
		q := e.axq
		e.axq = nil
		for _, t := range q {
			e.axiom(t, round)
		}
	}
	// nonlinear integer lemmas
	type mm struct {
		f []Fac
		t *Term
	}
	var ms []mm
	var keys []string
	for k := range e.imons {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ms = append(ms, mm{e.imons[k].f, mkPoly(SInt, []Mono{e.imons[k]})})
	}
	if len(ms) > 14 {
		ms = ms[:14]
	}
	type pr struct {
		s, a, m *Term
	} // m = s*a
	bys := map[*Term][]pr{}
	var ss []*Term
	for _, m := range ms {
		for _, f := range m.f {
			d := divMono(Mono{ratOne, m.f}, []Fac{{f.t, 1}})
			if _, ok := bys[f.t]; !ok {
				ss = append(ss, f.t)
			}
			bys[f.t] = append(bys[f.t], pr{f.t, mkPoly(SInt, []Mono{d}), m.t})
		}
	}
	for _, s := range ss {
		ps := bys[s]
		nn := mkLe(mkInt(0), s)
		for i, p := range ps {
			// a>=0 => s*a>=0 ; a>=1 => s*a >= s; a<=0 => s*a<=0
			e.cached(lemKey{s, p.a, nil}, func() []*Term {
				return []*Term{
					mkImp(mkAnd(nn, mkLe(mkInt(0), p.a)), mkLe(mkInt(0), p.m)),
					mkImp(mkAnd(nn, mkLe(mkInt(1), p.a)), mkLe(s, p.m)),
					mkImp(mkAnd(nn, mkLe(p.a, mkInt(0))), mkLe(p.m, mkInt(0))),
					mkImp(mkAnd(nn, mkLe(p.a, mkInt(-1))), mkLe(p.m, mkNeg(s))),
				}
			})
			for j, q := range ps {
				if i == j {
					continue
				}
				e.cached(lemKey{s, p.a, q.a}, func() []*Term {
					return []*Term{
						mkImp(mkAnd(nn, mkLe(p.a, q.a)), mkLe(p.m, q.m)),
						mkImp(mkAnd(nn, mkLt(p.a, q.a)), mkLe(mkAdd(p.m, s), q.m)),
						mkImp(mkAnd(nn, mkLe(mkAdd(p.a, q.a), mkInt(0))), mkLe(mkAdd(p.m, q.m), mkInt(0))),
					}
				})
			}
		}
	}
	for len(e.axq) > 0 {
		q := e.axq
		e.axq = nil
		for _, t := range q {
			e.axiom(t, 3)
		}
	}
}

func (e *encoder) axiom1(t *Term, round int) {
	z := mkInt(0)
	zr := mkNum(SReal, 0)
	switch t.op {
	case ODiv, OMod:
		if round >= 2 {
			return
		}
		a, b := t.args[0], t.args[1]
		d, m := intern(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}}), intern(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
		e.done[d], e.done[m] = true, true
		pos := mkLt(z, b)
		// raw encodings to avoid smart constructors
		e.assertT(mkImp(pos, mkAnd(mkLe(z, m), mkLt(m, b))))
		e.assertT(mkImp(pos, mkEq(a, mkAdd(mkMul(b, d), m))))
		e.assertT(mkImp(mkAnd(pos, mkLe(z, a)), mkLe(z, d)))
	case OInv:
		x := t.args[0]
		e.assertT(mkImp(mkLt(zr, x), mkLt(zr, t)))
		e.assertT(mkImp(mkLt(x, zr), mkLt(t, zr)))
		e.assertT(mkImp(mkEq(x, zr), mkEq(t, zr)))
		if e.nl {
			e.asserts = append(e.asserts, fmt.Sprintf("(=> (not (= %s 0.0)) (= (* %s %s) 1.0))", e.enc(x), e.enc(x), e.enc(t)))
		}
	case OTrunc:
		x := t.args[0]
		xr, tr := e.enc(x), "(to_real "+e.enc(t)+")"
		e.asserts = append(e.asserts, fmt.Sprintf("(=> (>= %s 0.0) (and (<= %s %s) (< %s (+ %s 1.0))))", xr, tr, xr, xr, tr))
		e.asserts = append(e.asserts, fmt.Sprintf("(=> (< %s 0.0) (and (>= %s %s) (> %s (- %s 1.0))))", xr, tr, xr, xr, tr))
	case OApp:
		switch t.name {
		case "sqrt":
			x := t.args[0]
			e.assertT(mkLe(zr, t))
			e.assertT(mkImp(mkLt(zr, x), mkLt(zr, t)))
			if e.nl {
				e.asserts = append(e.asserts, fmt.Sprintf("(=> (>= %s 0.0) (= (* %s %s) %s))", e.enc(x), e.enc(t), e.enc(t), e.enc(x)))
			}
		case "exp":
			e.assertT(mkLt(zr, t))
		case "floor":
			e.assertT(mkAnd(mkLe(t, t.args[0]), mkLt(t.args[0], mkAdd(t, mkNum(SReal, 1)))))
		}
		if ax := appAxioms[t.name]; ax != nil {
			for _, a := range ax(t) {
				e.assertT(a)
			}
		}
	case OPoly: // real monomial in linear mode: sign facts for squares
		allEven := true
		for _, f := range t.monos()[0].f {
			if f.p%2 == 1 {
				allEven = false
			}
		}
		if allEven {
			e.assertT(mkLe(zr, t))
		} else if len(t.monos()) == 1 && len(t.monos()[0].f) == 2 {
			m := t.monos()[0]
			if m.f[0].p == 1 && m.f[1].p == 1 {
				a, b := m.f[0].t, m.f[1].t
				e.assertT(mkImp(mkAnd(mkLt(zr, a), mkLt(zr, b)), mkLt(zr, t)))
				e.assertT(mkImp(mkAnd(mkLe(zr, a), mkLe(zr, b)), mkLe(zr, t)))
				e.assertT(mkImp(mkOr(mkEq(a, zr), mkEq(b, zr)), mkEq(zr, t)))
			}
		}
	case OBind:
		switch t.name {
		case "sum":
			n := t.args[0]
			vs, in := openBind(t)
			e.assertT(mkImp(mkLe(n, z), mkEq(t, mkNum(t.sort, 0))))
			if t.sort == SInt {
				// product of indicators -> between 0 and n
				if ms := in[0].monos(); len(ms) == 1 {
					ok := true
					for _, f := range ms[0].f {
						if f.t.op != OInd {
							ok = false
						}
					}
					if ok {
						e.assertT(mkLe(z, t))
						e.assertT(mkLe(t, max0(n)))
					}
				}
			}
			if syntNonneg(in[0]) {
				e.assertT(mkLe(mkNum(t.sort, 0), t))
			}
			_ = vs
		case "first":
			n := t.args[0]
			e.assertT(mkAnd(mkLe(z, t), mkLe(t, max0(n))))
			if isArgExt(t) {
				e.assertT(mkImp(mkLe(mkInt(1), n), mkLt(t, n)))
			}
			if round < 2 {
				b := openWith(t, []*Term{t})[0]
				e.assertT(mkImp(mkLt(t, n), b))
				if e.quant {
					v := fresh("q", SInt)
					e.assertT(mkForall(v, t, mkNot(openWith(t, []*Term{v})[0])))
				}
			}
		case "perm", "permi":
			n, k := t.args[1], t.args[2]
			e.assertT(mkEq(rng(k, n), rng(t, n)))
			if round < 2 {
				e.assertT(mkEq(permInv(t, t), k))
			}
		case "argsort":
			n, k := t.args[0], t.args[1]
			in := mkAnd(mkLe(z, k), mkLt(k, n))
			e.assertT(mkImp(in, mkAnd(mkLe(z, t), mkLt(t, n))))
			if round < 2 {
				vs, L := openBind(t)
				w := fresh("w", SInt)
				if f := keyOfLess(L[0], vs[0], vs[1], w); f != nil {
					e.assertT(mkImp(in, mkEq(substVar(f, w, t), mkBind("sort", f.sort, []*Term{w}, []*Term{n, k}, []*Term{f}))))
				}
			}
		case "nth":
			n, i := t.args[0], t.args[1]
			vs, in := openBind(t)
			cnt := mkSum(vs[0], n, mkInd(in[0], SInt))
			b := openWith(t, []*Term{t})[0]
			if round < 2 {
				e.assertT(mkImp(mkAnd(mkLe(z, i), mkLt(i, cnt)), mkAnd(mkLe(z, t), mkLt(t, n), b)))
			}
		case "last":
			n := t.args[0]
			e.assertT(mkAnd(mkLe(mkInt(-1), t), mkLt(t, mkMinMax(OMax, n, mkInt(0)))))
			if isArgExt(t) {
				e.assertT(mkImp(mkLe(mkInt(1), n), mkLe(z, t)))
			}
			if round < 2 {
				b := openWith(t, []*Term{t})[0]
				e.assertT(mkImp(mkLe(z, t), b))
				if e.quant {
					v := fresh("q", SInt)
					// forall v in (t, n): not body
					nb := mkNot(openWith(t, []*Term{v})[0])
					e.assertT(mkForall(v, n, mkOr(mkLe(v, t), nb)))
				}
			}
		case "maxf", "minf":
			n, init := t.args[0], t.args[1]
			le := mkLe
			if t.name == "minf" {
				le = func(a, b *Term) *Term { return mkLe(b, a) }
			}
			e.assertT(mkImp(mkLe(mkInt(1), n), le(openWith(t, []*Term{z})[0], t)))
			if init != tInf && init != mkNeg(tInf) {
				e.assertT(le(init, t))
				e.assertT(mkImp(mkLe(n, z), mkEq(t, init)))
			}
			if e.quant {
				v := fresh("q", SInt)
				e.assertT(mkForall(v, n, le(openWith(t, []*Term{v})[0], t)))
				w := mkApp(fmt.Sprintf("wit%d", t.id), SInt)
				at := mkAnd(mkLe(z, w), mkLt(w, n), mkEq(t, openWith(t, []*Term{w})[0]))
				if init != tInf && init != mkNeg(tInf) {
					e.assertT(mkOr(mkEq(t, init), at))
				} else {
					e.assertT(mkOr(mkLe(n, z), at))
				}
			}
		}
		if ax := bindAxioms[t.name]; ax != nil {
			for _, a := range ax(t, e.quant) {
				e.assertT(a)
			}
		}
	}
}

// isArgExt: first/last position where a function equals its maximum or minimum over the same range.
func isArgExt(t *Term) bool {
	vs, in := openBind(t)
	b := in[0]
	if b.op != OEq0 {
		return false
	}
	for _, m := range b.args[0].monos() {
		if len(m.f) != 1 || m.f[0].p != 1 {
			continue
		}
		f := m.f[0].t
		if f.op == OBind && (f.name == "maxf" || f.name == "minf") && f.args[0] == t.args[0] && !f.hasVar(vs[0]) && (f.args[1] == tInf || f.args[1] == mkNeg(tInf)) {
			F := openWith(f, []*Term{vs[0]})[0]
			d := mkSub(f, F)
			if mkEq(d, mkNum(d.sort, 0)) == b {
				return true
			}
		}
	}
	return false
}

var appAxioms = map[string]func(*Term) []*Term{}
var bindAxioms = map[string]func(*Term, bool) []*Term{}

var queryMemo = map[[16]byte]string{}

// canonical: the script with its symbols numbered in order of appearance (asserts decide; declarations add sorts).
func (e *encoder) canonical() [16]byte {
	h := fnv.New128a()
	num := map[string]int{}
	var buf []byte
	for _, a := range append(e.asserts[:len(e.asserts):len(e.asserts)], e.links...) {
		buf = buf[:0]
		for i := 0; i < len(a); {
			if a[i] == '|' {
				j := i + 1
				for a[j] != '|' {
					j++
				}
				nm := a[i : j+1]
				n, ok := num[nm]
				if !ok {
					n = len(num)
					num[nm] = n
					buf = append(buf, '$')
					buf = append(buf, strings.Replace(e.decl[nm], nm, "", 1)...)
				}
				buf = append(buf, '|')
				buf = strconv.AppendInt(buf, int64(n), 10)
				i = j + 1
				continue
			}
			buf = append(buf, a[i])
			i++
		}
		buf = append(buf, '\n')
		h.Write(buf)
	}
	var r [16]byte
	copy(r[:], h.Sum(nil))
	return r
}

// check runs the query of e, remembering the answers (up to renaming of symbols).
func (e *encoder) check(timeoutMS int) string {
	k := e.canonical()
	if r, ok := queryMemo[k]; ok && (r == "sat" || r == "unsat") {
		statMemo++
		return r
	}
	r := smtQuery(e.script(), timeoutMS)
	queryMemo[k] = r
	return r
}

var statMemo int

func (e *encoder) script() string {
	var sb strings.Builder
	var ks []string
	for k := range e.decl {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(e.decl[k])
	}
	for _, a := range append(e.asserts[:len(e.asserts):len(e.asserts)], e.links...) {
		sb.WriteString("(assert ")
		sb.WriteString(a)
		sb.WriteString(")\n")
	}
	return sb.String()
}

// proveMode bits
const (
	pmQuick = iota
	pmFull
)

func relevantFacts(facts []*Term, goal *Term) []*Term {
	rel := map[int32]bool{}
	for _, v := range goal.fv {
		rel[v] = true
	}
	if len(goal.fv) == 0 {
		return facts
	}
	used := make([]bool, len(facts))
	for ch := true; ch; {
		ch = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			hit := len(f.fv) == 0
			for _, v := range f.fv {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range f.fv {
					rel[v] = true
				}
			}
		}
	}
	var r []*Term
	for i, f := range facts {
		if used[i] {
			r = append(r, f)
		}
	}
	return r
}

func smtProve(facts []*Term, goal *Term, nl, quant bool, timeoutMS int) bool {
	e := newEncoder(nl)
	e.quant = quant
	rel := relevantFacts(facts, goal)
	h := fnv.New128a()
	wr := func(x int) { h.Write([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}) }
	for _, f := range rel {
		wr(int(f.id))
	}
	if !quant {
		wr(-1)
		for _, f := range facts {
			if f.op == OBind && f.name == "forall" {
				wr(int(f.id))
			}
		}
	}
	wr(-2)
	wr(int(goal.id))
	wr(timeoutMS * 2)
	if nl {
		wr(-3)
	}
	if quant {
		wr(-4)
	}
	var key [16]byte
	copy(key[:], h.Sum(nil))
	if r, ok := factMemo[key]; ok {
		return r
	}
	r := smtProve1(e, facts, rel, goal, quant, timeoutMS)
	factMemo[key] = r
	return r
}

var factMemo = map[[16]byte]bool{}

func smtProve1(e *encoder, facts, rel []*Term, goal *Term, quant bool, timeoutMS int) bool {
	for _, f := range rel {
		if !quant && hasQuant(f) {
			continue
		}
		e.assertT(f)
	}
	if !quant {
		for _, f := range instForalls(facts, goal) {
			e.assertT(f)
		}
	}
	e.assertT(mkNot(goal))
	walkTerm(goal, func(a *Term) {
		// positions named inside the bodies of sums
		if a.op == OBind && (a.name == "first" || a.name == "last") && !bindsVar(a) {
			e.enc(a)
		}
	})
	e.axioms()
	if d := os.Getenv("GOVC_DUMP"); d != "" && strings.Contains(goal.String(), d) {
		fmt.Fprintln(os.Stderr, "DUMP", goal)
		for _, f := range rel {
			fmt.Fprintln(os.Stderr, "  FACT", f)
		}
		for _, f := range instForalls(facts, goal) {
			fmt.Fprintln(os.Stderr, "  INST", f)
		}
		for _, t := range e.recd {
			fmt.Fprintln(os.Stderr, "  AX", t)
		}
		for _, a := range e.asserts {
			fmt.Fprintln(os.Stderr, "  SMT", a)
		}
	}
	return e.check(timeoutMS) == "unsat"
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.depth == 0 {
		return false
	}
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := false
	if t.op == OBind && t.name == "forall" {
		r = true
	}
	for _, a := range t.args {
		r = r || hasQuant(a)
	}
	for _, m := range t.mons {
		for _, f := range m.f {
			r = r || hasQuant(f.t)
		}
	}
	quantMemo[t] = r
	return r
}
