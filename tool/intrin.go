package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, args []Value, pos token.Pos) Value

var intrinsics map[string]intrinsic
var opaqueMethods map[string]func(ex *Exec, st *State, args []Value) Value

func tm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("expected scalar, got %s", vstr(v))
	}
	return t
}

func mathFn(name string) intrinsic {
	return func(ex *Exec, st *State, args []Value, pos token.Pos) Value {
		var a []*Term
		for _, x := range args {
			a = append(a, tm(x))
		}
		return mkFn(name, SReal, a...)
	}
}

func noop(ex *Exec, st *State, args []Value, pos token.Pos) Value { return nil }

func opaqueOf(why string) intrinsic {
	return func(ex *Exec, st *State, args []Value, pos token.Pos) Value { return &OpaqueV{why: why} }
}

func mkFloorI(x *Term) *Term {
	if i := fromReal(x); i != nil {
		return i
	}
	return mkApp("ifloor", SInt, x)
}

func sprintf(ex *Exec, st *State, args []Value, pos token.Pos) Value {
	// deterministic function of its scalar arguments
	f, ok := args[0].(*Term)
	if !ok {
		return ex.freshAt("str", SStr)
	}
	var ts []*Term
	if s, ok := args[1].(*SliceV); ok && s.loc != nil {
		if n, ok := s.len.int64(); ok {
			for i := int64(0); i < n; i++ {
				e := ex.sliceElem(st, s, mkInt(i), nil)
				if iv, ok := e.(*IfaceV); ok && iv.typ != nil {
					if t, ok := iv.val.(*Term); ok {
						ts = append(ts, t)
						continue
					}
				}
				return ex.freshAt("str", SStr)
			}
		}
	}
	nm := "sprintf"
	if f.op == OStr {
		nm += ":" + f.name
	} else {
		ts = append([]*Term{f}, ts...)
	}
	return mkApp(nm, SStr, ts...)
}

const matP = "gonum.org/v1/gonum/mat"

func init() {
	appAxioms["ifloor"] = func(t *Term) []*Term {
		x := t.args[0]
		r := intern(&Term{op: OToR, sort: SReal, args: []*Term{t}})
		return []*Term{mkLe(r, x), mkLt(x, mkAdd(r, mkNum(SReal, 1)))}
	}
	intrinsics = map[string]intrinsic{
		"math.Sqrt": mathFn("sqrt"),
		"math.Exp":  mathFn("exp"),
		"math.Log":  mathFn("log"),
		"math.Log1p": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkFn("log", SReal, mkAdd(mkNum(SReal, 1), tm(a[0])))
		},
		"math.Expm1": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkSub(mkFn("exp", SReal, tm(a[0])), mkNum(SReal, 1))
		},
		"math.Log2": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkRDiv(mkFn("log", SReal, tm(a[0])), mkFn("log", SReal, mkNum(SReal, 2)))
		},
		"math.Pow":  mathFn("pow"),
		"math.Tanh": mathFn("tanh"),
		"math.Sin":  mathFn("sin"),
		"math.Cos":  mathFn("cos"),
		"math.Atan": mathFn("atan"),
		"math.Lgamma": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{[]Value{mkFn("lgamma", SReal, tm(a[0])), mkApp("lgammasign", SInt, tm(a[0]))}}
		},
		"math.Erf": mathFn("erf"),
		"math.Mod": mathFn("fmodf"),
		"math.Hypot": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			x, y := tm(a[0]), tm(a[1])
			return mkFn("sqrt", SReal, mkAdd(mkMul(x, x), mkMul(y, y)))
		},
		"math.Abs": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return mkAbs(tm(a[0])) },
		"math.Max": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return mkMinMax(OMax, tm(a[0]), tm(a[1])) },
		"math.Min": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return mkMinMax(OMin, tm(a[0]), tm(a[1])) },
		"math.Floor": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkToReal(mkFloorI(tm(a[0])))
		},
		"math.Ceil": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkNeg(mkToReal(mkFloorI(mkNeg(tm(a[0])))))
		},
		"math.Round": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			x := tm(a[0])
			h := mkConst(SReal, big.NewRat(1, 2))
			return mkIte(mkLe(mkNum(SReal, 0), x), mkToReal(mkFloorI(mkAdd(x, h))), mkNeg(mkToReal(mkFloorI(mkSub(h, x)))))
		},
		"math.Trunc": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return mkToReal(mkTrunc(tm(a[0]))) },
		"math.IsNaN": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.isNaN(tm(a[0])) },
		"math.NaN":   func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return tNaN },
		"math.Inf": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			s := tm(a[0])
			return mkIteRawC(mkLe(mkInt(0), s), tInf, mkNeg(tInf))
		},
		"math.IsInf": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			x := tm(a[0])
			s, _ := tm(a[1]).int64()
			switch {
			case x == tInf:
				return mkBool(s >= 0)
			case x == mkNeg(tInf):
				return mkBool(s <= 0)
			}
			return tFalse
		},
		"math.Signbit": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return mkLt(tm(a[0]), mkNum(SReal, 0)) },
		"math.Copysign": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return mkIte(mkLe(mkNum(SReal, 0), tm(a[1])), mkAbs(tm(a[0])), mkNeg(mkAbs(tm(a[0]))))
		},
		"math.Nextafter": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			x, y := tm(a[0]), tm(a[1])
			if x.op == OConst && y.op == OConst && x.rat != nil && y.rat != nil {
				fx, _ := x.rat.Float64()
				fy, _ := y.rat.Float64()
				if r := new(big.Rat).SetFloat64(math.Nextafter(fx, fy)); r != nil {
					return mkConst(SReal, r)
				}
			}
			return mkFn("nextafter", SReal, x, y)
		},
		"fmt.Sprintf":    sprintf,
		"fmt.Sprint":     func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("str", SStr) },
		"fmt.Errorf":     opaqueOf("error"),
		"errors.New":     opaqueOf("error"),
		"fmt.Printf": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{[]Value{mkInt(0), &IfaceV{}}}
		},
		"fmt.Println": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{[]Value{mkInt(0), &IfaceV{}}}
		},
		"fmt.Print": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return &TupleV{[]Value{mkInt(0), &IfaceV{}}}
		},
		"log.Println":             noop,
		"log.Printf":              noop,
		"log.Print":               noop,
		"log.Panicf":              panics,
		"log.Panic":               panics,
		"log.Panicln":             panics,
		"log.Fatal":               panics,
		"log.Fatalf":              panics,
		"time.Now":                opaqueOf("time"),
		"time.Since":              func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("dur", SInt) },
		"(time.Time).Sub":         func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("dur", SInt) },
		"(time.Time).UnixNano":    func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("dur", SInt) },
		"(time.Duration).Seconds": func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("dur", SReal) },
		"runtime.NumCPU": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			v := mkVar("NumCPU", SInt)
			st.pc = mkAnd(st.pc, mkLe(mkInt(1), v))
			return v
		},
		"runtime.GOMAXPROCS": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			v := mkVar("GOMAXPROCS", SInt)
			st.pc = mkAnd(st.pc, mkLe(mkInt(1), v))
			return v
		},
		"(*sync.Mutex).Lock": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			ex.lockDepth++
			ex.lockUsed = true
			return nil
		},
		"(*sync.Mutex).Unlock":    func(ex *Exec, st *State, a []Value, pos token.Pos) Value { ex.lockDepth--; return nil },
		"(*sync.RWMutex).Lock":    noop,
		"(*sync.RWMutex).Unlock":  noop,
		"(*sync.RWMutex).RLock":   noop,
		"(*sync.RWMutex).RUnlock": noop,
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done":  func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return wgDone(ex, st, a, pos) },
		"(*sync.WaitGroup).Wait":  wgWait,

		"(*" + matP + ".Dense).RawMatrix": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return ex.load(st, fieldPtr(ex, st, a[0], pos, 0), pos)
		},
		"(*" + matP + ".Dense).SetRawMatrix": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			raw := a[1].(*StructV)
			ex.store(st, a[0], &StructV{[]Value{raw, raw.f[0], raw.f[1]}}, pos)
			return nil
		},
		"(*" + matP + ".VecDense).RawVector": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return ex.load(st, fieldPtr(ex, st, a[0], pos, 0), pos)
		},
		modelsPath + ".rawDiag": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return ex.load(st, fieldPtr(ex, st, a[0], pos, 0), pos)
		},
		modelsPath + ".setDiag": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			ex.store(st, a[0], &StructV{[]Value{a[1]}}, pos)
			return nil
		},
		modelsPath + ".setVec": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			ex.store(st, a[0], &StructV{[]Value{a[1]}}, pos)
			return nil
		},
		"(*" + matP + ".SymDense).RawSymmetric": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return ex.load(st, fieldPtr(ex, st, a[0], pos, 0), pos)
		},
		"(*" + matP + ".TriDense).RawTriangular": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			return ex.load(st, fieldPtr(ex, st, a[0], pos, 0), pos)
		},
		"(*" + matP + ".SymDense).SetRawSymmetric": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			raw := a[1].(*StructV)
			ex.store(st, a[0], &StructV{[]Value{raw, raw.f[1]}}, pos)
			return nil
		},
		modelsPath + ".sortFloats": sortFloats,
		"strings.ToLower":          strFn1(strings.ToLower),
		"strings.ToUpper":          strFn1(strings.ToUpper),
		"strings.TrimSpace":        strFn1(strings.TrimSpace),
		"strings.Contains":         strPred(strings.Contains),
		"strings.HasPrefix":        strPred(strings.HasPrefix),
		"strings.HasSuffix":        strPred(strings.HasSuffix),
		"strings.EqualFold":        strPred(strings.EqualFold),
		"sort.Slice":               sortSlice,
		"sort.SliceStable":         sortSlice,
		modelsPath + ".randReal":   func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("rnd", SReal) },
		modelsPath + ".randInt": func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			v := ex.freshAt("rndi", SInt)
			st.pc = mkAnd(st.pc, mkLe(mkInt(0), v), mkLt(v, tm(a[0])))
			return v
		},
		modelsPath + ".uf":             func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.uf(st, a, SReal) },
		modelsPath + ".opaqueErr":      opaqueOf("error"),
		modelsPath + ".havocReal":      func(ex *Exec, st *State, a []Value, pos token.Pos) Value { return ex.freshAt("hv", SReal) },
		modelsPath + ".assume":         func(ex *Exec, st *State, a []Value, pos token.Pos) Value { st.pc = mkAnd(st.pc, tm(a[0])); return nil },
		repoPath + "/base.Parallelize": parallelize,
	}
	opaqueMethods = map[string]func(ex *Exec, st *State, args []Value) Value{}
}

func mkIteRawC(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	return mkIteRaw(c, a, b)
}

func panics(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	ex.oblige(st, "panic", "explicit panic unreachable", ex.posStr(pos), tFalse)
	panic(deadPath{})
}

func fieldPtr(ex *Exec, st *State, v Value, pos token.Pos, f int) Value {
	fr := &Frame{ex: ex, fn: ex.fnStack[len(ex.fnStack)-1]}
	return fr.fieldAddr(st, v, f, pos)
}

// uf: uninterpreted function of name and arguments (scalars, slices, matrices by content)
func (ex *Exec) uf(st *State, a []Value, s Sort) *Term {
	name := tm(a[0])
	var ts []*Term
	sl, ok := a[1].(*SliceV)
	if !ok {
		unsup("uf arguments")
	}
	n, ok := sl.len.int64()
	if !ok {
		unsup("uf argument count")
	}
	for i := int64(0); i < n; i++ {
		e := ex.sliceElem(st, sl, mkInt(i), nil)
		ts = append(ts, ex.fingerprint(st, e)...)
	}
	nm := "uf:"
	if name.op == OStr {
		nm += name.name
	} else {
		ts = append([]*Term{name}, ts...)
	}
	return mkApp(nm, s, ts...)
}

// fingerprint flattens a value into terms determining its content.
func (ex *Exec) fingerprint(st *State, v Value) []*Term {
	v = ex.resolve(st, v)
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *IfaceV:
		if x.typ == nil {
			return []*Term{mkStr("nil")}
		}
		if isMatPtr(x.typ) {
			p, ok := ex.resolve(st, x.val).(*PtrV)
			if ok && p.loc != nil {
				raw := getPath(ex.readContent(st, ex.content(st, p.loc), p.key), append(append([]int(nil), p.path...), 0)).(*StructV)
				r, c, d, s := raw.f[0].(*Term), raw.f[1].(*Term), raw.f[2], raw.f[3].(*Term)
				i, j := mkVar("fpi", SInt), mkVar("fpj", SInt)
				rng := mkAnd(mkLe(mkInt(0), i), mkLt(i, r), mkLe(mkInt(0), j), mkLt(j, c))
				s2 := &State{st.base, mkAnd(st.pc, rng), st.mem}
				e := ex.sliceElem(s2, ex.resolve(st, d), mkAdd(mkMul(i, s), j), nil)
				et, ok := e.(*Term)
				if !ok {
					unsup("fingerprint of %s", vstr(e))
				}
				et = s2.ctx().simp(et)
				if r == mkInt(1) {
					et = substVar(et, i, mkInt(0))
				}
				if c == mkInt(1) {
					et = substVar(et, j, mkInt(0))
				}
				return []*Term{r, c, mkBind("lam2", SReal, []*Term{i, j}, []*Term{r, c}, []*Term{et})}
			}
		}
		return ex.fingerprint(st, x.val)
	case *SliceV:
		if x.loc == nil {
			return []*Term{mkInt(0)}
		}
		i := mkVar("fpi", SInt)
		s2 := &State{st.base, mkAnd(st.pc, mkLe(mkInt(0), i), mkLt(i, x.len)), st.mem}
		e := ex.sliceElem(s2, x, i, nil)
		et, ok := e.(*Term)
		if !ok {
			unsup("fingerprint of %s", vstr(e))
		}
		et = s2.ctx().simp(et)
		return []*Term{x.len, mkBind("lam1", SReal, []*Term{i}, []*Term{x.len}, []*Term{et})}
	case *PtrV:
		if x.loc == nil {
			return []*Term{mkStr("nil")}
		}
	}
	unsup("fingerprint of %s", vstr(v))
	return nil
}

func isMatPtr(t types.Type) bool {
	return t.String() == "*"+matP+".Dense"
}

// ---- sorting

// sortFloats(x []float64): ascending sort in place
func sortFloats(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	s, ok := ex.resolve(st, a[0]).(*SliceV)
	if !ok {
		unsup("sort of %s", vstr(a[0]))
	}
	if s.loc == nil {
		return nil
	}
	v := mkVar("sv", SInt)
	s2 := &State{st.base, mkAnd(st.pc, mkLe(mkInt(0), v), mkLt(v, s.len)), st.mem}
	e := s2.ctx().simp(tm(ex.sliceElem(s2, s, v, s.loc.elem)))
	ct := ex.content(st, s.loc)
	k := ct.vars[len(ct.vars)-1]
	g, rel := ex.rangeGuard(st, k, s.off, s.len)
	for i := range s.key {
		g = mkAnd(g, mkEq(ct.vars[i], s.key[i]))
	}
	nv := mkBind("sort", e.sort, []*Term{v}, []*Term{s.len, rel}, []*Term{e})
	ex.gorWrite(st, s.loc)
	st.mem[s.loc] = &Content{ct.vars, iteValue(g, Value(nv), ct.body)}
	return nil
}

// argsort is the k-th position in the order less(a,b) on [0,n).
func mkArgsort(a, b, n, k, less *Term) *Term {
	return mkBind("argsort", SInt, []*Term{a, b}, []*Term{n, k}, []*Term{less})
}

// keyOfLess: less(a,b) is f(a)<f(b); the result is f(v), or nil.
func keyOfLess(less, a, b, v *Term) *Term {
	if less.op != OLt0 {
		return nil
	}
	pa, pb, ok := splitVars(less.args[0], a, b)
	if !ok {
		return nil
	}
	fa, fb := substVar(pa, a, v), mkNeg(substVar(pb, b, v))
	if fa != fb {
		return nil
	}
	return fa
}

// sortSlice models sort.Slice and sort.SliceStable: the content is permuted by a function of the length and of the
// outcomes of less on the original positions. less must be a strict weak order (an obligation).
func sortSlice(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	v := ex.resolve(st, a[0])
	if i, ok := v.(*IfaceV); ok {
		v = ex.resolve(st, i.val)
	}
	s, ok := v.(*SliceV)
	if !ok {
		unsup("sort of %s", vstr(a[0]))
	}
	if s.loc == nil {
		return nil
	}
	i, j := ex.qvar("si"), ex.qvar("sj")
	L := ex.atN(st, a[1], pos, mkAnd(rng(i, s.len), rng(j, s.len)), i, j)
	if L == nil {
		return nil
	}
	if keyOfLess(L, i, j, fresh("kv", SInt)) == nil {
		x, y, z := fresh("wo", SInt), fresh("wo", SInt), fresh("wo", SInt)
		at := func(p, q *Term) *Term { return subst(L, i, p, j, q) }
		in := mkAnd(rng(x, s.len), rng(y, s.len), rng(z, s.len))
		ex.oblige(st, "sort", "the order is irreflexive and transitive", ex.posStr(pos), mkImp(in, mkAnd(mkNot(at(x, x)),
			mkImp(mkAnd(at(x, y), at(y, z)), at(x, z)), mkImp(at(x, z), mkOr(at(x, y), at(y, z))))))
	}
	ct := ex.content(st, s.loc)
	k := ct.vars[len(ct.vars)-1]
	g, rel := ex.rangeGuard(st, k, s.off, s.len)
	for i := range s.key {
		g = mkAnd(g, mkEq(ct.vars[i], s.key[i]))
	}
	w := fresh("sk", SInt)
	s2 := &State{st.base, mkAnd(st.pc, rng(w, s.len)), st.mem}
	e := ex.sliceElem(s2, s, w, s.loc.elem)
	nv := (&VSub{s: newSubst(map[*Term]*Term{w: mkArgsort(i, j, s.len, rel, L)})}).v(e)
	ex.gorWrite(st, s.loc)
	st.mem[s.loc] = &Content{ct.vars, iteValue(g, nv, ct.body)}
	return nil
}

// ---- goroutines (used when the body of a goroutine-spawning function is verified)

type gorState struct {
	reads, writes map[*Loc]bool
	inGor         int
	done          bool
	pre           map[*Loc]bool
	pending       bool
}

func (ex *Exec) gorRead(l *Loc) {
	if ex.gor == nil {
		return
	}
	if ex.gor.inGor > 0 && ex.gor.pre[l] {
		ex.gor.reads[l] = true
	}
}

func (ex *Exec) gorWrite(st *State, l *Loc) {
	if ex.gor == nil || l.name == "wgcount" || l.name == "chan" {
		return
	}
	g := ex.gor
	if g.inGor > 0 {
		if g.pre[l] {
			g.writes[l] = true
			if g.done {
				ex.oblige(st, "race", "goroutine writes after signalling completion", "", tFalse)
			}
		}
		return
	}
	if g.pending && (g.reads[l] || g.writes[l]) {
		ex.oblige(st, "race", "variable shared with a running goroutine is not modified before the join", "", tFalse)
	}
}

func (ex *Exec) gorFresh(l *Loc) {
	if ex.gor != nil {
		delete(ex.gor.reads, l)
		delete(ex.gor.writes, l)
	}
}

func (ex *Exec) goCall(st *State, fr *Frame, fv Value, args []Value, c *ssa.CallCommon, pos token.Pos) {
	if ex.gor == nil {
		ex.gor = &gorState{reads: map[*Loc]bool{}, writes: map[*Loc]bool{}}
	}
	g := ex.gor
	if g.inGor > 0 {
		unsup("nested goroutines")
	}
	g.inGor++
	g.done = false
	g.pre = map[*Loc]bool{}
	for l := range st.mem {
		g.pre[l] = true
	}
	ex.callValue(st, fv, args, c, fr, pos)
	ex.oblige(st, "race", "every goroutine signals completion", ex.posStr(pos), mkBool(g.done))
	g.inGor--
	g.pending = true
}

func (ex *Exec) wgLoc(st *State, v Value) *Loc {
	p, ok := ex.resolve(st, v).(*PtrV)
	if !ok || p.loc == nil || len(p.key) > 0 {
		unsup("wait group %s", vstr(v))
	}
	l := ex.siteLoc(nil, fmt.Sprintf("wg%d%v", p.loc.id, p.path), "wgcount", types.Typ[types.Int], false)
	if _, ok := st.mem[l]; !ok {
		st.mem[l] = &Content{nil, mkInt(0)}
	}
	return l
}

func wgAdd(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	l := ex.wgLoc(st, a[0])
	if ex.gor != nil && ex.gor.inGor > 0 {
		ex.oblige(st, "race", "WaitGroup.Add happens before the goroutine starts", ex.posStr(pos), tFalse)
	}
	st.mem[l] = &Content{nil, mkAdd(st.mem[l].body.(*Term), tm(a[1]))}
	return nil
}

func wgDone(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	l := ex.wgLoc(st, a[0])
	cur := st.mem[l].body.(*Term)
	ex.oblige(st, "race", "WaitGroup counter covers this goroutine", ex.posStr(pos), mkLe(mkInt(1), cur))
	st.mem[l] = &Content{nil, mkSub(cur, mkInt(1))}
	if ex.gor != nil && ex.gor.inGor > 0 {
		ex.gor.done = true
	}
	return nil
}

func wgWait(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	l := ex.wgLoc(st, a[0])
	ex.oblige(st, "race", "WaitGroup reaches zero (no deadlock)", ex.posStr(pos), mkEq(st.mem[l].body.(*Term), mkInt(0)))
	if ex.gor != nil {
		if ex.gor.inGor > 0 {
			unsup("Wait inside goroutine")
		}
		ex.gor.pending = false
	}
	return nil
}

// ---- base.Parallelize by contract

// parallelize applies the contract of base.Parallelize: f is run on a partition of [0,n) into
// contiguous chunks, concurrently. The caller must show that running f chunk by chunk equals running
// it once on [0,n), and that two chunks touch disjoint cells.
func parallelize(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	n := tm(a[1])
	f := a[2]
	callF := func(s *State, th, lo, hi *Term, tag string) {
		ex.stack = append(ex.stack, "par"+tag)
		defer func() { ex.stack = ex.stack[:len(ex.stack)-1] }()
		ex.callValue(s, f, []Value{th, lo, hi}, nil, nil, pos)
	}
	if ex.quiet == 0 {
		ex.parChecks++
		nm := fmt.Sprintf("par%d", ex.parChecks)
		th, th2 := mkVar(nm+".t1", SInt), mkVar(nm+".t2", SInt)
		p, q, r, t := mkVar(nm+".a", SInt), mkVar(nm+".b", SInt), mkVar(nm+".c", SInt), mkVar(nm+".d", SInt)
		z := mkInt(0)
		base := st.ctx().withAll(mkLe(z, p), mkLe(p, q), mkLe(q, r), mkLe(r, t), mkLe(t, n), mkLe(z, th), mkLt(th, th2))
		run := func(quiet bool, tag string, steps ...[3]*Term) (res *State) {
			s := &State{base, tTrue, st.mem.clone()}
			if quiet {
				ex.quiet++
				defer func() { ex.quiet-- }()
			}
			for i, x := range steps {
				callF(s, x[0], x[1], x[2], fmt.Sprint(tag, i))
			}
			return s
		}
		// obligations of an arbitrary chunk
		s1 := run(false, "A", [3]*Term{th, p, q})
		s2 := run(true, "B", [3]*Term{th2, r, t})
		s12 := run(true, "C", [3]*Term{th, p, q}, [3]*Term{th2, r, t})
		// locations existing before
		var ls []*Loc
		for l := range st.mem {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, l := range ls {
			o, c1, c2, c12 := st.mem[l], s1.mem[l], s2.mem[l], s12.mem[l]
			if c1 == o && c2 == o {
				continue
			}
			ex.raceCheck(&State{base, tTrue, st.mem}, l, o.body, c1.body, c2.body, c12.body, pos)
		}
		// splitting: f(p,q);f(q,r) == f(p,r)
		sA := run(true, "D", [3]*Term{th, p, q}, [3]*Term{th2, q, r})
		sB := run(true, "E", [3]*Term{th, p, r})
		for _, l := range ls {
			if sA.mem[l] == sB.mem[l] {
				continue
			}
			if sameValue(sA.mem[l].body, sB.mem[l].body) {
				continue
			}
			g := ex.bodyEq(sA, sB, sA.mem[l].body, sB.mem[l].body)
			if j := base.joinRanges(base.simp(g)); base.simp(j) == tTrue {
				g = tTrue
			}
			ex.oblige(&State{base, tTrue, st.mem}, "parallel", "work split over chunks equals the whole ("+l.name+")", ex.posStr(pos), g)
		}
	}
	callF(st, mkInt(0), mkInt(0), n, "F")
	return nil
}

// bodyEq: equality of two contents (references are compared structurally, fresh allocations by content)
func (ex *Exec) bodyEq(s1, s2 *State, a, b Value) *Term {
	if sameValue(a, b) {
		return tTrue
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return mkEq(x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			g := tTrue
			for i := range x.f {
				g = mkAnd(g, ex.bodyEq(s1, s2, x.f[i], y.f[i]))
			}
			return g
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.loc == nil || y.loc == nil {
				return mkAnd(mkEq(x.len, y.len), mkEq(x.len, mkInt(0)))
			}
			k := mkVar("be", SInt)
			return mkAnd(mkEq(x.len, y.len), mkForall(k, x.len, ex.bodyEq(s1, s2, ex.sliceElem(s1, x, k, nil), ex.sliceElem(s2, y, k, nil))))
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.loc != nil && y.loc != nil {
			return ex.bodyEq(s1, s2, getPath(ex.readContent(s1, ex.content(s1, x.loc), x.key), x.path), getPath(ex.readContent(s2, ex.content(s2, y.loc), y.key), y.path))
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return ex.bodyEq(s1, s2, x.val, y.val)
		}
	case *UnionV:
		g := tTrue
		for _, al := range x.alts {
			g = mkAnd(g, mkImp(al.g, ex.bodyEq(s1, s2, al.v, b)))
		}
		return g
	case *OpaqueV:
		return tTrue
	}
	if y, ok := b.(*UnionV); ok {
		g := tTrue
		for _, al := range y.alts {
			g = mkAnd(g, mkImp(al.g, ex.bodyEq(s1, s2, a, al.v)))
		}
		return g
	}
	unsup("compare %s with %s", vstr(a), vstr(b))
	return nil
}

// raceCheck: a cell changed by chunk 1 is not changed by chunk 2, and chunk 2's effect does not depend on chunk 1's.
func (ex *Exec) raceCheck(st *State, l *Loc, o, c1, c2, c12 Value, pos token.Pos) {
	diff := func(a, b Value) *Term {
		if sameValue(a, b) {
			return tFalse
		}
		switch x := a.(type) {
		case *Term:
			if y, ok := b.(*Term); ok {
				return mkNot(mkEq(x, y))
			}
		case *UnionV:
			return nil
		}
		return nil
	}
	switch x := o.(type) {
	case *StructV:
		y1, ok1 := c1.(*StructV)
		y2, ok2 := c2.(*StructV)
		y12, ok12 := c12.(*StructV)
		if ok1 && ok2 && ok12 {
			for i := range x.f {
				ex.raceCheck(st, l, x.f[i], y1.f[i], y2.f[i], y12.f[i], pos)
			}
			return
		}
	}
	d1, d2 := diff(o, c1), diff(o, c2)
	if d1 == nil || d2 == nil {
		d1, d2 = guardOf(o, c1), guardOf(o, c2)
	}
	if d1 == tFalse || d2 == tFalse {
		return
	}
	if ot, ok := o.(*Term); ok && ex.lockUsed {
		// additive update under a lock commutes
		if t1, ok := c1.(*Term); ok {
			if dt := mkSub(t1, ot); !dt.hasSym(l.name) {
				return
			}
		}
	}
	ex.oblige(st, "race", "concurrent chunks write disjoint cells of "+l.name, ex.posStr(pos), mkNot(mkAnd(d1, d2)))
	// value written by chunk 2 must not depend on chunk 1
	if t2, ok := c2.(*Term); ok {
		if t12, ok := c12.(*Term); ok && t2 != t12 {
			ex.oblige(st, "race", "concurrent chunks do not read each other's cells ("+l.name+")", ex.posStr(pos), mkOr(mkNot(d2), mkEq(t2, t12)))
		}
	}
}

// guardOf: condition under which a reference cell was overwritten
func guardOf(o, c Value) *Term {
	if sameValue(o, c) {
		return tFalse
	}
	if u, ok := c.(*UnionV); ok {
		g := tFalse
		for _, a := range u.alts {
			if !sameValue(a.v, o) {
				g = mkOr(g, a.g)
			}
		}
		return g
	}
	return tTrue
}

func trimRepo(s string) string { return strings.ReplaceAll(s, repoPath+"/", "") }

// functions of constant strings are evaluated
func strFn1(f func(string) string) func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	return func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
		return mkStr(f(strArg(ex.resolve(st, a[0]))))
	}
}

func strPred(f func(a, b string) bool) func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	return func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
		if f(strArg(ex.resolve(st, a[0])), strArg(ex.resolve(st, a[1]))) {
			return tTrue
		}
		return tFalse
	}
}
