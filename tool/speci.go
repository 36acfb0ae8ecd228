package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type specFn func(ex *Exec, st *State, args []Value, fn *ssa.Function, pos token.Pos) Value

var specIntrinsics map[string]specFn

func strArg(v Value) string {
	t := tm(v)
	if t.op != OStr {
		unsup("spec name must be constant")
	}
	return t.name
}

func (ex *Exec) inputName(n string) string {
	// calls in loops are not allowed to create inputs; repeated names share the symbol
	return n
}

func (ex *Exec) assume(st *State, ts ...*Term) { st.pc = mkAnd(append([]*Term{st.pc}, ts...)...) }

// inputMatrix allocates an arbitrary matrix view.
func (ex *Exec) inputMatrix(st *State, name string, r, c *Term, elem func(i, j *Term) *Term, fn *ssa.Function) Value {
	s := mkVar(name+".stride", SInt)
	one := mkInt(1)
	ex.assume(st, mkLe(one, r), mkLe(one, c), mkLe(c, s))
	l := ex.siteLoc(st, "in:"+name, name, types.Typ[types.Float64], true)
	l.input = true
	k := mkVar("k!"+name, SInt)
	n := mkAdd(mkMul(mkSub(r, one), s), c)
	st.mem[l] = &Content{[]*Term{k}, elem(mkFDiv(k, s), mkFMod(k, s))}
	sl := &SliceV{loc: l, off: mkInt(0), len: n, cap: n}
	raw := &StructV{[]Value{r, c, sl, s}}
	dt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	cl := ex.siteLoc(st, "in*:"+name, name+".hdr", dt, false)
	st.mem[cl] = &Content{nil, &StructV{[]Value{raw, r, c}}}
	return &PtrV{loc: cl}
}

func (ex *Exec) inputSlice(st *State, name string, n *Term, et types.Type, elem func(k *Term) Value) Value {
	ex.assume(st, mkLe(mkInt(0), n))
	l := ex.siteLoc(st, "in:"+name, name, et, true)
	l.input = true
	k := mkVar("k!"+name, SInt)
	st.mem[l] = &Content{[]*Term{k}, elem(k)}
	return &SliceV{loc: l, off: mkInt(0), len: n, cap: n}
}

// at evaluates closure f at arguments vs under extra facts, without side effects.
func (ex *Exec) at(st *State, f Value, pos token.Pos, facts *Term, vs ...*Term) *Term {
	s := &State{st.ctx().with(facts), tTrue, st.mem.clone()}
	if s.base.inconsistent() {
		return nil
	}
	ex.quiet++
	defer func() { ex.quiet-- }()
	ex.loopVars = append(ex.loopVars, vs...)
	defer func() { ex.loopVars = ex.loopVars[:len(ex.loopVars)-len(vs)] }()
	var as []Value
	for _, v := range vs {
		as = append(as, v)
	}
	return s.ctx().simp(tm(ex.callValue(s, f, as, nil, nil, pos)))
}

func rng(v, n *Term) *Term { return mkAnd(mkLe(mkInt(0), v), mkLt(v, n)) }

func (ex *Exec) qvar(tag string) *Term { return mkVar("q"+tag+"@"+ex.siteKey(), SInt) }

// overRange evaluates f at a bound variable in [0,n).
func (ex *Exec) overRange(st *State, nv, f Value, pos token.Pos) (v, n, body *Term) {
	n = tm(nv)
	v = ex.qvar("")
	return v, n, ex.at(st, f, pos, rng(v, n), v)
}

func init() {
	str := func(s Sort) specFn {
		return func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return mkVar(strArg(a[0]), s)
		}
	}
	specIntrinsics = map[string]specFn{
		"Int":   str(SInt),
		"Float": str(SReal),
		"Bool":  str(SBool),
		"Nat": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v := mkVar(strArg(a[0]), SInt)
			ex.assume(st, mkLe(tm(a[1]), v))
			return v
		},
		"IntIn": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v := mkVar(strArg(a[0]), SInt)
			ex.assume(st, mkLe(tm(a[1]), v), mkLe(v, tm(a[2])))
			return v
		},
		"Choose": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			n, ok := tm(a[1]).int64()
			if !ok {
				unsup("Choose bound")
			}
			if ex.pathPos == len(ex.pathSel) {
				ex.pathSel = append(ex.pathSel, 0)
				ex.pathMax = append(ex.pathMax, int(n))
			}
			v := ex.pathSel[ex.pathPos]
			ex.pathPos++
			return mkInt(int64(v))
		},
		"Matrix": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			return ex.inputMatrix(st, nm, tm(a[1]), tm(a[2]), func(i, j *Term) *Term { return mkApp(nm, SReal, i, j) }, fn)
		},
		"MatrixNaN": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			ex.nanSyms[nm] = true
			return ex.inputMatrix(st, nm, tm(a[1]), tm(a[2]), func(i, j *Term) *Term { return mkApp(nm, SReal, i, j) }, fn)
		},
		"LabelMatrix": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			r, c, k := tm(a[1]), tm(a[2]), tm(a[3])
			i, j := mkVar("li", SInt), mkVar("lj", SInt)
			p := ex.inputMatrix(st, nm, r, c, func(i, j *Term) *Term { return mkToReal(mkApp(nm, SInt, i, j)) }, fn)
			ex.assume(st, mkLe(mkInt(1), k), mkForall(i, r, mkForall(j, c, rng(mkApp(nm, SInt, i, j), k))))
			return p
		},
		"MatrixIn": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			r, c := tm(a[1]), tm(a[2])
			i, j := mkVar("li", SInt), mkVar("lj", SInt)
			e := mkApp(nm, SReal, i, j)
			p := ex.inputMatrix(st, nm, r, c, func(i, j *Term) *Term { return mkApp(nm, SReal, i, j) }, fn)
			ex.assume(st, mkForall(i, r, mkForall(j, c, mkAnd(mkLe(tm(a[3]), e), mkLe(e, tm(a[4]))))))
			return p
		},
		"Floats": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			return ex.inputSlice(st, nm, tm(a[1]), types.Typ[types.Float64], func(k *Term) Value { return mkApp(nm, SReal, k) })
		},
		"FloatsIn": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			n := tm(a[1])
			v := ex.inputSlice(st, nm, n, types.Typ[types.Float64], func(k *Term) Value { return mkApp(nm, SReal, k) })
			i := mkVar("li", SInt)
			e := mkApp(nm, SReal, i)
			ex.assume(st, mkForall(i, n, mkAnd(mkLe(tm(a[2]), e), mkLe(e, tm(a[3])))))
			return v
		},
		"SortedFloats": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			n := tm(a[1])
			v := ex.inputSlice(st, nm, n, types.Typ[types.Float64], func(k *Term) Value { return mkApp(nm, SReal, k) })
			i, j := mkVar("li", SInt), mkVar("lj", SInt)
			ex.assume(st, mkForall(i, n, mkForall(j, n, mkImp(mkLe(i, j), mkLe(mkApp(nm, SReal, i), mkApp(nm, SReal, j))))))
			return v
		},
		"IntsIn": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			nm := strArg(a[0])
			n := tm(a[1])
			v := ex.inputSlice(st, nm, n, types.Typ[types.Int], func(k *Term) Value { return mkApp(nm, SInt, k) })
			i := mkVar("li", SInt)
			e := mkApp(nm, SInt, i)
			ex.assume(st, mkForall(i, n, mkAnd(mkLe(tm(a[2]), e), mkLe(e, tm(a[3])))))
			return v
		},
		"Assume": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			ex.assume(st, st.ctx().simp(tm(a[0])))
			return nil
		},
		"Symbolic":        func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value { return tTrue },
		"WellConditioned": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value { return tTrue },
		"Regular": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value { return nil },
		"Assert": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			ex.asserts++
			ex.oblige(st, "ensures", strArg(a[0]), ex.posStr(pos), tm(a[1]))
			return nil
		},
		"Lemma": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			ex.asserts++
			ex.oblige(st, "ensures", strArg(a[0]), ex.posStr(pos), tm(a[1]))
			ex.assume(st, tm(a[1]))
			return nil
		},
		"Eq": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return mkEq(tm(a[0]), tm(a[1]))
		},
		"Le": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return mkLe(tm(a[0]), tm(a[1]))
		},
		"Implies": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return mkImp(tm(a[0]), tm(a[1]))
		},
		"Sum": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[1], pos)
			if b == nil {
				return mkNum(SReal, 0)
			}
			return mkSum(v, n, b)
		},
		"Count": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[1], pos)
			if b == nil {
				return mkInt(0)
			}
			return mkSum(v, n, mkInd(b, SInt))
		},
		"Forall": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[1], pos)
			if b == nil {
				return tTrue
			}
			return mkForall(v, n, b)
		},
		"Forall2": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			n, m := tm(a[0]), tm(a[1])
			v, w := ex.qvar("i"), ex.qvar("j")
			b := ex.at(st, a[2], pos, mkAnd(rng(v, n), rng(w, m)), v, w)
			if b == nil {
				return tTrue
			}
			return mkForall(v, n, mkForall(w, m, b))
		},
		"Exists": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[1], pos)
			if b == nil {
				return tFalse
			}
			return mkExists(v, n, b)
		},
		"First": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[1], pos)
			if b == nil {
				return max0(n)
			}
			return mkFirst(v, n, b)
		},
		"Sorted": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v, n, b := ex.overRange(st, a[0], a[2], pos)
			if b == nil {
				return mkNum(SReal, 0)
			}
			return mkBind("sort", b.sort, []*Term{v}, []*Term{n, tm(a[1])}, []*Term{b})
		},
		"Max": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return ex.specMM(OMax, st, a, pos)
		},
		"Min": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return ex.specMM(OMin, st, a, pos)
		},
		"UF": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return ex.uf(st, a, SReal)
		},
		"UFInt": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			t := ex.uf(st, []Value{a[0], a[2]}, SInt)
			ex.assume(st, rng(t, tm(a[1])))
			return t
		},
		"Rand": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return ex.freshAt("rnd", SReal)
		},
		"Freeze": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			sl := a[0].(*SliceV)
			n, _ := sl.len.int64()
			sn := &snapshot{mem: st.mem.clone(), base: st.base, pc: st.pc}
			for i := int64(0); i < n; i++ {
				sn.vals = append(sn.vals, ex.sliceElem(st, sl, mkInt(i), nil))
			}
			return &OpaqueV{why: "snapshot", data: sn}
		},
		"Unchanged": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			sn := a[0].(*OpaqueV).data.(*snapshot)
			g := tTrue
			seen := map[string]bool{}
			for _, v := range sn.vals {
				g = mkAnd(g, ex.unchanged(&State{sn.base, sn.pc, sn.mem}, st, v, seen))
			}
			return g
		},
		"Disjoint": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			la, lb := map[*Loc]bool{}, map[*Loc]bool{}
			ex.reach(st, a[0], la)
			ex.reach(st, a[1], lb)
			for l := range la {
				if lb[l] {
					return tFalse
				}
			}
			return tTrue
		},
		"UseSpec": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			delete(ex.useBody, strArg(a[0]))
			return nil
		},
		"UseBody": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			ex.useBody[strArg(a[0])] = true
			return nil
		},
		"UseContract": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v := ex.resolve(st, a[1])
			if i, ok := v.(*IfaceV); ok {
				v = i.val
			}
			f, ok := v.(*FuncV)
			if !ok {
				unsup("UseContract of %s", vstr(v))
			}
			ex.subst[strArg(a[0])] = f
			return nil
		},
		"OnSend": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			v := ex.resolve(st, a[0])
			if i, ok := v.(*IfaceV); ok {
				v = i.val
			}
			ex.onSend = v
			return nil
		},
		"Received": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			c := ex.chanState(st, a[0])
			ex.oblige(st, "channel", "the channel is closed when all values are sent", ex.posStr(pos), tm(c.f[2]))
			return c.f[0]
		},
		"Feed": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			f := ex.resolve(st, a[2])
			if i, ok := f.(*IfaceV); ok {
				f = i.val
			}
			ex.feeds[ex.chanLoc(st, a[0])] = feed{tm(a[1]), f}
			return nil
		},
		"B2F": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			return mkInd(tm(a[0]), SReal)
		},
		"SumNonneg": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value {
			k, n := tm(a[1]), tm(a[2])
			v, w := ex.qvar("i"), ex.qvar("j")
			b := ex.at(st, a[3], pos, mkAnd(rng(v, k), rng(w, n)), v, w)
			if b == nil {
				return nil
			}
			ex.asserts++
			ex.oblige(st, "ensures", strArg(a[0]), ex.posStr(pos), mkForall(v, k, mkForall(w, n, mkLe(mkNum(SReal, 0), b))))
			ex.assume(st, mkForall(v, k, mkLe(mkNum(SReal, 0), mkSum(w, n, b))))
			return nil
		},
		"IsNaN": func(ex *Exec, st *State, a []Value, fn *ssa.Function, pos token.Pos) Value { return ex.isNaN(tm(a[0])) },
	}
}

func (ex *Exec) specMM(op Op, st *State, a []Value, pos token.Pos) Value {
	v, n, b := ex.overRange(st, a[0], a[1], pos)
	if b == nil {
		return mkNum(SReal, 0)
	}
	i := mkNeg(tInf)
	if op == OMin {
		i = tInf
	}
	return mkFoldMM(op, v, n, i, b)
}

type snapshot struct {
	vals []Value
	mem  Mem
	base *Ctx
	pc   *Term
}

// unchanged: everything reachable from v in state s0 has the same content in s1.
func (ex *Exec) unchanged(s0, s1 *State, v Value, seen map[string]bool) *Term {
	v = ex.resolve(s0, v)
	switch x := v.(type) {
	case *PtrV:
		if x.loc == nil {
			return tTrue
		}
		k := vstr(x)
		if seen[k] {
			return tTrue
		}
		seen[k] = true
		a := getPath(ex.readContent(s0, ex.content(s0, x.loc), x.key), x.path)
		b := getPath(ex.readContent(s1, ex.content(s1, x.loc), x.key), x.path)
		return mkAnd(ex.unchangedV(s0, s1, a, b, seen))
	case *SliceV:
		if x.loc == nil {
			return tTrue
		}
		k := vstr(x)
		if seen[k] {
			return tTrue
		}
		seen[k] = true
		c0, c1 := ex.content(s0, x.loc), ex.content(s1, x.loc)
		i := mkVar("un@"+x.loc.name, SInt)
		g := tTrue
		facts := rng(i, x.cap)
		e0 := ex.sliceElem(&State{s0.base, mkAnd(s0.pc, facts), s0.mem}, x, i, x.loc.elem)
		if c0 != c1 {
			e1 := ex.sliceElem(&State{s1.base, mkAnd(s1.pc, facts), s1.mem}, x, i, x.loc.elem)
			g = mkForall(i, x.cap, ex.unchangedV(s0, s1, e0, e1, seen))
		} else if _, ok := e0.(*Term); !ok {
			g = mkForall(i, x.cap, ex.unchangedV(s0, s1, e0, e0, seen))
		}
		return g
	case *IfaceV:
		if x.typ == nil {
			return tTrue
		}
		return ex.unchanged(s0, s1, x.val, seen)
	case *StructV:
		g := tTrue
		for _, f := range x.f {
			g = mkAnd(g, ex.unchanged(s0, s1, f, seen))
		}
		return g
	case *UnionV:
		g := tTrue
		for _, al := range x.alts {
			g = mkAnd(g, mkImp(al.g, ex.unchanged(s0, s1, al.v, seen)))
		}
		return g
	case *MapV:
		if x.loc == nil {
			return tTrue
		}
		return mkBool(s0.mem[x.loc] == s1.mem[x.loc] || sameValue(s0.mem[x.loc].body, s1.mem[x.loc].body))
	}
	return tTrue
}

func (ex *Exec) unchangedV(s0, s1 *State, a, b Value, seen map[string]bool) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return mkEq(x, y)
		}
		return tFalse
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return tFalse
		}
		g := tTrue
		for i := range x.f {
			g = mkAnd(g, ex.unchangedV(s0, s1, x.f[i], y.f[i], seen))
		}
		return g
	}
	g := tTrue
	if !sameValue(a, b) {
		switch x := a.(type) {
		case *SliceV:
			y, ok := b.(*SliceV)
			if !ok || x.loc != y.loc {
				return tFalse
			}
			g = mkAnd(mkEq(x.off, y.off), mkEq(x.len, y.len))
		default:
			if _, ok := a.(*OpaqueV); !ok {
				return tFalse
			}
		}
	}
	return mkAnd(g, ex.unchanged(s0, s1, a, seen))
}

// reach collects mutable locations reachable from v.
func (ex *Exec) reach(st *State, v Value, out map[*Loc]bool) {
	switch x := v.(type) {
	case *PtrV:
		if x.loc != nil && !out[x.loc] {
			out[x.loc] = true
			ex.reach(st, ex.content(st, x.loc).body, out)
		}
	case *SliceV:
		if x.loc != nil && !out[x.loc] {
			if x.len.isZero() {
				return
			}
			out[x.loc] = true
			ex.reach(st, ex.content(st, x.loc).body, out)
		}
	case *MapV:
		if x.loc != nil {
			out[x.loc] = true
		}
	case *StructV:
		for _, f := range x.f {
			ex.reach(st, f, out)
		}
	case *IfaceV:
		if x.typ != nil {
			ex.reach(st, x.val, out)
		}
	case *UnionV:
		for _, a := range x.alts {
			ex.reach(st, a.v, out)
		}
	case *FuncV:
		for _, f := range x.binds {
			ex.reach(st, f, out)
		}
	}
}
