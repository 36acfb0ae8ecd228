package main

import (
	"go/token"
)

// atN is at, but obligations inside f are reported.
func (ex *Exec) atN(st *State, f Value, pos token.Pos, facts *Term, vs ...*Term) *Term {
	s := &State{st.ctx().with(facts), tTrue, st.mem.clone()}
	if s.base.inconsistent() {
		return nil
	}
	ex.loopVars = append(ex.loopVars, vs...)
	defer func() { ex.loopVars = ex.loopVars[:len(ex.loopVars)-len(vs)] }()
	var as []Value
	for _, v := range vs {
		as = append(as, v)
	}
	r := tm(ex.callValue(s, f, as, nil, nil, pos))
	return s.ctx().simp(r)
}

func (ex *Exec) rawOf(st *State, v Value, pos token.Pos) *StructV {
	r, ok := ex.resolve(st, ex.load(st, fieldPtr(ex, st, v, pos, 0), pos)).(*StructV)
	if !ok {
		unsup("raw header of %s", vstr(v))
	}
	return r
}

// storeFn writes body (a function of cell index k) into the cells of slice s satisfying g.
func (ex *Exec) storeFn(st *State, s *SliceV, g func(rel *Term) *Term, val func(rel *Term) *Term, whole bool) {
	ct := ex.content(st, s.loc)
	k := ct.vars[len(ct.vars)-1]
	rel := mkSub(k, s.off)
	v := val(rel)
	cond := tTrue
	if !whole {
		cond = g(rel)
	}
	for i := range s.key {
		cond = mkAnd(cond, mkEq(ct.vars[i], s.key[i]))
	}
	ex.gorWrite(st, s.loc)
	st.mem[s.loc] = &Content{ct.vars, iteValue(cond, Value(v), ct.body)}
}

func fillDense(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	v := ex.resolve(st, a[0])
	if u, ok := v.(*UnionV); ok {
		ex.branch(st, u.alts, func(s *State, x Value) Value { return fillDense(ex, s, []Value{x, a[1]}, pos) })
		return nil
	}
	raw := ex.rawOf(st, v, pos)
	d := ex.resolve(st, raw.f[2])
	if u, ok := d.(*UnionV); ok {
		ex.branch(st, u.alts, func(s *State, x Value) Value {
			return fillRaw(ex, s, &StructV{[]Value{raw.f[0], raw.f[1], x, raw.f[3]}}, a[1], pos)
		})
		return nil
	}
	return fillRaw(ex, st, raw, a[1], pos)
}

func fillRaw(ex *Exec, st *State, raw *StructV, f Value, pos token.Pos) Value {
	c := st.ctx()
	r, cc, stride := c.simp(tm(raw.f[0])), c.simp(tm(raw.f[1])), c.simp(tm(raw.f[3]))
	s, ok := raw.f[2].(*SliceV)
	if !ok {
		unsup("matrix data %s", vstr(raw.f[2]))
	}
	i, j := ex.qvar("fi"), ex.qvar("fj")
	e := ex.atN(st, f, pos, mkAnd(rng(i, r), rng(j, cc)), i, j)
	if e == nil || s.loc == nil {
		return nil
	}
	ex.oblige(st, "bounds", "matrix data covers its shape", ex.posStr(pos), mkAnd(mkLe(cc, stride), mkLe(mkAdd(mkMul(mkSub(r, mkInt(1)), stride), cc), s.len)))
	whole := stride == cc && s.off.isZero() && s.len == s.cap && s.len == mkMul(r, cc) && !s.loc.input && len(s.loc.name) >= 2 && (s.loc.name[:2] == "mk")
	di := func(rel *Term) (*Term, *Term) { return mkFDiv(rel, stride), mkFMod(rel, stride) }
	ex.storeFn(st, s, func(rel *Term) *Term {
		a, b := di(rel)
		return mkAnd(mkLe(mkInt(0), a), mkLt(a, r), mkLt(b, cc))
	}, func(rel *Term) *Term {
		a, b := di(rel)
		return subst(e, i, a, j, b)
	}, whole)
	return nil
}

func subst(t *Term, kv ...*Term) *Term {
	m := map[*Term]*Term{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return newSubst(m).apply(t)
}

func fillVec(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	v := ex.resolve(st, a[0])
	if u, ok := v.(*UnionV); ok {
		ex.branch(st, u.alts, func(s *State, x Value) Value { return fillVec(ex, s, []Value{x, a[1]}, pos) })
		return nil
	}
	raw := ex.rawOf(st, v, pos)
	d := ex.resolve(st, raw.f[1])
	if u, ok := d.(*UnionV); ok {
		ex.branch(st, u.alts, func(s *State, x Value) Value {
			return fillRawVec(ex, s, tm(raw.f[0]), tm(raw.f[2]), x, a[1], pos)
		})
		return nil
	}
	return fillRawVec(ex, st, tm(raw.f[0]), tm(raw.f[2]), d, a[1], pos)
}

func fillSlice(ex *Exec, st *State, a []Value, pos token.Pos) Value {
	v := ex.resolve(st, a[0])
	if u, ok := v.(*UnionV); ok {
		ex.branch(st, u.alts, func(s *State, x Value) Value { return fillSlice(ex, s, []Value{x, a[1]}, pos) })
		return nil
	}
	return fillRawVec(ex, st, ex.sliceLen(v), mkInt(1), v, a[1], pos)
}

func fillRawVec(ex *Exec, st *State, n, inc *Term, d Value, f Value, pos token.Pos) Value {
	c := st.ctx()
	n, inc = c.simp(n), c.simp(inc)
	s, ok := d.(*SliceV)
	if !ok {
		unsup("vector data %s", vstr(d))
	}
	i := ex.qvar("fi")
	e := ex.atN(st, f, pos, rng(i, n), i)
	if e == nil || s.loc == nil {
		return nil
	}
	ex.oblige(st, "bounds", "vector data covers its length", ex.posStr(pos), mkAnd(mkLe(mkInt(1), inc), mkLe(mkAdd(mkMul(mkSub(n, mkInt(1)), inc), mkInt(1)), s.len)))
	if inc == mkInt(1) {
		ct := ex.content(st, s.loc)
		k := ct.vars[len(ct.vars)-1]
		g, rel := ex.rangeGuard(st, k, s.off, n)
		for i := range s.key {
			g = mkAnd(g, mkEq(ct.vars[i], s.key[i]))
		}
		if s.off.isZero() && s.len == s.cap && s.len == n && len(s.key) == 0 && len(s.loc.name) >= 2 && s.loc.name[:2] == "mk" {
			g = tTrue
		}
		ex.gorWrite(st, s.loc)
		st.mem[s.loc] = &Content{ct.vars, iteValue(g, Value(subst(e, i, rel)), ct.body)}
		return nil
	}
	// strided: cells off + i*inc; with off in column form this is a column of a matrix
	q, r, ok2 := c.decode(s.off, inc)
	if !ok2 {
		q, r = mkFDiv(s.off, inc), mkFMod(s.off, inc)
	}
	ct := ex.content(st, s.loc)
	k := ct.vars[len(ct.vars)-1]
	row := mkSub(mkFDiv(k, inc), q)
	g := mkAnd(mkEq(mkFMod(k, inc), r), mkLe(mkInt(0), row), mkLt(row, n))
	for i := range s.key {
		g = mkAnd(g, mkEq(ct.vars[i], s.key[i]))
	}
	ex.gorWrite(st, s.loc)
	st.mem[s.loc] = &Content{ct.vars, iteValue(g, Value(subst(e, i, row)), ct.body)}
	return nil
}

func init() {
	rangeFn := func(k func(ex *Exec, v, n, b *Term) *Term, empty func(n *Term) *Term) intrinsic {
		return func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
			n := st.ctx().simp(tm(a[0]))
			v := ex.qvar("m")
			b := ex.atN(st, a[1], pos, rng(v, n), v)
			if b == nil {
				return empty(n)
			}
			return k(ex, v, n, b)
		}
	}
	zero := func(n *Term) *Term { return mkNum(SReal, 0) }
	intrinsics[modelsPath+".sum"] = rangeFn(func(ex *Exec, v, n, b *Term) *Term { return mkSum(v, n, b) }, zero)
	intrinsics[modelsPath+".maxf"] = rangeFn(func(ex *Exec, v, n, b *Term) *Term { return mkFoldMM(OMax, v, n, mkNeg(tInf), b) }, func(*Term) *Term { return mkNeg(tInf) })
	intrinsics[modelsPath+".minf"] = rangeFn(func(ex *Exec, v, n, b *Term) *Term { return mkFoldMM(OMin, v, n, tInf, b) }, func(*Term) *Term { return tInf })
	intrinsics[modelsPath+".first"] = rangeFn(func(ex *Exec, v, n, b *Term) *Term { return mkFirst(v, n, b) }, func(n *Term) *Term { return max0(n) })
	intrinsics[modelsPath+".all"] = rangeFn(func(ex *Exec, v, n, b *Term) *Term { return mkForall(v, n, b) }, func(*Term) *Term { return tTrue })
	intrinsics[modelsPath+".fill"] = fillDense
	intrinsics[modelsPath+".fillVec"] = fillVec
	intrinsics[modelsPath+".fillSlice"] = fillSlice
	intrinsics[modelsPath+".noteStride"] = func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
		t := st.ctx().simp(tm(a[0]))
		if t.op == OPoly {
			for _, s := range ex.strides {
				if s == t {
					return nil
				}
			}
			ex.strides = append(ex.strides, t)
		}
		return nil
	}
	intrinsics[modelsPath+".setCaps"] = func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
		ex.store(st, fieldPtr(ex, st, a[0], pos, 1), a[1], pos)
		ex.store(st, fieldPtr(ex, st, a[0], pos, 2), a[2], pos)
		return nil
	}
	intrinsics["(*"+matP+".Dense).Caps"] = func(ex *Exec, st *State, a []Value, pos token.Pos) Value {
		return &TupleV{[]Value{ex.load(st, fieldPtr(ex, st, a[0], pos, 1), pos), ex.load(st, fieldPtr(ex, st, a[0], pos, 2), pos)}}
	}
}
