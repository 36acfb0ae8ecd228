package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokenPos = token.Pos

const repoPath = "github.com/pa-m/sklearn"
const specPath = repoPath + "/zzverif/spec"
const modelsPath = repoPath + "/zzverif/models"

// pathTag identifies the current call path and unrolling indices.
func (ex *Exec) pathTag() string {
	k := strings.Join(ex.stack, "/")
	for _, u := range ex.unroll {
		k += fmt.Sprintf("~%d", u)
	}
	if i, ok := ex.tagIDs[k]; ok {
		return fmt.Sprintf("#%d", i)
	}
	i := len(ex.tagIDs)
	ex.tagIDs[k] = i
	return fmt.Sprintf("#%d", i)
}

func (ex *Exec) siteLoc(st *State, key, name string, elem types.Type, region bool) *Loc {
	base := key
	for i := 0; ; i++ {
		l, ok := ex.locs[key]
		if !ok {
			l = newLoc(name, elem, region)
			ex.locs[key] = l
			return l
		}
		if st == nil {
			return l
		}
		if _, in := st.mem[l]; !in {
			return l
		}
		key = fmt.Sprintf("%s^%d", base, i)
	}
}

func (ex *Exec) siteKey() string {
	id := 0
	if ex.curInstr != nil {
		i, ok := ex.instrIDs[ex.curInstr]
		if !ok {
			i = len(ex.instrIDs) + 1
			ex.instrIDs[ex.curInstr] = i
		}
		id = i
	}
	return fmt.Sprintf("%s:%d", ex.pathTag(), id)
}

// freshAt: a value unconstrained by anything else, one per call path and per iteration of enclosing loops.
func (ex *Exec) freshAt(prefix string, s Sort) *Term {
	return mkApp(prefix+"$"+ex.siteKey(), s, ex.loopVars...)
}

func (fr *Frame) call(st *State, c *ssa.CallCommon, pos token.Pos) Value {
	var args []Value
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fr.ex.callValue(st, fr.get(c.Value), args, c, fr, pos)
}

// callValue calls fv (or invokes a method on fv for interface calls).
func (ex *Exec) callValue(st *State, fv Value, args []Value, c *ssa.CallCommon, fr *Frame, pos token.Pos) Value {
	if c != nil && c.IsInvoke() {
		return ex.invoke(st, fv, c.Method, args, pos)
	}
	fv = ex.resolve(st, fv)
	switch f := fv.(type) {
	case *FuncV:
		if f.bt != "" {
			return ex.builtin(st, f.bt, args, c, fr, pos)
		}
		if f.fn == nil {
			ex.oblige(st, "panic", "call of nil function", ex.posStr(pos), tFalse)
			panic(deadPath{})
		}
		return ex.callFn(st, f.fn, f.binds, args, pos)
	case *UnionV:
		return ex.branch(st, f.alts, func(s *State, v Value) Value {
			return ex.callValue(s, v, args, nil, fr, pos)
		})
	case *OpaqueV:
		unsup("call of opaque function %s", f.why)
	}
	unsup("call of %s", vstr(fv))
	return nil
}

// branch runs k for each alternative under its guard and merges.
func (ex *Exec) branch(st *State, alts []Alt, k func(*State, Value) Value) Value {
	var sts []*State
	var vals []Value
	base := st.ctx()
	for _, a := range alts {
		if base.prove(mkNot(a.g)) {
			continue
		}
		s := &State{base, a.g, st.mem.clone()}
		ok := true
		var v Value
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, d := r.(deadPath); d {
						ok = false
						return
					}
					panic(r)
				}
			}()
			v = k(s, a.v)
		}()
		if ok {
			sts = append(sts, s)
			vals = append(vals, v)
		}
	}
	return ex.joinInto(st, base, sts, vals)
}

func (ex *Exec) joinInto(st *State, base *Ctx, sts []*State, vals []Value) Value {
	if len(sts) == 0 {
		panic(deadPath{})
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := stripCommon(pcs)
	m := ex.mergeStates(base, sts)
	st.mem = m.mem
	st.pc = mkAnd(st.pc, m.pc)
	if vals[0] == nil {
		return nil
	}
	return mergeVals(conds, vals)
}

func (ex *Exec) invoke(st *State, recv Value, m *types.Func, args []Value, pos token.Pos) Value {
	recv = ex.resolve(st, recv)
	switch r := recv.(type) {
	case *IfaceV:
		if r.typ == nil {
			ex.oblige(st, "panic", "method "+m.Name()+" on nil interface", ex.posStr(pos), tFalse)
			panic(deadPath{})
		}
		fn := ex.prog.LookupMethod(r.typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("no method %s on %v", m.Name(), r.typ)
		}
		return ex.callFn(st, fn, nil, append([]Value{r.val}, args...), pos)
	case *UnionV:
		return ex.branch(st, r.alts, func(s *State, v Value) Value { return ex.invoke(s, v, m, args, pos) })
	case *OpaqueV:
		if m.Name() == "Error" || m.Name() == "String" {
			return ex.freshAt("str", SStr)
		}
		if h := opaqueMethods[m.Name()]; h != nil {
			return h(ex, st, args)
		}
		unsup("method %s on opaque %s", m.Name(), r.why)
	}
	unsup("invoke %s on %s", m.Name(), vstr(recv))
	return nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// modelName maps a dependency function to the name of its model.
func modelName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "_" + fn.Name()
		}
		return ""
	}
	if fn.Pkg == nil && fn.Object() == nil {
		return ""
	}
	var b string
	if fn.Pkg != nil {
		b = fn.Pkg.Pkg.Name()
	} else {
		b = fn.Object().Pkg().Name()
	}
	return strings.ToUpper(b[:1]) + b[1:] + "_" + fn.Name()
}

func pkgPathOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (ex *Exec) callFn(st *State, fn *ssa.Function, binds, args []Value, pos token.Pos) Value {
	key := fnKey(fn)
	pp := pkgPathOf(fn)
	if pp == specPath && fn.Parent() == nil {
		if h := specIntrinsics[fn.Name()]; h != nil {
			return h(ex, st, args, fn, pos)
		}
	}
	if f := ex.subst[key]; f != nil {
		ex.trusted["(by contract) "+key] = true
		return ex.inline(st, f.fn, f.binds, args, pos)
	}
	if h := intrinsics[key]; h != nil && !ex.useBody[key] {
		ex.trusted[key] = true
		return h(ex, st, args, pos)
	}
	inRepo := strings.HasPrefix(pp, repoPath)
	if !inRepo && fn.Synthetic == "" {
		if m := ex.models[modelName(fn)]; m != nil {
			ex.modelsU[key] = true
			return ex.inline(st, m, nil, args, pos)
		}
		unsup("no model for %s (%s)", key, modelName(fn))
	}
	if len(fn.Blocks) == 0 {
		if m := ex.models[modelName(fn)]; m != nil {
			ex.modelsU[key] = true
			return ex.inline(st, m, nil, args, pos)
		}
		unsup("function without body %s", key)
	}
	if inRepo && !strings.HasPrefix(pp, repoPath+"/zzverif") && ex.quiet == 0 {
		ex.funcs[key] = true
	}
	return ex.inline(st, fn, binds, args, pos)
}

func (ex *Exec) inline(st *State, fn *ssa.Function, binds, args []Value, pos token.Pos) Value {
	if len(ex.stack) > 60 {
		unsup("call depth in %s", fn)
	}
	cnt := 0
	for _, f := range ex.fnStack {
		if f == fn {
			cnt++
		}
	}
	if cnt > 6 {
		unsup("recursion in %s", fn)
	}
	ex.checkTime()
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	fr := &Frame{ex: ex, fn: fn, env: map[ssa.Value]Value{}, binds: binds, li: loopsOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	ex.stack = append(ex.stack, ex.siteShort()+fn.Name())
	ex.fnStack = append(ex.fnStack, fn)
	saveI := ex.curInstr
	saveU := ex.unroll
	ex.unroll = nil
	ex.stack[len(ex.stack)-1] += fmt.Sprint(saveU)
	base := st.ctx()
	s := &State{base, tTrue, st.mem.clone()}
	fr.runRegion(fr.li.all, fn.Blocks[0], s, nil)
	ex.stack = ex.stack[:len(ex.stack)-1]
	ex.fnStack = ex.fnStack[:len(ex.fnStack)-1]
	ex.curInstr = saveI
	ex.unroll = saveU
	var sts []*State
	var vals []Value
	for _, r := range fr.rets {
		if r.st.pc == tFalse {
			continue
		}
		sts = append(sts, r.st)
		vals = append(vals, r.val)
	}
	return ex.joinInto(st, base, sts, vals)
}

func (ex *Exec) siteShort() string {
	if ex.curInstr == nil {
		return ""
	}
	i, ok := ex.instrIDs[ex.curInstr]
	if !ok {
		i = len(ex.instrIDs) + 1
		ex.instrIDs[ex.curInstr] = i
	}
	return fmt.Sprintf("%d:", i)
}

// ---- builtins

func (ex *Exec) builtin(st *State, name string, args []Value, c *ssa.CallCommon, fr *Frame, pos token.Pos) Value {
	switch name {
	case "len":
		v := ex.resolve(st, args[0])
		switch x := v.(type) {
		case *MapV:
			return ex.mapLen(st, x)
		case *PtrV:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mkInt(at.Len())
		case *StructV:
			return mkInt(int64(len(x.f)))
		case *Term:
			if x.op == OStr {
				return mkInt(int64(len(x.name)))
			}
		}
		return ex.sliceLen(v)
	case "cap":
		v := ex.resolve(st, args[0])
		if s, ok := v.(*SliceV); ok {
			return s.cap
		}
		unsup("cap of %s", vstr(v))
	case "close":
		ex.closeChan(st, args[0], pos)
		return nil
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return ex.append(st, args[0], args[1], et, pos)
	case "copy":
		return ex.copy(st, args[0], args[1], c, pos)
	case "print", "println":
		return nil
	case "recover":
		return &IfaceV{}
	case "ssa:wrapnilchk":
		return args[0]
	case "min", "max":
		op := OMin
		if name == "max" {
			op = OMax
		}
		var ts []*Term
		for _, a := range args {
			ts = append(ts, a.(*Term))
		}
		return mkMinMax(op, ts...)
	case "delete":
		m, ok := ex.resolve(st, args[0]).(*MapV)
		if !ok || m.loc == nil {
			unsup("delete")
		}
		ct := ex.content(st, m.loc)
		key := append(append([]*Term(nil), m.key...), args[1].(*Term))
		g := tTrue
		for i := range ct.vars {
			g = mkAnd(g, mkEq(ct.vars[i], key[i]))
		}
		old := ct.body.(*StructV)
		mt := m.loc.elem.Underlying().(*types.Map)
		st.mem[m.loc] = &Content{ct.vars, &StructV{[]Value{iteValue(g, Value(tFalse), old.f[0]), iteValue(g, zeroValue(mt.Elem()), old.f[1])}}}
		return nil
	}
	unsup("builtin %s", name)
	return nil
}

func (ex *Exec) append(st *State, av, bv Value, et types.Type, pos token.Pos) Value {
	av, bv = ex.resolve(st, av), ex.resolve(st, bv)
	if t, ok := bv.(*Term); ok && t.sort == SStr {
		unsup("append string")
	}
	la, lb := ex.sliceLen(av), ex.sliceLen(bv)
	if a, ok := av.(*SliceV); ok && a.loc != nil && a.loc.name != "app" && a.loc.name != "mk" && a.loc.name != "mkF" {
		if !st.ctx().prove(mkLe(a.cap, a.len)) {
			unsup("append to a sub-slice with spare capacity")
		}
	}
	l := ex.newRegion(st, "app", et, func(k *Term) Value {
		var body Value
		if la.isZero() {
			body = nil
		} else {
			body = ex.sliceElem(st, av, k, et)
		}
		if n, ok := lb.int64(); ok && n <= 8 {
			for i := n - 1; i >= 0; i-- {
				e := ex.sliceElem(st, bv, mkInt(i), et)
				if body == nil {
					body = e
				} else {
					body = iteValue(mkEq(k, mkAdd(la, mkInt(i))), e, body)
				}
			}
			if body == nil {
				body = elemZeroHavoc("undef", et, []*Term{k})
			}
			return body
		}
		d := mkSub(k, la)
		e := ex.sliceElem(st, bv, d, et)
		if body == nil {
			return e
		}
		return iteValue(mkAnd(mkLe(mkInt(0), d), mkLt(d, lb)), e, body)
	})
	n := mkAdd(la, lb)
	return &SliceV{loc: l, off: mkInt(0), len: n, cap: n}
}

// rangeGuard: condition off<=k<off+cnt and the offset k-off, in mixed radix when possible.
func (ex *Exec) rangeGuard(st *State, k, off, cnt *Term) (*Term, *Term) {
	c := st.ctx()
	for _, s := range ex.strideCands(mkAdd(off, cnt)) {
		if q, r, ok := c.decode(off, s); ok && !q.isZero() && c.prove(mkLe(mkAdd(r, cnt), s)) {
			m := mkFMod(k, s)
			return mkAnd(mkEq(mkFDiv(k, s), q), mkLe(r, m), mkLt(m, mkAdd(r, cnt))), mkSub(m, r)
		}
	}
	return mkAnd(mkLe(off, k), mkLt(k, mkAdd(off, cnt))), mkSub(k, off)
}

func (ex *Exec) copy(st *State, dv, sv Value, c *ssa.CallCommon, pos token.Pos) Value {
	dv, sv = ex.resolve(st, dv), ex.resolve(st, sv)
	d, ok := dv.(*SliceV)
	if !ok {
		if u, ok := dv.(*UnionV); ok {
			return ex.branch(st, u.alts, func(s *State, v Value) Value { return ex.copy(s, v, sv, c, pos) })
		}
		unsup("copy to %s", vstr(dv))
	}
	var et types.Type
	if c != nil {
		et = c.Args[0].Type().Underlying().(*types.Slice).Elem()
	} else if d.loc != nil {
		et = d.loc.elem
	}
	ls := ex.sliceLen(sv)
	n := st.ctx().simp(mkMinMax(OMin, d.len, ls))
	if d.loc == nil {
		return n
	}
	ct := ex.content(st, d.loc)
	k := ct.vars[len(ct.vars)-1]
	g, rel := ex.rangeGuard(st, k, d.off, n)
	for i := range d.key {
		g = mkAnd(g, mkEq(ct.vars[i], d.key[i]))
	}
	s2 := &State{st.base, mkAnd(st.pc, g), st.mem}
	v := ex.sliceElem(s2, sv, rel, et)
	ex.gorWrite(st, d.loc)
	st.mem[d.loc] = &Content{ct.vars, iteValue(g, v, ct.body)}
	return n
}

func (ex *Exec) mapLen(st *State, m *MapV) Value {
	if m.loc == nil {
		return mkInt(0)
	}
	ct := ex.content(st, m.loc)
	body := ex.readContent(st, ct, append(append([]*Term(nil), m.key...), ct.vars[len(ct.vars)-1])).(*StructV)
	if body.f[0] == tFalse {
		return mkInt(0)
	}
	k := ct.vars[len(ct.vars)-1]
	return mkBind("card", SInt, []*Term{k}, nil, []*Term{body.f[0].(*Term)})
}
