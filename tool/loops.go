package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loop
	all     map[*ssa.BasicBlock]bool
}

var loopMemo = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopMemo[fn]; ok {
		return l
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loop{}, all: map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
		li.all[post[i]] = true
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				L := li.headers[s]
				if L == nil {
					L = &loop{s, map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = L
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if L.blocks[x] {
						return
					}
					L.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	loopMemo[fn] = li
	return li
}

// ---- leaves of values

const (
	lpOff  = 1000
	lpLen  = 1001
	lpCap  = 1002
	lpKey  = 1010
	lpPKey = 2010
	lpVal  = 3000
)

func cat(p []int, x int) []int { return append(append([]int(nil), p...), x) }

// diffLeaves calls f on minimal differing positions.
func diffLeaves(a, b Value, path []int, f func(path []int, a, b Value)) {
	if sameValue(a, b) {
		return
	}
	switch x := a.(type) {
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			for i := range x.f {
				diffLeaves(x.f[i], y.f[i], cat(path, i), f)
			}
			return
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.loc == y.loc && x.loc != nil && len(x.key) == len(y.key) {
			diffLeaves(x.off, y.off, cat(path, lpOff), f)
			diffLeaves(x.len, y.len, cat(path, lpLen), f)
			diffLeaves(x.cap, y.cap, cat(path, lpCap), f)
			for i := range x.key {
				diffLeaves(x.key[i], y.key[i], cat(path, lpKey+i), f)
			}
			return
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.loc == y.loc && x.loc != nil && samePath(x.path, y.path) && len(x.key) == len(y.key) {
			for i := range x.key {
				diffLeaves(x.key[i], y.key[i], cat(path, lpPKey+i), f)
			}
			return
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			diffLeaves(x.val, y.val, cat(path, lpVal), f)
			return
		}
	}
	f(path, a, b)
}

func getLeaf(v Value, path []int) (Value, bool) {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			if p >= len(x.f) {
				return nil, false
			}
			v = x.f[p]
		case *SliceV:
			switch {
			case p == lpOff:
				v = x.off
			case p == lpLen:
				v = x.len
			case p == lpCap:
				v = x.cap
			case p >= lpKey && p-lpKey < len(x.key):
				v = x.key[p-lpKey]
			default:
				return nil, false
			}
		case *PtrV:
			if p < lpPKey || p-lpPKey >= len(x.key) {
				return nil, false
			}
			v = x.key[p-lpPKey]
		case *IfaceV:
			if p != lpVal {
				return nil, false
			}
			v = x.val
		default:
			return nil, false
		}
	}
	return v, true
}

func setLeaf(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		r := &StructV{append([]Value(nil), x.f...)}
		r.f[p] = setLeaf(x.f[p], path[1:], nv)
		return r
	case *SliceV:
		r := *x
		t := nv.(*Term)
		switch {
		case p == lpOff:
			r.off = t
		case p == lpLen:
			r.len = t
		case p == lpCap:
			r.cap = t
		default:
			r.key = append([]*Term(nil), x.key...)
			r.key[p-lpKey] = t
		}
		return &r
	case *PtrV:
		r := *x
		r.key = append([]*Term(nil), x.key...)
		r.key[p-lpPKey] = nv.(*Term)
		return &r
	case *IfaceV:
		return &IfaceV{x.typ, setLeaf(x.val, path[1:], nv)}
	}
	panic("setLeaf")
}

// ---- loop summarisation

type comp struct {
	key    string
	phi    *ssa.Phi
	loc    *Loc
	path   []int
	vars   []*Term
	sym    string
	h      *Term // scalar havoc term
	hV     Value // non-scalar havoc value
	init   Value
	closed Value
	isIV   bool
	badIV  bool
}

// pregion: slice-typed slot whose backing array changes (append)
type pregion struct {
	key  string
	phi  *ssa.Phi
	loc  *Loc
	path []int
	P    *Loc
	init Value
	et   types.Type
}

type loopRun struct {
	guess  bool
	flags  map[*Term]*Term // see findFlags
	mms    []foldMM
	except *comp
	fr     *Frame
	ex     *Exec
	L      *loop
	s0     *State
	base   *Ctx // body base context
	n      *Term
	tag    string
	phis   []*ssa.Phi
	initP  map[*ssa.Phi]Value
	comps  map[string]*comp
	order  []string
	pregs  map[string]*pregion
	prOrd  []string
	fams   map[*Loc]*Loc     // body allocated loc -> family loc
	famC   map[*Loc]*Content // family contents (closed, independent of n)
	backPC *Term
}

func pathStr(p []int) string {
	s := ""
	for _, x := range p {
		s += fmt.Sprintf(".%d", x)
	}
	return s
}

func slotKey(phi *ssa.Phi, loc *Loc, path []int) string {
	if phi != nil {
		return "P" + phi.Name() + pathStr(path)
	}
	return fmt.Sprintf("L%d", loc.id) + pathStr(path)
}

func (fr *Frame) runLoop(L *loop, es []edge, base *Ctx) []edge {
	ex := fr.ex
	ex.checkTime()
	ex.loops++
	// initial phi values
	pcs := make([]*Term, len(es))
	sts := make([]*State, len(es))
	for i, e := range es {
		sts[i] = e.st
		pcs[i] = e.st.pc
	}
	conds := stripCommon(pcs)
	initP := map[*ssa.Phi]Value{}
	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Value
		for _, e := range es {
			vs = append(vs, fr.phiEdge(phi, e.from))
		}
		phis = append(phis, phi)
		initP[phi] = mergeVals(conds, vs)
	}
	s0 := ex.mergeStates(base, sts)
	if outs, ok := fr.tryUnroll(L, phis, initP, s0); ok {
		return outs
	}
	tag := fmt.Sprintf("%s%s@%d", fr.fn.Name(), ex.pathTag(), L.header.Index)
	for ex.activeN[tag] {
		tag += "'"
	}
	ex.activeN[tag] = true
	defer delete(ex.activeN, tag)
	newRun := func() *loopRun {
		return &loopRun{fr: fr, ex: ex, L: L, s0: s0, tag: tag, phis: phis, initP: initP,
			comps: map[string]*comp{}, pregs: map[string]*pregion{}, fams: map[*Loc]*Loc{}, famC: map[*Loc]*Content{}}
	}
	lr := newRun()
	lr.n = mkVar("n@"+tag, SInt)
	lr.base = base.with(s0.pc).with(mkLe(mkInt(0), lr.n))
	ex.loopVars = append(ex.loopVars, lr.n)
	defer func() { ex.loopVars = ex.loopVars[:len(ex.loopVars)-1] }()
	env := map[ssa.Value]Value{}
	for k, v := range fr.env {
		env[k] = v
	}
	nr, nobl, quiet, unr, nlv := len(fr.rets), len(ex.obls), ex.quiet, ex.unroll, len(ex.loopVars)
	attempt := func() (outs []edge, err interface{}) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsupported); !ok {
					panic(r)
				}
				err = r
			}
		}()
		return lr.run(), nil
	}
	undo := func() {
		fr.rets, ex.obls, ex.quiet, ex.unroll, ex.loopVars = fr.rets[:nr], ex.obls[:nobl], quiet, unr, ex.loopVars[:nlv]
		for k := range fr.env {
			delete(fr.env, k)
		}
		for k, v := range env {
			fr.env[k] = v
		}
	}
	outs, err := attempt()
	if err != nil && lr.steps() {
		// once more, with the counters guessed from the start
		ex.checkTime()
		undo()
		n, bs := lr.n, lr.base
		lr = newRun()
		lr.n, lr.base, lr.guess = n, bs, true
		outs, err = attempt()
	}
	if err == nil {
		return outs
	}
	ex.checkTime()
	// no summary: unroll as long as the loop condition is decided
	undo()
	outs, ok := func() (outs []edge, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, k := r.(unsupported); !k {
					panic(r)
				}
				ok = false
			}
		}()
		return fr.doUnroll(L, phis, initP, s0)
	}()
	if !ok {
		panic(err)
	}
	return outs
}

func (lr *loopRun) dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "[loop %s] "+f+"\n", append([]interface{}{lr.tag}, a...)...)
	}
}

func (lr *loopRun) addComp(phi *ssa.Phi, loc *Loc, path []int, init Value, vars []*Term) *comp {
	k := slotKey(phi, loc, path)
	// remove deeper comps
	var no []string
	for _, o := range lr.order {
		if strings.HasPrefix(o, k+".") {
			delete(lr.comps, o)
			continue
		}
		no = append(no, o)
	}
	lr.order = no
	c := &comp{key: k, phi: phi, loc: loc, path: path, init: init, vars: vars}
	c.sym = "h@" + lr.tag + ":" + k
	if t, ok := init.(*Term); ok {
		if len(vars) == 0 {
			c.h = mkVar(c.sym, t.sort)
		} else {
			c.h = mkApp(c.sym, t.sort, vars...)
		}
	} else {
		c.hV = &HavocV{loc: loc, path: pathStr(path), args: vars, orig: init, sym: c.sym}
	}
	lr.comps[k] = c
	lr.order = append(lr.order, k)
	return c
}

func (c *comp) cur() Value {
	if c.closed != nil {
		return c.closed
	}
	if c.h != nil {
		return c.h
	}
	return c.hV
}

func elemZeroHavoc(name string, t types.Type, args []*Term) Value {
	if s, ok := sortOf(t); ok {
		return mkApp(name, s, args...)
	}
	return zeroValue(t)
}

func (ex *Exec) sliceElem(st *State, v Value, k *Term, et types.Type) Value {
	switch s := v.(type) {
	case *SliceV:
		if s.loc == nil {
			return elemZeroHavoc("undef", et, []*Term{k})
		}
		key := append(append([]*Term(nil), s.key...), mkAdd(s.off, k))
		return ex.readContent(st, ex.content(st, s.loc), key)
	case *UnionV:
		var r Value
		for i := len(s.alts) - 1; i >= 0; i-- {
			y := ex.sliceElem(st, s.alts[i].v, k, et)
			if r == nil {
				r = y
			} else {
				r = iteValue(s.alts[i].g, y, r)
			}
		}
		return r
	}
	unsup("slice element of %s", vstr(v))
	return nil
}

func (ex *Exec) sliceLen(v Value) *Term {
	switch s := v.(type) {
	case *SliceV:
		return s.len
	case *UnionV:
		var r *Term
		for i := len(s.alts) - 1; i >= 0; i-- {
			y := ex.sliceLen(s.alts[i].v)
			if r == nil {
				r = y
			} else {
				r = mkIte(s.alts[i].g, y, r)
			}
		}
		return r
	case *Term:
		return mkApp("strlen", SInt, s)
	}
	unsup("len of %s", vstr(v))
	return nil
}

func (lr *loopRun) addPregion(phi *ssa.Phi, loc *Loc, path []int, init Value, et types.Type) {
	k := slotKey(phi, loc, path)
	var no []string
	for _, o := range lr.order {
		if strings.HasPrefix(o, k+".") {
			delete(lr.comps, o)
			continue
		}
		no = append(no, o)
	}
	lr.order = no
	P := lr.ex.siteLoc(lr.s0, "pr@"+lr.tag+k, "app", et, true)
	pr := &pregion{key: k, phi: phi, loc: loc, path: path, P: P, init: init, et: et}
	lr.pregs[k] = pr
	lr.prOrd = append(lr.prOrd, k)
	// content comps
	kv := mkVar(fmt.Sprintf("k!%d", P.id), SInt)
	body := lr.ex.sliceElem(lr.s0, init, kv, et)
	lr.s0.mem[P] = &Content{[]*Term{kv}, body}
	lc := lr.addComp(phi, loc, cat(path, lpLen), lr.ex.sliceLen(init), nil)
	_ = lc
}

// entry builds the loop-entry state at iteration n.
func (lr *loopRun) entry() (*State, map[*ssa.Phi]Value) {
	mem := lr.s0.mem.clone()
	for l, c := range lr.famC {
		mem[l] = c
	}
	ph := map[*ssa.Phi]Value{}
	for p, v := range lr.initP {
		ph[p] = v
	}
	for _, k := range lr.prOrd {
		pr := lr.pregs[k]
		ln := lr.comps[k+fmt.Sprintf(".%d", lpLen)].cur().(*Term)
		sv := &SliceV{loc: pr.P, off: mkInt(0), len: ln, cap: ln}
		if pr.phi != nil {
			ph[pr.phi] = setLeaf(ph[pr.phi], pr.path, sv)
		} else {
			c := mem[pr.loc]
			mem[pr.loc] = &Content{c.vars, setLeaf(c.body, pr.path, sv)}
		}
	}
	for _, k := range lr.order {
		c := lr.comps[k]
		if lr.isPregLen(c) {
			continue
		}
		if c.phi != nil {
			ph[c.phi] = setLeaf(ph[c.phi], c.path, c.cur())
		} else {
			ct := mem[c.loc]
			mem[c.loc] = &Content{ct.vars, setLeaf(ct.body, c.path, c.cur())}
		}
	}
	return &State{lr.base, tTrue, mem}, ph
}

func (lr *loopRun) isPregLen(c *comp) bool {
	if len(c.path) == 0 || c.path[len(c.path)-1] != lpLen {
		return false
	}
	_, ok := lr.pregs[slotKey(c.phi, c.loc, c.path[:len(c.path)-1])]
	return ok
}

type bodyResult struct {
	back  *State
	ph    map[*ssa.Phi]Value // back-edge phi values
	exits []edge
	rets  []retRec
	entry *State
	entPh map[*ssa.Phi]Value
}

// body executes the loop body once from the current closed forms/havocs.
func (lr *loopRun) body() *bodyResult {
	fr := lr.fr
	st, ph := lr.entry()
	r := &bodyResult{entry: st.clone(), entPh: ph}
	for p, v := range ph {
		fr.env[p] = v
	}
	nr := len(fr.rets)
	nd := len(fr.defers)
	outs := fr.runRegion(lr.L.blocks, lr.L.header, st, lr.L)
	if len(fr.defers) != nd {
		unsup("defer in loop")
	}
	r.rets = append(r.rets, fr.rets[nr:]...)
	fr.rets = fr.rets[:nr]
	var backs []edge
	for _, e := range outs {
		if e.to == lr.L.header {
			backs = append(backs, e)
		} else {
			r.exits = append(r.exits, e)
		}
	}
	if len(backs) > 0 {
		var pcs []*Term
		var sts []*State
		for _, e := range backs {
			pcs = append(pcs, e.st.pc)
			sts = append(sts, e.st)
		}
		conds := stripCommon(pcs)
		r.ph = map[*ssa.Phi]Value{}
		for _, p := range lr.phis {
			var vs []Value
			for _, e := range backs {
				vs = append(vs, fr.phiEdge(p, e.from))
			}
			r.ph[p] = mergeVals(conds, vs)
		}
		r.back = lr.ex.mergeStates(lr.base, sts)
	}
	return r
}

// findFlags: conditions on one variable that tell the first iteration from the later ones (proved by induction).
func (lr *loopRun) findFlags(r *bodyResult) {
	var atoms []*Term
	seen := map[*Term]bool{}
	own := map[*Term]*comp{}
	for _, k := range lr.order {
		c := lr.comps[k]
		if c.closed != nil || c.h == nil {
			continue
		}
		if len(c.vars) == 0 && c.h.op == OVar && (c.h.sort == SInt || c.h.sort == SBool) {
			own[c.h] = c
		}
	}
	if len(own) == 0 {
		return
	}
	for _, k := range lr.order {
		c := lr.comps[k]
		if c.closed != nil || c.h == nil {
			continue
		}
		t, ok := lr.transfer(r, c).(*Term)
		if !ok {
			continue
		}
		walkTerm(t, func(x *Term) {
			if seen[x] || x.sort != SBool || x.op == OAnd || x.op == OOr || x.op == ONot {
				return
			}
			seen[x] = true
			atoms = append(atoms, x)
		})
	}
	ctx := r.back.ctx()
	for _, a := range atoms {
		if lr.flags[a] != nil {
			continue
		}
		vs := map[*Term]bool{}
		walkTerm(a, func(x *Term) {
			if x.op == OVar || x.op == OApp || x.op == OBind {
				vs[x] = true
			}
		})
		if len(vs) != 1 {
			continue
		}
		var h *Term
		for v := range vs {
			h = v
		}
		c := own[h]
		if c == nil {
			continue
		}
		a0 := lr.base.simp(substVar(a, h, c.init.(*Term)))
		if a0 != tTrue && a0 != tFalse {
			continue
		}
		t, ok := lr.transfer(r, c).(*Term)
		if !ok {
			continue
		}
		if ctx.simp(substVar(a, h, t)) != mkNot(a0) {
			continue
		}
		v := mkLe(mkInt(1), lr.n)
		if a0 == tTrue {
			v = mkNot(v)
		}
		lr.dbg("flag %v: %v", a, v)
		if lr.flags == nil {
			lr.flags = map[*Term]*Term{}
		}
		lr.flags[a] = v
	}
}

// discover compares entry and back states; returns true when new components appear.
func (lr *loopRun) discover(r *bodyResult) bool {
	isNew := false
	check := func(phi *ssa.Phi, loc *Loc, vars []*Term, ent, bk, init Value, typ types.Type) {
		diffLeaves(ent, bk, nil, func(path []int, a, b Value) {
			k := slotKey(phi, loc, path)
			if _, ok := lr.comps[k]; ok {
				return
			}
			if _, ok := lr.pregs[k]; ok {
				return
			}
			// inside an existing pregion slot?
			for _, pk := range lr.prOrd {
				if strings.HasPrefix(k, pk+".") || k == pk {
					return
				}
			}
			iv, ok := getLeaf(init, path)
			if !ok {
				unsup("loop-varying structure %s: %s -> %s", k, vstr(a), vstr(b))
			}
			isNew = true
			if _, ok := iv.(*Term); !ok && len(vars) == 0 && isSliceVal(b) {
				et := leafType(typ, path)
				if et != nil {
					if sl, ok := et.Underlying().(*types.Slice); ok {
						lr.dbg("pregion %s", k)
						lr.addPregion(phi, loc, path, iv, sl.Elem())
						return
					}
				}
			}
			lr.dbg("comp %s: %s -> %s", k, vstr(a), vstr(b))
			lr.addComp(phi, loc, path, iv, vars)
		})
	}
	for _, p := range lr.phis {
		check(p, nil, nil, r.entPh[p], r.ph[p], lr.initP[p], p.Type())
	}
	var locs []*Loc
	for l := range r.back.mem {
		if _, ok := lr.s0.mem[l]; ok {
			locs = append(locs, l)
		}
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
	for _, l := range locs {
		c, e := r.back.mem[l], r.entry.mem[l]
		if c == e {
			continue
		}
		check(nil, l, e.vars, e.body, c.body, lr.s0.mem[l].body, l.elem)
	}
	for l, c := range lr.famC {
		if r.back.mem[l] != c {
			if x := r.back.mem[l]; x == nil || !sameValue(x.body, c.body) {
				unsup("loop-allocated object modified in a later iteration (%s)", l.name)
			}
		}
	}
	return isNew
}

func isSliceVal(v Value) bool {
	switch x := v.(type) {
	case *SliceV:
		return true
	case *UnionV:
		for _, a := range x.alts {
			if _, ok := a.v.(*SliceV); !ok {
				return false
			}
		}
		return true
	}
	return false
}

func leafType(t types.Type, path []int) types.Type {
	for _, p := range path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if p >= u.NumFields() {
				return nil
			}
			t = u.Field(p).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Map:
			if p == 1 {
				t = u.Elem()
			} else {
				return nil
			}
		default:
			return nil
		}
	}
	return t
}

// transfer returns the back-edge value of a component.
func (lr *loopRun) transfer(r *bodyResult, c *comp) Value {
	if lr.isPregLen(c) {
		p := c.path[:len(c.path)-1]
		return lr.ex.sliceLen(lr.slotVal(r, c.phi, c.loc, p))
	}
	// content of a pregion's P
	if c.phi == nil {
		for _, k := range lr.prOrd {
			pr := lr.pregs[k]
			if pr.P == c.loc {
				sv := lr.slotVal(r, pr.phi, pr.loc, pr.path)
				e := lr.ex.sliceElem(r.back, sv, c.vars[0], pr.et)
				v, ok := getLeaf(e, c.path)
				if !ok {
					unsup("pregion leaf")
				}
				return v
			}
		}
	}
	var root Value
	if c.phi != nil {
		root = r.ph[c.phi]
	} else {
		root = r.back.mem[c.loc].body
		if bv := r.back.mem[c.loc].vars; !sameTerms(bv, c.vars) {
			unsup("content vars changed")
		}
	}
	v, ok := getLeaf(root, c.path)
	if !ok {
		unsup("loop-varying structure at %s", c.key)
	}
	return v
}

func (lr *loopRun) slotVal(r *bodyResult, phi *ssa.Phi, loc *Loc, path []int) Value {
	var root Value
	if phi != nil {
		root = r.ph[phi]
	} else {
		root = r.back.mem[loc].body
	}
	v, ok := getLeaf(root, path)
	if !ok {
		unsup("slot structure")
	}
	return v
}

func (lr *loopRun) run() []edge {
	ex := lr.ex
	// phi scalar leaves start as changed
	for _, p := range lr.phis {
		if _, ok := lr.initP[p].(*Term); ok {
			c := lr.addComp(p, nil, nil, lr.initP[p], nil)
			if d := lr.phiStep(p); lr.guess && d != 0 {
				// a guess, verified below
				c.isIV = true
				c.closed = mkAdd(c.init.(*Term), mkMul(lr.n, mkInt(d)))
			}
		}
	}
	ex.quiet++
	var r *bodyResult
	never := false
	func() {
		defer func() { ex.quiet-- }()
		for round := 0; ; round++ {
			if round > 24 {
				unsup("loop %s: no fixpoint", lr.tag)
			}
			ex.checkTime()
			r = lr.body()
			if r.back == nil {
				never = true
				return // never iterates twice
			}
			if lr.discover(r) {
				for _, k := range lr.order {
					if c := lr.comps[k]; !c.isIV {
						c.closed = nil
					}
				}
				lr.flags, lr.mms = nil, nil
				lr.famC = map[*Loc]*Content{}
				// pregion content comps appear lazily by diff on P
				lr.ensurePregionContent()
				continue
			}
			lr.backPC = r.back.pc
			// verify IVs
			bad := false
			ctx := r.back.ctx()
			for _, k := range lr.order {
				c := lr.comps[k]
				if c.isIV && c.closed != nil {
					t := ctx.simp(lr.transfer(r, c).(*Term))
					want := substVar(c.closed.(*Term), lr.n, mkAdd(lr.n, mkInt(1)))
					if t != want && ctx.simp(mkEq(t, want)) != tTrue {
						lr.dbg("IV %s refuted: %v vs %v", k, t, want)
						c.isIV, c.badIV, c.closed = false, true, nil
						bad = true
					}
				}
			}
			if bad {
				lr.flags, lr.mms = nil, nil
				for _, k := range lr.order {
					if c := lr.comps[k]; !c.isIV {
						c.closed = nil
					}
				}
				continue
			}
			famNew := lr.families(r)
			lr.findFlags(r)
			solved, unsolved := 0, 0
			pass := func(ivOnly bool) {
				for _, k := range lr.order {
					c := lr.comps[k]
					if c.closed != nil {
						continue
					}
					T := lr.transfer(r, c)
					if v := lr.solve(r, c, T, ivOnly); v != nil {
						c.closed = v
						solved++
						lr.dbg("solved %s = %s", k, vstr(v))
					}
				}
			}
			pass(true)
			if solved == 0 {
				pass(false)
			}
			for _, k := range lr.order {
				if lr.comps[k].closed == nil {
					unsolved++
				}
			}
			if unsolved == 0 && solved == 0 && !famNew {
				return
			}
			if solved == 0 && unsolved > 0 && !famNew {
				s := ""
				for _, k := range lr.order {
					if c := lr.comps[k]; c.closed == nil {
						s += fmt.Sprintf(" %s(init %s): %s;", k, vstr(c.init), vstr(lr.transfer(r, c)))
						if c.loc != nil {
							s += " loc " + c.loc.name
						}
					}
				}
				if len(s) > 1500 {
					s = s[:1500]
				}
				unsup("loop in %s (%s): no closed form for%s", lr.fr.fn, ex.posStr(lr.headerPos()), s)
			}
		}
	}()
	if never {
		if outs, ok := lr.fr.unrollLoop(lr.L, lr.phis, lr.initP, lr.s0, true); ok {
			return outs
		}
	}
	return lr.finish()
}

func (lr *loopRun) ensurePregionContent() {
	for _, k := range lr.prOrd {
		pr := lr.pregs[k]
		ct := lr.s0.mem[pr.P]
		// add content comps for all leaves
		var add func(v Value, path []int)
		add = func(v Value, path []int) {
			if s, ok := v.(*StructV); ok {
				for i := range s.f {
					add(s.f[i], cat(path, i))
				}
				return
			}
			if _, ok := lr.comps[slotKey(nil, pr.P, path)]; !ok {
				lr.addComp(nil, pr.P, path, v, ct.vars)
			}
		}
		add(ct.body, nil)
	}
}

func (lr *loopRun) headerPos() (p tokenPos) {
	for _, in := range lr.L.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range lr.L.blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (p == 0 || in.Pos() < p) {
				p = in.Pos()
			}
		}
	}
	return
}

// families handles locations allocated in the body that survive the iteration.
func (lr *loopRun) families(r *bodyResult) bool {
	refd := map[*Loc]bool{}
	var visit func(v Value)
	visitLoc := func(l *Loc) {
		if l == nil {
			return
		}
		if _, ok := lr.s0.mem[l]; ok {
			return
		}
		if _, ok := lr.famC[l]; ok {
			return
		}
		if refd[l] {
			return
		}
		c, ok := r.back.mem[l]
		if !ok {
			return
		}
		refd[l] = true
		visit(c.body)
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case *PtrV:
			visitLoc(x.loc)
		case *SliceV:
			visitLoc(x.loc)
		case *MapV:
			visitLoc(x.loc)
		case *StructV:
			for _, f := range x.f {
				visit(f)
			}
		case *TupleV:
			for _, f := range x.f {
				visit(f)
			}
		case *IfaceV:
			if x.typ != nil {
				visit(x.val)
			}
		case *FuncV:
			for _, f := range x.binds {
				visit(f)
			}
			if x.recv != nil {
				visit(x.recv)
			}
		case *UnionV:
			for _, a := range x.alts {
				visit(a.v)
			}
		}
	}
	for _, k := range lr.order {
		c := lr.comps[k]
		if c.hV != nil {
			visit(lr.transfer(r, c))
		}
	}
	isNew := false
	var ls []*Loc
	for l := range refd {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		f := lr.fams[l]
		if f == nil {
			f = lr.ex.siteLoc(nil, "fam@"+lr.tag+fmt.Sprint(l.id), l.name+"F", l.elem, l.region)
			f.isMap = l.isMap
			f.np = l.np + 1
			lr.fams[l] = f
			isNew = true
		}
	}
	nv := mkVar("f@"+lr.tag, SInt)
	for _, l := range ls {
		f := lr.fams[l]
		c := r.back.mem[l]
		vs := lr.rekeySub(nv, nil)
		body := vs.v(c.body)
		// rename content vars to be deterministic
		nc := &Content{append([]*Term{nv}, c.vars...), body}
		if o, ok := lr.famC[f]; !ok || !sameValue(o.body, nc.body) {
			if lr.usesUnsolved(body) {
				// wait until components are solved
				if !ok {
					isNew = isNew || false
				}
			} else {
				isNew = true
			}
			lr.famC[f] = nc
		}
	}
	return isNew
}

func (lr *loopRun) usesUnsolved(v Value) bool {
	found := false
	var visit func(v Value)
	visit = func(v Value) {
		switch x := v.(type) {
		case *Term:
			if lr.unsolvedIn(x, nil) {
				found = true
			}
		case *PtrV:
			for _, k := range x.key {
				if k != nil {
					visit(k)
				}
			}
		case *SliceV:
			if x.loc != nil {
				for _, k := range x.key {
					visit(k)
				}
				visit(x.off)
				visit(x.len)
			}
		case *StructV:
			for _, f := range x.f {
				visit(f)
			}
		case *TupleV:
			for _, f := range x.f {
				visit(f)
			}
		case *IfaceV:
			if x.typ != nil {
				visit(x.val)
			}
		case *UnionV:
			for _, a := range x.alts {
				visit(a.g)
				visit(a.v)
			}
		case *HavocV:
			for _, k := range lr.order {
				if c := lr.comps[k]; c != lr.except && c.sym == x.sym {
					found = true
				}
			}
		}
	}
	visit(v)
	return found
}

// rekeySub substitutes n:=by and moves references to body-allocated locs to families.
func (lr *loopRun) rekeySub(by *Term, simp *Ctx) *VSub {
	return &VSub{s: newSubst(map[*Term]*Term{lr.n: by}), rekey: lr.fams, rekeyBy: by, simp: simp}
}

func (lr *loopRun) unsolvedIn(t *Term, except *comp) bool {
	for _, k := range lr.order {
		c := lr.comps[k]
		if c == except || c == lr.except || c.h == nil {
			continue
		}
		if len(c.vars) == 0 {
			if t.hasVar(c.h) {
				return true
			}
		} else if t.hasSym(c.sym) {
			return true
		}
	}
	return false
}

func replaceTerm(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if t == from {
			return to
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch t.op {
		case OPoly:
			var parts []*Term
			ch := false
			for _, m := range t.mons {
				x := mkConst(t.sort, m.c)
				for _, f := range m.f {
					y := rw(f.t)
					if y != f.t {
						ch = true
					}
					x = mkMul(x, mkPow(y, f.p))
				}
				parts = append(parts, x)
			}
			if ch {
				r = mkAdd(parts...)
			}
		case OBind:
			vs, in := openBind(t)
			outer := mapTerms(t.args[:t.nout], rw)
			inner := mapTerms(in, rw)
			if !sameTerms(outer, t.args[:t.nout]) || !sameTerms(inner, in) {
				r = rebuildBind(t, vs, outer, inner)
			}
		default:
			if len(t.args) > 0 {
				a := mapTerms(t.args, rw)
				if !sameTerms(a, t.args) {
					r = rebuild(t, a)
				}
			}
		}
		memo[t] = r
		return r
	}
	return rw(t)
}

// condsWith collects equality atoms involving v outside of binders.
func condsWith(t, v *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || !t.hasVar(v) || t.op == OBind {
			return
		}
		seen[t] = true
		if t.op == OEq0 {
			r = append(r, t)
		}
		for _, a := range t.args {
			w(a)
		}
		for _, m := range t.mons {
			for _, f := range m.f {
				w(f.t)
			}
		}
	}
	w(t)
	return r
}

// affine: t = a*x + b with a,b free of x.
func affine(t, x *Term) (a, b *Term, ok bool) {
	t = expandIndAll(t, x)
	var am, bm []Mono
	for _, m := range t.monos() {
		dep := 0
		bad := false
		for _, f := range m.f {
			if f.t == x {
				dep += f.p
			} else if f.t.hasVar(x) {
				bad = true
			}
		}
		if bad || dep > 1 {
			return nil, nil, false
		}
		if dep == 1 {
			am = append(am, divMono(m, []Fac{{x, 1}}))
		} else {
			bm = append(bm, m)
		}
	}
	return mkPoly(t.sort, am), mkPoly(t.sort, bm), true
}

func expandIndAll(t, x *Term) *Term {
	for iter := 0; iter < 30; iter++ {
		var hit *Term
		for _, m := range t.monos() {
			for _, f := range m.f {
				if f.t.op == OIte && f.t.hasVar(x) && !f.t.args[0].hasVar(x) {
					hit = f.t
				}
			}
		}
		if hit == nil {
			return t
		}
		i := mkInd(hit.args[0], hit.sort)
		rep := mkAdd(mkMul(i, mkSub(hit.args[1], hit.args[2])), hit.args[2])
		t = replaceAtom(t, hit, rep)
	}
	return t
}

// indAtoms lists indicator conditions in t's monomials.
func indAtoms(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, m := range t.monos() {
		for _, f := range m.f {
			if f.t.op == OInd && !seen[f.t] {
				seen[f.t] = true
				r = append(r, f.t)
			}
		}
	}
	return r
}

// zeroCond: given a polynomial over indicators valued in {0,1}, the condition a==0; nil if not of that shape.
func zeroCond(a *Term) *Term {
	if a.isInt64(1) {
		return tFalse
	}
	if a.isZero() {
		return tTrue
	}
	// 1 - product
	d := mkSub(mkNum(a.sort, 1), a)
	if ms := d.monos(); len(ms) == 1 && ms[0].c.Cmp(ratOne) == 0 {
		var cs []*Term
		ok := true
		for _, f := range ms[0].f {
			if f.t.op != OInd {
				ok = false
				break
			}
			cs = append(cs, f.t.args[0])
		}
		if ok {
			return mkAnd(cs...)
		}
	}
	at := indAtoms(a)
	if len(at) == 0 || len(at) > 5 {
		return nil
	}
	var ors []*Term
	for mask := 0; mask < 1<<uint(len(at)); mask++ {
		x := a
		var cs []*Term
		for i, t := range at {
			if mask&(1<<uint(i)) != 0 {
				x = replaceAtom(x, t, mkNum(a.sort, 1))
				cs = append(cs, t.args[0])
			} else {
				x = replaceAtom(x, t, mkNum(a.sort, 0))
				cs = append(cs, mkNot(t.args[0]))
			}
		}
		if x.isZero() {
			if c := mkAnd(cs...); c != tFalse {
				ors = append(ors, c)
			}
		} else if !x.isInt64(1) {
			return nil
		}
	}
	return mkOr(ors...)
}

func (lr *loopRun) solve(r *bodyResult, c *comp, T Value, ivOnly bool) Value {
	if c.hV != nil {
		if ivOnly {
			return nil
		}
		return lr.solveV(r, c, T)
	}
	t, ok := T.(*Term)
	if !ok {
		unsup("loop component %s changes kind: %s", c.key, vstr(T))
	}
	n := lr.n
	ctx := r.back.ctx()
	t = ctx.simp(t)
	for a, v := range lr.flags {
		t = replaceTerm(t, a, v)
	}
	init := c.init.(*Term)
	hv := mkVar("hv@"+lr.tag, t.sort)
	if len(c.vars) > 0 || c.h.op == OApp {
		t = replaceTerm(t, c.h, hv)
	} else {
		hv = c.h
	}
	if lr.unsolvedIn(t, c) {
		return nil
	}
	m := mkVar("m@"+lr.tag, SInt)
	if (t.sort == SInt || t.sort == SReal) && t.op != OBind {
		if d := mkSub(t, hv); !d.hasVar(hv) && !d.hasSym(c.sym) {
			if !d.hasVar(n) && len(c.vars) == 0 {
				if c.badIV && ivOnly {
					return nil
				}
				c.isIV = true
				cn := n
				if t.sort == SReal {
					cn = mkToReal(n)
				}
				return mkAdd(init, mkMul(cn, d))
			}
			if ivOnly {
				return nil
			}
			return lr.base.simp(mkAdd(init, mkSum(m, n, substVar(d, n, m))))
		}
	}
	if ivOnly {
		return nil
	}
	if t == hv {
		return init
	}
	if v := lr.swaps(ctx, c, t, hv, init); v != nil {
		return v
	}
	if t.hasSym(c.sym) && len(c.vars) > 0 {
		return lr.solveOther(r, c, t, hv, init)
	}
	return lr.solveScalar(ctx, c, t, hv, init)
}

// atLast: value after n iterations of a recurrence independent of its own past
func (lr *loopRun) solveScalar(ctx *Ctx, c *comp, t, hv, init *Term) Value {
	n := lr.n
	m := mkVar("m@"+lr.tag, SInt)
	one := mkInt(1)
	if !t.hasVar(hv) {
		if !t.hasVar(n) {
			return mkIte(mkLe(one, n), t, init)
		}
		p := substVar(t, n, mkSub(n, one))
		if z := lr.base.with(mkEq(n, mkInt(0))).simp(substVar(p, n, mkInt(0))); z == init {
			return p
		}
		return mkIte(mkLe(one, n), p, init)
	}
	// unique iteration touching this cell
	if len(c.vars) > 0 {
		for _, k := range condsWith(t, n) {
			e := solveEq(k, n)
			if e == nil || e.hasVar(hv) {
				continue
			}
			if replaceTerm(t, k, tFalse) != hv {
				if q := newNoZ3(ctx).with(mkNot(k)).simp(replaceTerm(t, k, tFalse)); q != hv {
					continue
				}
			}
			v := substVar(substVar(replaceTerm(t, k, tTrue), n, e), hv, init)
			g := mkAnd(mkLe(mkInt(0), e), mkLt(e, n))
			v = lr.base.with(g).with(substVar(lr.backPC, n, e)).simp(v)
			return mkIte(g, v, init)
		}
	}
	if t.sort == SBool {
		A := replaceTerm(t, hv, tTrue)
		B := replaceTerm(t, hv, tFalse)
		if B == tFalse {
			return mkAnd(init, mkForall(m, n, substVar(A, n, m)))
		}
		if A == tTrue {
			return mkOr(init, mkExists(m, n, substVar(B, n, m)))
		}
		// overwrite: changes when A==B
		g := mkEq(A, B)
		if mkOr(mkAnd(mkNot(g), hv), mkAnd(g, A)) != nil && ctx.prove(mkOr(g, A)) {
			L := mkLast(m, n, substVar(g, n, m))
			return mkIte(mkLe(mkInt(0), L), substVar(A, n, L), init)
		}
		return nil
	}
	if t.sort == SStr {
		if t.op == OIte && !t.args[0].hasVar(hv) {
			g, a, b := t.args[0], t.args[1], t.args[2]
			if a == hv {
				g, a, b = mkNot(g), b, a
			}
			if b == hv && !a.hasVar(hv) {
				L := mkLast(m, n, substVar(g, n, m))
				return mkIte(mkLe(mkInt(0), L), substVar(a, n, L), init)
			}
		}
		return nil
	}
	if v := lr.solveMM(ctx, t, hv, init); v != nil {
		return v
	}
	if a, b, ok := affine(t, hv); ok {
		if G := zeroCond(a); G != nil {
			G = ctx.simp(G)
			if G == tFalse {
				return lr.base.simp(mkAdd(init, mkSum(m, n, substVar(b, n, m))))
			}
			if d := ctx.with(mkNot(G)).simp(b); d.isZero() {
				v := ctx.with(G).simp(b)
				if r := lr.filter(ctx, c, G, v, init); r != nil {
					return r
				}
				// drop conditions of G from v
				gm := substVar(G, n, m)
				L := mkLast(m, n, gm)
				return lr.overwrite(ctx, L, gm, m, v, init)
			}
		}
		if b.isZero() {
			return lr.base.simp(mkMul(init, mkProd(m, n, substVar(a, n, m))))
		}
	}
	if G, v := overwriteForm(t, hv); v != nil {
		if r := lr.filter(ctx, c, G, v, init); r != nil {
			return r
		}
		if len(c.vars) == 0 {
			if r := lr.argMM(ctx, G, v, init); r != nil {
				return r
			}
		}
		gm := substVar(G, n, m)
		return lr.overwrite(ctx, mkLast(m, n, gm), gm, m, v, init)
	}
	if len(c.vars) == 0 {
		if r := lr.selfArgMM(ctx, t, hv, init); r != nil {
			return r
		}
	}
	// general self recurrence
	return mkBind("rec", t.sort, []*Term{m, hv}, []*Term{n, init}, []*Term{substVar(t, n, m)})
}

// overwriteForm: t is hv unless G, then v.
func overwriteForm(t, hv *Term) (G, v *Term) {
	if t == hv {
		return tFalse, nil
	}
	if !t.hasVar(hv) {
		return tTrue, t
	}
	if t.op != OIte || t.args[0].hasVar(hv) {
		return nil, nil
	}
	ga, va := overwriteForm(t.args[1], hv)
	gb, vb := overwriteForm(t.args[2], hv)
	if ga == nil || gb == nil {
		return nil, nil
	}
	G = mkOr(mkAnd(t.args[0], ga), mkAnd(mkNot(t.args[0]), gb))
	switch {
	case va == nil:
		v = vb
	case vb == nil:
		v = va
	default:
		v = mkIte(t.args[0], va, vb)
	}
	return G, v
}

// filter: cells written at position c0 + #{m<n: C(m)} in the iterations n with C(n).
func (lr *loopRun) filter(ctx *Ctx, c *comp, G, v, init *Term) *Term {
	n := lr.n
	if len(c.vars) == 0 {
		return nil
	}
	k := c.vars[len(c.vars)-1]
	cs := conjuncts(G)
	for i, e := range cs {
		if e.op != OEq0 || e.args[0].sort != SInt {
			continue
		}
		co, rest, ok := linearIn(e.args[0], k)
		if !ok || new(big.Rat).Abs(co).Cmp(ratOne) != 0 || rest.hasVar(k) {
			continue
		}
		L := mkScale(new(big.Rat).Neg(co), rest) // k == L(n)
		var rs []*Term
		rs = append(rs, cs[:i]...)
		rs = append(rs, cs[i+1:]...)
		C := mkAnd(rs...)
		if C.hasVar(k) {
			continue
		}
		m := fresh("fm", SInt)
		Cm := substVar(C, n, m)
		// the count is also used after the last iteration: no facts of the body
		cnt := lr.base.simp(mkSum(m, n, mkInd(Cm, SInt)))
		c0 := ctx.simp(mkSub(L, cnt))
		if c0.hasVar(n) {
			continue
		}
		idx := mkSub(k, c0)
		nth := mkBind("nth", SInt, []*Term{m}, []*Term{n, idx}, []*Term{Cm})
		v = ctx.with(C).simp(v)
		return mkIte(mkAnd(mkLe(mkInt(0), idx), mkLt(idx, cnt)), substVar(v, n, nth), init)
	}
	return nil
}

// unfilter: a body over the positions i < #{m<N: C(m)} that uses i only through the i-th such m.
func (c *Ctx) unfilter(v, cnt, body *Term) (N, cond, b *Term) {
	var x *Term
	walkTerm(body, func(t *Term) {
		if t.op == OBind && t.name == "nth" && t.args[1] == v {
			x = t
		}
	})
	if x == nil {
		return nil, nil, nil
	}
	vs, in := openBind(x)
	if in[0].hasVar(v) || x.args[0].hasVar(v) || c.simp(mkSum(vs[0], x.args[0], mkInd(in[0], SInt))) != cnt {
		return nil, nil, nil
	}
	mk := mkVar("unfilter@", SInt)
	b = replaceTerm(body, x, mk)
	if b.hasVar(v) {
		return nil, nil, nil
	}
	return x.args[0], substVar(in[0], vs[0], v), substVar(b, mk, v)
}

func (lr *loopRun) overwrite(ctx *Ctx, L, gm, m, v, init *Term) *Term {
	if L.op == OBind && L.name == "last" {
		return mkIte(mkLe(mkInt(0), L), substVar(v, lr.n, L), init)
	}
	// mkLast solved it: ite(ok, g, -1) in indicator form; recompute guard
	for _, c := range conjuncts(gm) {
		if e := solveEq(c, m); e != nil {
			ok := mkAnd(substVar(gm, m, e), mkLe(mkInt(0), e), mkLt(e, lr.n))
			return mkIte(ok, substVar(v, lr.n, e), init)
		}
	}
	return lr.base.simp(mkIte(mkLe(mkInt(0), L), substVar(v, lr.n, L), init))
}

// foldMM is the running minimum or maximum of e(n), starting at init (special: at e(0)).
type foldMM struct {
	op          Op
	e, init, at *Term
	special     bool
}

// argMM: v is taken in the iterations that improve a running minimum or maximum.
func (lr *loopRun) argMM(ctx *Ctx, G, v, init *Term) *Term {
	n := lr.n
	m := mkVar("m@"+lr.tag, SInt)
	iff := func(c *Ctx, a, b *Term) bool {
		a, b = c.simp(a), c.simp(b)
		return a == b || c.simp(mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))) == tTrue
	}
	for _, f := range lr.mms {
		c := ctx
		if f.special {
			if ctx.with(mkEq(n, mkInt(0))).simp(substVar(G, n, mkInt(0))) != tTrue {
				continue
			}
			c = ctx.with(mkLe(mkInt(1), n))
		}
		strict, weak := mkLt(f.e, f.at), mkLe(f.e, f.at)
		if f.op == OMax {
			strict, weak = mkLt(f.at, f.e), mkLe(f.at, f.e)
		}
		hit := mkEq(substVar(f.e, n, m), f.at)
		switch {
		case iff(c, G, strict):
			r := substVar(v, n, mkFirst(m, n, hit))
			if f.special {
				return mkIte(mkLe(mkInt(1), n), r, init)
			}
			if f.op == OMax {
				return mkIte(mkLt(f.init, f.at), r, init)
			}
			return mkIte(mkLt(f.at, f.init), r, init)
		case iff(c, G, weak):
			l := mkLast(m, n, hit)
			return mkIte(mkLe(mkInt(0), l), substVar(v, n, l), init)
		}
	}
	return nil
}

// selfArgMM: hv is the index of the best value f(index) so far, compared by f(hv) only.
func (lr *loopRun) selfArgMM(ctx *Ctx, t, hv, init *Term) *Term {
	n := lr.n
	if t.sort != SInt || t.op != OIte {
		return nil
	}
	g, v := t.args[0], t.args[1]
	if v == hv {
		g, v = mkNot(g), t.args[2]
	} else if t.args[2] != hv {
		return nil
	}
	d, ok := mkSub(v, n).int64()
	if !ok {
		return nil
	}
	k0, ok := init.int64()
	if !ok || k0 != d && k0 != d-1 {
		return nil
	}
	if g.op != OLt0 && g.op != OLe0 {
		return nil
	}
	E := g.args[0]
	var A, B []Mono
	for _, mo := range E.monos() {
		own := false
		for _, f := range mo.f {
			own = own || f.t.hasVar(hv)
		}
		if own {
			A = append(A, mo)
		} else {
			B = append(B, mo)
		}
	}
	f := mkPoly(E.sort, A)
	if len(A) == 0 || f.hasVar(n) {
		return nil
	}
	rest, ok := mkAdd(mkPoly(E.sort, B), replaceTerm(f, hv, v)).int64()
	strict := g.op == OLt0
	if E.sort == SInt && rest == 1 {
		strict, rest = true, 0
	}
	if !ok || rest != 0 {
		return nil
	}
	at := func(i *Term) *Term { return replaceTerm(f, hv, i) }
	// taken when f(hv) < f(v) (or <=): the index of the first (last) maximum of f
	m := mkVar("m@"+lr.tag, SInt)
	cnt := n
	if k0 == d-1 {
		cnt = mkAdd(n, mkInt(1))
	}
	e := at(mkAdd(m, mkInt(k0)))
	best := mkFoldMM(OMax, m, cnt, at(mkInt(k0)), e)
	var r *Term
	if strict {
		r = mkFirst(m, cnt, mkEq(e, best))
	} else {
		r = mkLast(m, cnt, mkEq(e, best))
	}
	r = mkAdd(r, mkInt(k0))
	if k0 == d {
		return mkIte(mkLe(mkInt(1), n), r, init)
	}
	return r
}

// solveMM recognises running maxima/minima.
func (lr *loopRun) solveMM(ctx *Ctx, t, hv, init *Term) Value {
	n := lr.n
	m := mkVar("m@"+lr.tag, SInt)
	if op, e := mmPattern(t, hv); e != nil {
		r := mkFoldMM(op, m, n, init, substVar(e, n, m))
		lr.mms = append(lr.mms, foldMM{op, e, init, r, false})
		return r
	}
	// first iteration special
	t0 := ctx.with(mkEq(n, mkInt(0))).simp(substVar(t, n, mkInt(0)))
	if !t0.hasVar(hv) {
		t1 := ctx.with(mkLe(mkInt(1), n)).simp(t)
		if op, e := mmPattern(t1, hv); e != nil {
			if ctx.simp(substVar(e, n, mkInt(0))) == t0 {
				r := mkFoldMM(op, m, n, t0, substVar(e, n, m))
				lr.mms = append(lr.mms, foldMM{op, e, t0, r, true})
				return mkIte(mkLe(mkInt(1), n), r, init)
			}
		}
	}
	return nil
}

func mmPattern(t, hv *Term) (Op, *Term) {
	if t.op == OMax || t.op == OMin {
		var rest []*Term
		own := false
		for _, a := range t.args {
			if a == hv {
				own = true
			} else if a.hasVar(hv) {
				return 0, nil
			} else {
				rest = append(rest, a)
			}
		}
		if own {
			return t.op, mkMinMax(t.op, rest...)
		}
	}
	if t.op == OIte {
		c, a, b := t.args[0], t.args[1], t.args[2]
		for flip := 0; flip < 2; flip++ {
			if b == hv {
				g := c
				if !g.hasVar(hv) {
					if op, e := mmPattern(a, hv); e != nil {
						inf := tInf
						if op == OMax {
							inf = mkNeg(tInf)
						}
						return op, mkIteRaw(g, e, inf)
					}
				} else if !a.hasVar(hv) && g.op == OAnd {
					var other []*Term
					var cmp *Term
					for _, x := range g.args {
						if x.hasVar(hv) {
							if cmp != nil {
								return 0, nil
							}
							cmp = x
						} else {
							other = append(other, x)
						}
					}
					if r := mkIte(cmp, a, hv); r.op == OMax || r.op == OMin {
						inf := tInf
						if r.op == OMax {
							inf = mkNeg(tInf)
						}
						return r.op, mkIteRaw(mkAnd(other...), a, inf)
					}
				}
			}
			c, a, b = mkNot(c), b, a
		}
	}
	return 0, nil
}

func mkIteRaw(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// solveOther handles transfers that read other cells of the same array: guess they still hold the
// initial content, then check against the resulting closed form.
func (lr *loopRun) solveOther(r *bodyResult, c *comp, t, hv, init *Term) Value {
	ctx := r.back.ctx()
	read := func(cl *Term, args []*Term) *Term {
		m := map[*Term]*Term{}
		for i, v := range c.vars {
			m[v] = args[i]
		}
		return newSubst(m).apply(cl)
	}
	t2 := replaceApps(t, func(a *Term) *Term {
		if a.name == c.sym {
			return read(init, a.args)
		}
		return nil
	})
	t2 = ctx.simp(t2)
	v := lr.solveScalar(ctx, c, t2, hv, init)
	cl, ok := v.(*Term)
	if !ok || cl == nil {
		return nil
	}
	// what was read must be what is there at the start of iteration n: the initial value
	if !lr.readsInit(ctx, c, t, func(ctx *Ctx, a []*Term) bool {
		got, want := ctx.simp(read(cl, a)), ctx.simp(read(init, a))
		return got == want || ctx.prove(mkEq(got, want))
	}) {
		return nil
	}
	return cl
}

// readsInit checks every read of component c within t, under the conditions it is read.
func (lr *loopRun) readsInit(ctx *Ctx, c *comp, t *Term, ok func(*Ctx, []*Term) bool) bool {
	if !t.hasSym(c.sym) {
		return true
	}
	all := func(ctx *Ctx, ts ...*Term) bool {
		for _, x := range ts {
			if !lr.readsInit(ctx, c, x, ok) {
				return false
			}
		}
		return true
	}
	switch t.op {
	case OApp:
		if !all(ctx, t.args...) {
			return false
		}
		return t.name != c.sym || ok(ctx, t.args)
	case OIte:
		g := t.args[0]
		return all(ctx, g) && all(ctx.with(g), t.args[1]) && all(ctx.with(mkNot(g)), t.args[2])
	case OPoly:
		for _, m := range t.mons {
			cm := ctx
			for _, f := range m.f {
				if f.t.op == OInd && !f.t.hasSym(c.sym) {
					cm = cm.with(f.t.args[0])
				}
			}
			for _, f := range m.f {
				if f.t.hasSym(c.sym) && !all(cm, f.t) {
					return false
				}
			}
		}
		return true
	case OBind:
		switch t.name {
		case "sum", "forall", "prod", "first", "last", "maxf", "minf":
		default:
			return false
		}
		vs := []*Term{mkVar(freshName("rd"), SInt)}
		if len(t.bvs) != 1 || !all(ctx, t.args[:t.nout]...) {
			return false
		}
		return all(ctx.withAll(mkLe(mkInt(0), vs[0]), mkLt(vs[0], t.args[0])), openWith(t, vs)...)
	}
	return all(ctx, t.args...)
}

// solveV: non-scalar leaves (references).
func (lr *loopRun) solveV(r *bodyResult, c *comp, T Value) Value {
	n := lr.n
	isSelf := func(v Value) bool {
		h, ok := v.(*HavocV)
		return ok && h.sym == c.sym && sameTerms(h.args, c.vars)
	}
	if isSelf(T) {
		return c.init
	}
	if lr.usesUnsolvedExcept(T, c) {
		return nil
	}
	u, ok := T.(*UnionV)
	if !ok {
		// overwritten every iteration
		if lr.usesUnsolved(T) {
			return nil
		}
		p := lr.rekeySub(mkSub(n, mkInt(1)), nil).v(T)
		return iteValue(mkLe(mkInt(1), n), p, c.init)
	}
	// union: all non-self alternatives must be tied to a unique iteration
	var selfG *Term = tFalse
	var alts []Alt
	for _, a := range u.alts {
		if isSelf(a.v) {
			selfG = mkOr(selfG, a.g)
		} else {
			alts = append(alts, a)
		}
	}
	wr := mkNot(selfG)
	if selfG == tFalse {
		p := lr.rekeySub(mkSub(n, mkInt(1)), nil).v(T)
		return iteValue(mkLe(mkInt(1), n), p, c.init)
	}
	var val Value = alts[len(alts)-1].v
	for i := len(alts) - 2; i >= 0; i-- {
		val = iteValue(alts[i].g, alts[i].v, val)
	}
	for _, k := range conjuncts(wr) {
		if e := solveEq(k, n); e != nil {
			g := mkAnd(mkLe(mkInt(0), e), mkLt(e, n), substVar(wr, n, e))
			g = lr.base.simp(g)
			return iteValue(g, lr.rekeySub(e, nil).v(val), c.init)
		}
	}
	m := mkVar("m@"+lr.tag, SInt)
	Lt := mkLast(m, n, substVar(wr, n, m))
	return iteValue(mkLe(mkInt(0), Lt), lr.rekeySub(Lt, nil).v(val), c.init)
}

func (lr *loopRun) usesUnsolvedExcept(v Value, c *comp) bool {
	lr.except = c
	defer func() { lr.except = nil }()
	return lr.usesUnsolved(v)
}

func newNoZ3(c *Ctx) *Ctx {
	n := newCtx()
	n.noZ3 = true
	return n
}

func (c *Ctx) parentOr() *Ctx { return c }

// exitBound: least n>=0 with exit condition, for linear conditions.
func (lr *loopRun) exitBound(ctx *Ctx, g *Term) *Term {
	n := lr.n
	g = ctx.simp(g)
	if g == tTrue {
		return mkInt(0)
	}
	if !g.hasVar(n) {
		return nil
	}
	switch g.op {
	case OLe0:
		p := g.args[0]
		if p.sort != SInt {
			return nil
		}
		a, b, ok := linearIn(p, n)
		if !ok || a.Sign() >= 0 || !a.IsInt() {
			return nil
		}
		cst := -a.Num().Int64()
		q := b
		if cst != 1 {
			q = ctx.divmod(ODiv, mkAdd(b, mkInt(cst-1)), mkInt(cst))
		}
		return ctx.simp(max0(q))
	case OEq0:
		if e := solveEq(g, n); e != nil && ctx.prove(mkLe(mkInt(0), e)) {
			return e
		}
	case OOr:
		var r *Term
		for _, a := range g.args {
			b := lr.exitBound(ctx, a)
			if b == nil {
				return nil
			}
			if r == nil {
				r = b
			} else {
				r = ctx.simp(mkMinMax(OMin, r, b))
			}
		}
		return r
	}
	return nil
}

func (lr *loopRun) finish() []edge {
	ex := lr.ex
	fr := lr.fr
	outer := lr.s0.base.with(lr.s0.pc)
	n := lr.n
	// a quiet run to obtain exit conditions
	ex.quiet++
	r := func() *bodyResult { defer func() { ex.quiet-- }(); return lr.body() }()
	var N, B *Term
	var others []*Term
	var mainEdge *edge
	if r.back == nil {
		N = mkInt(0)
	} else {
		for i := range r.exits {
			e := &r.exits[i]
			if mainEdge == nil || (e.from == lr.L.header && mainEdge.from != lr.L.header) {
				if b := lr.exitBound(lr.base, e.st.pc); b != nil {
					mainEdge = e
					B = b
				}
			}
		}
		for i := range r.exits {
			if e := &r.exits[i]; e != mainEdge {
				others = append(others, e.st.pc)
			}
		}
		for _, rr := range r.rets {
			others = append(others, rr.st.pc)
		}
		if B == nil {
			// an exit condition that is a conjunction containing one linear bound could be handled here
			s := ""
			for _, e := range r.exits {
				s += fmt.Sprintf(" [%v]", e.st.pc)
			}
			unsup("loop in %s (%s): no trip count; exit conditions%s", fr.fn, ex.posStr(lr.headerPos()), s)
		}
		if B.hasVar(n) {
			unsup("trip count depends on iteration")
		}
		N = B
		if len(others) > 0 {
			m := mkVar("m@"+lr.tag, SInt)
			ot := mkOr(others...)
			N = outer.simp(mkFirst(m, B, substVar(ot, n, m)))
			// facts for the final run
			lr.base = lr.base.with(mkForall(m, n, substVar(mkNot(ot), n, m)))
		}
	}
	lr.dbg("trip N=%v", N)
	if ex.quiet == 0 {
		// obligations are generated at an arbitrary iteration n
		r = lr.body()
	}
	// final states at n:=N
	sub := lr.rekeyExit(N, outer)
	var res []edge
	fix := func(st *State, isMain bool) *State {
		pc := sub.t(st.pc)
		if r.back != nil && len(others) > 0 {
			if isMain {
				pc = mkEq(N, B)
			} else {
				pc = mkAnd(pc, mkLt(N, B))
			}
		} else if isMain {
			pc = tTrue
		}
		ns := &State{lr.s0.base, mkAnd(lr.s0.pc, pc), make(Mem)}
		c2 := &VSub{s: sub.s, simp: outer.with(pc)}
		for l, c := range st.mem {
			if c == lr.s0.mem[l] {
				ns.mem[l] = c
				continue
			}
			if _, ok := lr.famC[l]; ok {
				ns.mem[l] = c
				continue
			}
			ns.mem[l] = &Content{c.vars, c2.v(c.body)}
		}
		return ns
	}
	// environment
	for b := range lr.L.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if x, ok := fr.env[v]; ok {
					fr.env[v] = sub.v(x)
				}
			}
		}
	}
	for _, e := range r.exits {
		isMain := mainEdge != nil && e.from == mainEdge.from && e.to == mainEdge.to
		ns := fix(e.st, isMain)
		if ns.pc == tFalse {
			continue
		}
		res = append(res, edge{e.from, e.to, ns})
	}
	for _, rr := range r.rets {
		ns := fix(rr.st, false)
		fr.rets = append(fr.rets, retRec{ns, sub.v(rr.val)})
	}
	return res
}

func (lr *loopRun) rekeyExit(N *Term, ctx *Ctx) *VSub {
	return &VSub{s: newSubst(map[*Term]*Term{lr.n: N}), simp: ctx}
}

// ---- unrolling of loops with a constant bound

func (fr *Frame) tryUnroll(L *loop, phis []*ssa.Phi, initP map[*ssa.Phi]Value, s0 *State) ([]edge, bool) {
	iff, ok := L.header.Instrs[len(L.header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	if e, ok := iff.Cond.(*ssa.Extract); ok {
		// values received from a channel
		u, ok := e.Tuple.(*ssa.UnOp)
		if !ok || u.Op != token.ARROW {
			return nil, false
		}
		ch, ok := fr.env[u.X]
		if !ok {
			return nil, false
		}
		fd, ok := fr.ex.feeds[fr.ex.chanLoc(s0, ch)]
		if !ok {
			return nil, false
		}
		if k, ok := fd.n.int64(); !ok || k > 12 {
			return nil, false
		}
		return fr.doUnroll(L, phis, initP, s0)
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	bound := func(v ssa.Value) (int64, bool) {
		var x Value
		if c, ok := v.(*ssa.Const); ok {
			x = fr.ex.constVal(c)
		} else if in, ok := v.(ssa.Instruction); ok && L.blocks[in.Block()] {
			if call, ok := v.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					if y, ok := fr.env[call.Call.Args[0]]; ok {
						if s, ok := y.(*SliceV); ok {
							x = s.len
						}
					}
				}
			}
			if x == nil {
				x = fr.peek(L, phis, initP, s0, v)
			}
			if x == nil {
				return 0, false
			}
		} else if y, ok := fr.env[v]; ok {
			x = y
		} else {
			for i, f := range fr.fn.FreeVars {
				if f == v {
					x = fr.binds[i]
				}
			}
		}
		t, ok := x.(*Term)
		if !ok {
			return 0, false
		}
		return t.int64()
	}
	k, ok := bound(bo.Y)
	if !ok {
		k, ok = bound(bo.X)
	}
	if !ok || k > 12 || k < -12 {
		return nil, false
	}
	// the compared phi must start from a constant
	okInit := false
	for _, p := range phis {
		if t, ok := initP[p].(*Term); ok && t.op == OConst && t.sort == SInt {
			okInit = true
		}
	}
	if !okInit {
		return nil, false
	}
	return fr.doUnroll(L, phis, initP, s0)
}

// peek evaluates a value of the loop header, before the first iteration (nil if that has effects).
func (fr *Frame) peek(L *loop, phis []*ssa.Phi, initP map[*ssa.Phi]Value, s0 *State, v ssa.Value) (r Value) {
	in := v.(ssa.Instruction)
	if in.Block() != L.header {
		return nil
	}
	for _, i := range L.header.Instrs {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.If, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return nil
			}
		default:
			return nil
		}
	}
	ex := fr.ex
	env, nobl := fr.env, len(ex.obls)
	fr.env = map[ssa.Value]Value{}
	for k, x := range env {
		fr.env[k] = x
	}
	ex.quiet++
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); !ok {
				panic(e)
			}
			r = nil
		}
		fr.env, ex.obls = env, ex.obls[:nobl]
		ex.quiet--
	}()
	for _, p := range phis {
		fr.env[p] = initP[p]
	}
	s := s0.clone()
	for _, i := range L.header.Instrs {
		switch i.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
			continue
		}
		fr.instr(s, i)
		if i == in {
			return fr.env[v]
		}
	}
	return nil
}

func (fr *Frame) doUnroll(L *loop, phis []*ssa.Phi, initP map[*ssa.Phi]Value, s0 *State) ([]edge, bool) {
	return fr.unrollLoop(L, phis, initP, s0, false)
}

// unrollLoop executes the iterations of a loop one by one; if once, there is at most one.
func (fr *Frame) unrollLoop(L *loop, phis []*ssa.Phi, initP map[*ssa.Phi]Value, s0 *State, once bool) ([]edge, bool) {
	ex := fr.ex
	nr := len(fr.rets)
	nobl := len(ex.obls)
	st := s0.clone()
	// keep path conditions small
	base := st.base
	cur := initP
	var exits []edge
	type snap struct {
		pc  *Term
		env map[ssa.Value]Value
	}
	var snaps []snap
	outer := ex.unroll
	defer func() { ex.unroll = outer }()
	for it := 0; ; it++ {
		ex.unroll = append(outer[:len(outer):len(outer)], it)
		if it > 14 || once && it > 0 {
			fr.rets = fr.rets[:nr]
			ex.obls = ex.obls[:nobl]
			return nil, false
		}
		for p, v := range cur {
			fr.env[p] = v
		}
		outs := fr.runRegion(L.blocks, L.header, st, L)
		var backs []edge
		var epc []*Term
		for _, e := range outs {
			if e.to == L.header {
				backs = append(backs, e)
			} else {
				exits = append(exits, e)
				epc = append(epc, e.st.pc)
				if e.from == L.header && len(outs) > 1 && !once {
					// undecided header exit: not a constant-trip loop
					fr.rets = fr.rets[:nr]
					ex.obls = ex.obls[:nobl]
					return nil, false
				}
			}
		}
		if len(epc) > 0 {
			sn := snap{mkOr(epc...), map[ssa.Value]Value{}}
			for b := range L.blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if x, ok := fr.env[v]; ok {
							sn.env[v] = x
						}
					}
				}
			}
			snaps = append(snaps, sn)
		}
		if len(backs) == 0 {
			break
		}
		var pcs []*Term
		var sts []*State
		for _, e := range backs {
			pcs = append(pcs, e.st.pc)
			sts = append(sts, e.st)
		}
		conds := stripCommon(pcs)
		nx := map[*ssa.Phi]Value{}
		for _, p := range phis {
			var vs []Value
			for _, e := range backs {
				vs = append(vs, fr.phiEdge(p, e.from))
			}
			nx[p] = mergeVals(conds, vs)
		}
		cur = nx
		st = ex.mergeStates(base, sts)
	}
	if len(snaps) > 1 {
		last := snaps[len(snaps)-1]
		for v := range last.env {
			var r Value = last.env[v]
			for i := len(snaps) - 2; i >= 0; i-- {
				if x, ok := snaps[i].env[v]; ok {
					r = iteValue(snaps[i].pc, x, r)
				}
			}
			fr.env[v] = r
		}
	}
	// Several exit edges may share (from,to): merge them so that phi edges stay well defined.
	return mergeExits(ex, base, exits), true
}

func mergeExits(ex *Exec, base *Ctx, es []edge) []edge {
	var res []edge
	for _, e := range es {
		found := false
		for i := range res {
			if res[i].from == e.from && res[i].to == e.to {
				res[i].st = ex.mergeStates(base, []*State{res[i].st, e.st})
				found = true
				break
			}
		}
		if !found {
			res = append(res, e)
		}
	}
	return res
}

// swaps: every iteration exchanges two entries of the slice.
func (lr *loopRun) swaps(ctx *Ctx, c *comp, t, hv, init *Term) Value {
	if c.loc == nil || !c.loc.region || len(c.vars) != 1 || len(c.path) != 0 || !t.hasSym(c.sym) {
		return nil
	}
	ln := lr.ex.regLen[c.loc]
	if ln == nil || ln.hasVar(lr.n) {
		return nil
	}
	k := c.vars[0]
	var reads []*Term
	bad := false
	walkTerm(t, func(a *Term) {
		if a.op == OApp && a.name == c.sym {
			for _, r := range reads {
				if r == a.args[0] {
					return
				}
			}
			reads = append(reads, a.args[0])
			bad = bad || a.args[0].hasVar(k) || a.args[0].hasSym(c.sym) || a.args[0].hasVar(hv)
		}
	})
	if bad || len(reads) != 2 {
		return nil
	}
	x, y := reads[0], reads[1]
	at := func(i *Term) *Term { return mkApp(c.sym, t.sort, i) }
	// two entries exchanged, as seen at x, at y and elsewhere
	if !ctx.prove(mkAnd(rng(x, ln), rng(y, ln))) {
		return nil
	}
	see := func(facts []*Term, i, want *Term) bool {
		cc := ctx.withAll(facts...)
		g := replaceTerm(t, hv, at(k))
		if i != nil {
			g = substVar(g, k, i)
		}
		g = cc.simp(g)
		return g == want || cc.prove(mkEq(g, want))
	}
	if !see(nil, x, at(y)) || !see(nil, y, at(x)) || !see([]*Term{mkNot(mkEq(k, x)), mkNot(mkEq(k, y))}, nil, at(k)) {
		return nil
	}
	m := mkVar("m@"+lr.tag, SInt)
	return substVar(init, k, mkPerm("perm", m, lr.n, ln, k, substVar(x, lr.n, m), substVar(y, lr.n, m)))
}

// phiStep is the constant added to an integer phi on every way round the loop, or 0.
func (lr *loopRun) phiStep(p *ssa.Phi) (d int64) {
	if s, ok := sortOf(p.Type()); !ok || s != SInt {
		return 0
	}
	for i, pr := range lr.L.header.Preds {
		if !lr.L.blocks[pr] {
			continue
		}
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(p) {
			return 0
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return 0
		}
		v := k.Int64()
		if b.Op == token.SUB {
			v = -v
		}
		if d != 0 && d != v {
			return 0
		}
		d = v
	}
	return d
}

// steps: some phi of the loop is a counter.
func (lr *loopRun) steps() bool {
	for _, p := range lr.phis {
		if lr.phiStep(p) != 0 {
			return true
		}
	}
	return false
}
