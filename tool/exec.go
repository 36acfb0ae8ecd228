package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// State of a symbolic execution point.
type State struct {
	base *Ctx
	pc   *Term
	mem  Mem
}

func (s *State) ctx() *Ctx     { return s.base.with(s.pc) }
func (s *State) clone() *State { return &State{s.base, s.pc, s.mem.clone()} }

// Obl is a proof obligation.
type Obl struct {
	Name   string
	Kind   string
	Pos    string
	facts  []*Term
	goal   *Term
	proved bool
	how    string
}

// Exec is a verification run of one contract.
type Exec struct {
	prog                 *ssa.Program
	fset                 *token.FileSet
	models               map[string]*ssa.Function
	quiet                int
	obls                 []*Obl
	oblSeen              map[string]int
	globals              map[*ssa.Global]*Loc
	depth                int
	funcs                map[string]bool // functions executed (under contract)
	modelsU              map[string]bool
	trusted              map[string]bool
	deadline             time.Time
	useBody              map[string]bool
	onSend               Value
	feeds                map[*Loc]feed
	regLen               map[*Loc]*Term
	subst                map[string]*FuncV
	nanSyms              map[string]bool
	covers               int
	coversOK             int
	asserts              int
	loops                int
	gor                  *gorState
	stack                []string
	fnStack              []*ssa.Function
	unroll               []int
	activeN              map[string]bool
	loopVars             []*Term
	tagIDs               map[string]int
	locs                 map[string]*Loc
	instrIDs             map[ssa.Instruction]int
	curInstr             ssa.Instruction
	lockDepth, parChecks int
	lockUsed             bool
	inputs               []inputRec
	inits                map[*ssa.Package]bool
	pathSel              []int // choices for spec.Choose
	pathPos              int
	pathMax              []int
	strides              []*Term // composite row strides of matrices
}

type inputRec struct {
	name string
	desc string
}

// Frame is a function activation
type Frame struct {
	ex     *Exec
	fn     *ssa.Function
	env    map[ssa.Value]Value
	binds  []Value
	rets   []retRec
	li     *loopInfo
	defers []deferRec
}

type retRec struct {
	st  *State
	val Value
}
type deferRec struct {
	pc   *Term
	call *ssa.CallCommon
	args []Value
	fv   Value
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ex.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Join(filepath.Base(filepath.Dir(q.Filename)), filepath.Base(q.Filename)), q.Line)
}

func (ex *Exec) checkTime() {
	if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
		unsup("time budget exhausted")
	}
}

// oblige records a proof obligation goal in state st.
func (ex *Exec) oblige(st *State, kind, name, pos string, goal *Term) {
	if ex.quiet > 0 || goal == tTrue && kind != "ensures" {
		if ex.quiet == 0 {
			ex.addObl(&Obl{Name: name, Kind: kind, Pos: pos, goal: goal, proved: true, how: "simplifier"})
		}
		return
	}
	o := &Obl{Name: name, Kind: kind, Pos: pos, goal: goal, facts: st.ctx().facts}
	c := st.ctx()
	q0 := statQueries
	if c.incons {
		o.proved, o.how = true, "path infeasible"
	} else if kind == "ensures" {
		o.proved = c.proveGoal(goal, 8)
	} else {
		o.proved = c.prove(goal) || c.proveGoal(goal, 4)
	}
	if o.proved && o.how == "" {
		if statQueries == q0 {
			o.how = "simplifier"
		} else {
			o.how = "z3"
		}
	}
	if !o.proved && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "UNPROVED [%s] %s at %s\n  goal: %v\n", kind, name, pos, c.simp(goal))
		for _, f := range c.facts {
			fmt.Fprintf(os.Stderr, "   fact: %v\n", f)
		}
	}
	ex.addObl(o)
}

func (ex *Exec) addObl(o *Obl) {
	ex.obls = append(ex.obls, o)
}

// ---- memory access

func (ex *Exec) readContent(st *State, c *Content, args []*Term) Value {
	if len(c.vars) == 0 {
		return c.body
	}
	m := map[*Term]*Term{}
	for i, v := range c.vars {
		if v != args[i] {
			m[v] = args[i]
		}
	}
	if len(m) == 0 {
		return c.body
	}
	vs := &VSub{s: newSubst(m), simp: st.ctx()}
	return vs.v(c.body)
}

func getPath(v Value, path []int) Value {
	for _, p := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[p]
		case *UnionV:
			var r Value
			for i := len(x.alts) - 1; i >= 0; i-- {
				y := getPath(x.alts[i].v, []int{p})
				if r == nil {
					r = y
				} else {
					r = iteValue(x.alts[i].g, y, r)
				}
			}
			v = r
		case *OpaqueV:
			return x
		default:
			unsup("path into %T", v)
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	x, ok := v.(*StructV)
	if !ok {
		unsup("store path into %s", vstr(v))
	}
	r := &StructV{append([]Value(nil), x.f...)}
	r.f[path[0]] = setPath(x.f[path[0]], path[1:], nv)
	return r
}

func (ex *Exec) content(st *State, l *Loc) *Content {
	c, ok := st.mem[l]
	if !ok {
		unsup("unknown location %s%d", l.name, l.id)
	}
	return c
}

// resolve narrows a union in the current context.
func (ex *Exec) resolve(st *State, v Value) Value {
	u, ok := v.(*UnionV)
	if !ok {
		return v
	}
	c := st.ctx()
	var alts []Alt
	for _, a := range u.alts {
		if c.prove(a.g) {
			return ex.resolve(st, a.v)
		}
		if c.prove(mkNot(a.g)) {
			continue
		}
		alts = append(alts, a)
	}
	if len(alts) == 1 {
		return ex.resolve(st, alts[0].v)
	}
	if len(alts) == 0 {
		return u.alts[0].v
	}
	return &UnionV{alts}
}

func (ex *Exec) load(st *State, pv Value, pos token.Pos) Value {
	pv = ex.resolve(st, pv)
	switch p := pv.(type) {
	case *PtrV:
		if p.loc == nil {
			ex.oblige(st, "panic", "nil pointer dereference", ex.posStr(pos), tFalse)
			panic(deadPath{})
		}
		ex.gorRead(p.loc)
		return getPath(ex.readContent(st, ex.content(st, p.loc), p.key), p.path)
	case *UnionV:
		var r Value
		for i := len(p.alts) - 1; i >= 0; i-- {
			if isNilPtr(p.alts[i].v) {
				ex.oblige(st, "panic", "nil pointer dereference", ex.posStr(pos), mkNot(p.alts[i].g))
				continue
			}
			s2 := &State{st.base, mkAnd(st.pc, p.alts[i].g), st.mem}
			y := ex.load(s2, p.alts[i].v, pos)
			if r == nil {
				r = y
			} else {
				r = iteValue(p.alts[i].g, y, r)
			}
		}
		return r
	}
	unsup("load through %s", vstr(pv))
	return nil
}

type deadPath struct{}

// idxGuard is the condition that content variables vars equal args.
func (ex *Exec) idxGuard(st *State, l *Loc, vars, args []*Term) *Term {
	var gs []*Term
	for i, v := range vars {
		if l.region && i == len(vars)-1 {
			gs = append(gs, ex.idxEq(st, v, args[i]))
		} else {
			gs = append(gs, mkEq(v, args[i]))
		}
	}
	return mkAnd(gs...)
}

// strideAtoms: candidate strides: atoms occurring in nonlinear int monomials
func strideAtoms(idx *Term) []*Term {
	cnt := map[*Term]int{}
	var l []*Term
	for _, m := range idx.monos() {
		deg := 0
		for _, f := range m.f {
			deg += f.p
		}
		if deg < 2 {
			continue
		}
		for _, f := range m.f {
			if cnt[f.t] == 0 {
				l = append(l, f.t)
			}
			cnt[f.t]++
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return cnt[l[i]] > cnt[l[j]] })
	return l
}

// strideCands: composite strides that occur, then single atoms.
func (ex *Exec) strideCands(idx *Term) []*Term {
	var l []*Term
	for _, s := range ex.strides {
		ok := true
		for _, m := range s.mons {
			for _, f := range m.f {
				if !occurs(idx, f.t) {
					ok = false
				}
			}
		}
		if ok {
			l = append(l, s)
		}
	}
	return append(l, strideAtoms(idx)...)
}

func occurs(t, a *Term) bool {
	for _, m := range t.monos() {
		for _, f := range m.f {
			if f.t == a {
				return true
			}
		}
	}
	return false
}

// idxEq builds k==idx, decoded in mixed radix when possible.
func (ex *Exec) idxEq(st *State, k, idx *Term) *Term {
	c := st.ctx()
	for _, s := range ex.strideCands(idx) {
		if q, r, ok := c.decode(idx, s); ok && !q.isZero() {
			return mkAnd(ex.idxEq(st, mkFDiv(k, s), q), ex.idxEq(st, mkFMod(k, s), r))
		}
	}
	return mkEq(k, idx)
}

// writeGuarded updates a location.
func (ex *Exec) store(st *State, pv Value, v Value, pos token.Pos) {
	pv = ex.resolve(st, pv)
	switch p := pv.(type) {
	case *PtrV:
		if p.loc == nil {
			ex.oblige(st, "panic", "nil pointer dereference", ex.posStr(pos), tFalse)
			panic(deadPath{})
		}
		ex.storeLoc(st, p.loc, p.key, p.path, v, tTrue)
		return
	case *UnionV:
		for _, a := range p.alts {
			q, ok := a.v.(*PtrV)
			if !ok {
				unsup("store through %s", vstr(pv))
			}
			if q.loc == nil {
				ex.oblige(st, "panic", "nil pointer dereference", ex.posStr(pos), mkNot(a.g))
				continue
			}
			ex.storeLoc(st, q.loc, q.key, q.path, v, a.g)
		}
		return
	}
	unsup("store through %s", vstr(pv))
}

func (ex *Exec) storeLoc(st *State, l *Loc, key []*Term, path []int, v Value, g *Term) {
	c := ex.content(st, l)
	guard := mkAnd(g, ex.idxGuard(st, l, c.vars, key))
	old := getPath(c.body, path)
	if l.region || !sameValue(old, v) { // "return x" of a captured named result stores x to itself
		ex.gorWrite(st, l)
	}
	if guard != tTrue {
		v = retarget(c, key, v)
	}
	nv := iteValue(guard, v, old)
	st.mem[l] = &Content{c.vars, setPath(c.body, path, nv)}
}

// retarget replaces reads App(sym,key) by App(sym,vars) inside v, for symbols
// applied to vars in the current content (valid under the guard vars==key).
func retarget(c *Content, key []*Term, v Value) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	syms := map[string]bool{}
	collectSyms(c.body, c.vars, syms)
	if len(syms) == 0 {
		return v
	}
	any := false
	arr := map[string]func([]*Term) *Term{}
	for s := range syms {
		s := s
		if !t.hasSym(s) {
			continue
		}
		any = true
		arr[s] = nil
	}
	if !any {
		return v
	}
	return replaceApps(t, func(a *Term) *Term {
		if _, ok := arr[a.name]; ok && sameTerms(a.args, key) {
			return mkApp(a.name, a.sort, c.vars...)
		}
		return nil
	})
}

func collectSyms(v Value, vars []*Term, out map[string]bool) {
	switch x := v.(type) {
	case *Term:
		walkTerm(x, func(t *Term) {
			if t.op == OApp && sameTerms(t.args, vars) && len(vars) > 0 {
				out[t.name] = true
			}
		})
	case *StructV:
		for _, f := range x.f {
			collectSyms(f, vars, out)
		}
	}
}

func walkTerm(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
		for _, m := range t.mons {
			for _, x := range m.f {
				w(x.t)
			}
		}
	}
	w(t)
}

// replaceApps rewrites applications bottom-up where f returns non-nil.
func replaceApps(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rw func(t *Term) *Term
	rw = func(t *Term) *Term {
		if len(t.syms) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case OApp:
			a := mapTerms(t.args, rw)
			r = t
			if !sameTerms(a, t.args) {
				r = rebuild(t, a)
			}
			if r.op == OApp {
				if x := f(r); x != nil {
					r = x
				}
			}
		case OPoly:
			var parts []*Term
			for _, m := range t.mons {
				x := mkConst(t.sort, m.c)
				for _, fc := range m.f {
					x = mkMul(x, mkPow(rw(fc.t), fc.p))
				}
				parts = append(parts, x)
			}
			r = mkAdd(parts...)
		case OBind:
			vs := make([]*Term, len(t.bvs))
			for i, b := range t.bvs {
				vs[i] = fresh("b", b.sort)
			}
			in := mapTerms(openWith(t, vs), rw)
			out := mapTerms(t.args[:t.nout], rw)
			if sameTerms(out, t.args[:t.nout]) && sameTerms(in, openWith(t, vs)) {
				r = t
			} else {
				r = rebuildBind(t, vs, out, in)
			}
		default:
			if len(t.args) == 0 {
				return t
			}
			r = rebuild(t, mapTerms(t.args, rw))
		}
		memo[t] = r
		return r
	}
	return rw(t)
}

// newRegion allocates a slice backing array with given content body over its index.
func (ex *Exec) newRegion(st *State, name string, elem types.Type, mk func(k *Term) Value) *Loc {
	l := ex.siteLoc(st, ex.siteKey(), name, elem, true)
	k := mkVar(fmt.Sprintf("k!%d", l.id), SInt)
	st.mem[l] = &Content{[]*Term{k}, mk(k)}
	ex.gorFresh(l)
	return l
}

func (ex *Exec) newCell(st *State, name string, t types.Type, v Value) *PtrV {
	l := ex.siteLoc(st, ex.siteKey(), name, t, false)
	st.mem[l] = &Content{nil, v}
	ex.gorFresh(l)
	return &PtrV{loc: l}
}

// ---- merging

func commonConj(cs []*Term) *Term {
	common := map[*Term]bool{}
	for i, c := range cs {
		m := map[*Term]bool{}
		for _, x := range conjuncts(c) {
			if i == 0 || common[x] {
				m[x] = true
			}
		}
		common = m
	}
	var r []*Term
	for _, x := range conjuncts(cs[0]) {
		if common[x] {
			r = append(r, x)
		}
	}
	return mkAnd(r...)
}

func stripCommon(cs []*Term) []*Term {
	if len(cs) < 2 {
		return cs
	}
	common := map[*Term]bool{}
	for _, x := range conjuncts(cs[0]) {
		common[x] = true
	}
	for _, c := range cs[1:] {
		m := map[*Term]bool{}
		for _, x := range conjuncts(c) {
			if common[x] {
				m[x] = true
			}
		}
		common = m
	}
	if len(common) == 0 {
		return cs
	}
	var r []*Term
	for _, c := range cs {
		var k []*Term
		for _, x := range conjuncts(c) {
			if !common[x] {
				k = append(k, x)
			}
		}
		r = append(r, mkAnd(k...))
	}
	return r
}

func mergeVals(conds []*Term, vs []Value) Value {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = iteValue(conds[i], vs[i], r)
	}
	return r
}

func (ex *Exec) mergeStates(base *Ctx, sts []*State) *State {
	if len(sts) == 1 {
		return &State{base, sts[0].pc, sts[0].mem.clone()}
	}
	pcs := make([]*Term, len(sts))
	for i, s := range sts {
		pcs[i] = s.pc
	}
	conds := stripCommon(pcs)
	pc := mkOr(conds...)
	if pc != tTrue && base.prove(pc) {
		pc = tTrue
	}
	pc = mkAnd(pc, commonConj(pcs))
	mem := make(Mem)
	all := map[*Loc]bool{}
	for _, s := range sts {
		for l := range s.mem {
			all[l] = true
		}
	}
	for l := range all {
		var vs []Value
		var cs []*Term
		var vars []*Term
		same := true
		var first *Content
		for i, s := range sts {
			c, ok := s.mem[l]
			if !ok {
				continue
			}
			if first == nil {
				first = c
				vars = c.vars
			} else if c != first {
				same = false
			}
			b := c.body
			if !sameTerms(c.vars, vars) {
				m := map[*Term]*Term{}
				for j := range vars {
					m[c.vars[j]] = vars[j]
				}
				b = (&VSub{s: newSubst(m)}).v(b)
			}
			vs = append(vs, b)
			cs = append(cs, conds[i])
		}
		if same {
			mem[l] = first
		} else {
			mem[l] = &Content{vars, mergeVals(cs, vs)}
		}
	}
	return &State{base, pc, mem}
}

// ---- region execution

func (fr *Frame) runRegion(blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *State, cur *loop) (outs []edge) {
	ex := fr.ex
	pending := map[*ssa.BasicBlock][]edge{}
	base := st.base
	push := func(e edge) {
		if e.st.pc == tFalse {
			return
		}
		if !blocks[e.to] || e.to == entry {
			outs = append(outs, e)
			return
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, b := range fr.li.rpo {
		if !blocks[b] {
			continue
		}
		ex.checkTime()
		var s *State
		if b == entry {
			s = st
		} else {
			es := pending[b]
			if len(es) == 0 {
				continue
			}
			if L := fr.li.headers[b]; L != nil && L != cur {
				for _, e := range fr.runLoop(L, es, base) {
					push(e)
				}
				continue
			}
			s = fr.enter(b, es, base)
		}
		if s.pc == tFalse {
			continue
		}
		for _, e := range fr.runBlock(b, s) {
			push(e)
		}
	}
	return outs
}

// enter merges incoming edges and evaluates phis.
func (fr *Frame) enter(b *ssa.BasicBlock, es []edge, base *Ctx) *State {
	sts := make([]*State, len(es))
	pcs := make([]*Term, len(es))
	for i, e := range es {
		sts[i] = e.st
		pcs[i] = e.st.pc
	}
	conds := stripCommon(pcs)
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []Value
		for _, e := range es {
			vs = append(vs, fr.phiEdge(phi, e.from))
		}
		phis = append(phis, phi)
		vals = append(vals, mergeVals(conds, vs))
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
	return fr.ex.mergeStates(base, sts)
}

func (fr *Frame) phiEdge(phi *ssa.Phi, from *ssa.BasicBlock) Value {
	for i, p := range phi.Block().Preds {
		if p == from {
			return fr.get(phi.Edges[i])
		}
	}
	panic("phi edge")
}

func (fr *Frame) runBlock(b *ssa.BasicBlock, st *State) (outs []edge) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(deadPath); ok {
				outs = nil
				return
			}
			panic(r)
		}
	}()
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := st.ctx().simp(fr.term(x.Cond))
			if c != tTrue && c != tFalse {
				if d := st.ctx().decide(c); d != nil {
					c = d
				}
			}
			if c == tTrue {
				return []edge{{b, b.Succs[0], st}}
			}
			if c == tFalse {
				return []edge{{b, b.Succs[1], st}}
			}
			s2 := st.clone()
			st.pc = mkAnd(st.pc, c)
			s2.pc = mkAnd(s2.pc, mkNot(c))
			return []edge{{b, b.Succs[0], st}, {b, b.Succs[1], s2}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var v Value
			if len(x.Results) == 1 {
				v = fr.get(x.Results[0])
			} else {
				t := &TupleV{}
				for _, r := range x.Results {
					t.f = append(t.f, fr.get(r))
				}
				v = t
			}
			fr.rets = append(fr.rets, retRec{st, v})
			return nil
		case *ssa.Panic:
			fr.ex.oblige(st, "panic", "explicit panic unreachable in "+fr.fn.Name(), fr.ex.posStr(x.Pos()), tFalse)
			return nil
		default:
			fr.instr(st, in)
		}
	}
	return nil
}

// ---- instructions

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.ex.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &FuncV{bt: x.Name()}
	case *ssa.Global:
		return &PtrV{loc: fr.ex.global(x)}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (fr *Frame) term(v ssa.Value) *Term {
	x := fr.get(v)
	if t, ok := x.(*Term); ok {
		return t
	}
	unsup("expected scalar for %s in %s, got %s", v.Name(), fr.fn, vstr(x))
	return nil
}

func (ex *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	s, ok := sortOf(c.Type())
	if !ok {
		return &OpaqueV{why: "const " + c.String()}
	}
	switch s {
	case SBool:
		return mkBool(constant.BoolVal(c.Value))
	case SStr:
		return mkStr(constant.StringVal(c.Value))
	}
	v := c.Value
	if s == SInt {
		v = constant.ToInt(v)
	} else {
		v = constant.ToFloat(v)
	}
	switch y := constant.Val(v).(type) {
	case int64:
		return mkConst(s, new(big.Rat).SetInt64(y))
	case *big.Int:
		return mkConst(s, new(big.Rat).SetInt(y))
	case *big.Rat:
		return mkConst(s, y)
	case *big.Float:
		r, _ := y.Rat(nil)
		return mkConst(s, r)
	}
	unsup("const %v", c)
	return nil
}

func (ex *Exec) global(g *ssa.Global) *Loc {
	if l, ok := ex.globals[g]; ok {
		return l
	}
	l := newLoc("glob."+g.Name(), g.Type().(*types.Pointer).Elem(), false)
	ex.globals[g] = l
	return l
}

func (fr *Frame) instr(st *State, in ssa.Instruction) {
	ex := fr.ex
	ex.curInstr = in
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok && !isSmallStructArray(x) {
			zero := zeroValue(at.Elem())
			l := ex.newRegion(st, "arr", at.Elem(), func(k *Term) Value { return zero })
			fr.env[x] = &PtrV{loc: l, key: []*Term{nil}} // whole-array pointer: key placeholder
			return
		}
		fr.env[x] = ex.newCell(st, x.Comment, t, zeroValue(t))
	case *ssa.BinOp:
		fr.env[x] = fr.binop(st, x.Op, fr.get(x.X), fr.get(x.Y), x.X.Type(), x.Pos())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := fr.get(x.X)
			if g, ok := x.X.(*ssa.Global); ok {
				ex.ensureGlobal(st, g)
			}
			if pp, ok := p.(*PtrV); ok && isArrPtr(pp) {
				fr.env[x] = ex.loadArray(st, pp, x.Type())
				return
			}
			fr.env[x] = ex.load(st, p, x.Pos())
		case token.SUB:
			fr.env[x] = mkNeg(fr.term(x.X))
		case token.NOT:
			fr.env[x] = mkNot(fr.term(x.X))
		case token.ARROW:
			fr.env[x] = ex.receive(st, fr, x)
		default:
			unsup("unop %v", x.Op)
		}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			ex.ensureGlobal(st, g)
		}
		v := fr.get(x.Val)
		p := fr.get(x.Addr)
		if pp, ok := p.(*PtrV); ok && isArrPtr(pp) {
			ex.storeArray(st, pp, v)
			return
		}
		ex.store(st, p, v, x.Pos())
	case *ssa.FieldAddr:
		fr.env[x] = fr.fieldAddr(st, fr.get(x.X), x.Field, x.Pos())
	case *ssa.Field:
		fr.env[x] = getPath(ex.resolve(st, fr.get(x.X)), []int{x.Field})
	case *ssa.IndexAddr:
		fr.env[x] = fr.indexAddr(st, fr.get(x.X), fr.term(x.Index), x.X.Type(), x.Pos())
	case *ssa.Index:
		v := fr.get(x.X)
		i := fr.term(x.Index)
		if s, ok := v.(*StructV); ok {
			if k, ok := i.int64(); ok {
				fr.env[x] = s.f[k]
				return
			}
			var r Value
			for j := len(s.f) - 1; j >= 0; j-- {
				if r == nil {
					r = s.f[j]
				} else {
					r = iteValue(mkEq(i, mkInt(int64(j))), s.f[j], r)
				}
			}
			fr.env[x] = r
			return
		}
		fr.env[x] = &OpaqueV{why: "index"}
	case *ssa.Slice:
		fr.env[x] = fr.slice(st, x)
	case *ssa.MakeSlice:
		n := fr.term(x.Len)
		cp := fr.term(x.Cap)
		if k := x.Pos(); n.op != OConst {
			ex.oblige(st, "bounds", "make length nonnegative in "+fr.fn.Name(), ex.posStr(k), mkLe(mkInt(0), n))
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		zero := zeroValue(et)
		l := ex.newRegion(st, "mk", et, func(k *Term) Value { return zero })
		ex.regLen[l] = cp
		fr.env[x] = &SliceV{loc: l, key: nil, off: mkInt(0), len: n, cap: cp}
	case *ssa.MakeInterface:
		fr.env[x] = &IfaceV{x.X.Type(), fr.get(x.X)}
	case *ssa.ChangeInterface:
		fr.env[x] = fr.get(x.X)
	case *ssa.ChangeType:
		fr.env[x] = fr.get(x.X)
	case *ssa.Convert:
		fr.env[x] = fr.convert(st, fr.get(x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, fr.get(b))
		}
		fr.env[x] = f
	case *ssa.Extract:
		t := fr.get(x.Tuple)
		switch tv := t.(type) {
		case *TupleV:
			fr.env[x] = tv.f[x.Index]
		case *OpaqueV:
			fr.env[x] = tv
		default:
			unsup("extract from %s", vstr(t))
		}
	case *ssa.TypeAssert:
		fr.env[x] = fr.typeAssert(st, x)
	case *ssa.Call:
		fr.env[x] = fr.call(st, &x.Call, x.Pos())
	case *ssa.Defer:
		d := deferRec{pc: st.pc, call: &x.Call}
		for _, a := range x.Call.Args {
			d.args = append(d.args, fr.get(a))
		}
		if !x.Call.IsInvoke() {
			d.fv = fr.get(x.Call.Value)
		} else {
			d.fv = fr.get(x.Call.Value)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			ex.callValue(st, d.fv, d.args, d.call, fr, d.call.Pos())
		}
		fr.defers = nil
	case *ssa.Go:
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, fr.get(a))
		}
		ex.goCall(st, fr, fr.get(x.Call.Value), args, &x.Call, x.Pos())
	case *ssa.MakeChan:
		fr.env[x] = ex.newCell(st, "chan", chanCell, &StructV{[]Value{mkInt(0), mkInt(0), tFalse}})
	case *ssa.Send:
		ex.send(st, fr, x)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		fr.env[x] = ex.newMap(st, mt)
	case *ssa.MapUpdate:
		ex.mapUpdate(st, fr.get(x.Map), fr.get(x.Key), fr.get(x.Value), x.Pos())
	case *ssa.Lookup:
		fr.env[x] = ex.mapLookup(st, fr.get(x.X), fr.get(x.Index), x)
	case *ssa.Range:
		fr.env[x] = &TupleV{[]Value{fr.get(x.X)}}
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

func isSmallStructArray(x *ssa.Alloc) bool { return false }

func isArrPtr(p *PtrV) bool {
	return p.loc != nil && p.loc.region && len(p.key) > 0 && p.key[len(p.key)-1] == nil
}

func (ex *Exec) loadArray(st *State, p *PtrV, t types.Type) Value {
	at := t.Underlying().(*types.Array)
	if at.Len() > 64 {
		unsup("large array load")
	}
	r := &StructV{}
	for i := int64(0); i < at.Len(); i++ {
		k := append(append([]*Term(nil), p.key[:len(p.key)-1]...), mkInt(i))
		r.f = append(r.f, getPath(ex.readContent(st, ex.content(st, p.loc), k), p.path))
	}
	return r
}
func (ex *Exec) storeArray(st *State, p *PtrV, v Value) {
	s, ok := v.(*StructV)
	if !ok {
		unsup("array store of %s", vstr(v))
	}
	for i := range s.f {
		k := append(append([]*Term(nil), p.key[:len(p.key)-1]...), mkInt(int64(i)))
		ex.storeLoc(st, p.loc, k, p.path, s.f[i], tTrue)
	}
}

func (fr *Frame) fieldAddr(st *State, v Value, field int, pos token.Pos) Value {
	v = fr.ex.resolve(st, v)
	switch p := v.(type) {
	case *PtrV:
		if p.loc == nil {
			fr.ex.oblige(st, "panic", "nil pointer dereference in "+fr.fn.Name(), fr.ex.posStr(pos), tFalse)
			panic(deadPath{})
		}
		return &PtrV{p.loc, p.key, append(append([]int(nil), p.path...), field)}
	case *UnionV:
		var r Value
		for i := len(p.alts) - 1; i >= 0; i-- {
			if isNilPtr(p.alts[i].v) {
				fr.ex.oblige(st, "panic", "nil pointer dereference in "+fr.fn.Name(), fr.ex.posStr(pos), mkNot(p.alts[i].g))
				continue
			}
			y := fr.fieldAddr(st, p.alts[i].v, field, pos)
			if r == nil {
				r = y
			} else {
				r = iteValue(p.alts[i].g, y, r)
			}
		}
		return r
	}
	unsup("field address of %s", vstr(v))
	return nil
}

func (fr *Frame) inRange(st *State, i, n *Term, what string, pos token.Pos) {
	g := mkAnd(mkLe(mkInt(0), i), mkLt(i, n))
	fr.ex.oblige(st, "bounds", what+" in "+fr.fn.Name(), fr.ex.posStr(pos), g)
}

func (fr *Frame) indexAddr(st *State, v Value, i *Term, t types.Type, pos token.Pos) Value {
	ex := fr.ex
	v = ex.resolve(st, v)
	switch s := v.(type) {
	case *SliceV:
		fr.inRange(st, i, s.len, "index in range", pos)
		if s.loc == nil {
			panic(deadPath{})
		}
		return &PtrV{s.loc, append(append([]*Term(nil), s.key...), mkAdd(s.off, i)), nil}
	case *PtrV: // pointer to array
		at, ok := t.Underlying().(*types.Pointer)
		if ok {
			if a, ok := at.Elem().Underlying().(*types.Array); ok {
				fr.inRange(st, i, mkInt(a.Len()), "array index in range", pos)
				if isArrPtr(s) {
					k := append(append([]*Term(nil), s.key[:len(s.key)-1]...), i)
					return &PtrV{s.loc, k, nil}
				}
				if k, ok := i.int64(); ok {
					return &PtrV{s.loc, s.key, append(append([]int(nil), s.path...), int(k))}
				}
				// symbolic index into a small array inside a struct: guarded choice
				var r Value
				for j := int(a.Len()) - 1; j >= 0; j-- {
					p := &PtrV{s.loc, s.key, append(append([]int(nil), s.path...), j)}
					if r == nil {
						r = p
					} else {
						r = iteValue(mkEq(i, mkInt(int64(j))), p, r)
					}
				}
				return r
			}
		}
	case *UnionV:
		var r Value
		for k := len(s.alts) - 1; k >= 0; k-- {
			s2 := &State{st.base, mkAnd(st.pc, s.alts[k].g), st.mem}
			if sl, ok := s.alts[k].v.(*SliceV); ok && sl.loc == nil {
				ex.oblige(s2, "bounds", "index in range in "+fr.fn.Name(), ex.posStr(pos), tFalse)
				continue
			}
			y := fr.indexAddr(s2, s.alts[k].v, i, t, pos)
			if r == nil {
				r = y
			} else {
				r = iteValue(s.alts[k].g, y, r)
			}
		}
		return r
	}
	unsup("index of %s", vstr(v))
	return nil
}

func (fr *Frame) slice(st *State, x *ssa.Slice) Value {
	ex := fr.ex
	v := ex.resolve(st, fr.get(x.X))
	var lo, hi *Term
	if x.Low != nil {
		lo = fr.term(x.Low)
	}
	if x.High != nil {
		hi = fr.term(x.High)
	}
	return fr.sliceV(st, v, lo, hi, x.X.Type(), x.Pos())
}
func (fr *Frame) sliceV(st *State, v Value, lo, hi *Term, t types.Type, pos token.Pos) Value {
	ex := fr.ex
	if lo == nil {
		lo = mkInt(0)
	}
	switch s := v.(type) {
	case *SliceV:
		if hi == nil {
			hi = s.len
		}
		g := mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, s.cap))
		ex.oblige(st, "bounds", "slice bounds in "+fr.fn.Name(), ex.posStr(pos), g)
		if s.loc == nil {
			return s
		}
		return &SliceV{s.loc, s.key, mkAdd(s.off, lo), mkSub(hi, lo), mkSub(s.cap, lo)}
	case *PtrV:
		at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isArrPtr(s) {
			unsup("slice of embedded array")
		}
		n := mkInt(at.Len())
		if hi == nil {
			hi = n
		}
		ex.oblige(st, "bounds", "slice bounds in "+fr.fn.Name(), ex.posStr(pos), mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)))
		return &SliceV{s.loc, s.key[:len(s.key)-1], lo, mkSub(hi, lo), mkSub(n, lo)}
	case *Term: // string slicing
		if hi == nil {
			hi = mkInt(-1)
		}
		return mkApp("substr", SStr, s, lo, hi)
	case *OpaqueV:
		return s
	case *UnionV:
		var r Value
		for k := len(s.alts) - 1; k >= 0; k-- {
			s2 := &State{st.base, mkAnd(st.pc, s.alts[k].g), st.mem}
			y := fr.sliceV(s2, s.alts[k].v, lo, hi, t, pos)
			if r == nil {
				r = y
			} else {
				r = iteValue(s.alts[k].g, y, r)
			}
		}
		return r
	}
	unsup("slice of %s", vstr(v))
	return nil
}

func (ex *Exec) isNaN(t *Term) *Term {
	switch t.op {
	case OConst:
		return tFalse
	case OVar:
		if t == tNaN {
			return tTrue
		}
		if ex.nanSyms[t.name] {
			return mkApp("isnan", SBool, t)
		}
		return tFalse
	case OApp:
		if ex.nanSyms[t.name] {
			return mkApp("isnan", SBool, t)
		}
		return tFalse
	case OIte:
		return mkIteB(t.args[0], ex.isNaN(t.args[1]), ex.isNaN(t.args[2]))
	case OPoly:
		// ind-guarded monomials: NaN only matters when guard holds
		var rs []*Term
		for _, m := range t.mons {
			var gs []*Term
			var ns []*Term
			for _, f := range m.f {
				if f.t.op == OInd {
					gs = append(gs, f.t.args[0])
				} else if n := ex.isNaN(f.t); n != tFalse {
					ns = append(ns, n)
				}
			}
			if len(ns) > 0 {
				rs = append(rs, mkAnd(append(gs, mkOr(ns...))...))
			}
		}
		return mkOr(rs...)
	}
	return tFalse
}

func (fr *Frame) binop(st *State, op token.Token, a, b Value, t types.Type, pos token.Pos) Value {
	ex := fr.ex
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		switch ta.sort {
		case SBool:
			switch op {
			case token.EQL:
				return mkEq(ta, tb)
			case token.NEQ:
				return mkNot(mkEq(ta, tb))
			case token.AND, token.LAND:
				return mkAnd(ta, tb)
			case token.OR, token.LOR:
				return mkOr(ta, tb)
			}
		case SStr:
			switch op {
			case token.EQL:
				return mkEq(ta, tb)
			case token.NEQ:
				return mkNot(mkEq(ta, tb))
			case token.ADD:
				if ta.op == OStr && tb.op == OStr {
					return mkStr(ta.name + tb.name)
				}
				return mkApp("strcat", SStr, ta, tb)
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if ta.op == OStr && tb.op == OStr {
					c := strings.Compare(ta.name, tb.name)
					return mkBool(op == token.LSS && c < 0 || op == token.GTR && c > 0 || op == token.LEQ && c <= 0 || op == token.GEQ && c >= 0)
				}
				return mkApp("strcmp"+op.String(), SBool, ta, tb)
			}
		case SReal, SInt:
			switch op {
			case token.ADD:
				return mkAdd(ta, tb)
			case token.SUB:
				return mkSub(ta, tb)
			case token.MUL:
				return mkMul(ta, tb)
			case token.QUO:
				if ta.sort == SReal {
					return mkRDiv(ta, tb)
				}
				ex.oblige(st, "panic", "division by zero in "+fr.fn.Name(), ex.posStr(pos), mkNot(mkEq(tb, mkInt(0))))
				return ex.intDiv(st, ta, tb, ODiv)
			case token.REM:
				ex.oblige(st, "panic", "division by zero in "+fr.fn.Name(), ex.posStr(pos), mkNot(mkEq(tb, mkInt(0))))
				return ex.intDiv(st, ta, tb, OMod)
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				var r *Term
				nan := tFalse
				if ta.sort == SReal {
					nan = mkOr(ex.isNaN(ta), ex.isNaN(tb))
				}
				switch op {
				case token.EQL:
					r = mkEq(ta, tb)
				case token.NEQ:
					return mkOr(nan, mkNot(mkEq(ta, tb)))
				case token.LSS:
					r = mkLt(ta, tb)
				case token.LEQ:
					r = mkLe(ta, tb)
				case token.GTR:
					r = mkLt(tb, ta)
				case token.GEQ:
					r = mkLe(tb, ta)
				}
				return mkAnd(mkNot(nan), r)
			case token.SHL:
				if k, ok := tb.int64(); ok && k < 62 {
					return mkMul(ta, mkInt(1<<uint(k)))
				}
				return mkMul(ta, mkApp("pow2", SInt, tb))
			case token.SHR:
				if k, ok := tb.int64(); ok && k < 62 && st.ctx().prove(mkLe(mkInt(0), ta)) {
					return mkFDiv(ta, mkInt(1<<uint(k)))
				}
			case token.AND:
				if tb.isInt64(1) && st.ctx().prove(mkLe(mkInt(0), ta)) {
					return mkFMod(ta, mkInt(2))
				}
			}
			return mkApp("bit"+op.String(), SInt, ta, tb)
		}
	}
	// reference comparisons
	if op == token.EQL || op == token.NEQ {
		r := ex.refEq(st, a, b)
		if op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	if _, ok := a.(*OpaqueV); ok {
		return &OpaqueV{why: "binop"}
	}
	unsup("binop %v on %s , %s", op, vstr(a), vstr(b))
	return nil
}

func (ex *Exec) intDiv(st *State, a, b *Term, op Op) *Term {
	if x, ok := a.int64(); ok {
		if y, ok := b.int64(); ok && y != 0 {
			if op == ODiv {
				return mkInt(x / y)
			}
			return mkInt(x % y)
		}
	}
	c := st.ctx()
	if c.prove(mkLe(mkInt(0), a)) && c.prove(mkLt(mkInt(0), b)) {
		return c.divmod(op, a, b)
	}
	n := "tdiv"
	if op == OMod {
		n = "trem"
	}
	return mkApp(n, SInt, a, b)
}

func (ex *Exec) refEq(st *State, a, b Value) *Term {
	a, b = ex.resolve(st, a), ex.resolve(st, b)
	if u, ok := a.(*UnionV); ok {
		var rs []*Term
		for _, al := range u.alts {
			rs = append(rs, mkAnd(al.g, ex.refEq(st, al.v, b)))
		}
		return mkOr(rs...)
	}
	if _, ok := b.(*UnionV); ok {
		return ex.refEq(st, b, a)
	}
	switch x := a.(type) {
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			break
		}
		if x.loc != y.loc {
			return tFalse
		}
		if x.loc == nil {
			return tTrue
		}
		if !samePath(x.path, y.path) {
			return tFalse
		}
		var g []*Term
		for i := range x.key {
			if x.key[i] == nil || y.key[i] == nil {
				continue
			}
			g = append(g, mkEq(x.key[i], y.key[i]))
		}
		return mkAnd(g...)
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if y.loc == nil {
				return mkBool(x.loc == nil)
			}
			if x.loc == nil {
				return mkBool(y.loc == nil)
			}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			return mkBool(x.loc == y.loc)
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			xn := x.fn == nil && x.bt == ""
			yn := y.fn == nil && y.bt == ""
			if xn || yn {
				return mkBool(xn && yn)
			}
		}
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			break
		}
		if x.typ == nil || y.typ == nil {
			return mkBool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return tFalse
		}
		return ex.valEq(st, x.val, y.val)
	case *StructV:
		return ex.valEq(st, a, b)
	case *OpaqueV:
		if y, ok := b.(*IfaceV); ok && y.typ == nil {
			return tFalse // opaque values are non-nil
		}
	}
	if y, ok := b.(*OpaqueV); ok {
		_ = y
		if x, ok := a.(*IfaceV); ok && x.typ == nil {
			return tFalse
		}
	}
	unsup("reference comparison %s == %s", vstr(a), vstr(b))
	return nil
}

func (ex *Exec) valEq(st *State, a, b Value) *Term {
	if x, ok := a.(*Term); ok {
		return mkEq(x, b.(*Term))
	}
	if x, ok := a.(*StructV); ok {
		y := b.(*StructV)
		r := tTrue
		for i := range x.f {
			r = mkAnd(r, ex.valEq(st, x.f[i], y.f[i]))
		}
		return r
	}
	return ex.refEq(st, a, b)
}

func (fr *Frame) convert(st *State, v Value, from, to types.Type) Value {
	sf, ok1 := sortOf(from)
	stt, ok2 := sortOf(to)
	if t, ok := v.(*Term); ok && ok1 && ok2 {
		switch {
		case sf == stt:
			return t
		case sf == SInt && stt == SReal:
			return mkToReal(t)
		case sf == SReal && stt == SInt:
			return mkTrunc(t)
		}
		return mkApp("conv", stt, t)
	}
	if _, ok := v.(*OpaqueV); ok {
		return v
	}
	return &OpaqueV{why: "convert"}
}

func (fr *Frame) typeAssert(st *State, x *ssa.TypeAssert) Value {
	ex := fr.ex
	v := ex.resolve(st, fr.get(x.X))
	return fr.typeAssertV(st, v, x)
}

func (fr *Frame) typeAssertV(st *State, v Value, x *ssa.TypeAssert) Value {
	ex := fr.ex
	if u, ok := v.(*UnionV); ok {
		var r Value
		for k := len(u.alts) - 1; k >= 0; k-- {
			s2 := &State{st.base, mkAnd(st.pc, u.alts[k].g), st.mem}
			y := fr.typeAssertV(s2, u.alts[k].v, x)
			if r == nil {
				r = y
			} else {
				r = iteValue(u.alts[k].g, y, r)
			}
		}
		return r
	}
	if o, ok := v.(*OpaqueV); ok {
		if x.CommaOk {
			unsup("type assertion on opaque %s", o.why)
		}
		return o
	}
	i, ok := v.(*IfaceV)
	if !ok {
		unsup("type assert on %s", vstr(v))
	}
	match := false
	var res Value
	if i.typ != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			match = types.Implements(i.typ, it)
			res = i
		} else {
			match = types.Identical(i.typ, x.AssertedType)
			res = i.val
		}
	}
	if !match {
		res = zeroValue(x.AssertedType)
	}
	if x.CommaOk {
		return &TupleV{[]Value{res, mkBool(match)}}
	}
	if !match {
		ex.oblige(st, "panic", "type assertion holds in "+fr.fn.Name(), ex.posStr(x.Pos()), tFalse)
		panic(deadPath{})
	}
	return res
}

// ---- maps

func (ex *Exec) newMap(st *State, mt *types.Map) Value {
	l := ex.siteLoc(st, ex.siteKey(), "map", mt, false)
	l.isMap = true
	ks, ok := sortOf(mt.Key())
	if !ok {
		// opaque map
		st.mem[l] = &Content{nil, &StructV{[]Value{tFalse, zeroValue(mt.Elem()), mkInt(0)}}}
		return &MapV{loc: l}
	}
	k := mkVar(fmt.Sprintf("mk!%d", l.id), ks)
	st.mem[l] = &Content{[]*Term{k}, &StructV{[]Value{tFalse, zeroValue(mt.Elem())}}}
	return &MapV{loc: l}
}

func (ex *Exec) mapUpdate(st *State, m, k, v Value, pos token.Pos) {
	mv, ok := ex.resolve(st, m).(*MapV)
	if !ok {
		unsup("map update on %s", vstr(m))
	}
	if mv.loc == nil {
		ex.oblige(st, "panic", "assignment to nil map", ex.posStr(pos), tFalse)
		panic(deadPath{})
	}
	kt, ok := k.(*Term)
	if !ok {
		unsup("map key %s", vstr(k))
	}
	ex.gorWrite(st, mv.loc)
	c := ex.content(st, mv.loc)
	key := append(append([]*Term(nil), mv.key...), kt)
	g := tTrue
	for i := range c.vars {
		g = mkAnd(g, mkEq(c.vars[i], key[i]))
	}
	old := c.body.(*StructV)
	var vv Value = v
	if t, ok := v.(*Term); ok {
		vv = retarget(c, key, t)
	}
	st.mem[mv.loc] = &Content{c.vars, &StructV{[]Value{iteValue(g, Value(tTrue), old.f[0]), iteValue(g, vv, old.f[1])}}}
}

func (ex *Exec) mapLookup(st *State, m, k Value, x *ssa.Lookup) Value {
	m = ex.resolve(st, m)
	mv, ok := m.(*MapV)
	if !ok {
		if t, ok := m.(*Term); ok && t.sort == SStr {
			return mkApp("strat", SInt, t, k.(*Term))
		}
		unsup("lookup on %s", vstr(m))
	}
	vt := x.Type()
	if x.CommaOk {
		vt = vt.(*types.Tuple).At(0).Type()
	}
	if mv.loc == nil {
		z := zeroValue(vt)
		if x.CommaOk {
			return &TupleV{[]Value{z, tFalse}}
		}
		return z
	}
	kt, ok := k.(*Term)
	if !ok {
		unsup("map key %s", vstr(k))
	}
	r := ex.readContent(st, ex.content(st, mv.loc), append(append([]*Term(nil), mv.key...), kt)).(*StructV)
	if x.CommaOk {
		return &TupleV{[]Value{r.f[1], r.f[0]}}
	}
	return r.f[1]
}

// ensureGlobal makes sure a global has content; package initialisers are run once.
func (ex *Exec) ensureGlobal(st *State, g *ssa.Global) {
	l := ex.global(g)
	if _, ok := st.mem[l]; ok {
		return
	}
	st.mem[l] = &Content{nil, ex.globalInit(st, g)}
}

func (ex *Exec) globalInit(st *State, g *ssa.Global) Value {
	t := g.Type().(*types.Pointer).Elem()
	full := g.Pkg.Pkg.Path() + "." + g.Name()
	_ = full
	if strings.Contains(g.Pkg.Pkg.Path(), "pa-m/sklearn") && !ex.inits[g.Pkg] {
		ex.inits[g.Pkg] = true
		init := g.Pkg.Func("init")
		func() {
			ex.quiet++
			defer func() {
				ex.quiet--
				recover()
			}()
			fr := &Frame{ex: ex, fn: init, env: map[ssa.Value]Value{}, li: loopsOf(init)}
			s2 := &State{newCtx(), tTrue, st.mem}
			// package level initialiser: run straight-line, skipping calls to other inits
			for _, b := range init.Blocks {
				for _, in := range b.Instrs {
					func() {
						defer func() { recover() }()
						switch x := in.(type) {
						case *ssa.Store:
							if gg, ok := x.Addr.(*ssa.Global); ok {
								if gg.Name() == "init$guard" {
									return
								}
								s2.mem[ex.global(gg)] = &Content{nil, fr.get(x.Val)}
								return
							}
							fr.instr(s2, in)
						case *ssa.Call:
							if f, ok := x.Call.Value.(*ssa.Function); ok && strings.HasPrefix(f.Name(), "init") {
								return
							}
							fr.instr(s2, in)
						case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
						default:
							fr.instr(s2, in)
						}
					}()
				}
			}
		}()
		if c, ok := st.mem[ex.global(g)]; ok {
			return c.body
		}
	}
	if s, ok := sortOf(t); ok {
		return mkApp("glob:"+full, s)
	}
	return zeroValue(t)
}
