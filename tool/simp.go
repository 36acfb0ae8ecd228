package main

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
)

// Ctx is an immutable set of facts with caches.
type Ctx struct {
	parent *Ctx
	facts  []*Term // all facts, flattened
	has    map[*Term]bool
	simpM  map[*Term]*Term
	proveM map[*Term]int8 // 1 proved, -1 not proved (quick)
	kids   map[*Term]*Ctx
	bounds map[string]*big.Rat // nonconst key of p -> largest c with p_nonconst + c <= 0
	incons bool
	noZ3   bool
}

func newCtx() *Ctx {
	return &Ctx{has: map[*Term]bool{}, simpM: map[*Term]*Term{}, proveM: map[*Term]int8{}, kids: map[*Term]*Ctx{}, bounds: map[string]*big.Rat{}}
}

func (c *Ctx) with(f *Term) *Ctx {
	if f == tTrue || c.has[f] {
		return c
	}
	if k, ok := c.kids[f]; ok {
		return k
	}
	n := newCtx()
	n.parent = c
	n.noZ3 = c.noZ3
	n.incons = c.incons
	n.facts = append(n.facts, c.facts...)
	for k := range c.has {
		n.has[k] = true
	}
	for k, v := range c.bounds {
		n.bounds[k] = v
	}
	for _, g := range conjuncts(f) {
		n.addFact(g)
	}
	c.kids[f] = n
	return n
}

func (c *Ctx) withAll(fs ...*Term) *Ctx {
	for _, f := range fs {
		c = c.with(f)
	}
	return c
}

func (c *Ctx) addFact(g *Term) {
	if g == tFalse {
		c.incons = true
	}
	if c.has[g] {
		return
	}
	if c.has[mkNot(g)] {
		c.incons = true
	}
	c.has[g] = true
	c.facts = append(c.facts, g)
	add := func(p *Term, strict bool) {
		cst, r := splitConst(p)
		k := facsKeyAll(r)
		if o, ok := c.bounds[k]; !ok || cst.Cmp(o) > 0 {
			c.bounds[k] = cst
		}
	}
	switch g.op {
	case OLe0:
		add(g.args[0], false)
	case OLt0:
		add(g.args[0], true)
	case OEq0:
		add(g.args[0], false)
		add(mkNeg(g.args[0]), false)
	}
	if g.op == OEq0 || g.op == OLe0 {
		for _, d := range derived(g.args[0]) {
			c.addFact(d)
		}
	}
}

// derived: consequences of t<=0 for t a sum of non-negative terms or a square root.
func derived(t *Term) []*Term {
	ms := t.monos()
	if len(ms) != 1 || len(ms[0].f) != 1 || ms[0].f[0].p != 1 || ms[0].c.Sign() < 0 {
		return nil
	}
	a := ms[0].f[0].t
	switch {
	case a.op == OApp && a.name == "sqrt":
		return []*Term{mkLe(a.args[0], mkConst(a.sort, ratZero))}
	case a.op == OBind && a.name == "sum" && len(a.bvs) == 1 && (syntNonneg(a.args[1]) || sumOfSquares(a.args[1])):
		vs, in := openBind(a)
		return []*Term{mkForall(vs[0], a.args[0], mkEq(in[0], mkConst(in[0].sort, ratZero)))}
	}
	return nil
}

func facsKeyAll(ms []Mono) string {
	s := ""
	for _, m := range ms {
		s += m.c.RatString() + "*" + facKey(m.f) + "+"
	}
	return s
}

// quickProve tries cheap syntactic arguments: 1 proved, 0 unknown
func (c *Ctx) quickProve(g *Term) bool {
	if g == tTrue || c.incons || c.has[g] {
		return true
	}
	switch g.op {
	case OAnd:
		for _, a := range g.args {
			if !c.quickProve(a) {
				return false
			}
		}
		return true
	case OOr:
		for _, a := range g.args {
			if c.quickProve(a) {
				return true
			}
		}
		return false
	case OLe0, OLt0:
		p := g.args[0]
		if c.quickLe(p, g.op == OLt0) {
			return true
		}
	}
	return false
}

func (c *Ctx) quickLe(p *Term, strict bool) bool {
	cst, r := splitConst(p)
	if b, ok := c.bounds[facsKeyAll(r)]; ok {
		// r + b <= 0 ; want r + cst <= 0
		if d := cst.Cmp(b); d < 0 || (d == 0 && !strict) {
			return true
		}
	}
	for _, f := range c.facts {
		if f.op != OLe0 && f.op != OLt0 {
			continue
		}
		if f.args[0].sort != p.sort {
			continue
		}
		// p - q <= 0 by another fact?
		d := mkSub(p, f.args[0])
		if d.op == OConst {
			if s := d.rat.Sign(); s < 0 || (s == 0 && !strict) {
				return true
			}
			continue
		}
		if len(d.monos()) > len(p.monos())+1 {
			continue
		}
		dc, dr := splitConst(d)
		if b, ok := c.bounds[facsKeyAll(dr)]; ok {
			if x := dc.Cmp(b); x < 0 || (x == 0 && !strict) {
				return true
			}
		}
	}
	return false
}

func worthZ3(g *Term) bool {
	return true
}

// prove with modest effort.
func (c *Ctx) prove(g *Term) bool {
	if g == tTrue {
		return true
	}
	if g == tFalse {
		return c.inconsistent()
	}
	if v, ok := c.proveM[g]; ok {
		return v > 0
	}
	if c.quickProve(g) {
		statQuick++
		c.proveM[g] = 1
		return true
	}
	if c.noZ3 {
		return false
	}
	if c.hopeless(g) {
		c.proveM[g] = -1
		return false
	}
	r := smtProve(c.facts, g, false, false, 400)
	if histOn {
		if !r && os.Getenv("GOVC_HISTF") != "" && regexp.MustCompile("[~@!][^ ,()]*").ReplaceAllString(g.String(), "") == os.Getenv("GOVC_HISTF") {
			fmt.Fprintln(os.Stderr, "GOAL", g)
			for _, f := range c.facts {
				fmt.Fprintln(os.Stderr, "   ", f)
			}
		}
		hist[fmt.Sprint(r, " ", regexp.MustCompile("[~@!][^ ,()]*").ReplaceAllString(g.String(), ""))]++
	}
	if r {
		c.proveM[g] = 1
	} else {
		c.proveM[g] = -1
	}
	return r
}

// hopeless tells that g is p<=0 with a variable that the facts leave unbounded in the direction that makes p positive.
func (c *Ctx) hopeless(g *Term) bool {
	if g.op != OLe0 && g.op != OLt0 {
		return false
	}
	lin := func(p, v *Term) int {
		if !p.hasVar(v) {
			return 0
		}
		s := 2
		for _, m := range p.monos() {
			for _, f := range m.f {
				if f.t == v && f.p == 1 && len(m.f) == 1 && s == 2 {
					s = m.c.Sign()
				} else if f.t.hasVar(v) {
					return 2
				}
			}
		}
		return s
	}
next:
	for _, m := range g.args[0].monos() {
		if len(m.f) != 1 || m.f[0].p != 1 || m.f[0].t.op != OVar {
			continue
		}
		v := m.f[0].t
		s := lin(g.args[0], v)
		if s == 2 {
			continue
		}
		for _, f := range c.facts {
			if !f.hasVar(v) {
				continue
			}
			if f.op != OLe0 && f.op != OLt0 || lin(f.args[0], v) != -s {
				continue next
			}
		}
		return true
	}
	return false
}

func (c *Ctx) inconsistent() bool {
	if c.incons {
		return true
	}
	if v, ok := c.proveM[tFalse]; ok {
		return v > 0
	}
	e := newEncoder(false)
	for _, f := range c.facts {
		if hasQuant(f) {
			continue
		}
		e.assertT(f)
	}
	e.axioms()
	r := e.check(400) == "unsat"
	c.proveM[tFalse] = -1
	if r {
		c.proveM[tFalse] = 1
		c.incons = true
	}
	return r
}

var histOn = os.Getenv("GOVC_HIST") != ""
var hist = map[string]int{}

// decide returns tTrue/tFalse or nil
func (c *Ctx) decide(g *Term) *Term {
	if g == tTrue || g == tFalse {
		return g
	}
	if c.prove(g) {
		return tTrue
	}
	if c.prove(mkNot(g)) {
		return tFalse
	}
	return nil
}

func (c *Ctx) simp(t *Term) *Term {
	switch t.op {
	case OConst, OTrue, OFalse, OStr, OVar:
		return t
	}
	if r, ok := c.simpM[t]; ok {
		return r
	}
	r := c.simp1(t)
	for i := 0; i < 6 && r != t; i++ {
		if q, ok := c.simpM[r]; ok {
			r = q
			break
		}
		n := c.simp1(r)
		if n == r {
			break
		}
		r = n
		if i == 5 && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "simp not converging", t)
		}
	}
	c.simpM[t] = r
	c.simpM[r] = r
	return r
}

func (c *Ctx) simpBool(t *Term) *Term {
	switch t.op {
	case OTrue, OFalse:
		return t
	case OVar:
		if d := c.decide(t); d != nil {
			return d
		}
		return t
	case OAnd, OOr:
		return rebuild(t, mapTerms(t.args, c.simp))
	case ONot:
		return mkNot(c.simp(t.args[0]))
	case OBind:
		// handled generically
		return nil
	}
	var r *Term
	switch t.op {
	case OEq0, OLe0, OLt0:
		p := c.simp(t.args[0])
		// divide by common positive factors
		if p.op == OPoly {
			for _, f := range commonFacs(p.monos()) {
				pos := mkLt(mkNum(p.sort, 0), f.t)
				if f.t.op == OInd {
					continue
				}
				if c.prove(pos) || (t.op == OEq0 && c.prove(mkNot(mkEq(f.t, mkNum(p.sort, 0))))) {
					var nm []Mono
					for _, m := range p.monos() {
						nm = append(nm, divMono(m, []Fac{{f.t, f.p}}))
					}
					p = mkPoly(p.sort, nm)
					if p.op != OPoly {
						break
					}
				}
			}
		}
		if t.op == OLe0 && c.sortedPair(p) {
			return tTrue
		}
		switch t.op {
		case OEq0:
			r = mkEq0(p)
		case OLe0:
			r = mkLe0(p)
		default:
			r = mkLt0(p)
		}
	default:
		r = rebuild(t, mapTerms(t.args, c.simp))
	}
	if d := c.decide(r); d != nil {
		return d
	}
	return r
}

func (c *Ctx) simp1(t *Term) *Term {
	if c.incons {
		return t
	}
	if t.sort == SBool && t.op != OBind && t.op != OIte && t.op != OApp {
		return c.simpBool(t)
	}
	switch t.op {
	case OConst, OTrue, OFalse, OStr, OVar:
		return t
	case OPoly:
		parts := make([]*Term, 0, len(t.mons))
		for _, m := range t.mons {
			parts = append(parts, c.simpMono(m, t.sort))
		}
		r := mkAdd(parts...)
		if t.sort == SInt {
			r = c.recompose(r)
		}
		return r
	case OIte:
		k := c.simp(t.args[0])
		if k == tTrue {
			return c.simp(t.args[1])
		}
		if k == tFalse {
			return c.simp(t.args[2])
		}
		return mkIte(k, c.with(k).simp(t.args[1]), c.with(mkNot(k)).simp(t.args[2]))
	case OInd:
		return mkInd(c.simp(t.args[0]), t.sort)
	case OMin, OMax:
		as := mapTerms(t.args, c.simp)
		drop := make([]bool, len(as))
		for i := range as {
			for j := range as {
				if i == j || drop[i] || drop[j] {
					continue
				}
				le := mkLe(as[i], as[j])
				if t.op == OMax {
					le = mkLe(as[j], as[i])
				}
				if c.prove(le) { // i wins over j
					drop[j] = true
				}
			}
		}
		var o []*Term
		for i, a := range as {
			if !drop[i] {
				o = append(o, a)
			}
		}
		return mkMinMax(t.op, o...)
	case OAbs:
		x := c.simp(t.args[0])
		z := mkNum(x.sort, 0)
		if c.prove(mkLe(z, x)) {
			return x
		}
		if c.prove(mkLe(x, z)) {
			return mkNeg(x)
		}
		return mkAbs(x)
	case ODiv, OMod:
		a, b := c.simp(t.args[0]), c.simp(t.args[1])
		return c.divmod(t.op, a, b)
	case OBind:
		vs, in := openBind(t)
		outer := mapTerms(t.args[:t.nout], c.simp)
		cc := c
		switch t.name {
		case "sum", "forall", "first", "last", "maxf", "minf", "prod", "sort", "rec", "nth", "perm", "permi":
			cc = c.withAll(mkLe(mkInt(0), vs[0]), mkLt(vs[0], outer[0]))
		}
		if cc.incons {
			switch t.name {
			case "sum":
				return mkNum(t.sort, 0)
			case "forall":
				return tTrue
			}
			return rebuildBind(t, vs, outer, in)
		}
		if t.name == "argsort" {
			cc = c.withAll(rng(vs[0], outer[0]), rng(vs[1], outer[0]))
		}
		inner := mapTerms(in, cc.simp)
		if (t.name == "maxf" || t.name == "minf") && outer[1] != tInf && outer[1] != mkNeg(tInf) && outer[1] == substVar(inner[0], vs[0], mkInt(0)) && c.prove(mkLe(mkInt(1), outer[0])) {
			outer[1] = tInf
			if t.name == "maxf" {
				outer[1] = mkNeg(tInf)
			}
		}
		if (t.name == "maxf" || t.name == "minf") && outer[1] != tInf && outer[1] != mkNeg(tInf) && c.prove(mkLe(mkInt(1), outer[0])) {
			op, inf := OMin, tInf
			if t.name == "maxf" {
				op, inf = OMax, mkNeg(tInf)
			}
			return mkMinMax(op, outer[1], rebuildBind(t, vs, []*Term{outer[0], inf}, inner))
		}
		if t.name == "sum" {
			if r := c.countSide(vs[0], outer[0], inner[0]); r != nil {
				return c.simp(r)
			}
		}
		if t.name == "sum" || t.name == "forall" {
			if r := c.unflatten(t.name, vs[0], outer[0], inner[0]); r != nil {
				return c.simp(r)
			}
		}
		switch t.name {
		case "sum", "forall", "maxf", "minf":
			if N, C, b := c.unfilter(vs[0], outer[0], inner[0]); b != nil {
				switch t.name {
				case "sum":
					return c.simp(mkSum(vs[0], N, mkMul(mkInd(C, t.sort), b)))
				case "forall":
					return c.simp(mkForall(vs[0], N, mkImp(C, b)))
				case "maxf":
					if outer[1] == mkNeg(tInf) {
						return c.simp(mkFoldMM(OMax, vs[0], N, outer[1], mkIte(C, b, mkNeg(tInf))))
					}
				case "minf":
					if outer[1] == tInf {
						return c.simp(mkFoldMM(OMin, vs[0], N, outer[1], mkIte(C, b, tInf)))
					}
				}
			}
			if b := unsort(vs[0], outer[0], inner[0]); b != nil {
				inner[0] = cc.simp(b)
			}
		}
		if t.name == "rec" {
			if r := recArg(vs, outer, inner[0]); r != nil {
				return c.simp(r)
			}
			if r := c.recAt(vs, outer, inner[0]); r != nil {
				return r
			}
		}
		if t.name == "last" {
			if r := c.lastArg(vs[0], outer[0], inner[0]); r != nil {
				return c.simp(r)
			}
		}
		if t.name == "first" {
			if inner[0].op == OAnd {
				w := mkVar(fmt.Sprintf("fst@%d", inner[0].id), SInt)
				if c.withAll(rng(w, outer[0])).prove(mkNot(substVar(inner[0], vs[0], w))) {
					return c.simp(mkFirst(vs[0], outer[0], tFalse))
				}
			}
			if r := c.firstAt(vs[0], outer[0], inner[0]); r != nil {
				return r
			}
		}
		return rebuildBind(t, vs, outer, inner)
	default:
		return rebuild(t, mapTerms(t.args, c.simp))
	}
}

// unflatten: over v < a*b, a body that uses v only through v/b and v%b is taken over both.
func (c *Ctx) unflatten(name string, v, n, body *Term) *Term {
	ms := n.monos()
	if len(ms) != 1 || len(ms[0].f) != 2 || ms[0].c.Cmp(ratOne) != 0 || ms[0].f[0].p != 1 || ms[0].f[1].p != 1 {
		return nil
	}
	for i := 0; i < 2; i++ {
		a, b := ms[0].f[1-i].t, ms[0].f[i].t
		x, y := fresh("ux", SInt), fresh("uy", SInt)
		d := replaceTerm(replaceTerm(body, mkFDiv(v, b), x), mkFMod(v, b), y)
		if d.hasVar(v) || d == body || !c.prove(mkLe(mkInt(1), b)) {
			continue
		}
		if name == "sum" {
			return mkSum(x, a, mkSum(y, b, d))
		}
		return mkForall(x, a, mkForall(y, b, d))
	}
	return nil
}

// unsort: a body that uses v only through the v-th smallest of n values may use the values in their own order.
func unsort(v, n, body *Term) *Term {
	var s *Term
	walkTerm(body, func(x *Term) {
		if x.op == OBind && (x.name == "sort" || x.name == "argsort") && x.args[0] == n && x.args[1] == v {
			s = x
		}
	})
	if s == nil {
		return nil
	}
	vs, in := openBind(s)
	if in[0].hasVar(v) {
		return nil
	}
	if s.name == "argsort" {
		mk := mkVar("unsorti@", SInt)
		b := replaceTerm(body, s, mk)
		if b.hasVar(v) {
			return nil
		}
		return substVar(b, mk, v)
	}
	mk := mkVar("unsort@", s.sort)
	b := replaceTerm(body, s, mk)
	if b.hasVar(v) {
		return nil
	}
	return substVar(b, mk, substVar(in[0], vs[0], v))
}

// argExt is the first (last) v in [0,n) where F is extremal.
func argExt(op Op, v, n, F *Term, last bool) *Term {
	init := tInf
	if op == OMax {
		init = mkNeg(tInf)
	}
	b := mkEq(F, mkFoldMM(op, v, n, init, F))
	if last {
		return mkLast(v, n, b)
	}
	return mkFirst(v, n, b)
}

// splitVars: p = a(x) - b(y) by monomials.
func splitVars(p, x, y *Term) (px, py *Term, ok bool) {
	var mx, my []Mono
	for _, m := range p.monos() {
		t := mkPoly(p.sort, []Mono{m})
		hx, hy := t.hasVar(x), t.hasVar(y)
		switch {
		case hx && hy:
			return nil, nil, false
		case hx:
			mx = append(mx, m)
		case hy:
			my = append(my, m)
		default:
			return nil, nil, false
		}
	}
	return mkPoly(p.sort, mx), mkPoly(p.sort, my), true
}

// recArg: the loop h = (F(h) < F(i+c)) ? i+c : h from h=c-1 finds an extremal position.
func recArg(vs, outer []*Term, b *Term) *Term {
	i, h := vs[0], vs[1]
	if b.op != OIte || b.sort != SInt {
		return nil
	}
	g, val, els := b.args[0], b.args[1], b.args[2]
	if val == h {
		g, val, els = mkNot(g), els, val
	}
	if els != h || (g.op != OLt0 && g.op != OLe0) || val.hasVar(h) {
		return nil
	}
	c := mkSub(val, i)
	if c.hasVar(i) || mkSub(outer[1], c) != mkInt(-1) || g.args[0].sort != SReal {
		return nil
	}
	ph, pi, ok := splitVars(g.args[0], h, i)
	if !ok || substVar(ph, h, val) != mkNeg(pi) {
		return nil
	}
	// condition: ph(h) < ph(val): keeps the maximum of ph
	m := fresh("am", SInt)
	F := substVar(ph, h, mkAdd(m, outer[1]))
	return mkAdd(outer[1], argExt(OMax, m, mkAdd(outer[0], mkInt(1)), F, g.op == OLe0))
}

// lastArg: the last i<n with max(init, F(0..i-1)) < F(i) is the first maximum, when it exceeds init.
func (c *Ctx) lastArg(v, n, b *Term) *Term {
	if b.op != OLt0 && b.op != OLe0 {
		return nil
	}
	var fold *Term
	var coef *big.Rat
	for _, m := range b.args[0].monos() {
		if len(m.f) == 1 && m.f[0].p == 1 && m.f[0].t.op == OBind && (m.f[0].t.name == "maxf" || m.f[0].t.name == "minf") && m.f[0].t.args[0] == v {
			fold, coef = m.f[0].t, m.c
			break
		}
	}
	if fold == nil || fold.args[1].hasVar(v) {
		return nil
	}
	op := OMax
	if fold.name == "minf" {
		op = OMin
	}
	if (op == OMax) != (coef.Sign() > 0) {
		return nil
	}
	F := openWith(fold, []*Term{v})[0]
	if fold.hasVar(v) && openWith(fold, []*Term{fresh("lv", SInt)})[0].hasVar(v) {
		return nil
	}
	if mkScale(new(big.Rat).Inv(coef), b.args[0]) != mkSub(fold, F) {
		return nil
	}
	inf := fold.args[1] == tInf || fold.args[1] == mkNeg(tInf)
	last := b.op == OLe0
	if !c.prove(mkLe(mkInt(1), n)) {
		return nil
	}
	r := argExt(op, v, n, F, last)
	if inf {
		return r
	}
	in0 := tInf
	if op == OMax {
		in0 = mkNeg(tInf)
	}
	all := mkFoldMM(op, v, n, in0, F)
	var g *Term
	lo, hi := fold.args[1], all
	if op == OMin {
		lo, hi = hi, lo
	}
	if last {
		g = mkLe(lo, hi)
	} else {
		g = mkLt(lo, hi)
	}
	return mkIte(g, r, mkInt(-1))
}

// recompose rewrites b*(x div b) + (x mod b) to x.
func (c *Ctx) recompose(r *Term) *Term {
	for _, m := range r.monos() {
		for _, f := range m.f {
			if f.t.op != OMod || f.p != 1 {
				continue
			}
			x, b := f.t.args[0], f.t.args[1]
			q := mkMul(mkPoly(r.sort, []Mono{divMono(m, []Fac{f})}), mkAdd(f.t, mkMul(b, mkFDiv(x, b)), mkNeg(x)))
			d := mkSub(r, q)
			if len(d.monos()) < len(r.monos()) && c.prove(mkLt(mkInt(0), b)) {
				return c.recompose(d)
			}
		}
	}
	return r
}

// sortedPair: p = sorted[i] - sorted[j] with i <= j, entries of one sorted sequence.
func (c *Ctx) sortedPair(p *Term) bool {
	ms := p.monos()
	if len(ms) != 2 {
		return false
	}
	var a, b *Term
	for _, m := range ms {
		if len(m.f) != 1 || m.f[0].p != 1 || m.f[0].t.op != OBind || m.f[0].t.name != "sort" {
			return false
		}
		if m.c.Cmp(ratOne) == 0 {
			a = m.f[0].t
		} else if m.c.Cmp(new(big.Rat).Neg(ratOne)) == 0 {
			b = m.f[0].t
		}
	}
	if a == nil || b == nil || a.args[0] != b.args[0] {
		return false
	}
	v := []*Term{fresh("sp", SInt)}
	if openWith(a, v)[0] != openWith(b, v)[0] {
		return false
	}
	i, j := a.args[1], b.args[1]
	return c.prove(mkLe(mkInt(0), i)) && c.prove(mkLe(i, j)) && c.prove(mkLt(j, a.args[0]))
}

// recAt: iterating p -> b(i,p) for i in [0,n), where b(i,p) overwrites p by a value h at one index i=j
// and every later step leaves h unchanged, gives h.
func (c *Ctx) recAt(vs, outer []*Term, b *Term) *Term {
	if c.noZ3 {
		return nil
	}
	i, p, n := vs[0], vs[1], outer[0]
	var cand []*Term
	walkTerm(b, func(a *Term) {
		if a.op == OEq0 && a.args[0].sort == SInt && a.hasVar(i) && !a.hasVar(p) {
			if k, rest, ok := linearIn(a.args[0], i); ok && new(big.Rat).Abs(k).Cmp(ratOne) == 0 {
				j := mkScale(new(big.Rat).Neg(k), rest)
				cand = appendNew(cand, j)
			}
		}
	})
	for _, j := range cand {
		if bindsVarOther(j, vs) || !c.prove(mkLe(mkInt(0), j)) || !c.prove(mkLt(j, n)) {
			continue
		}
		h := c.simp(substVar(b, i, j))
		if h.hasVar(p) {
			continue
		}
		k := fresh("rk", SInt)
		cc := c.withAll(mkLt(j, k), mkLt(k, n))
		again := cc.simp(newSubst(map[*Term]*Term{i: k, p: h}).apply(b))
		if cc.prove(mkEq(again, h)) || cc.proveGoal(mkEq(again, h), 3) {
			return h
		}
	}
	return nil
}

// bindsVarOther: j mentions one of the opened variables.
func bindsVarOther(j *Term, vs []*Term) bool {
	for _, v := range vs {
		if j.hasVar(v) {
			return true
		}
	}
	return false
}

// firstAt finds c with first{v}(n|b) == c: b holds at c and nowhere before.
func (c *Ctx) firstAt(v, n, b *Term) *Term {
	if c.noZ3 {
		return nil
	}
	var with, without []*Term
	walkTerm(b, func(a *Term) {
		if a.op == OApp && len(a.args) > 0 {
			if a.hasVar(v) {
				with = append(with, a)
			} else {
				without = append(without, a)
			}
		}
	})
	seen := map[*Term]bool{}
	for _, a := range with {
		for _, o := range without {
			if a.name != o.name || len(a.args) != len(o.args) {
				continue
			}
			var cand *Term
			for i := range a.args {
				if a.args[i] == v {
					cand = o.args[i]
				} else if a.args[i] != o.args[i] {
					cand = nil
					break
				}
			}
			if cand == nil || seen[cand] {
				continue
			}
			seen[cand] = true
			if !c.prove(mkLe(mkInt(0), cand)) || !c.prove(mkLt(cand, n)) || !c.prove(substVar(b, v, cand)) {
				continue
			}
			k := mkVar(fmt.Sprintf("fk%d", cand.id), SInt)
			if c.withAll(mkLe(mkInt(0), k), mkLt(k, cand)).prove(mkNot(substVar(b, v, k))) {
				return cand
			}
		}
	}
	return nil
}

func (c *Ctx) simpMono(m Mono, s Sort) *Term {
	cc := c
	var inds []*Term
	r := mkConst(s, m.c)
	for _, f := range m.f {
		if f.t.op == OInd {
			k := cc.simp(f.t.args[0])
			if k == tFalse {
				return mkNum(s, 0)
			}
			if k != tTrue {
				inds = append(inds, k)
				cc = cc.with(k)
			}
		}
	}
	if cc.incons {
		return mkNum(s, 0)
	}
	for _, f := range m.f {
		if f.t.op != OInd {
			// x*inv(x)
			if f.t.op == OInv {
				x := f.t.args[0]
				skip := false
				for _, g := range m.f {
					if g.t == x && g.p == f.p && cc.prove(mkNot(mkEq(x, mkNum(s, 0)))) {
						skip = true
					}
				}
				if skip {
					continue
				}
			} else {
				skip := false
				for _, g := range m.f {
					if g.t.op == OInv && g.t.args[0] == f.t && g.p == f.p && cc.prove(mkNot(mkEq(f.t, mkNum(s, 0)))) {
						skip = true
					}
				}
				if skip {
					continue
				}
			}
			r = mkMul(r, mkPow(cc.simp(f.t), f.p))
		}
	}
	for _, k := range inds {
		r = mkMul(r, mkInd(k, s))
	}
	return r
}

func (c *Ctx) divmod(op Op, a, b *Term) *Term {
	if q, r, ok := c.decode(a, b); ok {
		if op == ODiv {
			return q
		}
		return r
	}
	if op == ODiv {
		return mkFDiv(a, b)
	}
	return mkFMod(a, b)
}

// decode a = q*b + r with 0<=r<b provable.
func (c *Ctx) decode(a, b *Term) (q, r *Term, ok bool) {
	z := mkInt(0)
	try := func(q, r *Term) bool {
		return c.prove(mkLe(z, r)) && c.prove(mkLt(r, b))
	}
	switch {
	case b.op == OConst:
		y, ok := b.int64()
		if !ok || y <= 0 {
			return nil, nil, false
		}
		var qs, rs []Mono
		for _, m := range a.monos() {
			d := new(big.Rat).Quo(m.c, b.rat)
			if d.IsInt() {
				qs = append(qs, Mono{d, m.f})
			} else {
				rs = append(rs, m)
			}
		}
		q, r = mkPoly(SInt, qs), mkPoly(SInt, rs)
		if try(q, r) {
			return q, r, true
		}
		return nil, nil, false
	case b.op == OPoly && len(b.mons) == 1:
		// product of atoms: divide monomials
		var qs, rs []Mono
		bf := b.mons[0]
		for _, m := range a.monos() {
			if d, ok := monoDiv(m, bf); ok {
				qs = append(qs, d)
			} else {
				rs = append(rs, m)
			}
		}
		q, r = mkPoly(SInt, qs), mkPoly(SInt, rs)
	case b.op == OPoly:
		q, r = mkInt(0), a
		if d := mkSub(a, b); len(d.monos()) < len(a.monos()) && try(mkInt(1), d) {
			return mkInt(1), d, true
		}
		if q1, r1 := divLead(a, b); q1 != nil && !q1.isZero() {
			if try(q1, r1) {
				return q1, r1, true
			}
		}
	default:
		q, r = splitByAtom(a, b)
	}
	if r.op == OVar && !c.linearFact(r) {
		return nil, nil, false
	}
	if try(q, r) {
		return q, r, true
	}
	// off by one row
	if c.prove(mkLe(b, r)) && c.prove(mkLt(r, mkAdd(b, b))) {
		return mkAdd(q, mkInt(1)), mkSub(r, b), true
	}
	if c.prove(mkLt(r, z)) && c.prove(mkLe(mkNeg(b), r)) {
		return mkSub(q, mkInt(1)), mkAdd(r, b), true
	}
	return nil, nil, false
}

// linearFact tells whether some fact bounds v by more than its quotients and remainders.
func (c *Ctx) linearFact(v *Term) bool {
	for _, f := range c.facts {
		if !f.hasVar(v) {
			continue
		}
		switch f.op {
		case OLe0, OLt0, OEq0:
			for _, m := range f.args[0].monos() {
				for _, x := range m.f {
					if x.t == v && !(f.op != OEq0 && len(m.f) == 1 && m.c.Sign() < 0) {
						return true
					}
				}
			}
		case ONot:
		default:
			return true
		}
	}
	return false
}

// divLead divides by one leading monomial of b (largest degree, coefficient 1).
func divLead(a, b *Term) (q, r *Term) {
	var lm *Mono
	best := 0
	for i := range b.mons {
		m := &b.mons[i]
		d := 0
		for _, f := range m.f {
			d += f.p
		}
		if d > best && m.c.IsInt() && m.c.Num().IsInt64() && m.c.Num().Int64() == 1 {
			lm, best = m, d
		}
	}
	if lm == nil {
		return nil, nil
	}
	q, r = mkInt(0), a
	for n := 0; n < 4; n++ {
		var qs []Mono
		for _, m := range r.monos() {
			if d, ok := monoDiv(m, *lm); ok {
				qs = append(qs, d)
			}
		}
		if len(qs) == 0 {
			break
		}
		q1 := mkPoly(SInt, qs)
		q, r = mkAdd(q, q1), mkSub(r, mkMul(q1, b))
	}
	return q, r
}

func monoDiv(m, b Mono) (Mono, bool) {
	c := new(big.Rat).Quo(m.c, b.c)
	if !c.IsInt() {
		return m, false
	}
	for _, g := range b.f {
		ok := false
		for _, f := range m.f {
			if f.t == g.t && f.p >= g.p {
				ok = true
			}
		}
		if !ok {
			return m, false
		}
	}
	d := divMono(m, b.f)
	d.c = c
	return d, true
}

// proveGoal is the strong prover for proof obligations.
func (c *Ctx) proveGoal(g *Term, depth int) bool {
	if !traceGoals {
		return c.proveGoal1(g, depth)
	}
	goalDepth++
	r := c.proveGoal1(g, depth)
	goalDepth--
	s := c.simp(g).String()
	if len(s) > 1500 {
		s = s[:1500]
	}
	fmt.Fprintf(os.Stderr, "%*sGOAL d=%d %v %s\n", goalDepth*2, "", depth, r, s)
	return r
}

var traceGoals = os.Getenv("GOVC_GOAL") != ""
var goalDepth int

func (c *Ctx) proveGoal1(g *Term, depth int) bool {
	g = c.simp(g)
	if g == tTrue || c.incons {
		return true
	}
	if g.op == OAnd {
		for _, a := range g.args {
			if !c.proveGoal(a, depth) {
				return false
			}
		}
		return true
	}
	if g.op == OBind && g.name == "forall" {
		vs := []*Term{fresh("sk", SInt)}
		in := openWith(g, vs)
		return c.withAll(mkLe(mkInt(0), vs[0]), mkLt(vs[0], g.args[0])).proveGoal(in[0], depth)
	}
	if g.op == OOr {
		// assume negation of all but the most complex disjunct
		var main *Term
		for _, a := range g.args {
			if a.op == OBind && a.name == "forall" {
				main = a
			}
		}
		if main == nil {
			for _, a := range g.args {
				if a.op == OEq0 && a.args[0].sort == SReal {
					main = a
				}
			}
		}
		if main != nil {
			cc := c
			for _, a := range g.args {
				if a != main {
					cc = cc.with(mkNot(a))
				}
			}
			if cc.proveGoal(main, depth) {
				return true
			}
		}
	}
	if r := commonIte(g); r != nil && c.proveGoal(r, depth) {
		return true
	}
	if c.inconsistent() {
		return true
	}
	if depth > 0 {
		if c2 := c.sortFacts(g); c2 != c {
			return c2.proveGoal(g, depth-1)
		}
	}
	if smtProve(c.facts, g, false, false, 2000) {
		return true
	}
	hq := hasQuant(g)
	if g.op == OEq0 && g.args[0].sort == SReal {
		if c.clearDenoms(g.args[0]) {
			return true
		}
	}
	if g.op == OEq0 && depth > 0 {
		for _, p := range c.peel(g.args[0]) {
			if c.simp(mkEq(p, mkNum(p.sort, 0))) == tTrue {
				return true
			}
		}
	}
	if g.op == OLe0 {
		if c.leTactics(g.args[0], depth) {
			return true
		}
	}
	// use an integer equation among the facts to eliminate a variable of the goal
	if depth > 0 {
		if c2, g2 := c.elimEq(g); c2 != nil {
			return c2.proveGoal(g2, depth-1)
		}
	}
	// case split on a condition occurring in the goal
	if depth > 0 {
		if k := pickSplit(c, g); k != nil {
			return c.with(k).proveGoal(g, depth-1) && c.with(mkNot(k)).proveGoal(g, depth-1)
		}
	}
	if smtProve(c.facts, g, true, false, 3000) {
		return true
	}
	for _, f := range c.facts {
		hq = hq || hasQuant(f)
	}
	hq = hq || hasBinder(g)
	for _, f := range c.facts {
		hq = hq || hasBinder(f)
	}
	if hq {
		if smtProve(c.facts, g, false, true, 6000) {
			return true
		}
	}
	return false
}

// commonIte returns p=0 for g being p*f=0 with f a conditional value that is a factor of every monomial.
func commonIte(g *Term) *Term {
	if g.op != OEq0 || g.args[0].sort != SReal {
		return nil
	}
	ms := g.args[0].monos()
	if len(ms) < 2 {
		return nil
	}
next:
	for _, f := range ms[0].f {
		if f.t.op != OIte || f.p < 1 {
			continue
		}
		var out []Mono
		for _, m := range ms {
			ok := false
			for _, h := range m.f {
				ok = ok || h.t == f.t && h.p >= 1
			}
			if !ok {
				continue next
			}
			out = append(out, divMono(m, []Fac{{f.t, 1}}))
		}
		return mkEq(mkPoly(SReal, out), mkNum(SReal, 0))
	}
	return nil
}

// joinRanges joins sums (and universal statements) over [0,m) of f(v) and over [0,n) of f(m+v).
func (c *Ctx) joinRanges(t *Term) *Term {
	z := mkInt(0)
	follows := func(a, b *Term) bool {
		v := mkVar("join@", SInt)
		fa, fb := openWith(a, []*Term{v})[0], openWith(b, []*Term{v})[0]
		if substVar(fb, v, mkSub(v, a.args[0])) != fa {
			w := c.withAll(mkLe(a.args[0], v), mkLt(v, mkAdd(a.args[0], b.args[0])))
			if w.simp(substVar(fb, v, mkSub(v, a.args[0]))) != w.simp(fa) {
				return false
			}
		}
		return c.prove(mkLe(z, a.args[0])) && c.prove(mkLe(z, b.args[0]))
	}
	join := func(a *Term, n *Term) *Term {
		v := fresh("join", SInt)
		b := openWith(a, []*Term{v})[0]
		if a.name == "sum" {
			return mkSum(v, n, b)
		}
		return mkForall(v, n, b)
	}
	switch t.op {
	case OEq0, OLe0, OLt0:
		p := t.args[0]
		for again := true; again; {
			again = false
			ms := p.monos()
			for i := range ms {
				for j := range ms {
					if i == j || again || ms[i].c.Cmp(ms[j].c) != 0 {
						continue
					}
					for _, f := range ms[i].f {
						for _, g := range ms[j].f {
							if again || f.p != 1 || g.p != 1 || f.t.op != OBind || g.t.op != OBind || f.t.name != "sum" || g.t.name != "sum" || f.t.sort != g.t.sort {
								continue
							}
							r := mkPoly(p.sort, []Mono{divMono(ms[i], []Fac{{f.t, 1}})})
							if r != mkPoly(p.sort, []Mono{divMono(ms[j], []Fac{{g.t, 1}})}) || !follows(f.t, g.t) {
								continue
							}
							var rest []Mono
							for k, m := range ms {
								if k != i && k != j {
									rest = append(rest, m)
								}
							}
							p = mkAdd(mkPoly(p.sort, rest), mkMul(r, join(f.t, mkAdd(f.t.args[0], g.t.args[0]))))
							again = true
						}
					}
				}
			}
		}
		switch t.op {
		case OEq0:
			return mkEq0(p)
		case OLe0:
			return mkLe0(p)
		}
		return mkLt0(p)
	case ONot:
		return mkNot(c.joinRanges(t.args[0]))
	case OAnd, OOr:
		as := mapTerms(t.args, c.joinRanges)
		un := func(x *Term) *Term {
			if t.op == OOr {
				if x.op != ONot {
					return nil
				}
				x = x.args[0]
			}
			if x.op == OBind && x.name == "forall" {
				return x
			}
			return nil
		}
		for again := true; again; {
			again = false
			for i := range as {
				for j := range as {
					if again || i == j {
						continue
					}
					a, b := un(as[i]), un(as[j])
					if a == nil || b == nil || !follows(a, b) {
						continue
					}
					x := join(a, mkAdd(a.args[0], b.args[0]))
					if t.op == OOr {
						x = mkNot(x)
					}
					var n []*Term
					for k := range as {
						if k != i && k != j {
							n = append(n, as[k])
						}
					}
					as = append(n, x)
					again = true
				}
			}
		}
		if t.op == OAnd {
			return mkAnd(as...)
		}
		return mkOr(as...)
	}
	return t
}

// polyDiv is the exact quotient p/l, or nil.
func polyDiv(p, l *Term) *Term {
	lm := l.monos()
	if len(lm) < 2 || len(lm) > 6 {
		return nil
	}
	// pick an atom linear in l with constant coefficient
	var a *Term
	var cf *big.Rat
	for _, m := range lm {
		if len(m.f) == 1 && m.f[0].p == 1 {
			a, cf = m.f[0].t, m.c
			break
		}
	}
	if a == nil {
		return nil
	}
	for _, m := range lm {
		for _, f := range m.f {
			if f.t == a && (len(m.f) > 1 || f.p > 1) {
				return nil
			}
		}
	}
	inv := new(big.Rat).Inv(cf)
	q := mkNum(p.sort, 0)
	r := p
	for iter := 0; iter < 40; iter++ {
		if r.isZero() {
			return q
		}
		var lead Mono
		deg := 0
		for _, m := range r.monos() {
			for _, f := range m.f {
				if f.t == a && f.p > deg {
					lead, deg = m, f.p
				}
			}
		}
		if deg == 0 {
			return nil
		}
		d := mkScale(inv, mkPoly(p.sort, []Mono{divMono(lead, []Fac{{a, 1}})}))
		if p.sort == SInt && !inv.IsInt() {
			return nil
		}
		q = mkAdd(q, d)
		r = mkSub(r, mkMul(d, l))
		if len(r.monos()) > 60 {
			return nil
		}
	}
	return nil
}

// leTactics: sufficient conditions for p <= 0.
func (c *Ctx) leTactics(p *Term, depth int) bool {
	ms := p.monos()
	if p.op == OPoly {
		for _, f := range commonFacs(ms) {
			fp := mkPow(f.t, f.p)
			pos := c.prove(mkLe(mkNum(p.sort, 0), fp))
			if pos || c.prove(mkLe(fp, mkNum(p.sort, 0))) {
				var nm []Mono
				for _, m := range ms {
					nm = append(nm, divMono(m, []Fac{{f.t, f.p}}))
				}
				q := mkPoly(p.sort, nm)
				if !pos {
					q = mkNeg(q)
				}
				if c.proveGoal(mkLe0(q), depth) {
					return true
				}
			}
		}
	}
	// divide by a polynomial of known sign
	if p.op == OPoly && len(ms) >= 2 {
		for _, f := range c.facts {
			if f.op != OLe0 && f.op != OLt0 || f.args[0].sort != p.sort || f.args[0] == p {
				continue
			}
			if q := polyDiv(p, f.args[0]); q != nil && q.op != OConst {
				if c.proveGoal(mkLe(mkNum(p.sort, 0), q), depth) {
					return true
				}
			}
		}
	}
	// multiply by a positive denominator
	seen := map[*Term]bool{}
	for _, m := range ms {
		for _, f := range m.f {
			if f.t.op == OInv && f.p >= 1 && !seen[f.t] {
				seen[f.t] = true
				d := f.t.args[0]
				pos := c.prove(mkLt(mkNum(p.sort, 0), d))
				if pos || c.prove(mkLt(d, mkNum(p.sort, 0))) {
					if !pos {
						d = mkNeg(d)
					}
					var nm []*Term
					for _, m := range ms {
						has := false
						for _, g := range m.f {
							if g.t == f.t {
								has = true
							}
						}
						if has {
							q := mkPoly(p.sort, []Mono{divMono(m, []Fac{{f.t, 1}})})
							if !pos {
								q = mkNeg(q)
							}
							nm = append(nm, q)
						} else {
							nm = append(nm, mkMul(mkPoly(p.sort, []Mono{m}), d))
						}
					}
					if c.proveGoal(mkLe0(mkAdd(nm...)), depth) {
						return true
					}
				}
			}
		}
	}
	// sums over a common range are compared term by term
	var n *Term
	for _, m := range ms {
		for _, f := range m.f {
			if n == nil && f.t.op == OBind && f.t.name == "sum" && f.p == 1 {
				n = f.t.args[0]
			}
		}
	}
	v := fresh("sk", SInt)
	var parts []*Term
	for _, m := range ms {
		ok := false
		for i, f := range m.f {
			if n != nil && f.p >= 1 && (f.t == n || f.t == mkToReal(n)) && c.prove(mkLe(mkInt(0), n)) {
				parts = append(parts, mkPoly(p.sort, []Mono{divMono(m, []Fac{{f.t, 1}})}))
				ok = true
				break
			}
			if f.t.op == OBind && f.t.name == "sum" && f.p == 1 && (n == nil || f.t.args[0] == n) {
				rest := append(append([]Fac(nil), m.f[:i]...), m.f[i+1:]...)
				parts = append(parts, mkMul(mkPoly(p.sort, []Mono{{m.c, rest}}), openWith(f.t, []*Term{v})[0]))
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	if n == nil {
		return false
	}
	return c.withAll(mkLe(mkInt(0), v), mkLt(v, n)).proveGoal(mkLe0(mkAdd(parts...)), depth)
}

func hasBinder(t *Term) bool { return t.depth > 0 }

// peel takes the first, or the last, term out of the sums of p that have one term more than other sums of p.
func (c *Ctx) peel(p *Term) (res []*Term) {
	var sums []*Term
	seen := map[*Term]bool{}
	for _, m := range p.monos() {
		for _, f := range m.f {
			if f.t.op == OBind && f.t.name == "sum" && !seen[f.t] {
				seen[f.t] = true
				sums = append(sums, f.t)
			}
		}
	}
	var n *Term
	for _, a := range sums {
		for _, b := range sums {
			if n == nil && mkSub(a.args[0], b.args[0]) == mkInt(1) && c.prove(mkLe(mkInt(1), a.args[0])) {
				n = a.args[0]
			}
		}
	}
	if n == nil {
		return nil
	}
	less := mkSub(n, mkInt(1))
	for _, first := range []bool{true, false} {
		q := p
		for _, t := range sums {
			if t.args[0] != n {
				continue
			}
			vs, in := openBind(t)
			v, f := vs[0], in[0]
			r := mkAdd(substVar(f, v, less), mkSum(v, less, f))
			if first {
				r = mkAdd(substVar(f, v, mkInt(0)), mkSum(v, less, substVar(f, v, mkAdd(v, mkInt(1)))))
			}
			q = replaceTerm(q, t, r)
		}
		res = append(res, q)
	}
	return res
}

// clearDenoms multiplies by provably nonzero denominators and rechecks.
func (c *Ctx) clearDenoms(p *Term) bool {
	for iter := 0; iter < 6; iter++ {
		var inv *Term
		maxp := 0
		for _, m := range p.monos() {
			for _, f := range m.f {
				if f.t.op == OInv && (inv == nil || inv == f.t) {
					if inv == nil {
						if !c.prove(mkNot(mkEq(f.t.args[0], mkNum(SReal, 0)))) {
							continue
						}
						inv = f.t
					}
					if f.p > maxp {
						maxp = f.p
					}
				}
			}
		}
		if inv == nil {
			return false
		}
		x := inv.args[0]
		var parts []*Term
		for _, m := range p.monos() {
			k := maxp
			var rest []Fac
			for _, f := range m.f {
				if f.t == inv {
					k -= f.p
				} else {
					rest = append(rest, f)
				}
			}
			parts = append(parts, mkMul(mkPoly(SReal, []Mono{{m.c, rest}}), mkPow(x, k)))
		}
		p = c.simp(mkAdd(parts...))
		if p.isZero() {
			return true
		}
		if smtProve(c.facts, mkEq0(p), false, false, 1000) {
			return true
		}
	}
	return false
}

// sortFacts adds f(argsort(k)) = sort(k) for the argsort terms below the binders of g.
func (c *Ctx) sortFacts(g *Term) *Ctx {
	c0 := c
	walkTerm(g, func(t *Term) {
		if t.op != OBind || t.name != "argsort" {
			return
		}
		for _, v := range t.fv {
			if termList[v].name[0] == '#' {
				return
			}
		}
		n, k := t.args[0], t.args[1]
		if traceGoals {
			fmt.Fprintln(os.Stderr, "SORTFACT", t, c0.prove(rng(k, n)))
		}
		if !c0.prove(rng(k, n)) {
			return
		}
		vs, L := openBind(t)
		w := fresh("w", SInt)
		if f := keyOfLess(L[0], vs[0], vs[1], w); f != nil {
			c = c.with(mkEq(c0.simp(substVar(f, w, t)), mkBind("sort", f.sort, []*Term{w}, []*Term{n, k}, []*Term{f})))
		}
	})
	return c
}

var noTerm = mkVar("0", SInt)

// elimEq: a fact v+r=0 (v an integer variable of the goal, not in r) is substituted in the facts and the goal.
// Likewise for a binder term of the goal in place of v.
func (c *Ctx) elimEq(g *Term) (*Ctx, *Term) {
	for _, f := range c.facts {
		if f.op != OEq0 || f.args[0].sort != SInt {
			continue
		}
		for _, m := range f.args[0].monos() {
			if len(m.f) != 1 || m.f[0].p != 1 || m.f[0].t.op != OBind || new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
				continue
			}
			b := m.f[0].t
			rest := mkSub(b, mkMul(mkConst(SInt, m.c), f.args[0]))
			if replaceTerm(rest, b, noTerm) != rest {
				continue
			}
			g2 := replaceTerm(g, b, rest)
			if g2 == g {
				continue
			}
			n := newCtx()
			n.noZ3 = c.noZ3
			n.addFact(f)
			for _, h := range c.facts {
				if h != f {
					for _, k := range conjuncts(replaceTerm(h, b, rest)) {
						n.addFact(k)
					}
				}
			}
			return n, g2
		}
		for _, m := range f.args[0].monos() {
			if len(m.f) != 1 || m.f[0].p != 1 || m.f[0].t.op != OVar || new(big.Rat).Abs(m.c).Cmp(ratOne) != 0 {
				continue
			}
			v := m.f[0].t
			rest := mkSub(v, mkMul(mkConst(SInt, m.c), f.args[0]))
			uses := false
			for _, x := range rest.fv {
				uses = uses || termList[x] == v
			}
			occ := false
			for _, x := range g.fv {
				occ = occ || termList[x] == v
			}
			if uses || !occ {
				continue
			}
			n := newCtx()
			n.noZ3 = c.noZ3
			for _, h := range c.facts {
				if h != f {
					for _, k := range conjuncts(substVar(h, v, rest)) {
						n.addFact(k)
					}
				}
			}
			return n, substVar(g, v, rest)
		}
	}
	return nil, nil
}

// pickSplit finds an undecided atomic condition inside g (in ite / ind / min / max / abs), free of bound variables.
func pickSplit(c *Ctx, g *Term) *Term {
	seen := map[*Term]bool{}
	var found *Term
	var walk func(t *Term)
	usable := func(k *Term) bool {
		for _, v := range k.fv {
			if n := termList[v].name; n[0] == '#' {
				return false
			}
		}
		return !c.has[k] && !c.has[mkNot(k)]
	}
	cand := func(k *Term) {
		if found != nil {
			return
		}
		for k.op == OAnd || k.op == OOr || k.op == ONot {
			k = k.args[0]
		}
		if k.op == OBind || k.op == OTrue || k.op == OFalse {
			return
		}
		if usable(k) {
			found = k
		}
	}
	walk = func(t *Term) {
		if found != nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, m := range t.mons {
			for _, f := range m.f {
				walk(f.t)
			}
		}
		switch t.op {
		case OIte, OInd:
			cand(t.args[0])
		case OMin, OMax:
			cand(mkLe(t.args[0], t.args[1]))
		case OAbs:
			cand(mkLe(mkNum(t.sort, 0), t.args[0]))
		}
	}
	walk(g)
	return found
}

// countSide: the number of v<n with v<=a (a+1) or v>=a (n-a), -1<=a<n or 0<=a<=n.
func (c *Ctx) countSide(v, n, body *Term) *Term {
	ms := body.monos()
	if len(ms) != 1 || len(ms[0].f) != 1 || ms[0].f[0].p != 1 || ms[0].f[0].t.op != OInd {
		return nil
	}
	g := ms[0].f[0].t.args[0]
	if g.op != OLe0 || g.args[0].sort != SInt {
		return nil
	}
	k, r, ok := linearIn(g.args[0], v)
	if !ok || k.Sign() == 0 || new(big.Rat).Abs(k).Cmp(ratOne) != 0 {
		return nil
	}
	var cnt *Term
	if k.Sign() > 0 { // v <= -r
		a := mkNeg(r)
		if !c.prove(mkAnd(mkLe(mkInt(-1), a), mkLt(a, n))) {
			return nil
		}
		cnt = mkAdd(a, mkInt(1))
	} else { // v >= r
		if !c.prove(mkAnd(mkLe(mkInt(0), r), mkLe(r, n))) {
			return nil
		}
		cnt = mkSub(n, r)
	}
	if body.sort == SReal {
		cnt = mkToReal(cnt)
	}
	return mkMul(mkConst(body.sort, ms[0].c), cnt)
}
