package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort of a logical term.
type Sort uint8

// Sorts
const (
	SInt Sort = iota
	SReal
	SBool
	SStr // strings and other opaque identities
)

// Op is a term constructor.
type Op uint8

// Ops
const (
	OConst Op = iota // numeric constant
	OTrue
	OFalse
	OStr // string constant
	OVar
	OPoly  // sum of monomials (mons)
	OInv   // multiplicative inverse, inv(0)=0
	OToR   // int -> real
	OTrunc // real -> int truncation
	ODiv   // floor division of ints
	OMod   // floor modulo of ints
	OIte
	OInd // indicator of a bool (sort Int or Real)
	OMin
	OMax
	OAbs
	OApp  // application of uninterpreted symbol
	OBind // binder
	ONot
	OAnd
	OOr
	OEq0 // p == 0
	OLe0 // p <= 0
	OLt0 // p < 0 (real only)
	OEqS // equality of opaque terms
)

// Fac is an atom to a positive power
type Fac struct {
	t *Term
	p int
}

// Mono is a monomial
type Mono struct {
	c *big.Rat
	f []Fac
}

// Term is hash-consed.
type Term struct {
	id    int
	op    Op
	sort  Sort
	name  string
	args  []*Term
	rat   *big.Rat
	mons  []Mono
	bvs   []*Term // bound variables (canonical), scoped over args[nout:]
	nout  int
	depth int // binder depth
	bd    int // index of a canonical bound variable
	size  int
	fv    []int32
	syms  []int32 // array / function symbols occurring
	open  []*Term // cached opening variables
}

var (
	termTab   = map[string]*Term{}
	termList  []*Term
	freshCtr  int
	symIds    = map[string]int32{}
	ratZero   = new(big.Rat)
	ratOne    = big.NewRat(1, 1)
	ratNegOne = big.NewRat(-1, 1)
)

func symID(n string) int32 {
	if i, ok := symIds[n]; ok {
		return i
	}
	i := int32(len(symIds))
	symIds[n] = i
	return i
}

func mergeI32(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// fast subset tests
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j >= len(b) || (i < len(a) && a[i] < b[j]) {
			r = append(r, a[i])
			i++
		} else if i >= len(a) || b[j] < a[i] {
			r = append(r, b[j])
			j++
		} else {
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func hasI32(a []int32, x int32) bool {
	for _, y := range a {
		if y == x {
			return true
		}
	}
	return false
}

func intern(t *Term) *Term {
	var sb []byte
	sb = strconv.AppendInt(sb, int64(t.op), 10)
	sb = append(sb, ':')
	sb = strconv.AppendInt(sb, int64(t.sort), 10)
	if t.name != "" {
		sb = append(sb, '"')
		sb = append(sb, t.name...)
		sb = append(sb, '"')
	}
	if t.rat != nil {
		sb = append(sb, '#')
		sb = append(sb, t.rat.RatString()...)
	}
	for _, a := range t.args {
		sb = append(sb, ',')
		sb = strconv.AppendInt(sb, int64(a.id), 10)
	}
	for _, m := range t.mons {
		sb = append(sb, '+')
		sb = append(sb, m.c.RatString()...)
		for _, f := range m.f {
			sb = append(sb, '*')
			sb = strconv.AppendInt(sb, int64(f.t.id), 10)
			sb = append(sb, '^')
			sb = strconv.AppendInt(sb, int64(f.p), 10)
		}
	}
	if t.op == OBind {
		sb = append(sb, 'b')
		sb = strconv.AppendInt(sb, int64(t.nout), 10)
		for _, v := range t.bvs {
			sb = append(sb, '!')
			sb = strconv.AppendInt(sb, int64(v.id), 10)
		}
	}
	k := string(sb)
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termList)
	var fv, sy []int32
	d := 0
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		fv = mergeI32(fv, a.fv)
		sy = mergeI32(sy, a.syms)
		if a.depth > d {
			d = a.depth
		}
	}
	for _, m := range t.mons {
		for _, f := range m.f {
			t.size += f.t.size
			fv = mergeI32(fv, f.t.fv)
			sy = mergeI32(sy, f.t.syms)
			if f.t.depth > d {
				d = f.t.depth
			}
		}
	}
	if t.op == OBind {
		if len(t.bvs) > 0 && t.bvs[0].bd > d {
			d = t.bvs[0].bd
		}
		fv = nil
		for _, a := range t.args[t.nout:] {
			fv = mergeI32(fv, a.fv)
		}
		var r []int32
	outer:
		for _, x := range fv {
			for _, v := range t.bvs {
				if int32(v.id) == x {
					continue outer
				}
			}
			r = append(r, x)
		}
		fv = r
		for _, a := range t.args[:t.nout] {
			fv = mergeI32(fv, a.fv)
		}
	}
	if t.op == OVar {
		fv = []int32{int32(t.id)}
	}
	if t.op == OApp {
		sy = mergeI32(sy, []int32{symID(t.name)})
	}
	t.fv, t.syms, t.depth = fv, sy, d
	termList = append(termList, t)
	termTab[k] = t
	return t
}

func (t *Term) hasVar(v *Term) bool { return hasI32(t.fv, int32(v.id)) }
func (t *Term) hasSym(s string) bool {
	if id, ok := symIds[s]; ok {
		return hasI32(t.syms, id)
	}
	return false
}

var (
	tTrue  = intern(&Term{op: OTrue, sort: SBool})
	tFalse = intern(&Term{op: OFalse, sort: SBool})
	// special float values
	tInf = intern(&Term{op: OVar, sort: SReal, name: "$inf"})
	tNaN = intern(&Term{op: OVar, sort: SReal, name: "$nan"})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkConst(s Sort, r *big.Rat) *Term {
	return intern(&Term{op: OConst, sort: s, rat: new(big.Rat).Set(r)})
}
func mkInt(i int64) *Term { return mkConst(SInt, new(big.Rat).SetInt64(i)) }
func mkNum(s Sort, i int64) *Term {
	return mkConst(s, new(big.Rat).SetInt64(i))
}
func mkStr(s string) *Term         { return intern(&Term{op: OStr, sort: SStr, name: s}) }
func mkVar(n string, s Sort) *Term { return intern(&Term{op: OVar, sort: s, name: n}) }
func fresh(prefix string, s Sort) *Term {
	freshCtr++
	return mkVar(prefix+"~"+strconv.Itoa(freshCtr), s)
}
func freshName(prefix string) string {
	freshCtr++
	return prefix + "~" + strconv.Itoa(freshCtr)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isZero() bool  { return t.op == OConst && t.rat.Sign() == 0 }
func (t *Term) isInt64(i int64) bool {
	return t.op == OConst && t.rat.Cmp(new(big.Rat).SetInt64(i)) == 0
}
func (t *Term) int64() (int64, bool) {
	if t.op == OConst && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

func (t *Term) monos() []Mono {
	switch t.op {
	case OPoly:
		return t.mons
	case OConst:
		if t.rat.Sign() == 0 {
			return nil
		}
		return []Mono{{c: t.rat}}
	}
	return []Mono{{c: ratOne, f: []Fac{{t, 1}}}}
}

func facKey(f []Fac) string {
	var sb []byte
	for _, x := range f {
		sb = strconv.AppendInt(sb, int64(x.t.id), 36)
		sb = append(sb, '^')
		sb = strconv.AppendInt(sb, int64(x.p), 36)
		sb = append(sb, '.')
	}
	return string(sb)
}

func mkPoly(s Sort, ms []Mono) *Term {
	if len(ms) == 0 {
		return mkNum(s, 0)
	}
	type ent struct {
		k string
		m Mono
	}
	idx := map[string]int{}
	var es []ent
	for _, m := range ms {
		if m.c.Sign() == 0 {
			continue
		}
		k := facKey(m.f)
		if i, ok := idx[k]; ok {
			es[i].m.c = new(big.Rat).Add(es[i].m.c, m.c)
		} else {
			idx[k] = len(es)
			es = append(es, ent{k, m})
		}
	}
	var out []ent
	for _, e := range es {
		if e.m.c.Sign() != 0 {
			out = append(out, e)
		}
	}
	if len(out) == 0 {
		return mkNum(s, 0)
	}
	if len(out) > 1 {
		for i := range out {
			if r := stepInd(out[i].m); r != nil {
				for j := range out {
					if j == i {
						continue
					}
					if m, ok := mergeStep(s, out[i].m, r, out[j].m); ok {
						ns := m
						for k := range out {
							if k != i && k != j {
								ns = append(ns, out[k].m)
							}
						}
						return mkPoly(s, ns)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i].m.f, out[j].m.f
		for x := 0; x < len(a) && x < len(b); x++ {
			if a[x].t.id != b[x].t.id {
				return a[x].t.id < b[x].t.id
			}
			if a[x].p != b[x].p {
				return a[x].p < b[x].p
			}
		}
		return len(a) > len(b)
	})
	if len(out) == 1 {
		m := out[0].m
		if len(m.f) == 0 {
			return mkConst(s, m.c)
		}
		if m.c.Cmp(ratOne) == 0 && len(m.f) == 1 && m.f[0].p == 1 {
			return m.f[0].t
		}
	}
	mons := make([]Mono, len(out))
	for i := range out {
		mons[i] = out[i].m
	}
	return intern(&Term{op: OPoly, sort: s, mons: mons})
}

// stepInd is the factor ind(p<=0) of m, for an integer p.
func stepInd(m Mono) *Term {
	for _, f := range m.f {
		if f.t.op == OInd && f.t.args[0].op == OLe0 && f.t.args[0].args[0].sort == SInt {
			return f.t
		}
	}
	return nil
}

// mergeStep: c*R*ind(p<=0) - c*R*ind(p+1<=0) = c*R*ind(p=0).
func mergeStep(s Sort, a Mono, ind *Term, b Mono) ([]Mono, bool) {
	if len(a.f) != len(b.f) || new(big.Rat).Add(a.c, b.c).Sign() != 0 {
		return nil, false
	}
	var rest []Fac
	var o *Term
	for _, f := range a.f {
		if f.t == ind {
			continue
		}
		rest = append(rest, f)
	}
	n := 0
	for _, f := range b.f {
		if n < len(rest) && rest[n] == f {
			n++
			continue
		}
		if o != nil || f.t.op != OInd || f.p != 1 {
			return nil, false
		}
		o = f.t
	}
	if o == nil || n != len(rest) {
		return nil, false
	}
	p, q := ind.args[0].args[0], o.args[0]
	var c *Term
	switch q.op {
	case OLe0:
		if q.args[0].sort != SInt || mkAdd(p, mkInt(1)) != q.args[0] {
			return nil, false
		}
		c = mkEq0(p)
	default:
		return nil, false
	}
	r := mkScale(a.c, mkInd(c, s))
	if len(rest) > 0 {
		r = mul2(r, mkPoly(s, []Mono{{ratOne, rest}}))
	}
	return r.monos(), true
}

func mkAdd(ts ...*Term) *Term {
	var ms []Mono
	s := ts[0].sort
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("mkAdd sort mismatch %v %v", ts[0], t))
		}
		ms = append(ms, t.monos()...)
	}
	return mkPoly(s, ms)
}
func mkScale(r *big.Rat, t *Term) *Term {
	if r.Cmp(ratOne) == 0 {
		return t
	}
	var ms []Mono
	for _, m := range t.monos() {
		ms = append(ms, Mono{new(big.Rat).Mul(r, m.c), m.f})
	}
	return mkPoly(t.sort, ms)
}
func mkNeg(t *Term) *Term    { return mkScale(ratNegOne, t) }
func mkSub(a, b *Term) *Term { return mkAdd(a, mkNeg(b)) }

// mulMono multiplies two monomials; the result may be a polynomial because
// of atom reduction rules.
func mulMono(s Sort, a, b Mono) []Mono {
	c := new(big.Rat).Mul(a.c, b.c)
	if len(a.f) == 0 {
		return []Mono{{c, b.f}}
	}
	if len(b.f) == 0 {
		return []Mono{{c, a.f}}
	}
	m := make([]Fac, 0, len(a.f)+len(b.f))
	i, j := 0, 0
	changed := false
	for i < len(a.f) || j < len(b.f) {
		if j >= len(b.f) || (i < len(a.f) && a.f[i].t.id < b.f[j].t.id) {
			m = append(m, a.f[i])
			i++
		} else if i >= len(a.f) || b.f[j].t.id < a.f[i].t.id {
			m = append(m, b.f[j])
			j++
		} else {
			m = append(m, Fac{a.f[i].t, a.f[i].p + b.f[j].p})
			changed = true
			i++
			j++
		}
	}
	return normMono(s, Mono{c, m}, changed)
}

func normMono(s Sort, m Mono, _ bool) []Mono {
	// reductions: Ind^p=Ind ; Abs(x)^2=x^2; sqrt(x)^2=x for x syntactically >=0; x^p*Inv(x)^q
	var extra []*Term
	needSort := false
	for i := 0; i < len(m.f); i++ {
		f := m.f[i]
		switch f.t.op {
		case OInd:
			if f.p > 1 {
				m.f = cloneFacs(m.f)
				m.f[i].p = 1
			}
			// ind(x=c)*x = ind(x=c)*c
			if e := f.t.args[0]; e.op == OEq0 {
				if c, r := splitConst(e.args[0]); len(r) == 1 && len(r[0].f) == 1 && r[0].f[0].p == 1 && r[0].c.Cmp(ratOne) == 0 {
					for j := range m.f {
						if x := m.f[j].t; m.f[j].p > 0 && (x == r[0].f[0].t || x == mkToReal(r[0].f[0].t)) {
							k := new(big.Rat).Neg(c)
							if k.Sign() == 0 {
								return nil
							}
							m.f = cloneFacs(m.f)
							nc := new(big.Rat).Set(m.c)
							for q := 0; q < m.f[j].p; q++ {
								nc.Mul(nc, k)
							}
							m.c = nc
							m.f[j].p = 0
						}
					}
				}
			}
		case OAbs:
			if f.p >= 2 {
				m.f = cloneFacs(m.f)
				extra = append(extra, mkPow(f.t.args[0], f.p/2*2))
				m.f[i].p = f.p % 2
			}
		case OApp:
			if f.t.name == "sqrt" && f.p >= 2 && syntNonneg(f.t.args[0]) {
				m.f = cloneFacs(m.f)
				extra = append(extra, mkPow(f.t.args[0], f.p/2))
				m.f[i].p = f.p % 2
			}
		case OInv:
			// find base
			x := f.t.args[0]
			for j := range m.f {
				if m.f[j].t == x && m.f[j].p > 0 && m.f[i].p > 0 {
					p, q := m.f[j].p, m.f[i].p
					np, nq := p, q
					if p > q {
						np, nq = p-q, 0
					} else if q > p {
						np, nq = 0, q-p
					} else {
						np, nq = 1, 1
					}
					if np != p || nq != q {
						m.f = cloneFacs(m.f)
						m.f[j].p, m.f[i].p = np, nq
					}
				}
			}
		case OIte:
			if f.p > 1 && s == SReal {
				// ite^p = ite(c,a^p,b^p)
				m.f = cloneFacs(m.f)
				extra = append(extra, mkIte(f.t.args[0], mkPow(f.t.args[1], f.p), mkPow(f.t.args[2], f.p)))
				m.f[i].p = 0
			}
		}
	}
	var nf []Fac
	for _, f := range m.f {
		if f.p > 0 {
			nf = append(nf, f)
		}
	}
	_ = needSort
	res := []Mono{{m.c, nf}}
	for _, e := range extra {
		var r2 []Mono
		for _, a := range res {
			for _, b := range e.monos() {
				r2 = append(r2, mulMono(s, a, b)...)
			}
		}
		res = r2
	}
	return res
}

func cloneFacs(f []Fac) []Fac { return append([]Fac(nil), f...) }

func mkPow(t *Term, p int) *Term {
	r := mkNum(t.sort, 1)
	for i := 0; i < p; i++ {
		r = mkMul(r, t)
	}
	return r
}

func mkMul(ts ...*Term) *Term {
	r := ts[0]
	for _, t := range ts[1:] {
		r = mul2(r, t)
	}
	return r
}

func mul2(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkMul sort mismatch %v %v", a, b))
	}
	if a.op == OConst {
		return mkScale(a.rat, b)
	}
	if b.op == OConst {
		return mkScale(b.rat, a)
	}
	ma, mb := a.monos(), b.monos()
	var ms []Mono
	for _, x := range ma {
		for _, y := range mb {
			ms = append(ms, mulMono(a.sort, x, y)...)
		}
	}
	return mkPoly(a.sort, ms)
}

func syntNonneg(t *Term) bool {
	switch t.op {
	case OConst:
		return t.rat.Sign() >= 0
	case OAbs, OInd:
		return true
	case OInv:
		return syntNonneg(t.args[0])
	case OApp:
		return t.name == "sqrt" || t.name == "exp"
	case OToR:
		return syntNonneg(t.args[0])
	case OIte:
		return syntNonneg(t.args[1]) && syntNonneg(t.args[2])
	case OMin:
		for _, a := range t.args {
			if !syntNonneg(a) {
				return false
			}
		}
		return true
	case OMax:
		for _, a := range t.args {
			if syntNonneg(a) {
				return true
			}
		}
		return false
	case OBind:
		if t.name == "sum" {
			return syntNonneg(t.args[1]) || sumOfSquares(t.args[1])
		}
		return t.name == "first"
	case OPoly:
		return sumOfSquares(t)
	}
	return false
}

func sumOfSquares(t *Term) bool {
	all := true
	for _, m := range t.monos() {
		if m.c.Sign() < 0 {
			all = false
			break
		}
		for _, f := range m.f {
			if f.p%2 == 1 && !syntNonneg(f.t) {
				all = false
			}
		}
	}
	if all {
		return true
	}
	// perfect square of a two/three atom linear form: try sqrt of polynomial
	if isPerfectSquare(t) {
		return true
	}
	b := mergeSums(t)
	return b != nil && (syntNonneg(b) || sumOfSquares(b))
}

// mergeSums: the body of the single sum that t is the expansion of, if it is one.
func mergeSums(t *Term) *Term {
	if t.op != OPoly || len(t.mons) < 2 {
		return nil
	}
	var n, v *Term
	var parts []*Term
	for _, m := range t.mons {
		var s *Term
		rest := mkConst(t.sort, m.c)
		for _, f := range m.f {
			if s == nil && f.p == 1 && f.t.op == OBind && f.t.name == "sum" && (n == nil || f.t.args[0] == n) {
				s = f.t
			} else {
				rest = mkMul(rest, mkPow(f.t, f.p))
			}
		}
		if s == nil {
			return nil
		}
		if n == nil {
			n = s.args[0]
			v = mkVar("mg@", SInt)
		}
		if rest.hasVar(v) {
			return nil
		}
		parts = append(parts, mkMul(rest, openWith(s, []*Term{v})[0]))
	}
	return mkAdd(parts...)
}

// isPerfectSquare recognises (sum c_i a_i)^2 times common nonnegative factors.
func isPerfectSquare(t *Term) bool {
	if t.op != OPoly {
		return false
	}
	// strip common factors that are nonneg
	ms := t.mons
	common := cloneFacs(ms[0].f)
	for _, m := range ms[1:] {
		var nc []Fac
		for _, f := range common {
			for _, g := range m.f {
				if g.t == f.t {
					p := f.p
					if g.p < p {
						p = g.p
					}
					nc = append(nc, Fac{f.t, p})
				}
			}
		}
		common = nc
	}
	if len(common) > 0 {
		for _, f := range common {
			if f.p%2 == 1 && !syntNonneg(f.t) {
				return false
			}
		}
		var nm []Mono
		for _, m := range ms {
			nm = append(nm, divMono(m, common))
		}
		return sumOfSquares(mkPoly(t.sort, nm))
	}
	// linear candidates: terms with squares
	var lin []Mono
	for _, m := range ms {
		if len(m.f) == 0 {
			r := ratSqrt(m.c)
			if r == nil {
				return false
			}
			lin = append(lin, Mono{r, nil})
			continue
		}
		sq := true
		for _, f := range m.f {
			if f.p%2 == 1 && f.t.op != OInd {
				sq = false
			}
		}
		if sq {
			r := ratSqrt(m.c)
			if r == nil {
				return false
			}
			var fs []Fac
			for _, f := range m.f {
				if f.t.op == OInd {
					fs = append(fs, f)
				} else {
					fs = append(fs, Fac{f.t, f.p / 2})
				}
			}
			lin = append(lin, Mono{r, fs})
		}
	}
	if len(lin) == 0 || len(lin) > 6 {
		return false
	}
	for mask := 0; mask < 1<<(uint(len(lin))-1); mask++ {
		var l []Mono
		for i, m := range lin {
			c := m.c
			if mask&(1<<uint(i)) != 0 {
				c = new(big.Rat).Neg(c)
			}
			l = append(l, Mono{c, m.f})
		}
		lt := mkPoly(t.sort, l)
		if mul2(lt, lt) == t {
			return true
		}
	}
	return false
}

func ratSqrt(r *big.Rat) *big.Rat {
	if r.Sign() < 0 {
		return nil
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	q := new(big.Rat).SetFrac(n, d)
	if new(big.Rat).Mul(q, q).Cmp(r) == 0 {
		return q
	}
	return nil
}

func divMono(m Mono, common []Fac) Mono {
	var nf []Fac
	for _, f := range m.f {
		p := f.p
		for _, g := range common {
			if g.t == f.t {
				p -= g.p
			}
		}
		if p > 0 {
			nf = append(nf, Fac{f.t, p})
		}
	}
	return Mono{m.c, nf}
}

func commonFacs(ms []Mono) []Fac {
	if len(ms) == 0 {
		return nil
	}
	common := cloneFacs(ms[0].f)
	for _, m := range ms[1:] {
		var nc []Fac
		for _, f := range common {
			for _, g := range m.f {
				if g.t == f.t {
					p := f.p
					if g.p < p {
						p = g.p
					}
					nc = append(nc, Fac{f.t, p})
				}
			}
		}
		common = nc
	}
	return common
}

func mkInv(t *Term) *Term {
	switch t.op {
	case OConst:
		if t.rat.Sign() == 0 {
			return intern(&Term{op: OInv, sort: SReal, args: []*Term{t}})
		}
		return mkConst(SReal, new(big.Rat).Inv(t.rat))
	case OInv:
		return t.args[0]
	case OIte:
		return mkIte(t.args[0], mkInv(t.args[1]), mkInv(t.args[2]))
	case OInd:
		return t
	}
	if t == tInf {
		return mkNum(SReal, 0)
	}
	ms := t.monos()
	common := commonFacs(ms)
	if len(ms) == 1 {
		r := mkConst(SReal, new(big.Rat).Inv(ms[0].c))
		for _, f := range ms[0].f {
			if f.t.op == OPoly {
				panic("poly atom")
			}
			r = mkMul(r, mkPow(invAtom(f.t), f.p))
		}
		return r
	}
	lead := ms[0].c
	var nm []Mono
	inv := new(big.Rat).Inv(lead)
	for _, m := range ms {
		d := divMono(m, common)
		nm = append(nm, Mono{new(big.Rat).Mul(d.c, inv), d.f})
	}
	q := mkPoly(SReal, nm)
	r := mkScale(inv, intern(&Term{op: OInv, sort: SReal, args: []*Term{q}}))
	for _, f := range common {
		r = mkMul(r, mkPow(invAtom(f.t), f.p))
	}
	return r
}
func invAtom(a *Term) *Term {
	if a.op == OInv {
		return a.args[0]
	}
	if a.op == OInd {
		return a
	}
	if a.op == OIte {
		return mkInv(a)
	}
	if a == tInf {
		return mkNum(SReal, 0)
	}
	return intern(&Term{op: OInv, sort: SReal, args: []*Term{a}})
}
func mkRDiv(a, b *Term) *Term { return mkMul(a, mkInv(b)) }

func mkToReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	switch t.op {
	case OConst:
		return mkConst(SReal, t.rat)
	case OPoly:
		var parts []*Term
		for _, m := range t.mons {
			r := mkConst(SReal, m.c)
			for _, f := range m.f {
				r = mkMul(r, mkPow(mkToReal(f.t), f.p))
			}
			parts = append(parts, r)
		}
		return mkAdd(parts...)
	case OIte:
		return mkIte(t.args[0], mkToReal(t.args[1]), mkToReal(t.args[2]))
	case OInd:
		return mkInd(t.args[0], SReal)
	case OBind:
		if t.name == "sum" {
			vs, in := openBind(t)
			return mkSum(vs[0], t.args[0], mkToReal(in[0]))
		}
	case OMax:
		return mkMinMax(OMax, mapTerms(t.args, mkToReal)...)
	case OMin:
		return mkMinMax(OMin, mapTerms(t.args, mkToReal)...)
	case OTrunc:
		// keep
	}
	return intern(&Term{op: OToR, sort: SReal, args: []*Term{t}})
}

func mapTerms(ts []*Term, f func(*Term) *Term) []*Term {
	r := make([]*Term, len(ts))
	for i, t := range ts {
		r[i] = f(t)
	}
	return r
}

// fromReal returns an int term whose real image is t, if syntactically apparent.
func fromReal(t *Term) *Term {
	switch t.op {
	case OConst:
		if t.rat.IsInt() {
			return mkConst(SInt, t.rat)
		}
		return nil
	case OToR:
		return t.args[0]
	case OInd:
		return mkInd(t.args[0], SInt)
	case OIte:
		a, b := fromReal(t.args[1]), fromReal(t.args[2])
		if a != nil && b != nil {
			return mkIte(t.args[0], a, b)
		}
		return nil
	case OMin, OMax:
		var as []*Term
		for _, a := range t.args {
			x := fromReal(a)
			if x == nil {
				return nil
			}
			as = append(as, x)
		}
		return mkMinMax(t.op, as...)
	case OBind:
		if t.name == "sum" {
			vs, in := openBind(t)
			if b := fromReal(in[0]); b != nil {
				return mkSum(vs[0], t.args[0], b)
			}
		}
		return nil
	case OPoly:
		var parts []*Term
		for _, m := range t.mons {
			if !m.c.IsInt() {
				return nil
			}
			r := mkConst(SInt, m.c)
			for _, f := range m.f {
				x := fromReal(f.t)
				if x == nil {
					return nil
				}
				r = mkMul(r, mkPow(x, f.p))
			}
			parts = append(parts, r)
		}
		return mkAdd(parts...)
	}
	return nil
}

func mkTrunc(t *Term) *Term {
	if t.op == OConst {
		q := new(big.Int).Quo(t.rat.Num(), t.rat.Denom())
		return mkConst(SInt, new(big.Rat).SetInt(q))
	}
	if x := fromReal(t); x != nil {
		return x
	}
	if t.op == OIte {
		return mkIte(t.args[0], mkTrunc(t.args[1]), mkTrunc(t.args[2]))
	}
	return intern(&Term{op: OTrunc, sort: SInt, args: []*Term{t}})
}

// mkFDiv is floor division; exact simplification for divisible monomials.
func mkFDiv(a, b *Term) *Term {
	if b.isInt64(1) {
		return a
	}
	if a.isZero() {
		return a
	}
	if x, ok := a.int64(); ok {
		if y, ok := b.int64(); ok && y != 0 {
			return mkInt(floorDiv(x, y))
		}
	}
	// constant divisor: pull out divisible part
	if y, ok := b.int64(); ok && y > 0 {
		var q, r []Mono
		for _, m := range a.monos() {
			d := new(big.Rat).Quo(m.c, new(big.Rat).SetInt64(y))
			if d.IsInt() {
				q = append(q, Mono{d, m.f})
			} else {
				r = append(r, m)
			}
		}
		if len(q) > 0 {
			return mkAdd(mkPoly(SInt, q), mkFDiv(mkPoly(SInt, r), b))
		}
	}
	return intern(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func floorDiv(x, y int64) int64 {
	q := x / y
	if (x%y != 0) && ((x < 0) != (y < 0)) {
		q--
	}
	return q
}
func mkFMod(a, b *Term) *Term {
	if b.isInt64(1) {
		return mkInt(0)
	}
	if a.isZero() {
		return a
	}
	if x, ok := a.int64(); ok {
		if y, ok := b.int64(); ok && y != 0 {
			return mkInt(x - y*floorDiv(x, y))
		}
	}
	if y, ok := b.int64(); ok && y > 0 {
		var r []Mono
		ch := false
		for _, m := range a.monos() {
			d := new(big.Rat).Quo(m.c, new(big.Rat).SetInt64(y))
			if d.IsInt() {
				ch = true
			} else {
				r = append(r, m)
			}
		}
		if ch {
			return mkFMod(mkPoly(SInt, r), b)
		}
	}
	return intern(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// splitByAtom writes p = q*s + r where r has no monomial containing atom s (degree reduced by 1).
func splitByAtom(p *Term, s *Term) (q, r *Term) {
	var qs, rs []Mono
	for _, m := range p.monos() {
		found := false
		for _, f := range m.f {
			if f.t == s {
				found = true
			}
		}
		if found {
			qs = append(qs, divMono(m, []Fac{{s, 1}}))
		} else {
			rs = append(rs, m)
		}
	}
	return mkPoly(p.sort, qs), mkPoly(p.sort, rs)
}

// ---- booleans

func mkNot(t *Term) *Term {
	switch t.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return t.args[0]
	case OAnd:
		return mkOr(mapTerms(t.args, mkNot)...)
	case OOr:
		return mkAnd(mapTerms(t.args, mkNot)...)
	case OLe0:
		p := t.args[0]
		if p.sort == SInt {
			// not p<=0  <=> p>=1 <=> 1-p<=0
			return mkLe0(mkSub(mkInt(1), p))
		}
		return mkLt0(mkNeg(p))
	case OLt0:
		return mkLe0(mkNeg(t.args[0]))
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{t}})
}

func mkAnd(ts ...*Term) *Term { return andOr(OAnd, ts) }
func mkOr(ts ...*Term) *Term  { return andOr(OOr, ts) }

func andOr(op Op, ts []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == OOr {
		unit, zero = tFalse, tTrue
	}
	var fl []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == zero {
			return false
		}
		if t == unit || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		fl = append(fl, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return zero
		}
	}
	for _, t := range fl {
		if t.op == OLe0 || t.op == OLt0 || t.op == ONot || t.op == OEq0 || t.op == OEqS || t.op == OBind || t.op == OVar || t.op == OApp {
			if seen[mkNot(t)] {
				return zero
			}
		}
	}
	// p<=0 ∧ -p<=0 is p=0, and its dual
	for i, t := range fl {
		var o, e *Term
		switch {
		case op == OAnd && t.op == OLe0:
			o, e = mkLe0(mkNeg(t.args[0])), nil
			if seen[o] && o != t {
				e = mkEq0(t.args[0])
			}
		case op == OOr && t.op == OLe0 && t.args[0].sort == SInt:
			o = mkLe0(mkSub(mkInt(2), t.args[0]))
			if seen[o] && o != t {
				e = mkNot(mkEq0(mkSub(t.args[0], mkInt(1))))
			}
		case op == OOr && t.op == OLt0:
			o = mkLt0(mkNeg(t.args[0]))
			if seen[o] && o != t {
				e = mkNot(mkEq0(t.args[0]))
			}
		}
		if e != nil {
			nl := []*Term{e}
			for j, x := range fl {
				if j != i && x != o {
					nl = append(nl, x)
				}
			}
			return andOr(op, nl)
		}
	}
	// absorption: x op (.. dual with x ..): for And: x ∧ (x ∨ y)=x ; x ∧ (¬x ∨ y) = x ∧ y
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	changed := false
	var out []*Term
	for _, t := range fl {
		if t.op == dual {
			var na []*Term
			absorbed := false
			for _, a := range t.args {
				if seen[a] {
					absorbed = true
					break
				}
				if seen[mkNot(a)] {
					changed = true
					continue
				}
				na = append(na, a)
			}
			if absorbed {
				changed = true
				continue
			}
			if len(na) != len(t.args) {
				out = append(out, andOr(dual, na))
				continue
			}
		}
		out = append(out, t)
	}
	if changed {
		return andOr(op, out)
	}
	fl = out
	if len(fl) == 0 {
		return unit
	}
	if len(fl) == 1 {
		return fl[0]
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	// factoring: for Or of Ands with common conjuncts: (c∧a)∨(c∧b) = c∧(a∨b)
	if op == OOr && len(fl) >= 2 {
		common := map[*Term]bool{}
		for i, t := range fl {
			cs := conjuncts(t)
			if i == 0 {
				for _, c := range cs {
					common[c] = true
				}
			} else {
				m := map[*Term]bool{}
				for _, c := range cs {
					if common[c] {
						m[c] = true
					}
				}
				common = m
			}
			if len(common) == 0 {
				break
			}
		}
		if len(common) > 0 {
			var cl []*Term
			for c := range common {
				cl = append(cl, c)
			}
			var rest []*Term
			for _, t := range fl {
				var r []*Term
				for _, c := range conjuncts(t) {
					if !common[c] {
						r = append(r, c)
					}
				}
				rest = append(rest, mkAnd(r...))
			}
			cl = append(cl, mkOr(rest...))
			return mkAnd(cl...)
		}
	}
	return intern(&Term{op: op, sort: SBool, args: fl})
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t == tTrue {
		return nil
	}
	return []*Term{t}
}

func mkImp(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func infCoef(p *Term) int {
	for _, m := range p.monos() {
		for _, f := range m.f {
			if f.t == tInf && len(m.f) == 1 && f.p == 1 {
				return m.c.Sign()
			}
		}
	}
	return 0
}

func lcmDen(p *Term) *big.Int {
	l := big.NewInt(1)
	for _, m := range p.monos() {
		d := m.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Quo(d, g))
	}
	return l
}

func splitConst(p *Term) (*big.Rat, []Mono) {
	c := new(big.Rat)
	var r []Mono
	for _, m := range p.monos() {
		if len(m.f) == 0 {
			c = m.c
		} else {
			r = append(r, m)
		}
	}
	return c, r
}

func mkLe0(p *Term) *Term {
	if p.op == OConst {
		return mkBool(p.rat.Sign() <= 0)
	}
	if r := indCmp(p, func(x *big.Rat) bool { return x.Sign() <= 0 }); r != nil {
		return r
	}
	if p.sort == SReal {
		if s := infCoef(p); s != 0 {
			return mkBool(s < 0)
		}
		if q := realIntForm(p); q != nil {
			return mkLe0(q)
		}
		ms := p.monos()
		return intern(&Term{op: OLe0, sort: SBool, args: []*Term{mkScale(absInv(ms[0].c), p)}})
	}
	c, r := splitConst(p)
	g := new(big.Int)
	for _, m := range r {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
	}
	gi := new(big.Rat).SetFrac(big.NewInt(1), g)
	var ms []Mono
	for _, m := range r {
		ms = append(ms, Mono{new(big.Rat).Mul(m.c, gi), m.f})
	}
	if len(r) == 1 && len(r[0].f) == 1 && r[0].f[0].p == 1 && r[0].f[0].t.op == OBind && r[0].f[0].t.name == "last" {
		l := r[0].f[0].t
		if r[0].c.Cmp(ratOne) == 0 && c.Cmp(ratOne) == 0 { // last < 0
			vs, in := openBind(l)
			return mkForall(vs[0], l.args[0], mkNot(in[0]))
		}
		if r[0].c.Cmp(new(big.Rat).Neg(ratOne)) == 0 && c.Sign() == 0 { // last >= 0
			vs, in := openBind(l)
			return mkExists(vs[0], l.args[0], in[0])
		}
	}
	// q + c/g <= 0  -> q + ceil(c/g) <=0
	cg := new(big.Rat).Mul(c, gi)
	ms = append(ms, Mono{ratCeil(cg), nil})
	return intern(&Term{op: OLe0, sort: SBool, args: []*Term{mkPoly(SInt, ms)}})
}

// realIntForm: real polynomial all of whose atoms are images of ints -> int polynomial (positively scaled)
func realIntForm(p *Term) *Term {
	q := mkScale(new(big.Rat).SetInt(lcmDen(p)), p)
	return fromReal(q)
}

func absInv(r *big.Rat) *big.Rat {
	x := new(big.Rat).Abs(r)
	return x.Inv(x)
}
func ratCeil(r *big.Rat) *big.Rat {
	if r.IsInt() {
		return r
	}
	n := new(big.Int).Div(r.Num(), r.Denom()) // Euclidean: floor for positive denom
	n.Add(n, big.NewInt(1))
	return new(big.Rat).SetInt(n)
}

// indCmp decides a comparison of a*ind(c)+b.
func indCmp(p *Term, holds func(*big.Rat) bool) *Term {
	b, r := splitConst(p)
	if len(r) != 1 || len(r[0].f) != 1 || r[0].f[0].p != 1 || r[0].f[0].t.op != OInd {
		return nil
	}
	c := r[0].f[0].t.args[0]
	return mkOr(mkAnd(c, mkBool(holds(new(big.Rat).Add(b, r[0].c)))), mkAnd(mkNot(c), mkBool(holds(b))))
}

func mkLt0(p *Term) *Term {
	if p.op == OConst {
		return mkBool(p.rat.Sign() < 0)
	}
	if p.sort == SInt {
		return mkLe0(mkAdd(p, mkInt(1)))
	}
	if r := indCmp(p, func(x *big.Rat) bool { return x.Sign() < 0 }); r != nil {
		return r
	}
	if s := infCoef(p); s != 0 {
		return mkBool(s < 0)
	}
	if q := realIntForm(p); q != nil {
		return mkLt0(q)
	}
	ms := p.monos()
	return intern(&Term{op: OLt0, sort: SBool, args: []*Term{mkScale(absInv(ms[0].c), p)}})
}
func mkLe(a, b *Term) *Term { return mkLe0(mkSub(a, b)) }
func mkLt(a, b *Term) *Term { return mkLt0(mkSub(a, b)) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sort mismatch %v / %v", a, b))
	}
	switch a.sort {
	case SBool:
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
	case SStr:
		if a.op == OStr && b.op == OStr {
			return tFalse
		}
		if a.op == OIte {
			return mkIteB(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == OIte {
			return mkIteB(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return intern(&Term{op: OEqS, sort: SBool, args: []*Term{a, b}})
	}
	return mkEq0(mkSub(a, b))
}

func mkEq0(p *Term) *Term {
	if p.op == OConst {
		return mkBool(p.rat.Sign() == 0)
	}
	if r := indCmp(p, func(x *big.Rat) bool { return x.Sign() == 0 }); r != nil {
		return r
	}
	if p.sort == SReal {
		if infCoef(p) != 0 {
			return tFalse
		}
		if q := realIntForm(p); q != nil {
			return mkEq0(q)
		}
		ms := p.monos()
		return intern(&Term{op: OEq0, sort: SBool, args: []*Term{mkScale(new(big.Rat).Inv(ms[0].c), p)}})
	}
	c, r := splitConst(p)
	g := new(big.Int)
	for _, m := range r {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c.Num()))
	}
	if r[0].c.Sign() < 0 {
		g.Neg(g)
	}
	gi := new(big.Rat).SetFrac(big.NewInt(1), g)
	cg := new(big.Rat).Mul(c, gi)
	if !cg.IsInt() {
		return tFalse
	}
	return intern(&Term{op: OEq0, sort: SBool, args: []*Term{mkScale(gi, p)}})
}

func mkIteB(c, a, b *Term) *Term {
	return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkIte sort mismatch %v / %v", a, b))
	}
	if a.sort == SBool {
		return mkIteB(c, a, b)
	}
	// canonical polarity
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if (c.op == OLt0 || c.op == OLe0) && negPolarity(c) {
		return mkIte(mkNot(c), b, a)
	}
	// nested same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == SStr {
		return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
	}
	if c.op == OEq0 && c.args[0].sort == a.sort && c == mkEq(a, b) {
		return b
	}
	// min/max/abs recognition
	if c.op == OLt0 || c.op == OLe0 {
		d := mkSub(a, b)
		if d.op != OConst {
			p := c.args[0]
			if c.op == OLe0 && p.sort == SInt && a.sort == SInt {
				// p<=0 with p = a-b (or a-b+1)
				if p == d || p == mkAdd(d, mkInt(1)) {
					return mkMinMax(OMin, a, b)
				}
				nd := mkNeg(d)
				if p == nd || p == mkAdd(nd, mkInt(1)) {
					return mkMinMax(OMax, a, b)
				}
			} else if p.sort == SReal && a.sort == SReal && p.op != OConst {
				ms := d.monos()
				nd := mkScale(absInv(ms[0].c), d)
				if p == nd {
					return mkMinMax(OMin, a, b)
				}
				if p == mkNeg(nd) {
					return mkMinMax(OMax, a, b)
				}
			}
		}
	}
	// extract common part
	ma, mb := a.monos(), b.monos()
	var common []Mono
	kb := map[string]*big.Rat{}
	for _, m := range mb {
		kb[facKey(m.f)] = m.c
	}
	for _, m := range ma {
		if x, ok := kb[facKey(m.f)]; ok && x.Cmp(m.c) == 0 {
			common = append(common, m)
		}
	}
	if len(common) > 0 {
		cp := mkPoly(a.sort, common)
		return mkAdd(cp, mkIte(c, mkSub(a, cp), mkSub(b, cp)))
	}
	if b.isZero() {
		return mkMul(mkInd(c, a.sort), a)
	}
	if a.isZero() {
		return mkMul(mkSub(mkNum(a.sort, 1), mkInd(c, a.sort)), b)
	}
	if a.isConst() && b.isConst() {
		// b + (a-b)*ind
		return mkAdd(b, mkMul(mkSub(a, b), mkInd(c, a.sort)))
	}
	return intern(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

func negPolarity(c *Term) bool {
	p := c.args[0]
	_, r := splitConst(p)
	if len(r) == 0 {
		return false
	}
	return r[0].c.Sign() < 0
}

// searchOutcome recognises the outcome of a search: first(n | p) >= n says that no number below n has p.
// For first(n | p) < n, it also returns p at that number, which follows.
func searchOutcome(c *Term) (r, at *Term) {
	if c.op != OLe0 || c.args[0].sort != SInt {
		return nil, nil
	}
	p := c.args[0]
	for _, m := range p.monos() {
		if len(m.f) != 1 || m.f[0].p != 1 || m.f[0].t.op != OBind || m.f[0].t.name != "first" {
			continue
		}
		f := m.f[0].t
		vs, in := openBind(f)
		n, body := f.args[0], in[0]
		if body.op == OLe0 || body.op == OLt0 {
			continue // a position in a sorted sequence: facts about first say more
		}
		switch {
		case mkAdd(p, f) == n:
			return mkForall(vs[0], n, mkNot(body)), nil
		case mkSub(p, f) == mkSub(mkInt(1), n):
			return mkNot(mkForall(vs[0], n, mkNot(body))), substVar(body, vs[0], f)
		}
	}
	return nil, nil
}

// dropImplied leaves out the conjuncts that follow from the outcome of a search.
func dropImplied(c *Term) *Term {
	drop := map[*Term]bool{}
	for _, a := range c.args {
		if _, at := searchOutcome(a); at != nil {
			for _, x := range conjuncts(at) {
				drop[x] = true
			}
		}
	}
	if len(drop) == 0 {
		return c
	}
	var r []*Term
	for _, a := range c.args {
		if !drop[a] {
			r = append(r, a)
		}
	}
	return mkAnd(r...)
}

func mkInd(c *Term, s Sort) *Term {
	if c.op == OAnd {
		c = dropImplied(c)
	}
	if r, _ := searchOutcome(c); r != nil {
		c = r
	}
	switch c.op {
	case OTrue:
		return mkNum(s, 1)
	case OFalse:
		return mkNum(s, 0)
	case ONot:
		return mkSub(mkNum(s, 1), mkInd(c.args[0], s))
	case OAnd:
		r := mkNum(s, 1)
		for _, a := range c.args {
			r = mkMul(r, mkInd(a, s))
		}
		return r
	case OOr:
		r := mkNum(s, 1)
		if len(c.args) <= 3 {
			for _, a := range c.args {
				r = mkMul(r, mkInd(mkNot(a), s))
			}
			return mkSub(mkNum(s, 1), r)
		}
	case OLe0, OLt0:
		if negPolarity(c) {
			n := mkNot(c)
			return mkSub(mkNum(s, 1), intern(&Term{op: OInd, sort: s, args: []*Term{n}}))
		}
	}
	return intern(&Term{op: OInd, sort: s, args: []*Term{c}})
}

func mkMinMax(op Op, ts ...*Term) *Term {
	var fl []*Term
	seen := map[*Term]bool{}
	var cst *Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == op {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == OConst {
			if cst == nil {
				cst = t
			} else if (op == OMin) == (t.rat.Cmp(cst.rat) < 0) {
				cst = t
			}
			return
		}
		if !seen[t] {
			seen[t] = true
			fl = append(fl, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	// infinities
	ninf := mkNeg(tInf)
	var o []*Term
	for _, t := range fl {
		if t == tInf {
			if op == OMax {
				return tInf
			}
			continue
		}
		if t == ninf {
			if op == OMin {
				return ninf
			}
			continue
		}
		o = append(o, t)
	}
	if cst != nil {
		o = append(o, cst)
	}
	if len(o) == 0 {
		return fl[0]
	}
	if len(o) == 1 {
		return o[0]
	}
	// constant differences between args
	for i := 0; i < len(o); i++ {
		for j := i + 1; j < len(o); j++ {
			d := mkSub(o[i], o[j])
			if d.op == OConst {
				drop := j
				if (op == OMin) == (d.rat.Sign() > 0) {
					drop = i
				}
				no := append(append([]*Term(nil), o[:drop]...), o[drop+1:]...)
				return mkMinMax(op, no...)
			}
		}
	}
	// max(x,-x)=abs
	if len(o) == 2 && op == OMax && mkAdd(o[0], o[1]).isZero() {
		return mkAbs(o[0])
	}
	if len(o) == 2 && op == OMin && mkAdd(o[0], o[1]).isZero() {
		return mkNeg(mkAbs(o[0]))
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return intern(&Term{op: op, sort: o[0].sort, args: o})
}

func mkAbs(t *Term) *Term {
	if t.op == OConst {
		return mkConst(t.sort, new(big.Rat).Abs(t.rat))
	}
	if t == tInf {
		return t
	}
	ms := t.monos()
	if ms[0].c.Sign() < 0 {
		t = mkNeg(t)
		ms = t.monos()
	}
	if syntNonneg(t) {
		return t
	}
	if len(ms) == 1 {
		// |c*a^p*..| = c*|a|^p..
		r := mkConst(t.sort, ms[0].c)
		for _, f := range ms[0].f {
			if f.p%2 == 0 || syntNonneg(f.t) {
				r = mkMul(r, mkPow(f.t, f.p))
			} else {
				at := f.t
				if at.op == OInv {
					r = mkMul(r, mkPow(mkInv(mkAbs(at.args[0])), f.p))
					continue
				}
				r = mkMul(r, mkPow(intern(&Term{op: OAbs, sort: t.sort, args: []*Term{at}}), f.p))
			}
		}
		return r
	}
	l := ms[0].c
	if l.Cmp(ratOne) != 0 && t.sort == SReal {
		return mkScale(l, mkAbs(mkScale(new(big.Rat).Inv(l), t)))
	}
	return intern(&Term{op: OAbs, sort: t.sort, args: []*Term{t}})
}

func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: OApp, sort: s, name: name, args: args})
}

// ---- binders

func bvar(d, i int, s Sort) *Term {
	v := mkVar(fmt.Sprintf("#%d.%d.%d", d, i, s), s)
	v.bd = d
	return v
}

func mkBind(name string, s Sort, vs []*Term, outer, inner []*Term) *Term {
	// the level exceeds the levels of the binders inside, and differs from the
	// levels of the (enclosing) canonical variables that occur free
	level := func(ts []*Term, skip []*Term) int {
		d := 0
		var used []int
		for _, t := range ts {
			if t.depth > d {
				d = t.depth
			}
		fv:
			for _, v := range t.fv {
				x := termList[v]
				if x.bd == 0 {
					continue
				}
				for _, y := range skip {
					if x == y {
						continue fv
					}
				}
				used = append(used, x.bd)
			}
		}
		for _, t := range outer {
			for _, v := range t.fv {
				if x := termList[v]; x.bd > 0 {
					used = append(used, x.bd)
				}
			}
		}
		d++
	again:
		for _, u := range used {
			if u == d {
				d++
				goto again
			}
		}
		return d
	}
	cur := vs
	d := level(inner, cur)
	for try := 0; ; try++ {
		m := map[*Term]*Term{}
		bvs := make([]*Term, len(vs))
		for i, v := range cur {
			bvs[i] = bvar(d, i, v.sort)
			m[v] = bvs[i]
		}
		sb := newSubst(m)
		inner = mapTerms(inner, sb.apply)
		cur = bvs
		// renormalisation under the substitution may have changed the depth
		d2 := level(inner, cur)
		if d2 == d || try == 3 {
			args := append(append([]*Term(nil), outer...), inner...)
			return intern(&Term{op: OBind, sort: s, name: name, args: args, bvs: bvs, nout: len(outer)})
		}
		d = d2
	}
}

func openBind(t *Term) ([]*Term, []*Term) {
	if t.open == nil {
		for i, b := range t.bvs {
			t.open = append(t.open, mkVar(fmt.Sprintf("o%d.%d", t.id, i), b.sort))
		}
	}
	return t.open, openWith(t, t.open)
}

func openWith(t *Term, vs []*Term) []*Term {
	m := map[*Term]*Term{}
	for i, b := range t.bvs {
		m[b] = vs[i]
	}
	sb := newSubst(m)
	var r []*Term
	for _, a := range t.args[t.nout:] {
		r = append(r, sb.apply(a))
	}
	return r
}

func max0(n *Term) *Term { return mkMinMax(OMax, mkInt(0), n) }

// expandInd rewrites top-level ite atoms depending on v into indicator polynomials.
func expandInd(t *Term, v *Term) *Term {
	for iter := 0; iter < 20; iter++ {
		var hit *Term
		for _, m := range t.monos() {
			for _, f := range m.f {
				if f.t.op == OIte && f.t.hasVar(v) {
					hit = f.t
				}
			}
		}
		if hit == nil {
			return t
		}
		i := mkInd(hit.args[0], hit.sort)
		rep := mkAdd(mkMul(i, mkSub(hit.args[1], hit.args[2])), hit.args[2])
		t = replaceAtom(t, hit, rep)
	}
	return t
}

func replaceAtom(t, atom, rep *Term) *Term {
	var parts []*Term
	for _, m := range t.monos() {
		r := mkConst(t.sort, m.c)
		for _, f := range m.f {
			if f.t == atom {
				r = mkMul(r, mkPow(rep, f.p))
			} else {
				r = mkMul(r, mkPow(f.t, f.p))
			}
		}
		parts = append(parts, r)
	}
	if len(parts) == 0 {
		return t
	}
	return mkAdd(parts...)
}

// linearIn: p = a*v + b with integer/const coefficient a and b free of v.
func linearIn(p, v *Term) (a *big.Rat, b *Term, ok bool) {
	a = new(big.Rat)
	var rest []Mono
	for _, m := range p.monos() {
		dep := false
		for _, f := range m.f {
			if f.t.hasVar(v) {
				dep = true
			}
		}
		if !dep {
			rest = append(rest, m)
			continue
		}
		if len(m.f) == 1 && m.f[0].t == v && m.f[0].p == 1 {
			a = m.c
			continue
		}
		return nil, nil, false
	}
	return a, mkPoly(p.sort, rest), true
}

// solveEq: from equality atom p==0, unique v if unit coefficient.
func solveEq(c, v *Term) *Term {
	if c.op != OEq0 || c.args[0].sort != SInt {
		return nil
	}
	a, b, ok := linearIn(c.args[0], v)
	if !ok {
		return solvePerm(c, v)
	}
	if a.Sign() == 0 {
		return nil
	}
	if a.Cmp(ratOne) == 0 {
		return mkNeg(b)
	}
	if a.Cmp(ratNegOne) == 0 {
		return b
	}
	return nil
}

// mkPerm is the k-th entry after n swaps x(m)<->y(m) of the sequence of all integers, of which [0,len) is closed under
// the swaps (perm), or the place of k (permi): two inverse bijections of the integers.
func mkPerm(name string, m, n, ln, k, x, y *Term) *Term {
	if n.isZero() {
		return k
	}
	return mkBind(name, SInt, []*Term{m}, []*Term{n, ln, k}, []*Term{x, y})
}

func isPerm(t *Term) bool { return t.op == OBind && (t.name == "perm" || t.name == "permi") }

// permInv is the inverse of the bijection of t, at k.
func permInv(t, k *Term) *Term {
	vs, in := openBind(t)
	name := "permi"
	if t.name == "permi" {
		name = "perm"
	}
	return mkPerm(name, vs[0], t.args[0], t.args[1], k, in[0], in[1])
}

// solvePerm solves +-perm(e(v)) + r = 0, r free of v.
func solvePerm(c, v *Term) *Term {
	p := c.args[0]
	var pt *Term
	var pc *big.Rat
	for _, m := range p.monos() {
		for _, f := range m.f {
			if !f.t.hasVar(v) {
				continue
			}
			if pt != nil || len(m.f) != 1 || f.p != 1 || !isPerm(f.t) {
				return nil
			}
			pt, pc = f.t, m.c
		}
	}
	if pt == nil || pt.args[0].hasVar(v) || pt.args[1].hasVar(v) || new(big.Rat).Abs(pc).Cmp(ratOne) != 0 {
		return nil
	}
	if _, in := openBind(pt); in[0].hasVar(v) || in[1].hasVar(v) {
		return nil
	}
	rest := mkSub(p, mkMul(mkConst(SInt, pc), pt)) // pc*pt + rest = 0
	val := mkNeg(mkMul(mkConst(SInt, pc), rest))
	return solveEq(mkEq(pt.args[2], permInv(pt, val)), v)
}

const unrollMax = 4

// mkSum is Sum_{0<=v<n} body
func mkSum(v, n, body *Term) *Term {
	r := mkSum1(v, n, body)
	if evalDebug {
		evalSame("mkSum", mkBind("sum", body.sort, []*Term{v}, []*Term{n}, []*Term{body}), r)
	}
	return r
}

func mkSum1(v, n, body *Term) *Term {
	s := body.sort
	if body.isZero() {
		return body
	}
	if k, ok := n.int64(); ok {
		if k <= 0 {
			return mkNum(s, 0)
		}
		if k <= unrollMax {
			r := mkNum(s, 0)
			for i := int64(0); i < k; i++ {
				r = mkAdd(r, substVar(body, v, mkInt(i)))
			}
			return r
		}
	}
	body = expandInd(body, v)
	var parts []*Term
	for _, m := range body.monos() {
		indep := mkConst(s, m.c)
		var dep []Fac
		for _, f := range m.f {
			if f.t.hasVar(v) {
				dep = append(dep, f)
			} else {
				indep = mkMul(indep, mkPow(f.t, f.p))
			}
		}
		if len(dep) == 0 {
			cnt := max0(n)
			if s == SReal {
				cnt = mkToReal(cnt)
			}
			parts = append(parts, mkMul(indep, cnt))
			continue
		}
		solved := false
		for _, f := range dep {
			if f.t.op == OInd {
				g := solveEq(f.t.args[0], v)
				if g == nil && f.t.args[0].op == OLe0 && f.t.args[0].args[0].sort == SInt {
					// v <= 0 over v >= 0
					if a, b, ok := linearIn(f.t.args[0].args[0], v); ok && a.Cmp(ratOne) == 0 && b.isZero() {
						g = mkInt(0)
					}
				}
				if g != nil {
					rest := mkNum(s, 1)
					for _, h := range dep {
						if h.t != f.t {
							rest = mkMul(rest, mkPow(h.t, h.p))
						}
					}
					rest = substVar(rest, v, g)
					rng := mkAnd(mkLe(mkInt(0), g), mkLt(g, n))
					parts = append(parts, mkMul(indep, mkInd(rng, s), rest))
					solved = true
					break
				}
			}
		}
		if solved {
			continue
		}
		parts = append(parts, mkMul(indep, canonSum(v, n, mkPoly(s, []Mono{{ratOne, dep}}))))
	}
	if len(parts) == 0 {
		return mkNum(s, 0)
	}
	return mkAdd(parts...)
}

func canonSum(v, n, body *Term) *Term {
	raw := mkBind("sum", body.sort, []*Term{v}, []*Term{n}, []*Term{body})
	// try swapping with an inner sum
	ms := body.monos()
	if len(ms) != 1 {
		return raw
	}
	for fi, f := range ms[0].f {
		if f.t.op == OBind && f.t.name == "sum" && f.p == 1 && !f.t.args[0].hasVar(v) {
			w := fresh("sw", SInt)
			in := openWith(f.t, []*Term{w})[0]
			// all factors
			outw := mkNum(body.sort, 1) // depends on v (inside)
			for fj, g := range ms[0].f {
				if fj != fi {
					outw = mkMul(outw, mkPow(g.t, g.p))
				}
			}
			full := mkMul(outw, in)
			fms := full.monos()
			if len(fms) != 1 {
				continue
			}
			// order B: outer w, inner v
			var depv, indv []Fac
			for _, g := range fms[0].f {
				if g.t.hasVar(v) {
					depv = append(depv, g)
				} else {
					indv = append(indv, g)
				}
			}
			innerB := mkBind("sum", body.sort, []*Term{v}, []*Term{n}, []*Term{mkPoly(body.sort, []Mono{{ratOne, depv}})})
			bodyB := mkMul(mkPoly(body.sort, []Mono{{fms[0].c, indv}}), innerB)
			bm := bodyB.monos()
			if len(bm) != 1 {
				continue
			}
			var cst []Fac
			var dw []Fac
			for _, g := range bm[0].f {
				if g.t.hasVar(w) {
					dw = append(dw, g)
				} else {
					cst = append(cst, g)
				}
			}
			if len(cst) > 0 || len(dw) == 0 {
				continue
			}
			rawB := mkBind("sum", body.sort, []*Term{w}, []*Term{f.t.args[0]}, []*Term{mkPoly(body.sort, []Mono{{ratOne, dw}})})
			evalSame("canonSum", raw, mkScale(bm[0].c, rawB))
			if rawB.depth < raw.depth || rawB.depth == raw.depth && (rawB.size < raw.size || rawB.size == raw.size && rawB.id < raw.id) {
				return mkScale(bm[0].c, rawB)
			}
		}
	}
	return raw
}

// mkForall is forall 0<=v<n. body
func mkForall(v, n, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if k, ok := n.int64(); ok {
		if k <= 0 {
			return tTrue
		}
		if k <= unrollMax {
			var r []*Term
			for i := int64(0); i < k; i++ {
				r = append(r, substVar(body, v, mkInt(i)))
			}
			return mkAnd(r...)
		}
	}
	if !body.hasVar(v) {
		return mkOr(mkLe(n, mkInt(0)), body)
	}
	if body.op == OAnd {
		var r []*Term
		for _, a := range body.args {
			r = append(r, mkForall(v, n, a))
		}
		return mkAnd(r...)
	}
	if body.op == OOr {
		var ind, dep []*Term
		for _, a := range body.args {
			if a.hasVar(v) {
				dep = append(dep, a)
			} else {
				ind = append(ind, a)
			}
		}
		if len(ind) > 0 {
			return mkOr(append(ind, mkForall(v, n, mkOr(dep...)))...)
		}
		// v!=g or rest -> (0<=g<n) => rest[g]
		for _, a := range dep {
			if a.op == ONot {
				if g := solveEq(a.args[0], v); g != nil {
					var rest []*Term
					for _, b := range dep {
						if b != a {
							rest = append(rest, substVar(b, v, g))
						}
					}
					return mkOr(mkNot(mkAnd(mkLe(mkInt(0), g), mkLt(g, n))), mkOr(rest...))
				}
			}
		}
	}
	if body.op == ONot {
		if g := solveEq(body.args[0], v); g != nil {
			return mkNot(mkAnd(mkLe(mkInt(0), g), mkLt(g, n)))
		}
	}
	return mkBind("forall", SBool, []*Term{v}, []*Term{n}, []*Term{body})
}
func mkExists(v, n, body *Term) *Term { return mkNot(mkForall(v, n, mkNot(body))) }

// mkFirst is the least v in [0,n) with body, or max(0,n)
func mkFirst(v, n, body *Term) *Term {
	if body == tFalse {
		return max0(n)
	}
	if body == tTrue {
		return mkInt(0)
	}
	if !body.hasVar(v) {
		return mkIte(body, mkInt(0), max0(n))
	}
	if n.isInt64(1) {
		return mkIte(substVar(body, v, mkInt(0)), mkInt(0), mkInt(1))
	}
	return mkBind("first", SInt, []*Term{v}, []*Term{n}, []*Term{body})
}

// mkLast is the greatest v in [0,n) with body, or -1
func mkLast(v, n, body *Term) *Term {
	if body == tFalse {
		return mkInt(-1)
	}
	if body == tTrue {
		return mkSub(max0(n), mkInt(1))
	}
	if !body.hasVar(v) {
		return mkIte(body, mkSub(max0(n), mkInt(1)), mkInt(-1))
	}
	for _, c := range conjuncts(body) {
		if g := solveEq(c, v); g != nil {
			ok := mkAnd(substVar(body, v, g), mkLe(mkInt(0), g), mkLt(g, n))
			return mkIte(ok, g, mkInt(-1))
		}
	}
	return mkBind("last", SInt, []*Term{v}, []*Term{n}, []*Term{body})
}

// mkFoldMM: max/min of init and body(v) for 0<=v<n
func mkFoldMM(op Op, v, n, init, body *Term) *Term {
	if k, ok := n.int64(); ok && k <= unrollMax {
		r := init
		for i := int64(0); i < k; i++ {
			r = mkMinMax(op, r, substVar(body, v, mkInt(i)))
		}
		return r
	}
	nm := "maxf"
	if op == OMin {
		nm = "minf"
	}
	return mkBind(nm, body.sort, []*Term{v}, []*Term{n, init}, []*Term{body})
}

func mkProd(v, n, body *Term) *Term {
	if k, ok := n.int64(); ok && k <= unrollMax {
		r := mkNum(body.sort, 1)
		for i := int64(0); i < k; i++ {
			r = mkMul(r, substVar(body, v, mkInt(i)))
		}
		return r
	}
	if body.isInt64(1) {
		return body
	}
	return mkBind("prod", body.sort, []*Term{v}, []*Term{n}, []*Term{body})
}

// ---- substitution

// Subst substitutes variables and function symbols.
type Subst struct {
	m    map[*Term]*Term
	arr  map[string]func([]*Term) *Term
	memo map[*Term]*Term
	vids map[int32]bool
	sids map[int32]bool
}

func newSubst(m map[*Term]*Term) *Subst {
	s := &Subst{m: m, memo: map[*Term]*Term{}, vids: map[int32]bool{}, sids: map[int32]bool{}}
	for v := range m {
		s.vids[int32(v.id)] = true
	}
	return s
}
func (s *Subst) withArr(a map[string]func([]*Term) *Term) *Subst {
	s.arr = a
	for n := range a {
		s.sids[symID(n)] = true
	}
	return s
}
func substVar(t, v, by *Term) *Term { return newSubst(map[*Term]*Term{v: by}).apply(t) }

func (s *Subst) affects(t *Term) bool {
	for _, v := range t.fv {
		if s.vids[v] {
			return true
		}
	}
	if len(s.sids) > 0 {
		for _, v := range t.syms {
			if s.sids[v] {
				return true
			}
		}
	}
	return false
}

func (s *Subst) apply(t *Term) *Term {
	if !s.affects(t) {
		return t
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OVar:
		r = s.m[t]
		if r == nil {
			r = t
		}
	case OApp:
		args := mapTerms(t.args, s.apply)
		if f, ok := s.arr[t.name]; ok {
			r = f(args)
		} else {
			r = rebuild(t, args)
		}
	case OPoly:
		parts := make([]*Term, 0, len(t.mons))
		for _, m := range t.mons {
			x := mkConst(t.sort, m.c)
			for _, f := range m.f {
				x = mkMul(x, mkPow(s.apply(f.t), f.p))
			}
			parts = append(parts, x)
		}
		r = mkAdd(parts...)
	case OBind:
		vs := make([]*Term, len(t.bvs))
		for i, b := range t.bvs {
			vs[i] = fresh("b", b.sort)
		}
		inner := openWith(t, vs)
		outer := mapTerms(t.args[:t.nout], s.apply)
		inner = mapTerms(inner, s.apply)
		r = rebuildBind(t, vs, outer, inner)
	default:
		r = rebuild(t, mapTerms(t.args, s.apply))
	}
	s.memo[t] = r
	return r
}

func rebuildBind(t *Term, vs, outer, inner []*Term) *Term {
	switch t.name {
	case "sum":
		return mkSum(vs[0], outer[0], inner[0])
	case "forall":
		return mkForall(vs[0], outer[0], inner[0])
	case "first":
		return mkFirst(vs[0], outer[0], inner[0])
	case "last":
		return mkLast(vs[0], outer[0], inner[0])
	case "maxf":
		return mkFoldMM(OMax, vs[0], outer[0], outer[1], inner[0])
	case "minf":
		return mkFoldMM(OMin, vs[0], outer[0], outer[1], inner[0])
	case "prod":
		return mkProd(vs[0], outer[0], inner[0])
	}
	return mkBind(t.name, t.sort, vs, outer, inner)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OInv:
		return mkInv(a[0])
	case OToR:
		return mkToReal(a[0])
	case OTrunc:
		return mkTrunc(a[0])
	case ODiv:
		return mkFDiv(a[0], a[1])
	case OMod:
		return mkFMod(a[0], a[1])
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OInd:
		return mkInd(a[0], t.sort)
	case OMin, OMax:
		return mkMinMax(t.op, a...)
	case OAbs:
		return mkAbs(a[0])
	case OApp:
		return mkFn(t.name, t.sort, a...)
	case ONot:
		return mkNot(a[0])
	case OAnd:
		return mkAnd(a...)
	case OOr:
		return mkOr(a...)
	case OEq0:
		return mkEq0(a[0])
	case OLe0:
		return mkLe0(a[0])
	case OLt0:
		return mkLt0(a[0])
	case OEqS:
		return mkEq(a[0], a[1])
	}
	panic(fmt.Sprint("rebuild op ", t.op))
}

// mkFn builds an application of a known mathematical function with light simplification.
func mkFn(name string, s Sort, a ...*Term) *Term {
	switch name {
	case "sqrt":
		if a[0].op == OConst {
			if r := ratSqrt(a[0].rat); r != nil {
				return mkConst(SReal, r)
			}
		}
		if a[0].op == OIte {
			return mkIte(a[0].args[0], mkFn(name, s, a[0].args[1]), mkFn(name, s, a[0].args[2]))
		}
		// sqrt(x^2)=|x| for single atom
		if ms := a[0].monos(); len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].p == 2 {
			if r := ratSqrt(ms[0].c); r != nil {
				return mkScale(r, mkAbs(ms[0].f[0].t))
			}
		}
	case "exp":
		if a[0].isZero() {
			return mkNum(SReal, 1)
		}
	case "log":
		if a[0].isInt64(1) {
			return mkNum(SReal, 0)
		}
	case "pow":
		if k, ok := a[1].int64(); ok && k >= 0 && k <= 4 {
			return mkPow(a[0], int(k))
		}
		if a[1].op == OConst && a[1].rat.Cmp(big.NewRat(1, 2)) == 0 {
			return mkFn("sqrt", SReal, a[0])
		}
		if a[1].isInt64(-1) {
			return mkInv(a[0])
		}
	}
	return mkApp(name, s, a...)
}

// ---- printing

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	s := sb.String()
	if len(s) > 4000 {
		s = s[:4000] + "…"
	}
	return s
}

func (t *Term) write(sb *strings.Builder, d int) {
	if sb.Len() > 4200 {
		return
	}
	switch t.op {
	case OConst:
		sb.WriteString(t.rat.RatString())
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OStr:
		fmt.Fprintf(sb, "%q", t.name)
	case OVar:
		sb.WriteString(t.name)
	case OPoly:
		sb.WriteString("(")
		for i, m := range t.mons {
			if i > 0 {
				sb.WriteString(" + ")
			}
			if m.c.Cmp(ratOne) != 0 || len(m.f) == 0 {
				sb.WriteString(m.c.RatString())
				if len(m.f) > 0 {
					sb.WriteString("*")
				}
			}
			for j, f := range m.f {
				if j > 0 {
					sb.WriteString("*")
				}
				f.t.write(sb, d+1)
				if f.p != 1 {
					fmt.Fprintf(sb, "^%d", f.p)
				}
			}
		}
		sb.WriteString(")")
	default:
		n := map[Op]string{OInv: "inv", OToR: "real", OTrunc: "trunc", ODiv: "div", OMod: "mod", OIte: "ite", OInd: "ind", OMin: "min", OMax: "max", OAbs: "abs", ONot: "not", OAnd: "and", OOr: "or", OEq0: "eq0", OLe0: "le0", OLt0: "lt0", OEqS: "eqs"}[t.op]
		if t.op == OApp || t.op == OBind {
			n = t.name
		}
		sb.WriteString(n)
		if t.op == OBind {
			sb.WriteString("{")
			for i, b := range t.bvs {
				if i > 0 {
					sb.WriteString(",")
				}
				sb.WriteString(b.name)
			}
			sb.WriteString("}")
		}
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				if t.op == OBind && i == t.nout {
					sb.WriteString(" | ")
				} else {
					sb.WriteString(", ")
				}
			}
			a.write(sb, d+1)
		}
		sb.WriteString(")")
	}
}
