package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value: *Term, *PtrV, *SliceV, *StructV, *IfaceV, *FuncV, *MapV, *UnionV, *TupleV, *OpaqueV, *HavocV
type Value interface{}

// Loc is a memory location: a cell (no index), a slice backing array (one
// index) or a map (one key), possibly a family indexed by loop iterations.
type Loc struct {
	id      int
	name    string
	elem    types.Type
	region  bool // last var is an element index
	isMap   bool
	np      int // number of family parameters
	born    int // allocation serial
	input   bool
	mapKeys []Value // known constant keys in insertion order (maps)
	mapOpen bool    // map may have unknown keys
}

var locCtr int

func newLoc(name string, elem types.Type, region bool) *Loc {
	locCtr++
	return &Loc{id: locCtr, name: name, elem: elem, region: region, born: locCtr}
}

// Content of a location as a function of vars.
type Content struct {
	vars []*Term
	body Value
}

// Mem is the heap.
type Mem map[*Loc]*Content

func (m Mem) clone() Mem {
	n := make(Mem, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

// PtrV is a pointer. loc==nil is nil.
type PtrV struct {
	loc  *Loc
	key  []*Term // family keys followed by the element index for regions
	path []int
}

// SliceV is a slice. loc==nil is the nil slice.
type SliceV struct {
	loc           *Loc
	key           []*Term
	off, len, cap *Term
}

// StructV is a struct or tuple-like aggregate (also fixed arrays of constant size)
type StructV struct{ f []Value }

// IfaceV is an interface value; typ==nil is nil.
type IfaceV struct {
	typ types.Type
	val Value
}

// FuncV is a function value.
type FuncV struct {
	fn    *ssa.Function
	binds []Value
	bt    string // builtin name
	recv  Value
}

// MapV is a map reference
type MapV struct {
	loc *Loc
	key []*Term
}

// TupleV is a multi-value
type TupleV struct{ f []Value }

// OpaqueV is an unmodelled value
type OpaqueV struct {
	why  string
	data interface{}
}

// HavocV marks a non-scalar leaf whose content is unknown at loop entry.
type HavocV struct {
	loc  *Loc
	path string
	args []*Term
	orig Value
	sym  string
}

// Alt is a guarded alternative.
type Alt struct {
	g *Term
	v Value
}

// UnionV is a guarded choice
type UnionV struct{ alts []Alt }

func isNilPtr(v Value) bool { p, ok := v.(*PtrV); return ok && p.loc == nil }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func sortOf(t types.Type) (Sort, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool, true
		case u.Info()&types.IsInteger != 0:
			return SInt, true
		case u.Info()&types.IsFloat != 0:
			return SReal, true
		case u.Info()&types.IsString != 0:
			return SStr, true
		}
	}
	return 0, false
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SStr:
		return mkStr("")
	}
	return mkNum(s, 0)
}

func zeroValue(t types.Type) Value {
	if s, ok := sortOf(t); ok {
		return zeroTerm(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, zeroValue(u.Field(i).Type()))
		}
		return r
	case *types.Pointer:
		return &PtrV{}
	case *types.Slice:
		return &SliceV{off: mkInt(0), len: mkInt(0), cap: mkInt(0)}
	case *types.Interface:
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Map:
		return &MapV{}
	case *types.Array:
		r := &StructV{}
		if u.Len() > 64 {
			return &OpaqueV{why: "large array"}
		}
		for i := int64(0); i < u.Len(); i++ {
			r.f = append(r.f, zeroValue(u.Elem()))
		}
		return r
	case *types.Basic:
		return &OpaqueV{why: "zero " + t.String()}
	case *types.Chan:
		return &OpaqueV{why: "chan"}
	case *types.Tuple:
		return &TupleV{}
	}
	unsup("zero value of %v", t)
	return nil
}

// ---- substitution on values

// VSub is a term substitution plus loc re-keying.
type VSub struct {
	s       *Subst
	rekey   map[*Loc]*Loc // locs replaced by families with a leading key
	rekeyBy *Term
	simp    *Ctx
	hv      func(h *HavocV) Value
}

func (s *VSub) t(t *Term) *Term {
	r := t
	if s.s != nil {
		r = s.s.apply(t)
	}
	if s.simp != nil && r != t {
		r = s.simp.simp(r)
	}
	return r
}

func (s *VSub) ts(l []*Term) []*Term {
	if len(l) == 0 {
		return l
	}
	return mapTerms(l, s.t)
}

func (s *VSub) key(l *Loc, k []*Term) []*Term {
	var r []*Term
	if s.rekey != nil {
		if _, ok := s.rekey[l]; ok {
			r = append(r, s.rekeyBy)
		}
	}
	for _, x := range k {
		if x == nil {
			r = append(r, nil)
		} else {
			r = append(r, s.t(x))
		}
	}
	return r
}

func (s *VSub) lc(l *Loc) *Loc {
	if s.rekey != nil {
		if f, ok := s.rekey[l]; ok {
			return f
		}
	}
	return l
}

func (s *VSub) v(v Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *Term:
		return s.t(x)
	case *PtrV:
		if x.loc == nil {
			return x
		}
		return &PtrV{s.lc(x.loc), s.key(x.loc, x.key), x.path}
	case *SliceV:
		if x.loc == nil {
			return x
		}
		return &SliceV{s.lc(x.loc), s.key(x.loc, x.key), s.t(x.off), s.t(x.len), s.t(x.cap)}
	case *MapV:
		if x.loc == nil {
			return x
		}
		return &MapV{s.lc(x.loc), s.key(x.loc, x.key)}
	case *StructV:
		r := &StructV{make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = s.v(x.f[i])
		}
		return r
	case *TupleV:
		r := &TupleV{make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = s.v(x.f[i])
		}
		return r
	case *IfaceV:
		if x.typ == nil {
			return x
		}
		return &IfaceV{x.typ, s.v(x.val)}
	case *FuncV:
		if len(x.binds) == 0 && x.recv == nil {
			return x
		}
		r := &FuncV{fn: x.fn, bt: x.bt}
		for _, b := range x.binds {
			r.binds = append(r.binds, s.v(b))
		}
		if x.recv != nil {
			r.recv = s.v(x.recv)
		}
		return r
	case *UnionV:
		var res Value
		// rebuild through ite
		for i := len(x.alts) - 1; i >= 0; i-- {
			a := s.v(x.alts[i].v)
			g := s.t(x.alts[i].g)
			if res == nil {
				res = a
			} else {
				res = iteValue(g, a, res)
			}
		}
		return res
	case *OpaqueV:
		return x
	case *HavocV:
		if s.hv != nil {
			if r := s.hv(x); r != nil {
				return r
			}
		}
		return &HavocV{x.loc, x.path, s.ts(x.args), x.orig, x.sym}
	}
	panic(fmt.Sprintf("vsub %T", v))
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func samePath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameValue(a, b Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *Term:
		return false
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.loc == y.loc && (x.loc == nil || sameTerms(x.key, y.key) && samePath(x.path, y.path))
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.loc == y.loc && (x.loc == nil || sameTerms(x.key, y.key) && x.off == y.off && x.len == y.len)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.loc == y.loc && sameTerms(x.key, y.key)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameValue(x.val, y.val)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || x.bt != y.bt || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameValue(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return (x.recv == nil) == (y.recv == nil) && (x.recv == nil || sameValue(x.recv, y.recv))
	case *TupleV:
		y, ok := b.(*TupleV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameValue(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *UnionV:
		y, ok := b.(*UnionV)
		if !ok || len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameValue(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	case *OpaqueV:
		_, ok := b.(*OpaqueV)
		return ok
	case *HavocV:
		y, ok := b.(*HavocV)
		return ok && x.loc == y.loc && x.path == y.path && x.sym == y.sym && sameTerms(x.args, y.args)
	}
	return false
}

func iteValue(c *Term, a, b Value) Value {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if sameValue(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return mkIte(c, x, y)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := &StructV{make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = iteValue(c, x.f[i], y.f[i])
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.f) == len(y.f) {
			r := &TupleV{make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = iteValue(c, x.f[i], y.f[i])
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.loc == y.loc && x.loc != nil && len(x.key) == len(y.key) {
			r := &SliceV{loc: x.loc, off: mkIte(c, x.off, y.off), len: mkIte(c, x.len, y.len), cap: mkIte(c, x.cap, y.cap)}
			for i := range x.key {
				r.key = append(r.key, mkIte(c, x.key[i], y.key[i]))
			}
			return r
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.loc == y.loc && x.loc != nil && len(x.key) == len(y.key) && samePath(x.path, y.path) {
			r := &PtrV{loc: x.loc, path: x.path}
			for i := range x.key {
				r.key = append(r.key, mkIte(c, x.key[i], y.key[i]))
			}
			return r
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return &IfaceV{x.typ, iteValue(c, x.val, y.val)}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && x.fn != nil && len(x.binds) == len(y.binds) && x.recv == nil && y.recv == nil {
			r := &FuncV{fn: x.fn}
			for i := range x.binds {
				r.binds = append(r.binds, iteValue(c, x.binds[i], y.binds[i]))
			}
			return r
		}
	case *OpaqueV:
		if _, ok := b.(*OpaqueV); ok {
			return a
		}
	}
	var alts []Alt
	add := func(g *Term, v Value) {
		if u, ok := v.(*UnionV); ok {
			for _, al := range u.alts {
				if x := mkAnd(g, al.g); x != tFalse {
					alts = append(alts, Alt{x, al.v})
				}
			}
			return
		}
		for i := range alts {
			if sameValue(alts[i].v, v) {
				alts[i].g = mkOr(alts[i].g, g)
				return
			}
		}
		alts = append(alts, Alt{g, v})
	}
	add(c, a)
	add(mkNot(c), b)
	if len(alts) == 1 {
		return alts[0].v
	}
	return &UnionV{alts}
}

func vstr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return x.String()
	case *PtrV:
		if x.loc == nil {
			return "nilptr"
		}
		return fmt.Sprintf("&%s%d%v%v", x.loc.name, x.loc.id, x.key, x.path)
	case *SliceV:
		if x.loc == nil {
			return "nilslice"
		}
		return fmt.Sprintf("%s%d%v[%v +%v]", x.loc.name, x.loc.id, x.key, x.off, x.len)
	case *StructV:
		var ss []string
		for _, f := range x.f {
			ss = append(ss, vstr(f))
		}
		return "{" + strings.Join(ss, "; ") + "}"
	case *TupleV:
		var ss []string
		for _, f := range x.f {
			ss = append(ss, vstr(f))
		}
		return "<" + strings.Join(ss, "; ") + ">"
	case *IfaceV:
		if x.typ == nil {
			return "niliface"
		}
		return fmt.Sprintf("iface(%v %s)", x.typ, vstr(x.val))
	case *FuncV:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func " + x.bt
	case *MapV:
		if x.loc == nil {
			return "nilmap"
		}
		return fmt.Sprintf("map%d", x.loc.id)
	case *UnionV:
		var ss []string
		for _, f := range x.alts {
			ss = append(ss, f.g.String()+"=>"+vstr(f.v))
		}
		return "union[" + strings.Join(ss, " | ") + "]"
	case *OpaqueV:
		return "opaque:" + x.why
	case *HavocV:
		return fmt.Sprintf("havoc(%s%d %s %v)", x.loc.name, x.loc.id, x.path, x.args)
	}
	return fmt.Sprintf("%T", v)
}
