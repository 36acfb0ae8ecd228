package main

import (
	"strconv"
	"strings"
)

func bindsVar(t *Term) bool {
	for _, v := range t.fv {
		if strings.HasPrefix(termList[v].name, "#") {
			return true
		}
	}
	return false
}

func appendNew(l []*Term, t *Term) []*Term {
	for _, x := range l {
		if x == t {
			return l
		}
	}
	return append(l, t)
}

// instForalls instantiates universally quantified facts at the ground applications
// occurring in the goal and in the ground facts.
func instForalls(facts []*Term, goal *Term) []*Term {
	var qs []*Term
	for _, f := range facts {
		if f.op == OBind && f.name == "forall" {
			qs = append(qs, f)
		}
	}
	byName := map[string][]*Term{}
	seen := map[*Term]bool{}
	byPos := map[string][]*Term{}
	add := func(t *Term) {
		walkTerm(t, func(a *Term) {
			if a.op == OBind && (a.name == "maxf" || a.name == "minf") && !seen[a] && !bindsVar(a) {
				seen[a] = true
				vs, in := openBind(a)
				if a.name == "maxf" {
					qs = append(qs, mkForall(vs[0], a.args[0], mkLe(in[0], a)))
				} else {
					qs = append(qs, mkForall(vs[0], a.args[0], mkLe(a, in[0])))
				}
			}
			if a.op != OApp || seen[a] || len(a.args) == 0 {
				return
			}
			seen[a] = true
			bad := false
			for i, x := range a.args {
				if bindsVar(x) {
					bad = true
				} else if x.sort == SInt {
					byPos[a.name+"/"+strconv.Itoa(i)] = appendNew(byPos[a.name+"/"+strconv.Itoa(i)], x)
				}
			}
			if bad {
				return
			}
			byName[a.name] = append(byName[a.name], a)
		})
	}
	add(goal)
	for _, f := range facts {
		if !hasQuant(f) {
			add(f)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	var out []*Term
	outSeen := map[*Term]bool{}
	for round := 0; round < 2; round++ {
		n0 := len(out)
		for _, q := range qs {
			for _, in := range instOne(q, byName, byPos) {
				if !outSeen[in] && len(out) < 60 {
					outSeen[in] = true
					out = append(out, in)
				}
			}
		}
		if len(out) == n0 {
			break
		}
		for _, o := range out[n0:] {
			add(o)
		}
	}
	return out
}

func instOne(q *Term, byName, byPos map[string][]*Term) []*Term {
	var vs, ns []*Term
	b := q
	for b.op == OBind && b.name == "forall" {
		v, in := openBind(b)
		vs = append(vs, v[0])
		ns = append(ns, b.args[0])
		b = in[0]
	}
	var pats []*Term
	weak := map[*Term][]*Term{}
	walkTerm(b, func(a *Term) {
		if a.op != OApp {
			return
		}
		if bindsVar(a) {
			for i, x := range a.args {
				for _, v := range vs {
					if x == v {
						for _, c := range byPos[a.name+"/"+strconv.Itoa(i)] {
							weak[v] = appendNew(weak[v], c)
						}
					}
				}
			}
			return
		}
		for _, v := range vs {
			for _, x := range a.args {
				if x.sort == SInt && x.hasVar(v) {
					pats = append(pats, a)
					return
				}
			}
		}
	})
	var res []*Term
	seen := map[*Term]bool{}
	emit := func(m map[*Term]*Term) {
		sb := newSubst(m)
		var g []*Term
		for i, v := range vs {
			g = append(g, mkLe(mkInt(0), m[v]), mkLt(m[v], sb.apply(ns[i])))
		}
		t := mkImp(mkAnd(g...), sb.apply(b))
		if t != tTrue && !seen[t] && len(res) < 24 {
			seen[t] = true
			res = append(res, t)
		}
	}
	var rec func(m map[*Term]*Term)
	rec = func(m map[*Term]*Term) {
		if len(m) == len(vs) {
			emit(m)
			return
		}
		pat := false
		for _, p := range pats {
			use := false
			for _, v := range vs {
				if m[v] == nil && p.hasVar(v) {
					use = true
				}
			}
			if !use {
				continue
			}
			pat = true
			for _, g := range byName[p.name] {
				if m2 := matchApp(p, g, vs, m); m2 != nil && len(m2) > len(m) {
					rec(m2)
				}
			}
		}
		if !pat {
			for _, v := range vs {
				if m[v] == nil {
					for _, c := range weak[v] {
						m2 := map[*Term]*Term{v: c}
						for k, x := range m {
							m2[k] = x
						}
						rec(m2)
					}
					break
				}
			}
		}
	}
	rec(map[*Term]*Term{})
	return res
}

func matchApp(p, g *Term, vs []*Term, m map[*Term]*Term) map[*Term]*Term {
	if len(p.args) != len(g.args) {
		return nil
	}
	r := map[*Term]*Term{}
	for k, v := range m {
		r[k] = v
	}
	for i, a := range p.args {
		x := newSubst(r).apply(a)
		if x == g.args[i] {
			continue
		}
		done := false
		for _, v := range vs {
			if r[v] == nil && x.hasVar(v) {
				if x.sort != SInt {
					return nil
				}
				c, rest, ok := linearIn(x, v)
				if !ok || c.Cmp(ratOne) != 0 {
					return nil
				}
				for _, w := range vs {
					if w != v && rest.hasVar(w) {
						return nil
					}
				}
				r[v] = mkSub(g.args[i], rest)
				done = true
				break
			}
		}
		if !done && len(x.fv) > 0 {
			// mismatch on a ground argument
			return nil
		}
		if !done {
			return nil
		}
	}
	return r
}
