package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A channel is a pointer to a cell {values sent, values received, closed}. A goroutine that sends is executed
// when it is started; each value sent is handed to the contract's OnSend function. A channel that is received from
// is fed by the contract (Feed). Blocking is not modelled.
var chanCell = types.NewStruct([]*types.Var{
	types.NewField(token.NoPos, nil, "sent", types.Typ[types.Int], false),
	types.NewField(token.NoPos, nil, "received", types.Typ[types.Int], false),
	types.NewField(token.NoPos, nil, "closed", types.Typ[types.Bool], false),
}, nil)

type feed struct {
	n *Term
	f Value
}

func (ex *Exec) chanLoc(st *State, v Value) *Loc {
	v = ex.resolve(st, v)
	if i, ok := v.(*IfaceV); ok {
		v = ex.resolve(st, i.val)
	}
	p, ok := v.(*PtrV)
	if !ok || p.loc == nil || len(p.key) > 0 || len(p.path) > 0 || p.loc.elem != types.Type(chanCell) {
		unsup("channel %s", vstr(v))
	}
	return p.loc
}

func (ex *Exec) chanState(st *State, v Value) *StructV {
	return ex.content(st, ex.chanLoc(st, v)).body.(*StructV)
}

func (ex *Exec) setChan(st *State, v Value, i int, x *Term) {
	l := ex.chanLoc(st, v)
	s := st.mem[l].body.(*StructV)
	f := append([]Value(nil), s.f...)
	f[i] = x
	st.mem[l] = &Content{nil, &StructV{f}}
}

func (ex *Exec) send(st *State, fr *Frame, x *ssa.Send) {
	ch := fr.get(x.Chan)
	c := ex.chanState(st, ch)
	if ex.onSend == nil {
		unsup("send without OnSend")
	}
	ex.oblige(st, "channel", "no send on a closed channel", ex.posStr(x.Pos()), mkNot(tm(c.f[2])))
	ex.callValue(st, ex.onSend, []Value{fr.get(x.X)}, nil, fr, x.Pos())
	ex.setChan(st, ch, 0, mkAdd(tm(c.f[0]), mkInt(1)))
}

func (ex *Exec) closeChan(st *State, ch Value, pos token.Pos) {
	c := ex.chanState(st, ch)
	ex.oblige(st, "channel", "a channel is closed once", ex.posStr(pos), mkNot(tm(c.f[2])))
	ex.setChan(st, ch, 2, tTrue)
	if ex.gor != nil && ex.gor.inGor > 0 {
		ex.gor.done = true
	}
}

func (ex *Exec) receive(st *State, fr *Frame, x *ssa.UnOp) Value {
	ch := fr.get(x.X)
	c := ex.chanState(st, ch)
	fd, ok := ex.feeds[ex.chanLoc(st, ch)]
	if !ok {
		unsup("receive from a channel that is not fed")
	}
	pos := tm(c.f[1])
	has := st.ctx().simp(mkLt(pos, fd.n))
	var v Value
	if has.op == OFalse {
		v = zeroValue(x.X.Type().Underlying().(*types.Chan).Elem())
	} else {
		v = ex.callValue(st, fd.f, []Value{pos}, nil, fr, x.Pos())
	}
	ex.setChan(st, ch, 1, mkAdd(pos, mkInd(has, SInt)))
	if !x.CommaOk {
		return v
	}
	return &TupleV{[]Value{v, has}}
}
