package main

// Transfer functions of the SSA instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) exec(s *State, b *ssa.BasicBlock, i int, succ func(*ssa.BasicBlock, *State), out func(*Outcome)) {
	n := len(b.Instrs) - 1
	e.execRange(s, b, i, n, func(ns *State) { e.term(ns, b, b.Instrs[n], succ, out) }, out)
}

func (e *Engine) execRange(s *State, b *ssa.BasicBlock, from, to int, cont func(*State), out func(*Outcome)) {
	for i := from; i < to; i++ {
		if s.dead {
			return
		}
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.steps++
		if e.maxSteps > 0 && e.steps > e.maxSteps {
			e.imprec["step budget exhausted"] = true
			return
		}
		ns := e.step(s, in, out)
		if len(ns) == 1 {
			s = ns[0]
			continue
		}
		for _, x := range ns {
			e.execRange(x, b, i+1, to, cont, out)
		}
		return
	}
	if !s.dead {
		cont(s)
	}
}

func (e *Engine) term(s *State, b *ssa.BasicBlock, in ssa.Instruction, succ func(*ssa.BasicBlock, *State), out func(*Outcome)) {
	if s.dead {
		return
	}
	switch x := in.(type) {
	case *ssa.Jump:
		succ(b.Succs[0], s)
	case *ssa.If:
		c, ok := e.val(s, x.Cond).(*BoolV)
		if !ok {
			c = boolOpaque(freshKey("cond"))
		}
		switch s.evalBool(c) {
		case 1:
			succ(b.Succs[0], s)
		case -1:
			succ(b.Succs[1], s)
		default:
			f := s.clone()
			s.assume(c, true)
			f.assume(c, false)
			if !s.dead {
				succ(b.Succs[0], s)
			}
			if !f.dead {
				succ(b.Succs[1], f)
			}
		}
	case *ssa.Return:
		o := &Outcome{st: s}
		for _, r := range x.Results {
			o.ret = append(o.ret, e.val(s, r))
		}
		out(o)
	case *ssa.Panic:
		e.oblige(s, in, "panic", false, "explicit panic reachable")
	default:
		// a block ending in something else
		for _, ns := range e.step(s, in, out) {
			for _, sc := range b.Succs {
				succ(sc, ns)
			}
		}
	}
}

// ------------------------------------------------------------------- memory

func (e *Engine) nonNilPtr(st *State, p *PtrV, in ssa.Instruction, what string) bool {
	if p.Obj == 0 && p.Ext == "" {
		e.oblige(st, in, "nil", false, "nil pointer: "+what)
		st.dead = true
		return false
	}
	if p.MayNil != "" {
		b := boolOpaque("nilptr:" + p.MayNil)
		switch st.evalBool(b) {
		case 1:
			e.oblige(st, in, "nil", false, "nil pointer: "+what)
			st.dead = true
			return false
		case 0:
			e.oblige(st, in, "nil", false, "possibly nil pointer: "+what)
			st.assume(b, false)
			return !st.dead
		}
	}
	e.oblige(st, in, "nil", true, what)
	return true
}

func (e *Engine) load(st *State, p *PtrV, t types.Type) Val {
	if p.Ext != "" && p.Obj == 0 {
		k := "ext:" + p.Ext
		for _, s := range p.Path {
			k += fmt.Sprintf(".%d", s.F)
		}
		return e.sym(t, k)
	}
	o := st.obj(p.Obj)
	if o == nil {
		return e.fresh(t)
	}
	if w := e.watch[o.id]; w != "" {
		st.addEvent(&Event{Kind: "rd", Name: w})
	}
	var v Val
	path := p.Path
	if o.K == 'a' {
		if len(path) == 0 {
			return &ArrV{S: o.S}
		}
		if path[0].Idx == nil {
			return e.fresh(t)
		}
		v = e.elem(st, o.S, path[0].Idx, o.T)
		path = path[1:]
	} else {
		if u, ok := o.V.(*UnkV); ok {
			no := *o
			no.V = e.expand(u)
			if _, inHeap := st.heap[o.id]; inHeap {
				st.setObj(&no)
			} else {
				e.base[o.id] = &no // naming only, same value
			}
			o = &no
		}
		v = o.V
	}
	for _, s := range path {
		v = e.expand(v)
		switch x := v.(type) {
		case *StructV:
			if s.Idx != nil || s.F >= len(x.F) {
				return e.fresh(t)
			}
			v = x.F[s.F]
		case *ArrV:
			if s.Idx == nil {
				return e.fresh(t)
			}
			v = e.elem(st, x.S, s.Idx, nil)
		default:
			return e.sym(t, "part:"+valKey(v)+fmt.Sprintf(".%d", s.F))
		}
	}
	v = e.expand(v)
	if v == nil {
		return e.fresh(t)
	}
	return v
}

func (e *Engine) elem(st *State, s Seq, ix *Lin, et types.Type) Val {
	v := st.elemVal(s, ix, et)
	if v == nil {
		if et != nil {
			return e.fresh(et)
		}
		return nil
	}
	return v
}

func elemSeq(v Val, et types.Type) Seq {
	if iv, ok := v.(*IntV); ok && et != nil && isByte(et) {
		if iv.L.isConst() {
			return Seq{{K: pConst, Len: linC(1), Data: beBytes(iv.L.c, 1)}}
		}
		return Seq{{K: pInt, V: iv.L, N: 1, Lo: 0, Len: linC(1)}}
	}
	return Seq{{K: pElems, Elems: []Val{v}, Len: linC(1)}}
}

func (e *Engine) store(st *State, p *PtrV, v Val, t types.Type) {
	if p.Obj == 0 {
		if p.Ext != "" {
			st.addEvent(&Event{Kind: "extstore", Name: p.Ext, Args: []Val{v}})
		}
		return
	}
	o := st.obj(p.Obj)
	if o == nil {
		return
	}
	if w := e.watch[o.id]; w != "" {
		st.addEvent(&Event{Kind: "wr", Name: w})
	}
	no := *o
	if o.K == 'a' {
		if len(p.Path) == 0 {
			if a, ok := v.(*ArrV); ok {
				no.S = a.S
			}
			st.setObj(&no)
			return
		}
		ix := st.norm(p.Path[0].Idx)
		nv := v
		if len(p.Path) > 1 {
			nv = e.storePath(st, e.elem(st, o.S, ix, o.T), p.Path[1:], v, o.T)
		}
		e.writeSeq(st, &no, ix, elemSeq(nv, o.T))
		st.setObj(&no)
		return
	}
	if a, ok := o.V.(*ArrV); ok && len(p.Path) > 0 && p.Path[0].Idx != nil {
		et := elemTypeOf(o)
		ix := st.norm(p.Path[0].Idx)
		nv := v
		if len(p.Path) > 1 {
			nv = e.storePath(st, e.elem(st, a.S, ix, et), p.Path[1:], v, et)
		}
		e.writeSeq(st, &no, ix, elemSeq(nv, et))
		st.setObj(&no)
		return
	}
	no.V = e.storePath(st, o.V, p.Path, v, o.T)
	st.setObj(&no)
}

// writeSeq writes d at off into an array object (in place on no).
func (e *Engine) writeSeq(st *State, no *Obj, off *Lin, d Seq) {
	s := no.arr()
	if e.logw > 0 {
		st.wlog = append(st.wlog, wrec{no.id, st.norm(off), st.norm(seqLen(d))})
	}
	r, ok := st.seqWrite(s, off, d)
	if !ok {
		r = unkSeq(seqLen(s))
	}
	if no.K == 'a' {
		no.S = r
	} else {
		n := int64(0)
		if a, ok := no.V.(*ArrV); ok {
			n = a.N
		}
		no.V = &ArrV{S: r, N: n}
	}
}

func (e *Engine) storePath(st *State, root Val, path []Sel, v Val, t types.Type) Val {
	if len(path) == 0 {
		return v
	}
	root = e.expand(root)
	s := path[0]
	switch x := root.(type) {
	case *StructV:
		if s.Idx != nil || s.F >= len(x.F) {
			return root
		}
		n := &StructV{F: append([]Val(nil), x.F...)}
		var ft types.Type
		if t != nil {
			if u, ok := t.Underlying().(*types.Struct); ok {
				ft = u.Field(s.F).Type()
			}
		}
		n.F[s.F] = e.storePath(st, x.F[s.F], path[1:], v, ft)
		return n
	case *ArrV:
		if s.Idx == nil {
			return root
		}
		var et types.Type
		if t != nil {
			if u, ok := t.Underlying().(*types.Array); ok {
				et = u.Elem()
			}
		}
		nv := v
		if len(path) > 1 {
			nv = e.storePath(st, e.elem(st, x.S, s.Idx, et), path[1:], v, et)
		}
		r, ok := st.seqWrite(x.S, st.norm(s.Idx), elemSeq(nv, et))
		if !ok {
			r = unkSeq(seqLen(x.S))
		}
		return &ArrV{S: r, N: x.N}
	}
	return &OpaqueV{T: t, Key: freshKey("mut")}
}

// -------------------------------------------------------------- instructions

func (e *Engine) step(s *State, in ssa.Instruction, out func(*Outcome)) []*State {
	one := func(v Val) []*State {
		if iv, ok := in.(ssa.Value); ok {
			s.env[iv] = v
		}
		return []*State{s}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*State{s}
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		o := s.newObj('v', t, x.Comment)
		o.V = zeroVal(t)
		return one(&PtrV{Obj: o.id})
	case *ssa.BinOp:
		return e.binop(s, x)
	case *ssa.UnOp:
		if x.Op == token.ARROW && e.onRecv != nil && e.onRecv(s, x) {
			out(&Outcome{st: s, exit: "again"})
			return nil
		}
		return e.unop(s, x)
	case *ssa.Call:
		return e.doCall(s, x, x.Common(), out)
	case *ssa.ChangeInterface:
		return one(e.val(s, x.X))
	case *ssa.ChangeType:
		return one(e.val(s, x.X))
	case *ssa.Convert:
		return e.convert(s, x, x.X, x.Type())
	case *ssa.MultiConvert:
		return e.convert(s, x, x.X, x.Type())
	case *ssa.Defer:
		d := deferred{call: x.Common(), ins: x}
		c := x.Common()
		if c.IsInvoke() {
			d.fn = e.val(s, c.Value)
		} else {
			d.fn = e.val(s, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, e.val(s, a))
		}
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
		return []*State{s}
	case *ssa.Extract:
		t, ok := e.val(s, x.Tuple).(*TupleV)
		if !ok || x.Index >= len(t.E) {
			return one(e.fresh(x.Type()))
		}
		return one(t.E[x.Index])
	case *ssa.Field:
		v := e.expand(e.val(s, x.X))
		if sv, ok := v.(*StructV); ok && x.Field < len(sv.F) {
			return one(e.expand(sv.F[x.Field]))
		}
		return one(e.sym(x.Type(), "part:"+valKey(v)+fmt.Sprintf(".%d", x.Field)))
	case *ssa.FieldAddr:
		p, ok := e.val(s, x.X).(*PtrV)
		if !ok {
			return one(&PtrV{Ext: freshKey("fa")})
		}
		if !e.nonNilPtr(s, p, in, "field access") {
			return nil
		}
		n := &PtrV{Obj: p.Obj, Ext: p.Ext, Path: append(append([]Sel(nil), p.Path...), Sel{F: x.Field})}
		return one(n)
	case *ssa.Go:
		c := x.Common()
		ev := &Event{Kind: "go", Name: calleeName(c), Pos: x.Pos(), In: x.Parent()}
		for _, a := range c.Args {
			ev.Args = append(ev.Args, e.val(s, a))
		}
		if c.IsInvoke() {
			ev.Fn = nil
		} else if f, ok := e.val(s, c.Value).(*FuncV); ok {
			ev.Fn = f
		}
		e.snapshot(s, ev)
		s.addEvent(ev)
		if e.syncGo != nil && e.syncGo(s, ev.Fn) {
			var r []*State
			for _, o := range e.callFn(s, in, ev.Fn.Fn, ev.Args, ev.Fn.Bind, c.Signature()) {
				if o.exit != "" {
					out(o)
					continue
				}
				o.st.addEvent(&Event{Kind: "go-end", Name: ev.Name, Pos: x.Pos(), In: x.Parent()})
				r = append(r, o.st)
			}
			return r
		}
		return []*State{s}
	case *ssa.Index:
		return e.index(s, x)
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Lookup:
		return e.lookup(s, x)
	case *ssa.MakeChan:
		return one(&ChanV{Id: freshKey("chan:" + e.instrPos(x))})
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(s, b))
		}
		return one(f)
	case *ssa.MakeInterface:
		return one(&IfaceV{T: x.X.Type(), V: e.val(s, x.X)})
	case *ssa.MakeMap:
		o := s.newObj('m', x.Type(), "")
		o.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, name: fmt.Sprintf("m%d", o.id), T: x.Type().Underlying().(*types.Map)}
		return one(&MapV{Obj: o.id})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		n, ok1 := e.val(s, x.Len).(*IntV)
		c, ok2 := e.val(s, x.Cap).(*IntV)
		if !ok1 || !ok2 {
			return one(e.fresh(x.Type()))
		}
		okLen := s.proveGE(n.L) && s.proveGE(linSub(c.L, n.L))
		e.oblige(s, in, "make", okLen, "make with a negative length")
		if !okLen {
			s.assumeGE(n.L)
			s.assumeGE(linSub(c.L, n.L))
			if s.dead {
				return nil
			}
		}
		o := s.newObj('a', et, "")
		o.S = s.zeroSeq(et, c.L)
		return one(&SliceV{Arr: o.id, Off: linC(0), Len: s.norm(n.L), Cap: s.norm(c.L), Nil: 'n'})
	case *ssa.MapUpdate:
		return e.mapUpdate(s, x)
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Range:
		return e.rng(s, x)
	case *ssa.RunDefers:
		return e.runDefers(s, x, out)
	case *ssa.Select:
		if e.onRecv != nil && e.onRecv(s, x) {
			out(&Outcome{st: s, exit: "again"})
			return nil
		}
		return e.selectOp(s, x)
	case *ssa.Send:
		ev := &Event{Kind: "send", Pos: x.Pos(), In: x.Parent()}
		if c, ok := e.val(s, x.Chan).(*ChanV); ok {
			ev.Name = c.Id
		}
		v := e.val(s, x.X)
		ev.Args = []Val{v}
		e.snapshot(s, ev)
		s.addEvent(ev)
		return []*State{s}
	case *ssa.Slice:
		return e.slice(s, x)
	case *ssa.SliceToArrayPointer:
		return one(e.fresh(x.Type()))
	case *ssa.Store:
		p, ok := e.val(s, x.Addr).(*PtrV)
		if !ok {
			return []*State{s}
		}
		if !e.nonNilPtr(s, p, in, "store") {
			return nil
		}
		e.store(s, p, e.val(s, x.Val), x.Val.Type())
		return []*State{s}
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Panic:
		e.oblige(s, in, "panic", false, "explicit panic reachable")
		return nil
	}
	e.imprec[fmt.Sprintf("instruction %T", in)] = true
	if iv, ok := in.(ssa.Value); ok {
		return one(e.fresh(iv.Type()))
	}
	return []*State{s}
}

func (st *State) zeroSeq(et types.Type, n *Lin) Seq {
	n = st.norm(n)
	if n.isC(0) {
		return nil
	}
	if !isByte(et) {
		if c, ok := n.constInt(); ok && c <= 256 {
			var el []Val
			for i := 0; i < c; i++ {
				el = append(el, zeroVal(et))
			}
			return Seq{{K: pElems, Elems: el, Len: n}}
		}
	}
	return Seq{{K: pZero, Len: n}}
}

// snapshot records the contents of the slices among the event's arguments.
func (e *Engine) snapshot(s *State, ev *Event) {
	ev.Data = map[int]Seq{}
	for i, a := range ev.Args {
		if sl, ok := a.(*SliceV); ok {
			if q, ok := s.sliceSeq(sl); ok {
				ev.Data[i] = q
			}
		}
	}
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return c.Value.Name()
}

// --------------------------------------------------------------- arithmetic

type sl struct {
	s *State
	l *Lin
}

// wrap reduces an exact result into the range of t, splitting the state where
// overflow is possible.
func (e *Engine) wrap(s *State, l *Lin, t *types.Basic) []sl {
	l = s.norm(l)
	lo, hi := intRange(t)
	w, _ := intBits(t)
	if l.isConst() {
		c := new(big.Int).Sub(l.c, lo)
		c.Mod(c, pow2(uint(w)))
		return []sl{{s, linB(c.Add(c, lo))}}
	}
	above := linSub(l, linB(lo)) // >= 0 in range
	below := linSub(linB(hi), l)
	okLo, okHi := s.proveGE(above), s.proveGE(below)
	if okLo && okHi {
		return []sl{{s, l}}
	}
	var r []sl
	if !okHi {
		o := s.clone()
		o.assumeGE(linAddC(linNeg(below), -1))
		if !o.dead {
			n := linSub(l, linB(pow2(uint(w))))
			if o.proveGE(linSub(linB(hi), n)) {
				r = append(r, sl{o, n})
			} else {
				r = append(r, sl{o, linA(callAtom(fmt.Sprintf("wrap%d", w), []Val{&IntV{l}}, lo, hi))})
			}
		}
	}
	if !okLo {
		u := s.clone()
		u.assumeGE(linAddC(linNeg(above), -1))
		if !u.dead {
			n := linAdd(l, linB(pow2(uint(w))))
			if u.proveGE(linSub(n, linB(lo))) {
				r = append(r, sl{u, n})
			} else {
				r = append(r, sl{u, linA(callAtom(fmt.Sprintf("wrap%d", w), []Val{&IntV{l}}, lo, hi))})
			}
		}
	}
	if !okLo {
		s.assumeGE(above)
	}
	if !okHi {
		s.assumeGE(below)
	}
	if !s.dead {
		r = append([]sl{{s, l}}, r...)
	}
	return r
}

func (e *Engine) binop(s *State, x *ssa.BinOp) []*State {
	a, b := e.val(s, x.X), e.val(s, x.Y)
	set := func(st *State, v Val) []*State {
		st.env[x] = v
		return []*State{st}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		var r []*State
		for _, sb := range e.equal(s, a, b, x.X.Type()) {
			v := sb.b
			if neg {
				v = boolNot(v)
			}
			sb.s.env[x] = v
			r = append(r, sb.s)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		ia, ok1 := a.(*IntV)
		ib, ok2 := b.(*IntV)
		if ok1 && ok2 {
			var l *Lin
			switch x.Op {
			case token.LSS:
				l = linAddC(linSub(ib.L, ia.L), -1)
			case token.LEQ:
				l = linSub(ib.L, ia.L)
			case token.GTR:
				l = linAddC(linSub(ia.L, ib.L), -1)
			case token.GEQ:
				l = linSub(ia.L, ib.L)
			}
			return set(s, boolGE(s.norm(l)))
		}
		sa, ok1 := a.(*StrV)
		sb, ok2 := b.(*StrV)
		if ok1 && ok2 {
			ca, k1 := s.normSeq(sa.S).constStr()
			cb, k2 := s.normSeq(sb.S).constStr()
			if k1 && k2 {
				var v bool
				switch x.Op {
				case token.LSS:
					v = ca < cb
				case token.LEQ:
					v = ca <= cb
				case token.GTR:
					v = ca > cb
				case token.GEQ:
					v = ca >= cb
				}
				return set(s, boolC(v))
			}
		}
		fa, ok1 := a.(*FloatV)
		fb, ok2 := b.(*FloatV)
		if ok1 && ok2 && fa.L != nil && fb.L != nil {
			var l *Lin
			switch x.Op {
			case token.LSS:
				l = linAddC(linSub(fb.L, fa.L), -1)
			case token.LEQ:
				l = linSub(fb.L, fa.L)
			case token.GTR:
				l = linAddC(linSub(fa.L, fb.L), -1)
			case token.GEQ:
				l = linSub(fa.L, fb.L)
			}
			return set(s, boolGE(s.norm(l)))
		}
		return set(s, boolOpaque(fmt.Sprintf("cmp:%s%s%s", valKey(a), x.Op, valKey(b))))
	}
	if bt := basicInt(x.Type()); bt != nil {
		ia, ok1 := a.(*IntV)
		ib, ok2 := b.(*IntV)
		if !ok1 || !ok2 {
			return set(s, e.fresh(x.Type()))
		}
		var r []*State
		for _, q := range e.intop(s, x, x.Op, s.norm(ia.L), s.norm(ib.L), bt) {
			if q.s.dead {
				continue
			}
			q.s.env[x] = &IntV{q.s.norm(q.l)}
			r = append(r, q.s)
		}
		return r
	}
	if sa, ok := a.(*StrV); ok && x.Op == token.ADD {
		if sb, ok := b.(*StrV); ok {
			return set(s, &StrV{s.normSeq(append(append(Seq{}, sa.S...), sb.S...))})
		}
	}
	if fa, ok := a.(*FloatV); ok {
		fb, ok := b.(*FloatV)
		if ok {
			return set(s, &FloatV{Key: valKey(fa) + x.Op.String() + valKey(fb)})
		}
	}
	return set(s, e.fresh(x.Type()))
}

func (e *Engine) intop(s *State, in ssa.Instruction, op token.Token, a, b *Lin, t *types.Basic) []sl {
	w, signed := intBits(t)
	lo, hi := intRange(t)
	opq := func(name string, lo, hi *big.Int) []sl {
		return []sl{{s, linA(callAtom(name, []Val{&IntV{a}, &IntV{b}}, lo, hi))}}
	}
	switch op {
	case token.ADD:
		return e.wrap(s, linAdd(a, b), t)
	case token.SUB:
		return e.wrap(s, linSub(a, b), t)
	case token.MUL:
		if b.isConst() {
			return e.wrap(s, linMul(a, b.c), t)
		}
		if a.isConst() {
			return e.wrap(s, linMul(b, a.c), t)
		}
		return opq("mul", lo, hi)
	case token.QUO, token.REM:
		nz := s.proveNE(b, linC(0))
		e.oblige(s, in, "div", nz, "division by zero")
		if !nz {
			s.assumeNE(b)
			if s.dead {
				return nil
			}
		}
		if a.isConst() && b.isConst() {
			q, m := new(big.Int), new(big.Int)
			q.QuoRem(a.c, b.c, m)
			if op == token.REM {
				q = m
			}
			return e.wrap(s, linB(q), t)
		}
		if !b.isConst() || b.c.Sign() < 0 {
			if op == token.QUO {
				return opq("quo", lo, hi)
			}
			return opq("rem", lo, hi)
		}
		return e.divConst(s, op, a, b.c, t)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(a.c, b.c)
			case token.OR:
				r.Or(a.c, b.c)
			case token.XOR:
				r.Xor(a.c, b.c)
			default:
				r.AndNot(a.c, b.c)
			}
			return e.wrap(s, linB(r), t)
		}
		// x & (2^n-1) of a value already below 2^n
		if op == token.AND {
			for _, p := range [][2]*Lin{{a, b}, {b, a}} {
				if p[1].isConst() && p[1].c.Sign() > 0 {
					m := new(big.Int).Add(p[1].c, bigOne)
					if new(big.Int).And(m, p[1].c).Sign() == 0 && s.proveGE(p[0]) && s.proveGE(linSub(p[1], p[0])) {
						return []sl{{s, p[0]}}
					}
				}
			}
		}
		ba, ok1 := s.toBits(a, w)
		bb, ok2 := s.toBits(b, w)
		if ok1 && ok2 {
			if bs, ok := bitop(op, ba, bb); ok && !(signed && bs[w-1].c != 0) {
				return []sl{{s, fromBits(bs)}}
			}
		}
		nonneg := s.proveGE(a) && s.proveGE(b)
		rlo, rhi := lo, hi
		if nonneg {
			rlo = bigZero
			if op == token.AND {
				for _, l := range []*Lin{a, b} {
					if _, h := l.bounds(); h != nil && h.Cmp(rhi) < 0 {
						rhi = h
					}
				}
			}
		}
		return opq(op.String(), rlo, rhi)
	case token.SHL, token.SHR:
		if !b.isConst() {
			if !s.proveGE(b) {
				e.oblige(s, in, "shift", false, "negative shift count")
				s.assumeGE(b)
				if s.dead {
					return nil
				}
			}
			return opq(op.String(), lo, hi)
		}
		if b.c.Sign() < 0 {
			e.oblige(s, in, "shift", false, "negative shift count")
			s.dead = true
			return nil
		}
		n := 200
		if b.c.IsInt64() && b.c.Int64() < 200 {
			n = int(b.c.Int64())
		}
		if a.isConst() {
			if op == token.SHL {
				return e.wrap(s, linB(new(big.Int).Lsh(a.c, uint(n))), t)
			}
			return []sl{{s, linB(new(big.Int).Rsh(a.c, uint(n)))}}
		}
		if op == token.SHR {
			if bs, ok := s.toBits(a, w); ok && (!signed || bs[w-1].c == 0) {
				if n >= w {
					return []sl{{s, linC(0)}}
				}
				return []sl{{s, fromBits(bs[n:])}}
			}
			if n < w && s.proveGE(a) {
				return e.divConst(s, token.QUO, a, pow2(uint(n)), t)
			}
			return opq("shr", lo, hi)
		}
		m := linMul(a, pow2(uint(n)))
		if s.proveGE(linSub(m, linB(lo))) && s.proveGE(linSub(linB(hi), m)) {
			return []sl{{s, m}}
		}
		if bs, ok := s.toBits(a, w); ok {
			r := make([]bit, w)
			for i := n; i < w; i++ {
				r[i] = bs[i-n]
			}
			if !(signed && r[w-1].c != 0) {
				return []sl{{s, fromBits(r)}}
			}
		}
		return opq("shl", lo, hi)
	}
	return opq(op.String(), lo, hi)
}

func bitop(op token.Token, a, b []bit) ([]bit, bool) {
	r := make([]bit, len(a))
	not := func(x bit) bit {
		if x.c < 2 {
			return bit{c: 1 - x.c}
		}
		x.neg = !x.neg
		return x
	}
	for i := range a {
		x, y := a[i], b[i]
		if op == token.AND_NOT {
			y = not(y)
		}
		switch op {
		case token.AND, token.AND_NOT:
			switch {
			case x.c == 0 || y.c == 0:
				r[i] = bit{}
			case x.c == 1:
				r[i] = y
			case y.c == 1:
				r[i] = x
			case x == y:
				r[i] = x
			case x == not(y):
				r[i] = bit{}
			default:
				return nil, false
			}
		case token.OR:
			switch {
			case x.c == 1 || y.c == 1:
				r[i] = bit{c: 1}
			case x.c == 0:
				r[i] = y
			case y.c == 0:
				r[i] = x
			case x == y:
				r[i] = x
			case x == not(y):
				r[i] = bit{c: 1}
			default:
				return nil, false
			}
		case token.XOR:
			switch {
			case x.c == 0:
				r[i] = y
			case y.c == 0:
				r[i] = x
			case x.c == 1:
				r[i] = not(y)
			case y.c == 1:
				r[i] = not(x)
			case x == y:
				r[i] = bit{}
			default:
				return nil, false
			}
		}
	}
	return r, true
}

// divConst: quotient or remainder by a positive constant.
func (e *Engine) divConst(s *State, op token.Token, a *Lin, d *big.Int, t *types.Basic) []sl {
	one := func(s *State) sl {
		if q, ok := divExact(a, d); ok {
			if op == token.REM {
				return sl{s, linC(0)}
			}
			return sl{s, q}
		}
		_, ah := a.bounds()
		var qh *big.Int
		if ah != nil {
			qh = floorDiv(ah, d)
			if qh.Sign() < 0 {
				qh = bigZero
			}
		}
		q := callAtom("div", []Val{&IntV{a}, &IntV{linB(d)}}, bigZero, qh)
		dq := linMul(linA(q), d)
		s.addFact(linSub(a, dq))
		s.addFact(linAdd(linSub(dq, a), linB(new(big.Int).Sub(d, bigOne))))
		if op == token.REM {
			return sl{s, linSub(a, dq)}
		}
		return sl{s, linA(q)}
	}
	if s.proveGE(a) {
		return []sl{one(s)}
	}
	n := s.clone()
	n.assumeGE(linAddC(linNeg(a), -1))
	s.assumeGE(a)
	var r []sl
	if !s.dead {
		r = append(r, one(s))
	}
	if !n.dead {
		lo, _ := intRange(t)
		r = append(r, sl{n, linA(callAtom("negdiv"+op.String(), []Val{&IntV{a}, &IntV{linB(d)}}, lo, bigZero))})
	}
	return r
}

type sbv struct {
	s *State
	b *BoolV
}

func (e *Engine) isNilB(st *State, v Val) *BoolV {
	switch x := v.(type) {
	case *PtrV:
		if x.Obj == 0 && x.Ext == "" {
			return boolC(true)
		}
		if x.MayNil != "" {
			return boolOpaque("nilptr:" + x.MayNil)
		}
		return boolC(false)
	case *IfaceV:
		n, known := isNilIface(x)
		if known {
			return boolC(n)
		}
		return boolOpaque("nilif:" + x.Sym)
	case *SliceV:
		switch x.Nil {
		case 'y':
			return boolC(true)
		case 'n':
			return boolC(false)
		}
		return &BoolV{Op: 'n', Sl: x}
	case *MapV:
		return boolC(x.Obj == 0)
	case *FuncV:
		if x.Fn == nil && x.B == nil {
			if x.Ext == "" {
				return boolC(true)
			}
			return boolOpaque("nilfn:" + x.Ext)
		}
		return boolC(false)
	case *ChanV:
		return boolC(x.Id == "")
	}
	return boolOpaque("nil?" + valKey(v))
}

// isNilConst reports whether v is certainly nil.
func isNilConst(v Val) bool {
	switch x := v.(type) {
	case *PtrV:
		return x.Obj == 0 && x.Ext == ""
	case *IfaceV:
		return x.T == nil && x.Sym == ""
	case *SliceV:
		return x.Nil == 'y'
	case *MapV:
		return x.Obj == 0
	case *FuncV:
		return x.Fn == nil && x.B == nil && x.Ext == ""
	case *ChanV:
		return x.Id == ""
	}
	return false
}

func (e *Engine) equal(s *State, a, b Val, t types.Type) []sbv {
	a, b = e.expand(a), e.expand(b)
	one := func(v *BoolV) []sbv { return []sbv{{s, v}} }
	if isNilConst(b) {
		return one(e.isNilB(s, a))
	}
	if isNilConst(a) {
		return one(e.isNilB(s, b))
	}
	switch x := a.(type) {
	case *IntV:
		if y, ok := b.(*IntV); ok {
			return one(boolEQ(s.norm(linSub(x.L, y.L))))
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			bv := &BoolV{Op: 's', A: s.normSeq(x.S), B: s.normSeq(y.S)}
			switch s.evalBool(bv) {
			case 1:
				return one(boolC(true))
			case -1:
				return one(boolC(false))
			}
			return one(bv)
		}
	case *BoolV:
		if y, ok := b.(*BoolV); ok {
			if y.Op == 'c' {
				x, y = y, x
			}
			if x.Op == 'c' {
				if x.C {
					return one(y)
				}
				return one(boolNot(y))
			}
			if x.key() == y.key() {
				return one(boolC(true))
			}
			// decide x by splitting
			f := s.clone()
			s.assume(x, true)
			f.assume(x, false)
			var r []sbv
			if !s.dead {
				r = append(r, sbv{s, y})
			}
			if !f.dead {
				r = append(r, sbv{f, boolNot(y)})
			}
			return r
		}
	case *FloatV:
		if y, ok := b.(*FloatV); ok {
			if x.L != nil && y.L != nil {
				return one(boolEQ(s.norm(linSub(x.L, y.L))))
			}
			return one(boolOpaque("feq:" + valKey(x) + "=" + valKey(y)))
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if valKey(x) == valKey(y) {
				return one(boolC(true))
			}
			if x.Obj != 0 && y.Obj != 0 && (x.Obj != y.Obj) {
				ox, oy := s.obj(x.Obj), s.obj(y.Obj)
				_, sx := e.symObjs[ox.Label]
				_, sy := e.symObjs[oy.Label]
				if !(sx && sy) && x.MayNil == "" && y.MayNil == "" {
					return one(boolC(false))
				}
			}
			return one(boolOpaque("peq:" + valKey(x) + "=" + valKey(y)))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			return e.conj(s, len(x.F), func(st *State, i int) []sbv { return e.equal(st, x.F[i], y.F[i], nil) })
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			return e.conj(s, 2, func(st *State, i int) []sbv {
				if i == 0 {
					return []sbv{{st, boolEQ(st.norm(linSub(x.Sec, y.Sec)))}}
				}
				return []sbv{{st, boolEQ(st.norm(linSub(x.Nsec, y.Nsec)))}}
			})
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x.Sym == "" && y.Sym == "" {
				if !types.Identical(x.T, y.T) {
					return one(boolC(false))
				}
				return e.equal(s, x.V, y.V, x.T)
			}
			if valKey(x) == valKey(y) {
				return one(boolC(true))
			}
			if strings.HasPrefix(x.Sym, notEOF) && y.Sym == "ext:io.EOF" || strings.HasPrefix(y.Sym, notEOF) && x.Sym == "ext:io.EOF" {
				return one(boolC(false))
			}
			return one(boolOpaque("ieq:" + valKey(x) + "=" + valKey(y)))
		}
	case *ArrV:
		if y, ok := b.(*ArrV); ok {
			return one(&BoolV{Op: 's', A: s.normSeq(x.S), B: s.normSeq(y.S)})
		}
	}
	if valKey(a) == valKey(b) {
		return one(boolC(true))
	}
	return one(boolOpaque("eq:" + valKey(a) + "=" + valKey(b)))
}

// conj: the conjunction of n equalities, splitting where several are open.
func (e *Engine) conj(s *State, n int, f func(*State, int) []sbv) []sbv {
	var res []sbv
	cur := []*State{s}
	for i := 0; i < n; i++ {
		var nx []*State
		for _, st := range cur {
			for _, q := range f(st, i) {
				switch q.s.evalBool(q.b) {
				case 1:
					nx = append(nx, q.s)
				case -1:
					res = append(res, sbv{q.s, boolC(false)})
				default:
					d := q.s.clone()
					q.s.assume(q.b, true)
					d.assume(q.b, false)
					if !q.s.dead {
						nx = append(nx, q.s)
					}
					if !d.dead {
						res = append(res, sbv{d, boolC(false)})
					}
				}
			}
		}
		cur = nx
	}
	for _, st := range cur {
		res = append(res, sbv{st, boolC(true)})
	}
	return res
}

func (e *Engine) unop(s *State, x *ssa.UnOp) []*State {
	v := e.val(s, x.X)
	one := func(r Val) []*State { s.env[x] = r; return []*State{s} }
	switch x.Op {
	case token.MUL:
		p, ok := v.(*PtrV)
		if !ok {
			return one(e.fresh(x.Type()))
		}
		if !e.nonNilPtr(s, p, x, "load") {
			return nil
		}
		return one(e.load(s, p, x.Type()))
	case token.NOT:
		if b, ok := v.(*BoolV); ok {
			return one(boolNot(b))
		}
	case token.SUB:
		if i, ok := v.(*IntV); ok {
			var r []*State
			for _, q := range e.wrap(s, linNeg(i.L), basicInt(x.Type())) {
				q.s.env[x] = &IntV{q.l}
				r = append(r, q.s)
			}
			return r
		}
		if f, ok := v.(*FloatV); ok {
			if f.L != nil {
				return one(&FloatV{L: linNeg(f.L)})
			}
			return one(&FloatV{Key: "-" + f.Key})
		}
	case token.XOR:
		if i, ok := v.(*IntV); ok {
			bt := basicInt(x.Type())
			w, signed := intBits(bt)
			if signed {
				return one(&IntV{s.norm(linAddC(linNeg(i.L), -1))})
			}
			return one(&IntV{s.norm(linSub(linB(new(big.Int).Sub(pow2(uint(w)), bigOne)), i.L))})
		}
	case token.ARROW:
		ev := &Event{Kind: "recv", Pos: x.Pos(), In: x.Parent()}
		if c, ok := v.(*ChanV); ok {
			ev.Name = c.Id
		}
		r := e.fresh(x.Type())
		ev.Res = []Val{r}
		t, _ := e.expand(r).(*TupleV)
		if t != nil && x.CommaOk && len(t.E) == 2 {
			ev.Res = []Val{t.E[0]}
		}
		if e.recvAlts != nil {
			if alts := e.recvAlts(s, x.X.Type().Underlying().(*types.Chan).Elem()); alts != nil {
				var rs []*State
				for _, a := range alts {
					s2 := s.clone()
					e2 := *ev
					v := a.mk(s2)
					e2.Res, e2.Alt = []Val{v}, a.label
					s2.env[x] = v
					if x.CommaOk && t != nil && len(t.E) == 2 {
						s2.env[x] = &TupleV{E: []Val{v, t.E[1]}}
					}
					s2.addEvent(&e2)
					rs = append(rs, s2)
				}
				return rs
			}
		}
		s.addEvent(ev)
		return one(r)
	}
	return one(e.fresh(x.Type()))
}

func (e *Engine) convert(s *State, in ssa.Value, xv ssa.Value, to types.Type) []*State {
	v := e.val(s, xv)
	one := func(r Val) []*State { s.env[in] = r; return []*State{s} }
	ft := xv.Type()
	if tb := basicInt(to); tb != nil {
		switch x := v.(type) {
		case *IntV:
			var r []*State
			for _, q := range e.convInt(s, x.L, basicInt(ft), tb) {
				if q.s.dead {
					continue
				}
				q.s.env[in] = &IntV{q.l}
				r = append(r, q.s)
			}
			return r
		case *FloatV:
			if x.L != nil {
				lo, hi := intRange(tb)
				if s.proveGE(linSub(x.L, linB(lo))) && s.proveGE(linSub(linB(hi), x.L)) {
					return one(&IntV{x.L})
				}
			}
			lo, hi := intRange(tb)
			return one(&IntV{linA(callAtom("f2i:"+tb.Name(), []Val{x}, lo, hi))})
		}
		return one(e.fresh(to))
	}
	switch u := to.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case *SliceV:
				if fs, ok := ft.Underlying().(*types.Slice); ok && isByte(fs.Elem()) {
					if q, ok := s.sliceSeq(x); ok {
						return one(&StrV{q})
					}
					n := freshSrc("str", nil)
					s.assumeEQ(linSub(n.Len, x.Len))
					return one(strSrc(n))
				}
				return one(strSrc(freshSrc("runes", nil)))
			case *StrV:
				return one(x)
			case *IntV:
				if n, ok := x.L.constInt(); ok {
					return one(strC(string(rune(n))))
				}
				return one(strSrc(mkSrc("rune("+x.L.key()+")", nil)))
			}
			return one(e.fresh(to))
		}
		if u.Info()&types.IsFloat != 0 {
			switch x := v.(type) {
			case *IntV:
				// exact below 2^53
				if s.proveGE(linAdd(x.L, linB(pow2(53)))) && s.proveGE(linSub(linB(pow2(53)), x.L)) {
					return one(&FloatV{L: x.L})
				}
				return one(&FloatV{Key: "float(" + x.L.key() + ")"})
			case *FloatV:
				return one(x)
			}
		}
		if u.Kind() == types.UnsafePointer {
			return one(v)
		}
	case *types.Slice:
		if x, ok := v.(*StrV); ok {
			if isByte(u.Elem()) {
				o := s.newObj('a', u.Elem(), "")
				o.S = s.normSeq(x.S)
				n := seqLen(o.S)
				return one(&SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'})
			}
			if c, ok := s.normSeq(x.S).constStr(); ok {
				o := s.newObj('a', u.Elem(), "")
				var el []Val
				for _, r := range c {
					el = append(el, &IntV{linC(int64(r))})
				}
				n := linC(int64(len(el)))
				o.S = Seq{{K: pElems, Elems: el, Len: n}}
				return one(&SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'})
			}
			r := e.fresh(to).(*SliceV)
			s.assumeGE(linSub(seqLen(x.S), r.Len))
			return one(r)
		}
		return one(v)
	}
	return one(v)
}

func (e *Engine) convInt(s *State, l *Lin, from, to *types.Basic) []sl {
	l = s.norm(l)
	lo, hi := intRange(to)
	if s.proveGE(linSub(l, linB(lo))) && s.proveGE(linSub(linB(hi), l)) {
		return []sl{{s, l}}
	}
	w, signed := intBits(to)
	fw := 64
	if from != nil {
		fw, _ = intBits(from)
	}
	if l.isConst() {
		return e.wrap(s, l, to)
	}
	if fw > w {
		if bs, ok := s.toBits(l, 64); ok && !signed {
			return []sl{{s, fromBits(bs[:w])}}
		}
		// in range or truncated
		out := s.clone()
		out.assume(boolGE(linSub(l, linB(lo))), true)
		out.assume(boolGE(linAddC(linSub(l, linB(hi)), -1)), true)
		under := s.clone()
		under.assumeGE(linAddC(linSub(linB(lo), l), -1))
		s.assumeGE(linSub(l, linB(lo)))
		s.assumeGE(linSub(linB(hi), l))
		var r []sl
		if !s.dead {
			r = append(r, sl{s, l})
		}
		for _, q := range []*State{out, under} {
			if !q.dead {
				r = append(r, sl{q, linA(callAtom(fmt.Sprintf("trunc%d%v", w, signed), []Val{&IntV{l}}, lo, hi))})
			}
		}
		return r
	}
	return e.wrap(s, l, to)
}

// ------------------------------------------------------------ aggregates

func (e *Engine) inBounds(s *State, in ssa.Instruction, ix, n *Lin) bool {
	ix, n = s.norm(ix), s.norm(n)
	g := boolGE(ix)
	h := boolGE(linAddC(linSub(n, ix), -1))
	ok := s.evalBool(g) == 1 && s.evalBool(h) == 1
	msg := ""
	if !ok {
		msg = fmt.Sprintf("index %s not within length %s", ix, n)
	}
	e.oblige(s, in, "index", ok, msg)
	if !ok {
		s.assume(g, true)
		s.assume(h, true)
	}
	return !s.dead
}

func (e *Engine) index(s *State, x *ssa.Index) []*State {
	v := e.val(s, x.X)
	ix, ok := e.val(s, x.Index).(*IntV)
	if !ok {
		ix = e.fresh(x.Index.Type()).(*IntV)
	}
	var q Seq
	switch a := v.(type) {
	case *StrV:
		q = s.normSeq(a.S)
	case *ArrV:
		q = a.S
	default:
		s.env[x] = e.fresh(x.Type())
		return []*State{s}
	}
	if !e.inBounds(s, x, ix.L, seqLen(q)) {
		return nil
	}
	r := e.elem(s, q, ix.L, x.Type())
	s.env[x] = r
	return []*State{s}
}

func (e *Engine) indexAddr(s *State, x *ssa.IndexAddr) []*State {
	v := e.val(s, x.X)
	ix, ok := e.val(s, x.Index).(*IntV)
	if !ok {
		ix = e.fresh(x.Index.Type()).(*IntV)
	}
	switch a := v.(type) {
	case *SliceV:
		if !e.inBounds(s, x, ix.L, a.Len) {
			return nil
		}
		s.env[x] = &PtrV{Obj: a.Arr, Path: []Sel{{Idx: s.norm(linAdd(a.Off, ix.L))}}}
		return []*State{s}
	case *PtrV:
		if !e.nonNilPtr(s, a, x, "array access") {
			return nil
		}
		at, _ := x.X.Type().Underlying().(*types.Pointer)
		if at != nil {
			if arr, ok := at.Elem().Underlying().(*types.Array); ok {
				if !e.inBounds(s, x, ix.L, linC(arr.Len())) {
					return nil
				}
			}
		}
		s.env[x] = &PtrV{Obj: a.Obj, Ext: a.Ext, Path: append(append([]Sel(nil), a.Path...), Sel{Idx: s.norm(ix.L)})}
		return []*State{s}
	}
	s.env[x] = &PtrV{Ext: freshKey("ia")}
	return []*State{s}
}

func (e *Engine) slice(s *State, x *ssa.Slice) []*State {
	v := e.val(s, x.X)
	lin := func(a ssa.Value, d *Lin) *Lin {
		if a == nil {
			return d
		}
		if i, ok := e.val(s, a).(*IntV); ok {
			return s.norm(i.L)
		}
		return linA(freshAtom("ix", nil, nil))
	}
	check := func(lo, hi, max *Lin) bool {
		ok := s.proveGE(lo) && s.proveGE(linSub(hi, lo)) && s.proveGE(linSub(max, hi))
		msg := ""
		if !ok {
			msg = fmt.Sprintf("slice bounds [%s:%s] not within %s", lo, hi, s.norm(max))
		}
		e.oblige(s, x, "slice", ok, msg)
		if !ok {
			s.assumeGE(lo)
			s.assumeGE(linSub(hi, lo))
			s.assumeGE(linSub(max, hi))
		}
		return !s.dead
	}
	switch a := v.(type) {
	case *StrV:
		n := seqLen(a.S)
		lo, hi := lin(x.Low, linC(0)), lin(x.High, n)
		if !check(lo, hi, n) {
			return nil
		}
		q, ok := s.seqSub(s.normSeq(a.S), lo, hi)
		if !ok {
			n := freshSrc("sub", nil)
			s.assumeEQ(linSub(n.Len, linSub(hi, lo)))
			q = strSrc(n).S
		}
		s.env[x] = &StrV{q}
		return []*State{s}
	case *SliceV:
		lo, hi := lin(x.Low, linC(0)), lin(x.High, a.Len)
		mx := lin(x.Max, a.Cap)
		if x.High == nil {
			// s[lo:] only needs lo <= len
			if !check(lo, hi, a.Len) {
				return nil
			}
		} else if x.Max != nil {
			if !check(hi, mx, a.Cap) || !check(lo, hi, mx) {
				return nil
			}
		} else if rl := e.recvLen[a.Arr]; rl != nil {
			// bytes beyond the received length are not part of the frame
			if !check(lo, hi, linSub(rl, a.Off)) {
				return nil
			}
		} else if !check(lo, hi, a.Cap) {
			return nil
		}
		r := *a
		r.Off = s.norm(linAdd(a.Off, lo))
		r.Len = s.norm(linSub(hi, lo))
		r.Cap = s.norm(linSub(mx, lo))
		if r.Arr != 0 && a.Nil == '?' && s.proveGE(linAddC(a.Len, -1)) {
			r.Nil = 'n'
		}
		s.env[x] = &r
		return []*State{s}
	case *PtrV:
		if !e.nonNilPtr(s, a, x, "slicing an array") {
			return nil
		}
		pt := x.X.Type().Underlying().(*types.Pointer)
		at, ok := pt.Elem().Underlying().(*types.Array)
		if ok {
			n := linC(at.Len())
			lo, hi := lin(x.Low, linC(0)), lin(x.High, n)
			if !check(lo, hi, n) {
				return nil
			}
			if len(a.Path) == 0 && a.Obj != 0 {
				// turn the cell into a proper array object
				o := s.obj(a.Obj)
				if o.K == 'v' {
					if _, isA := e.expand(o.V).(*ArrV); isA {
						no := *o
						no.V = e.expand(o.V)
						s.setObj(&no)
					}
				}
				s.env[x] = &SliceV{Arr: a.Obj, Off: lo, Len: s.norm(linSub(hi, lo)), Cap: s.norm(linSub(n, lo)), Nil: 'n'}
				return []*State{s}
			}
			// array inside a structure: contents by value (aliasing not tracked)
			e.imprec["slice of an array field in "+x.Parent().String()] = true
			r := e.fresh(types.NewSlice(at.Elem())).(*SliceV)
			if av, ok := e.load(s, a, at).(*ArrV); ok {
				o := s.newObj('a', at.Elem(), "")
				o.S = av.S
				s.env[x] = &SliceV{Arr: o.id, Off: lo, Len: s.norm(linSub(hi, lo)), Cap: s.norm(linSub(n, lo)), Nil: 'n'}
				return []*State{s}
			}
			s.env[x] = r
			return []*State{s}
		}
	}
	s.env[x] = e.fresh(x.Type())
	return []*State{s}
}

// --------------------------------------------------------------------- maps

func mapKey(s *State, v Val) (string, bool) {
	switch x := v.(type) {
	case *StrV:
		if c, ok := s.normSeq(x.S).constStr(); ok {
			return fmt.Sprintf("%q", c), true
		}
		return "s" + s.normSeq(x.S).key(), false
	case *IntV:
		l := s.norm(x.L)
		return "i" + l.key(), l.isConst()
	}
	return valKey(v), false
}

type mapHit struct {
	s     *State
	key   string
	v     Val
	found *BoolV
}

// mapFind resolves a lookup, splitting over the entries that may match.
func (e *Engine) mapFind(s *State, m *MapO, k Val, et types.Type) []mapHit {
	ks, isC := mapKey(s, k)
	if ent, ok := m.ent[ks]; ok {
		return []mapHit{{s, ks, ent.v, boolC(true)}}
	}
	var r []mapHit
	cur := s
	if isC {
		allC := true
		for _, kk := range m.keys {
			if _, c := mapKey(s, m.ent[kk].k); !c {
				allC = false
			}
		}
		if allC {
			goto rest
		}
	}
	for _, kk := range m.keys {
		if cur.dead {
			return r
		}
		ent := m.ent[kk]
		bs := e.equal(cur, k, ent.k, nil)
		if len(bs) != 1 {
			e.imprec["map key comparison"] = true
			continue
		}
		switch cur.evalBool(bs[0].b) {
		case 1:
			return append(r, mapHit{cur, kk, ent.v, boolC(true)})
		case -1:
			continue
		}
		t := cur.clone()
		t.assume(bs[0].b, true)
		if !t.dead {
			r = append(r, mapHit{t, kk, ent.v, boolC(true)})
		}
		cur.assume(bs[0].b, false)
	}
	if cur.dead {
		return r
	}
rest:
	if m.open && !m.del[ks] {
		key := m.name + "[" + ks + "]"
		return append(r, mapHit{cur, ks, e.sym(et, key), boolOpaque("in:" + key)})
	}
	return append(r, mapHit{cur, ks, nil, boolC(false)})
}

func (e *Engine) lookup(s *State, x *ssa.Lookup) []*State {
	mv := e.val(s, x.X)
	if sv, ok := mv.(*StrV); ok {
		ix := e.val(s, x.Index).(*IntV)
		q := s.normSeq(sv.S)
		if !e.inBounds(s, x, ix.L, seqLen(q)) {
			return nil
		}
		s.env[x] = e.elem(s, q, ix.L, types.Typ[types.Uint8])
		return []*State{s}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m, ok := mv.(*MapV)
	put := func(st *State, v Val, found *BoolV) {
		if x.CommaOk {
			st.env[x] = &TupleV{E: []Val{v, found}}
		} else {
			st.env[x] = v
		}
	}
	if !ok {
		put(s, e.fresh(mt.Elem()), boolOpaque(freshKey("found")))
		return []*State{s}
	}
	if m.Obj == 0 {
		put(s, zeroVal(mt.Elem()), boolC(false))
		return []*State{s}
	}
	o := s.obj(m.Obj)
	k := e.val(s, x.Index)
	var r []*State
	for _, h := range e.mapFind(s, o.M, k, mt.Elem()) {
		if h.v == nil {
			put(h.s, zeroVal(mt.Elem()), boolC(false))
			r = append(r, h.s)
			continue
		}
		switch h.s.evalBool(h.found) {
		case 1:
			put(h.s, e.expand(h.v), boolC(true))
			r = append(r, h.s)
		case -1:
			put(h.s, zeroVal(mt.Elem()), boolC(false))
			r = append(r, h.s)
		default:
			n := h.s.clone()
			h.s.assume(h.found, true)
			n.assume(h.found, false)
			put(h.s, e.expand(h.v), boolC(true))
			put(n, zeroVal(mt.Elem()), boolC(false))
			r = append(r, h.s, n)
		}
	}
	return r
}

func (e *Engine) mapUpdate(s *State, x *ssa.MapUpdate) []*State {
	m, ok := e.val(s, x.Map).(*MapV)
	if !ok {
		return []*State{s}
	}
	if m.Obj == 0 {
		e.oblige(s, x, "nilmap", false, "assignment to entry in nil map")
		return nil
	}
	e.oblige(s, x, "nilmap", true, "")
	k, v := e.val(s, x.Key), e.val(s, x.Value)
	var r []*State
	mt := x.Map.Type().Underlying().(*types.Map)
	for _, h := range e.mapFind(s, s.obj(m.Obj).M, k, mt.Elem()) {
		o := h.s.obj(m.Obj)
		no := *o
		no.M = o.M.clone()
		kk := k
		if old, ok := no.M.ent[h.key]; ok {
			kk = old.k
		}
		no.M.set(h.key, MapEnt{kk, v})
		h.s.setObj(&no)
		h.s.addEvent(&Event{Kind: "mapset", Name: o.M.name, Args: []Val{k, v}, Pos: x.Pos(), In: x.Parent()})
		r = append(r, h.s)
	}
	return r
}

func (e *Engine) rng(s *State, x *ssa.Range) []*State {
	v := e.val(s, x.X)
	it := &IterO{}
	switch a := v.(type) {
	case *MapV:
		if a.Obj == 0 {
			it.m = &MapO{ent: map[string]MapEnt{}}
		} else {
			it.m = s.obj(a.Obj).M
			it.keys = append([]string(nil), it.m.keys...)
			if e.mapRev {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
			it.sym = it.m.open
		}
	case *StrV:
		it.isS = true
		it.str = s.normSeq(a.S)
		if _, ok := it.str.constStr(); !ok {
			it.sym = true
		}
	default:
		it.sym = true
	}
	o := s.newObj('i', nil, "")
	o.It = it
	s.env[x] = &IterV{Obj: o.id}
	return []*State{s}
}

func (e *Engine) next(s *State, x *ssa.Next) []*State {
	iv, ok := e.val(s, x.Iter).(*IterV)
	tt := x.Type().(*types.Tuple)
	put := func(st *State, ok *BoolV, k, v Val) { st.env[x] = &TupleV{E: []Val{ok, k, v}} }
	zk, zv := Val(nil), Val(nil)
	if !ok {
		put(s, boolOpaque(freshKey("next")), e.fresh(tt.At(1).Type()), e.fresh(tt.At(2).Type()))
		return []*State{s}
	}
	o := s.obj(iv.Obj)
	it := o.It
	if it.sym {
		if it.isS {
			k := freshAtom("ri", bigZero, maxLen)
			r := freshAtom("rune", bigZero, big.NewInt(utf8.MaxRune))
			s.addFact(linAddC(linSub(seqLen(it.str), linA(k)), -1))
			d := s.clone()
			put(d, boolC(false), &IntV{linC(0)}, &IntV{linC(0)})
			put(s, boolC(true), &IntV{linA(k)}, &IntV{linA(r)})
			if s.dead {
				return []*State{d}
			}
			return []*State{s, d}
		}
		d := s.clone()
		put(d, boolC(false), zk, zv)
		var mt *types.Map
		if it.m != nil {
			mt = it.m.T
		}
		if mt == nil {
			put(s, boolC(true), e.fresh(tt.At(1).Type()), e.fresh(tt.At(2).Type()))
			return []*State{s, d}
		}
		// any present entry
		nm := freshKey("rk")
		k := e.sym(mt.Key(), nm)
		ks, _ := mapKey(s, k)
		key := it.m.name + "[" + ks + "]"
		v := e.sym(mt.Elem(), key)
		s.assume(boolOpaque("in:"+key), true)
		put(s, boolC(true), k, v)
		res := []*State{s, d}
		// entries written since are also possible
		for _, kk := range it.m.keys {
			ent := it.m.ent[kk]
			c := d.clone()
			put(c, boolC(true), ent.k, e.expand(ent.v))
			res = append(res, c)
		}
		return res
	}
	no := *o
	ni := *it
	no.It = &ni
	if it.isS {
		c, _ := it.str.constStr()
		if it.pos >= len(c) {
			put(s, boolC(false), &IntV{linC(0)}, &IntV{linC(0)})
			return []*State{s}
		}
		r, n := utf8.DecodeRuneInString(c[it.pos:])
		put(s, boolC(true), &IntV{linC(int64(it.pos))}, &IntV{linC(int64(r))})
		ni.pos += n
		s.setObj(&no)
		return []*State{s}
	}
	if it.pos >= len(it.keys) {
		put(s, boolC(false), zk, zv)
		return []*State{s}
	}
	ent := it.m.ent[it.keys[it.pos]]
	ni.pos++
	s.setObj(&no)
	put(s, boolC(true), ent.k, e.expand(ent.v))
	return []*State{s}
}

// ----------------------------------------------------------- interfaces etc.

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	v := e.val(s, x.X)
	i, ok := v.(*IfaceV)
	zero := zeroVal(x.AssertedType)
	fin := func(st *State, good bool, val Val) *State {
		if x.CommaOk {
			if !good {
				val = zero
			}
			st.env[x] = &TupleV{E: []Val{val, boolC(good)}}
		} else {
			st.env[x] = val
		}
		return st
	}
	known, holds := false, false
	var val Val
	if ok {
		if i.Sym == "" {
			known = true
			if i.T == nil {
				holds = false
			} else if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
				holds = types.Implements(i.T, it)
				val = i
			} else {
				holds = types.Identical(i.T, x.AssertedType)
				val = i.V
			}
		} else if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			n := *i
			n.MayNil = false
			val = &n
		}
	}
	if known {
		if !x.CommaOk {
			e.oblige(s, x, "assert", holds, "type assertion to "+x.AssertedType.String()+" fails")
			if !holds {
				return nil
			}
		}
		return []*State{fin(s, holds, val)}
	}
	key := "?"
	if ok {
		key = i.Sym
	}
	tk := boolOpaque("type:" + key + ":" + x.AssertedType.String())
	if val == nil {
		val = e.sym(x.AssertedType, key+".("+x.AssertedType.String()+")")
		if p, ok := val.(*PtrV); ok {
			p.MayNil = ""
		}
	}
	r := s.evalBool(tk)
	if !x.CommaOk {
		e.oblige(s, x, "assert", r == 1, "type assertion to "+x.AssertedType.String()+" may fail")
		s.assume(tk, true)
		if s.dead {
			return nil
		}
		return []*State{fin(s, true, val)}
	}
	if r != 0 {
		return []*State{fin(s, r == 1, val)}
	}
	n := s.clone()
	s.assume(tk, true)
	n.assume(tk, false)
	return []*State{fin(s, true, val), fin(n, false, nil)}
}

func (e *Engine) selectOp(s *State, x *ssa.Select) []*State {
	var r []*State
	tt := x.Type().(*types.Tuple)
	nrecv := 0
	for _, st := range x.States {
		if st.Dir == types.RecvOnly {
			nrecv++
		}
	}
	build := func(st *State, idx int) *TupleV {
		t := &TupleV{E: []Val{&IntV{linC(int64(idx))}, boolOpaque(freshKey("recvok"))}}
		for j := 2; j < tt.Len(); j++ {
			t.E = append(t.E, e.fresh(tt.At(j).Type()))
		}
		st.env[x] = t
		return t
	}
	nr := 0
	for i, c := range x.States {
		st := s.clone()
		ev := &Event{Pos: x.Pos(), In: x.Parent(), Select: true, NB: !x.Blocking || len(x.States) > 1}
		if ch, ok := e.val(st, c.Chan).(*ChanV); ok {
			ev.Name = ch.Id
		}
		if c.Dir == types.SendOnly {
			ev.Kind = "send"
			ev.Args = []Val{e.val(st, c.Send)}
			e.snapshot(st, ev)
		} else {
			ev.Kind = "recv"
		}
		t := build(st, i)
		if c.Dir == types.RecvOnly {
			k := 2 + nr
			nr++
			ev.Res = []Val{t.E[k]}
			if e.recvAlts != nil {
				if alts := e.recvAlts(st, c.Chan.Type().Underlying().(*types.Chan).Elem()); alts != nil {
					for _, a := range alts {
						s2 := st.clone()
						e2 := *ev
						v := a.mk(s2)
						e2.Res, e2.Alt = []Val{v}, a.label
						t2 := &TupleV{E: append([]Val(nil), t.E...)}
						t2.E[k] = v
						s2.env[x] = t2
						s2.addEvent(&e2)
						r = append(r, s2)
					}
					continue
				}
			}
		}
		st.addEvent(ev)
		r = append(r, st)
	}
	if !x.Blocking {
		build(s, -1)
		r = append(r, s)
	}
	return r
}

// -------------------------------------------------------------------- calls

func (e *Engine) runDefers(s *State, in *ssa.RunDefers, out func(*Outcome)) []*State {
	ds := s.defers
	s.defers = nil
	cur := []*State{s}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var nx []*State
		for _, st := range cur {
			for _, o := range e.invoke(st, d.ins, d.call, d.fn, d.args) {
				if o.exit != "" {
					out(o)
					continue
				}
				nx = append(nx, o.st)
			}
		}
		cur = nx
	}
	return cur
}

func (e *Engine) doCall(s *State, in ssa.Instruction, c *ssa.CallCommon, out func(*Outcome)) []*State {
	fv := e.val(s, c.Value)
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = e.val(s, a)
	}
	outs := e.invoke(s, in, c, fv, args)
	v, isV := in.(ssa.Value)
	var r []*State
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.exit != "" {
			out(o)
			continue
		}
		if isV {
			switch len(o.ret) {
			case 0:
			case 1:
				o.st.env[v] = o.ret[0]
			default:
				o.st.env[v] = &TupleV{E: o.ret}
			}
		}
		r = append(r, o.st)
	}
	return r
}

// invoke performs a call with evaluated operands.
func (e *Engine) invoke(s *State, in ssa.Instruction, c *ssa.CallCommon, fv Val, args []Val) []*Outcome {
	if c.IsInvoke() {
		i, ok := fv.(*IfaceV)
		if ok && i.Sym == "" && i.T == nil {
			e.oblige(s, in, "nil", false, "method call on nil interface")
			s.dead = true
			return nil
		}
		if ok && i.Sym != "" && i.MayNil {
			b := boolOpaque("nilif:" + i.Sym)
			if s.evalBool(b) != -1 {
				e.oblige(s, in, "nil", false, "method call on possibly nil interface "+c.Method.Name())
				s.assume(b, false)
				if s.dead {
					return nil
				}
			}
		}
		if ok && i.T != nil {
			m := e.prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return e.callFn(s, in, m, append([]Val{i.V}, args...), nil, c.Signature())
			}
		}
		return e.external(s, in, c.Method.FullName(), c.Signature(), append([]Val{fv}, args...))
	}
	f, ok := fv.(*FuncV)
	if !ok {
		return e.havocCall(s, c.Signature(), "?", args, in, false)
	}
	if f.B != nil {
		return e.builtin(s, in, f.B.Name(), c, args)
	}
	if f.Fn != nil {
		return e.callFn(s, in, f.Fn, args, f.Bind, c.Signature())
	}
	if f.Ext == "" {
		e.oblige(s, in, "nil", false, "call of nil function")
		s.dead = true
		return nil
	}
	if s.evalBool(boolOpaque("nilfn:"+f.Ext)) != -1 && c.StaticCallee() == nil {
		e.oblige(s, in, "nil", false, "call of possibly nil function value")
		s.assume(boolOpaque("nilfn:"+f.Ext), false)
	}
	return e.havocCall(s, c.Signature(), f.Ext, args, in, false)
}

func (e *Engine) callFn(s *State, in ssa.Instruction, fn *ssa.Function, args, bind []Val, sig *types.Signature) []*Outcome {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if e.hook != nil {
		if r, ok := e.hook(s, fn, name, args, in); ok {
			return r
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f(e, &callCtx{st: s, name: name, args: args, in: in, sig: fn.Signature, fn: fn})
	}
	if len(fn.Blocks) > 0 && (e.isRepo(fn) || e.inlineStd(fn)) {
		return e.call(s, fn, args, bind, in)
	}
	return e.external(s, in, name, fn.Signature, args)
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return e.repoPkgs[fn.Pkg]
	}
	if o := fn.Origin(); o != nil && o != fn {
		return e.isRepo(o)
	}
	// wrappers (promoted methods, bound methods)
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		for p := range e.repoPkgs {
			if p.Pkg == obj.Pkg() {
				return true
			}
		}
		return fn.Synthetic != ""
	}
	return fn.Synthetic != "" && fn.Pkg == nil
}

var stdInline = map[string]bool{"encoding/binary": true, "slices": true, "maps": true, "cmp": true, "unicode/utf8": true, "math/bits": true, "strings": true, "bytes": true, "sort": true, "container/list": true}

func (e *Engine) inlineStd(fn *ssa.Function) bool {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	if r := f.Signature.Recv(); r != nil && f.Pkg.Pkg.Path() == "io/fs" {
		n, ok := r.Type().(*types.Named)
		return ok && n.Obj().Name() == "FileMode" && f.Name() != "String"
	}
	if r := f.Signature.Recv(); r != nil && f.Pkg.Pkg.Path() == "syscall" {
		p, ok := r.Type().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := p.Elem().(*types.Named)
		return ok && (n.Obj().Name() == "Timespec" || n.Obj().Name() == "Timeval")
	}
	return stdInline[f.Pkg.Pkg.Path()]
}
