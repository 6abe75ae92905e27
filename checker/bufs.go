package main

// Models of the buffers the standard library builds texts and frames with,
// and of whole-map copies.

import (
	"go/types"
	"strings"
)

// bufPtr: the place of the bytes inside a *strings.Builder or *bytes.Buffer.
func bufPtr(v Val, t types.Type) (*PtrV, types.Type, bool) {
	if i, ok := v.(*IfaceV); ok && i.T != nil {
		v, t = i.V, i.T
	}
	p, ok := v.(*PtrV)
	if !ok || t == nil || p.Obj == 0 {
		return nil, nil, false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, nil, false
	}
	switch n := strings.TrimPrefix(pt.Elem().String(), "*"); n {
	case "strings.Builder", "bytes.Buffer":
	default:
		return nil, nil, false
	}
	st := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "buf" {
			return &PtrV{Obj: p.Obj, Ext: p.Ext, Path: append(append([]Sel(nil), p.Path...), Sel{F: i})}, st.Field(i).Type(), true
		}
	}
	return nil, nil, false
}

func (e *Engine) bufAdd(s *State, v Val, t types.Type, add Seq) bool {
	p, bt, ok := bufPtr(v, t)
	if !ok {
		return false
	}
	b, ok := e.expand(e.load(s, p, bt)).(*SliceV)
	if !ok {
		return false
	}
	if s.norm(seqLen(add)).isC(0) {
		return true
	}
	e.store(s, p, e.appendSeq(s, b, types.Typ[types.Uint8], add), bt)
	return true
}

func (e *Engine) bufGet(s *State, v Val, t types.Type) (*SliceV, bool) {
	p, bt, ok := bufPtr(v, t)
	if !ok {
		return nil, false
	}
	b, ok := e.expand(e.load(s, p, bt)).(*SliceV)
	return b, ok
}

func recvType(c *callCtx) types.Type {
	if c.sig != nil && c.sig.Recv() != nil {
		return c.sig.Recv().Type()
	}
	return nil
}

func initBufs(I map[string]intrinsic) {
	other := func(e *Engine, c *callCtx) []*Outcome {
		return e.effectCall(c.st, c.in, c.name, c.sig, c.args, true)
	}
	for _, t := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		write := func(e *Engine, c *callCtx) []*Outcome {
			q, ok := e.contents(c.st, c.args[1])
			if !ok || !e.bufAdd(c.st, c.args[0], recvType(c), q) {
				return other(e, c)
			}
			return ret(c.st, &IntV{c.st.norm(seqLen(q))}, nilIface)
		}
		I[t+"Write"] = write
		I[t+"WriteString"] = write
		I[t+"WriteByte"] = func(e *Engine, c *callCtx) []*Outcome {
			v, ok := c.args[1].(*IntV)
			if !ok || !e.bufAdd(c.st, c.args[0], recvType(c), intSeq(c.st, v.L, 1, false)) {
				return other(e, c)
			}
			return ret(c.st, nilIface)
		}
		I[t+"WriteRune"] = func(e *Engine, c *callCtx) []*Outcome {
			v, ok := c.args[1].(*IntV)
			if !ok || !v.L.isConst() || !e.bufAdd(c.st, c.args[0], recvType(c), strC(string(rune(v.L.c.Int64()))).S) {
				return other(e, c)
			}
			return ret(c.st, &IntV{linC(int64(len(string(rune(v.L.c.Int64())))))}, nilIface)
		}
		I[t+"Grow"] = func(e *Engine, c *callCtx) []*Outcome { return ret(c.st) }
		I[t+"Reset"] = func(e *Engine, c *callCtx) []*Outcome {
			p, bt, ok := bufPtr(c.args[0], recvType(c))
			if !ok {
				return other(e, c)
			}
			e.store(c.st, p, &SliceV{Off: linC(0), Len: linC(0), Cap: linC(0), Nil: 'y'}, bt)
			return ret(c.st)
		}
		I[t+"Len"] = func(e *Engine, c *callCtx) []*Outcome {
			b, ok := e.bufGet(c.st, c.args[0], recvType(c))
			if !ok {
				return other(e, c)
			}
			return ret(c.st, &IntV{c.st.norm(b.Len)})
		}
		I[t+"String"] = func(e *Engine, c *callCtx) []*Outcome {
			b, ok := e.bufGet(c.st, c.args[0], recvType(c))
			if !ok {
				return other(e, c)
			}
			q, ok := e.contents(c.st, b)
			if !ok {
				return other(e, c)
			}
			return ret(c.st, &StrV{q})
		}
	}
	I["(*bytes.Buffer).Bytes"] = func(e *Engine, c *callCtx) []*Outcome {
		b, ok := e.bufGet(c.st, c.args[0], recvType(c))
		if !ok {
			return other(e, c)
		}
		return ret(c.st, b)
	}
	newBuf := func(e *Engine, c *callCtx) []*Outcome {
		q, ok := e.contents(c.st, c.args[0])
		if !ok {
			return other(e, c)
		}
		pt := c.sig.Results().At(0).Type()
		o := c.st.newObj('v', pt.Underlying().(*types.Pointer).Elem(), "")
		o.V = zeroVal(pt.Underlying().(*types.Pointer).Elem())
		c.st.setObj(o)
		p := &PtrV{Obj: o.id}
		if b, ok := c.args[0].(*SliceV); ok {
			bp, bt, _ := bufPtr(p, pt)
			e.store(c.st, bp, b, bt)
		} else {
			e.bufAdd(c.st, p, pt, q)
		}
		return ret(c.st, p)
	}
	I["bytes.NewBuffer"] = newBuf
	I["bytes.NewBufferString"] = newBuf
	I["io.WriteString"] = func(e *Engine, c *callCtx) []*Outcome {
		q, ok := e.contents(c.st, c.args[1])
		if !ok || !e.bufAdd(c.st, c.args[0], nil, q) {
			return e.effectCall(c.st, c.in, c.name, c.sig, c.args, !readOnlyArgs(c.name))
		}
		return ret(c.st, &IntV{c.st.norm(seqLen(q))}, nilIface)
	}
	for _, n := range []string{"f", "", "ln"} {
		n := n
		I["fmt.Fprint"+n] = func(e *Engine, c *callCtx) []*Outcome {
			if _, _, ok := bufPtr(c.args[0], nil); ok {
				for _, o := range I["fmt.Sprint"+n](e, &callCtx{st: c.st, name: "fmt.Sprint" + n, args: c.args[1:], in: c.in, sig: c.sig}) {
					if t, ok := o.ret[0].(*StrV); ok && e.bufAdd(o.st, c.args[0], nil, t.S) {
						return ret(o.st, &IntV{o.st.norm(seqLen(t.S))}, nilIface)
					}
				}
			}
			return e.effectCall(c.st, c.in, c.name, c.sig, c.args, !readOnlyArgs(c.name))
		}
	}
	I["encoding/binary.Write"] = func(e *Engine, c *callCtx) []*Outcome {
		ord, ok := c.args[1].(*IfaceV)
		d, ok2 := c.args[2].(*IfaceV)
		if !ok || !ok2 || ord.T == nil || d.T == nil {
			return other(e, c)
		}
		le := strings.Contains(strings.ToLower(ord.T.String()), "little")
		v, t := d.V, d.T
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if q, ok := v.(*PtrV); ok && q.Obj != 0 {
				v, t = e.expand(e.load(c.st, q, p.Elem())), p.Elem()
			}
		}
		var q Seq
		switch x := v.(type) {
		case *IntV:
			b, _ := t.Underlying().(*types.Basic)
			if b == nil {
				return other(e, c)
			}
			w := 0
			switch b.Kind() {
			case types.Uint8:
				w = 1
			case types.Uint16:
				w = 2
			case types.Uint32:
				w = 4
			case types.Uint64:
				w = 8
			default:
				return other(e, c)
			}
			q = intSeq(c.st, x.L, w, le)
		case *SliceV:
			if s, ok := t.Underlying().(*types.Slice); !ok || !types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8]) {
				return other(e, c)
			}
			q, _ = e.contents(c.st, x)
		default:
			return other(e, c)
		}
		if q == nil || !e.bufAdd(c.st, c.args[0], nil, q) {
			return other(e, c)
		}
		return ret(c.st, nilIface)
	}

	I["maps.Clone"] = func(e *Engine, c *callCtx) []*Outcome {
		m, ok := c.args[0].(*MapV)
		if !ok {
			return e.effectCall(c.st, c.in, c.name, c.sig, c.args, false)
		}
		if m.Obj == 0 {
			return ret(c.st, m)
		}
		o := c.st.obj(m.Obj)
		n := c.st.newObj('m', o.T, "")
		id := n.id
		cp := *o
		cp.id = id
		cp.M = o.M.clone()
		c.st.setObj(&cp)
		return ret(c.st, &MapV{Obj: id})
	}
}
