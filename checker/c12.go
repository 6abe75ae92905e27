package main

// C12: Send.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = &checkDef{run: checkC12, min: 30, crash: true,
		rule: "Abstract interpretation of every Send with the encoder replaced by its contract (some bytes, or an error) and the connection by its (any count up to the length, any error): on every path that may report success the frame given was encoded once without error, exactly one write was made, of exactly the encoded bytes, on the given connection to the given destination, without error and with a count proved equal to their length."}
}

// isWrite: a library call that sends bytes on a connection.
func isWrite(n string) bool {
	return strings.Contains(n, "net.") && strings.Contains(n, ").Write")
}

// netWrites: the writes to a connection among the events.
func netWrites(evs []*Event) []*Event {
	var r []*Event
	for _, v := range evs {
		if v.Kind == "call" && isWrite(v.Name) {
			r = append(r, v)
		}
	}
	return r
}

func checkC12(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	for _, f := range frameTypes[:5] {
		name := f.typ + ".Send"
		fn := c.e.fn(name)
		enc := c.e.fn(f.enc)
		t := c.e.typ(f.typ)
		if fn == nil || enc == nil || t == nil {
			c.fail("anchor", name, "", "not found")
			continue
		}
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, "frame")
		var args []Val
		var conn, to *PtrV
		for _, pa := range fn.Params[1:] {
			v, ok := c.e.sym(pa.Type(), "arg."+pa.Name()).(*PtrV)
			if !ok {
				c.fail("anchor", name, "", "unexpected parameter "+pa.Name())
				continue
			}
			v.MayNil = ""
			if strings.HasSuffix(pa.Type().String(), "net.UDPConn") {
				conn = v
			} else {
				to = v
			}
			args = append(args, v)
		}
		orig := c.e.load(st, p, t)
		old := c.e.hook
		body := symBytes(c.e, "encoded")
		c.e.hook = func(s *State, g *ssa.Function, nm string, a []Val, site ssa.Instruction) ([]*Outcome, bool) {
			if g != enc {
				return nil, false
			}
			v := a[0]
			if q, ok := v.(*PtrV); ok {
				v = c.e.load(s, q, t)
			}
			bad := s.clone()
			s.addEvent(&Event{Kind: "encode", Args: []Val{v}})
			bad.addEvent(&Event{Kind: "encode-failed"})
			return append(ret(s, body, nilIface), ret(bad, nilSlice(), newErr("Encode"))...), true
		}
		outs := c.method(st, name, name, p, args...)
		c.e.hook = old
		good := 0
		for _, o := range outs {
			if !c.ok("returns", name, o.exit == "" && len(o.ret) == 1, "ends by %s", o.exit) {
				continue
			}
			evs := o.st.events()
			ws := netWrites(evs)
			nenc, failed, unk := 0, false, false
			var frame Val
			for _, v := range evs {
				switch v.Kind {
				case "encode":
					nenc++
					frame = v.Args[0]
				case "encode-failed":
					failed = true
				case "unknown":
					unk = true
				}
			}
			if !c.ok("decided", name, !unk, "what happened on a path is not decided") {
				continue
			}
			for _, w := range ws {
				// only the encoded bytes ever reach the network
				c.ok("bytes", name, nenc > 0 && !failed && c.wroteExactly(o.st, w, body), "a write at %s is not of exactly the encoded frame", c.e.pos(w.Pos))
				q, ok := w.Args[0].(*PtrV)
				c.ok("connection", name, ok && conn != nil && q.Obj == conn.Obj && q.Ext == conn.Ext && (q.Obj != 0 || q.Ext != ""), "a write at %s is not on the given connection", c.e.pos(w.Pos))
				if to != nil {
					d := false
					for _, a := range w.Args[1:] {
						if i, ok := a.(*IfaceV); ok {
							a = i.V
						}
						if q, ok := a.(*PtrV); ok && valKey(q) == valKey(to) {
							d = true
						}
					}
					c.ok("destination", name, d, "a write at %s is not to the given address", c.e.pos(w.Pos))
				}
			}
			c.ok("once", name, len(ws) <= 1, "the frame is written %d times", len(ws))
			if isErr(o.st, o.ret[0]) {
				continue
			}
			if !c.ok("success", name, !failed, "success is reported although the frame did not encode") {
				continue
			}
			if !c.ok("success", name, nenc >= 1, "success is reported although nothing was encoded") ||
				!c.ok("success", name, len(ws) == 1, "success is reported after %d writes", len(ws)) {
				continue
			}
			good++
			c.ok("frame", name, c.deepSame(o.st, orig, frame, t, "frame") == "", "what is encoded is not the frame given")
			w := ws[0]
			n, ok := w.Res[0].(*IntV)
			c.ok("success", name, sureNil(o.st, w.Res[len(w.Res)-1]), "success is reported although the write reported an error")
			c.ok("success", name, ok && o.st.proveEQ(n.L, body.Len), "success is reported although fewer bytes than the frame may have been written")
		}
		c.ok("succeeds", name, good > 0, "never reports success")
	}
}

func (c *Ctx) wroteExactly(st *State, w *Event, body *SliceV) bool {
	for i, a := range w.Args {
		s, ok := a.(*SliceV)
		if !ok {
			continue
		}
		q, ok := w.Data[i]
		if !ok {
			return false
		}
		want, ok := st.sliceSeq(body)
		return ok && st.proveEQ(s.Len, body.Len) && st.seqEqual(q, want) == 1
	}
	return false
}
