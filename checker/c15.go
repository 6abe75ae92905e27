package main

// C15: the dispatcher never waits on itself, the listener survives any frame.
// C16: every frame is decoded as itself and handed on, or refused.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = &checkDef{run: checkC15, min: 300, crash: true,
		rule: "Abstract interpretation of main from its start until it handles one item of each of its queues (every kind of frame packet with unknown contents, and anything else), and of every listener it starts over one received frame of any length and contents. On every path the activity that drains a queue performs no blocking send on a queue drained only by itself or by activities waiting for it and waits for nothing that does; handling a frame ends back at the queues; a listener that has read a frame ends at its next read, without a crash obligation open. No lock that a dispatcher takes is held across a send (interprocedural lock analysis)."}
	checks["C16"] = &checkDef{run: checkC16, min: 500,
		rule: "Abstract interpretation of every listener main starts (both address families required) over one received frame of any length and contents, with the decoders replaced by their contract (a frame or an error). Every path is classified by what it sent: a decoded packet is justified by a proof of length, version and frame type, was decoded by that type's decoder from exactly the received bytes and carries that frame and the sender's address to the queue of received frames of this listener; a bad-packet status by a proof of another version or of a failed decode, with the session of the frame and the sender's address, on the queue of outgoing frames; silence by a proof that the frame is one to be dropped. The dispatcher is then run over every kind of item: a queued status is encoded and written once, on the connection of the same family, to its address."}
}

func shortName(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

func (c *Ctx) activity(d *dispatched) string { return shortName(d.act) }

// families: a listener for each address family.
func (n *nodeT) families() {
	got := map[string]int{}
	for _, l := range n.listeners {
		got[l.net]++
	}
	for _, f := range []string{"udp4", "udp6"} {
		n.c.ok("listener", f, got[f] > 0, "no listener is started on a %s connection", f)
	}
	for f := range got {
		if f != "udp4" && f != "udp6" {
			n.c.ok("listener", "unknown", false, "a listener is started on a connection that is not known (%q)", f)
		}
	}
}

func checkC15(c *Ctx) {
	n := c.node()
	if n.main == nil {
		return
	}
	n.families()
	for _, l := range n.listeners {
		name := "listener " + l.net + " " + shortName(l.ev.Fn.Fn.String())
		hs := c.listen(l)
		k := 0
		for _, h := range hs {
			k++
			c.ok("survives", name, h.o.exit == "again", "after a received frame the listener does not read the next one (%s)", exitText(h.o))
			for _, v := range h.after {
				if v.Kind == "recv" && !v.NB || v.Kind == "call" && isWaitCall(v.Name) {
					c.ok("listener-waits", name+" "+c.e.pos(v.Pos), false, "the listener waits for another activity")
				}
			}
		}
		c.ok("survives", name, k > 0, "no path reads a frame")
	}
	n.dispatch("one item", c.packetAlts(nil), false, nil, nil)
	// who drains what
	drains := map[string]map[string]bool{} // role -> activities
	acts := map[string]bool{}
	for _, d := range n.disp {
		k := d.queueKey()
		if drains[k] == nil {
			drains[k] = map[string]bool{}
		}
		drains[k][d.act] = true
		acts[d.act] = true
	}
	sends := map[string]map[string]string{} // activity -> queue -> where
	handled := map[string]bool{}
	for _, d := range n.disp {
		name := c.activity(d) + " on " + d.queueKey()
		if d.alt != "" {
			handled[name+" "+d.alt] = true
			c.ok("continues", name+" "+d.alt, d.o.exit == "again", "after a %s item the queues are not drained any more (%s)", d.alt, exitText(d.o))
		}
		depth, spawned := 0, false
		for _, v := range d.after {
			c.oblig++
			switch v.Kind {
			case "go":
				if n.inPlace(v) {
					depth++
				}
			case "go-end":
				depth--
			case "unknown":
				c.ok("undecided", name, false, "paths were merged")
			case "send":
				if v.NB {
					continue
				}
				q := d.keyOf(v.Name)
				if depth > 0 {
					if len(drains[q]) > 0 {
						spawned = true
					}
					continue
				}
				if sends[d.act] == nil {
					sends[d.act] = map[string]string{}
				}
				sends[d.act][q] = c.e.pos(v.Pos)
			case "recv":
				if depth == 0 && !v.NB && spawned {
					c.ok("waits", name+" "+c.e.pos(v.Pos), false, "waits for an activity that sends on a queue drained here")
				}
			case "call":
				if depth == 0 && isWaitCall(v.Name) && spawned {
					c.ok("waits", name+" "+c.e.pos(v.Pos), false, "waits for an activity that sends on a queue drained here")
				}
			}
		}
	}
	// an activity blocked on a queue is released unless every drainer of the
	// queue waits, in the end, for it
	for a := range acts {
		for q, pos := range sends[a] {
			free := false
			for b := range drains[q] {
				if !waitsFor(b, a, sends, drains, map[string]bool{}) {
					free = true
				}
			}
			if len(drains[q]) == 0 {
				continue // drained by an activity that handles nothing else
			}
			c.ok("self-wait", shortName(a)+" -> "+q, free, "%s sends on a queue that only it, or what waits for it, drains (%s)", shortName(a), pos)
		}
	}
	for _, l := range n.listeners {
		for r, as := range n.listenerRoles(l) {
			c.ok("drained", r, len(as) > 0, "the queue handed to the listener is never drained")
		}
	}
	c.ok("dispatch", "items", len(handled) >= 12, "only %d kinds of item are handled", len(handled))
	c.lockWaits(n)
}

func exitText(o *Outcome) string {
	if o.exit == "" {
		return "it returns"
	}
	return o.exit
}

func isWaitCall(n string) bool {
	return strings.HasSuffix(n, "WaitGroup).Wait") || strings.HasSuffix(n, "Cond).Wait")
}

func waitsFor(b, a string, sends map[string]map[string]string, drains map[string]map[string]bool, seen map[string]bool) bool {
	if b == a {
		return true
	}
	if seen[b] {
		return false
	}
	seen[b] = true
	for q := range sends[b] {
		all := len(drains[q]) > 0
		for x := range drains[q] {
			if !waitsFor(x, a, sends, drains, seen) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (d *dispatched) keyOf(q string) string {
	if r := d.roles[q]; r != "" {
		return r
	}
	if i := strings.IndexByte(q, '~'); i >= 0 {
		return q[:i]
	}
	return q
}
func (d *dispatched) queueKey() string { return d.keyOf(d.queue) }

// inPlace: a started function that was run where it was started.
func (n *nodeT) inPlace(v *Event) bool {
	return v.Fn != nil && v.Fn.Fn != nil && n.c.e.isRepo(v.Fn.Fn) && !n.c.e.reaches(v.Fn.Fn, readsNet) && !n.c.e.reaches(v.Fn.Fn, receives)
}

// listenerRoles: the queues handed to a listener, with the activities draining them.
func (n *nodeT) listenerRoles(l *listenerT) map[string]map[string]bool {
	r := map[string]map[string]bool{}
	args := append(append([]Val(nil), l.ev.Args...), l.ev.Fn.Bind...)
	for i, a := range args {
		n.parts(l.out.st, a, fmt.Sprint("argument ", i), 0, func(x Val, path string) {
			if _, ok := x.(*ChanV); ok {
				r[role(l.net, path)] = map[string]bool{}
			}
		})
	}
	for _, d := range n.disp {
		if m := r[d.queueKey()]; m != nil {
			m[d.act] = true
		}
	}
	return r
}

// lockWaits: no lock the dispatcher needs is held by an activity that waits
// for the dispatcher.
func (c *Ctx) lockWaits(n *nodeT) {
	a := c.lockAnalysis()
	roots := []*ssa.Function{n.main}
	for _, d := range n.disp {
		if d.ev.In != nil {
			roots = append(roots, d.ev.In)
		}
	}
	need := map[string]string{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for l := range a.acq[f] {
			need[l] = shortFn(f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					continue
				case *ssa.MakeClosure:
					onlyGo := true
					for _, r := range *x.Referrers() {
						if _, ok := r.(*ssa.Go); !ok {
							onlyGo = false
						}
					}
					if onlyGo {
						continue
					}
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && c.e.isRepo(g) {
						visit(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	var ks []string
	for k := range a.waits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w := a.waits[k]
		c.ok("lock-across-send", shortFn(w.fn)+"/"+w.lock, need[w.lock] == "", "%s is held across %s (%s) and taken by the dispatcher in %s", w.lock, w.what, c.e.pos(w.pos), need[w.lock])
	}
	c.oblig += len(a.waits) + len(need)
	c.notes = append(c.notes, fmt.Sprintf("The dispatcher takes %d locks; %d sends happen under a lock.", len(need), len(a.waits)))
}

// ---------------------------------------------------------------------- C16

// hasFlag: the word is known to have the option; hasNotFlag: known not to.
func (c *Ctx) hasFlag(st *State, w *Lin, field, opt string) bool {
	fl := c.header("", field)
	v, ok := st.fieldGet(w, 32, fl.Msb, fl.Len)
	return ok && st.proveEQ(v, linC(int64(fl.Options[opt])))
}

func (c *Ctx) hasNotFlag(st *State, w *Lin, field, opt string) bool {
	fl := c.header("", field)
	s := st.clone()
	v, ok := s.fieldGet(w, 32, fl.Msb, fl.Len)
	if !ok {
		return false
	}
	s.assumeEQ(linSub(v, linC(int64(fl.Options[opt]))))
	return s.dead || s.contradictory()
}

// optOf: the option the word is known to have.
func (c *Ctx) optOf(st *State, w *Lin, field string) string {
	for _, o := range sortedKeys(c.header("", field).Options) {
		if c.hasFlag(st, w, field, o) {
			return o
		}
	}
	return ""
}

// packet takes a value put on a queue apart.
func (c *Ctx) packet(st *State, v Val, t types.Type) (typ string, info, addr Val, it, at types.Type) {
	if i, ok := c.e.expand(v).(*IfaceV); ok && i.T != nil {
		v, t = i.V, i.T
	}
	if t == nil {
		return
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		pv, ok := v.(*PtrV)
		if !ok || pv.Obj == 0 {
			return
		}
		v, t = c.e.load(st, pv, p.Elem()), p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for _, f := range frameTypes[:5] {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), c.e.typ(f.typ)) {
				typ, info, it = f.name, fieldOf(v, t, s.Field(i).Name()), s.Field(i).Type()
			}
			if strings.HasSuffix(s.Field(i).Type().String(), "net.UDPAddr") {
				addr, at = fieldOf(v, t, s.Field(i).Name()), s.Field(i).Type()
			}
		}
	}
	return
}

func (c *Ctx) intOf(v Val, t types.Type, name string) *Lin {
	if i, ok := fieldOf(v, t, name).(*IntV); ok {
		return i.L
	}
	return nil
}

func checkC16(c *Ctx) {
	n := c.node()
	if n.main == nil {
		return
	}
	n.families()
	byRef := map[string]bool{}
	used := map[string]map[string]bool{} // role -> kinds
	for _, l := range n.listeners {
		n.hears(l, used, byRef)
	}
	// the dispatcher side
	enc := map[*ssa.Function]frameT{}
	for _, f := range frameTypes[:5] {
		if g := c.e.fn(f.enc); g != nil {
			enc[g] = f
		}
	}
	body := symBytes(c.e, "encoded")
	n.dispatch("one item", c.packetAlts(byRef), false, nil, func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		f, ok := enc[fn]
		if fn == nil || !ok || !received(s) {
			return nil, false
		}
		v := args[0]
		if q, ok := v.(*PtrV); ok {
			v = c.e.load(s, q, c.e.typ(f.typ))
		}
		bad := s.clone()
		s.addEvent(&Event{Kind: "encode", Name: f.name, Args: []Val{v}})
		bad.addEvent(&Event{Kind: "encode-failed", Name: f.name, Args: []Val{v}})
		return append(ret(s, body, nilIface), ret(bad, nilSlice(), newErr("Encode"))...), true
	})
	rx, tx := map[string]bool{}, map[string]bool{}
	for _, d := range n.disp {
		q := d.queueKey()
		if d.alt == "status" && len(netWrites(d.after)) > 0 {
			tx[q] = true
		}
		if d.alt == "request" {
			for _, v := range d.after {
				if v.Kind == "send" {
					rx[q] = true
				}
			}
		}
	}
	for q, ks := range used {
		if ks["frame"] {
			c.ok("handed-on", q, rx[q] && !tx[q], "decoded frames are put on a queue whose requests nobody answers")
		}
		if ks["answer"] {
			c.ok("answered", q, tx[q] && !rx[q], "bad-packet answers are put on a queue whose frames nobody sends")
		}
		c.ok("queues", q, len(ks) < 2, "decoded frames and answers are put on the same queue")
	}
	sent1 := map[string]bool{}
	for _, d := range n.disp {
		q := d.queueKey()
		if !tx[q] || d.alt != "status" {
			continue
		}
		name := "outgoing " + q
		_, info, addr, it, at := c.packet(d.o.st, d.ev.Res[0], nil)
		encs, fails, ws := 0, 0, netWrites(d.after)
		same := true
		for _, v := range d.after {
			switch v.Kind {
			case "encode":
				encs++
				same = same && v.Name == "status" && c.deepSame(d.o.st, info, v.Args[0], it, "Info") == ""
			case "encode-failed":
				fails++
			case "unknown":
				c.ok("undecided", name, false, "paths were merged")
			}
		}
		if fails > 0 {
			c.ok("no-send", name, len(ws) == 0, "a status that does not encode is sent")
			continue
		}
		if !c.ok("sent-once", name, encs == 1 && len(ws) == 1, "a queued status is encoded %d times and written %d times", encs, len(ws)) {
			continue
		}
		c.ok("sent-frame", name, same, "what is sent is not the queued status")
		w := ws[0]
		net := ""
		if len(w.Args) > 0 {
			net = d.conns[valKey(w.Args[0])]
		}
		c.ok("sent-family", name, net != "" && strings.HasPrefix(q, net+" "), "the status is sent on the %q connection", net)
		c.ok("sent-bytes", name, c.wroteExactly(d.o.st, w, body), "what is written is not the encoded status")
		dest := w.Args[len(w.Args)-1]
		if i, ok := dest.(*IfaceV); ok && i.V != nil {
			dest = i.V
		}
		dp, ok := dest.(*PtrV)
		c.ok("sent-to", name, ok && at != nil && c.deepSame(d.o.st, addr, c.e.load(d.o.st, dp, at), at, "Addr") == "", "the status is not sent to the address it was queued for")
		sent1[q] = true
	}
	for q := range tx {
		c.ok("sent-once", "outgoing "+q, sent1[q], "no queued status is ever sent")
	}
	c.ok("queues", "outgoing", len(tx) >= 2, "%d queues of outgoing frames found, one per family expected", len(tx))
}

func (n *nodeT) hears(l *listenerT, used map[string]map[string]bool, byRef map[string]bool) {
	c := n.c
	name := "listener " + l.net + " " + shortName(l.ev.Fn.Fn.String())
	roles := map[string]string{}
	args := append(append([]Val(nil), l.ev.Args...), l.ev.Fn.Bind...)
	for i, a := range args {
		n.parts(l.out.st, a, fmt.Sprint("argument ", i), 0, func(x Val, path string) {
			if ch, ok := x.(*ChanV); ok {
				roles[ch.Id] = role(l.net, path)
			}
		})
	}
	maxLen := linAddC(mtuLin(), -60)
	seen := map[string]int{}
	for _, h := range c.listen(l) {
		st := h.o.st
		if h.n == nil || h.buf == nil || h.from == nil {
			c.ok("anchor", name, false, "how a frame is read is not known")
			continue
		}
		c.ok("buffer", name, st.proveGE(linAddC(linSub(h.buf.Len, maxLen), -1)), "a frame longer than the limit cannot be told from one that fits the buffer")
		c.ok("read-from", name, n.readsFrom(l, h), "the frame is read from another connection than the listener's")
		hw := st.readInt(h.data, linC(0), 4, false)
		var sends, decs []*Event
		for _, v := range h.after {
			switch v.Kind {
			case "send":
				sends = append(sends, v)
			case "decode", "decode-failed":
				decs = append(decs, v)
			case "unknown":
				c.ok("undecided", name, false, "paths were merged")
			}
		}
		frame, ok := st.seqSub(h.data, linC(0), h.n)
		if !ok {
			c.ok("undecided", name, false, "the received bytes are not known")
			continue
		}
		lenOK := st.proveGE(linAddC(h.n, -8)) && st.proveGE(linSub(maxLen, h.n))
		v1, notV1 := c.hasFlag(st, hw, "version", "v1"), c.hasNotFlag(st, hw, "version", "v1")
		isT := func(t string) bool { return c.hasFlag(st, hw, "frametype", t) }
		// every decode is of the type in the frame and sees the whole frame
		for _, d := range decs {
			seen["decode "+d.Name]++
			c.ok("decoder", name+" "+d.Name, lenOK && v1 && isT(d.Name), "a frame is decoded as %s without being known to be one of legal length and version", d.Name)
			b, ok := d.Args[len(d.Args)-1].(*SliceV)
			q := d.Data[len(d.Args)-1]
			c.ok("decoded-bytes", name+" "+d.Name, ok && q != nil && st.proveEQ(b.Len, h.n) && st.seqEqual(q, frame) == 1, "what is decoded is not exactly the received frame")
		}
		if len(decs) > 1 {
			c.ok("decoder", name, false, "a frame is decoded %d times", len(decs))
			continue
		}
		if !c.ok("once", name, len(sends) <= 1, "%d items are sent for one frame", len(sends)) {
			continue
		}
		if len(sends) == 0 {
			seen["dropped"]++
			var why bool
			switch {
			case st.proveGE(linSub(linC(7), h.n)), st.proveGE(linAddC(linSub(h.n, maxLen), -1)):
				why = true
			case len(decs) == 1:
				why = decs[0].Kind == "decode-failed" && (decs[0].Name == "beacon" || decs[0].Name == "request")
			default:
				why = v1
				for _, f := range frameTypes[:5] {
					why = why && c.hasNotFlag(st, hw, "frametype", f.name)
				}
			}
			what := "none"
			if len(decs) == 1 {
				what = decs[0].Kind + " " + decs[0].Name
			}
			c.ok("dropped", name+" "+what, why, "a frame that has to be handed on or answered is dropped")
			continue
		}
		s := sends[0]
		r := roles[s.Name]
		if !c.ok("queue", name, r != "", "an item is sent on a queue that is not one of this listener's") {
			continue
		}
		typ, info, addr, it, at := c.packet(st, s.Args[0], nil)
		if i, ok := s.Args[0].(*IfaceV); ok && i.T != nil {
			if _, p := i.T.Underlying().(*types.Pointer); p {
				byRef[typ] = true
			}
		}
		if !c.ok("packet", name, typ != "" && addr != nil, "what is sent is not a frame packet") {
			continue
		}
		c.ok("sender", name+" "+typ, c.deepSame(st, addr, h.fromVal, at, "Addr") == "", "the packet does not carry the sender's address")
		use := func(k string) {
			if used[r] == nil {
				used[r] = map[string]bool{}
			}
			used[r][k] = true
		}
		if len(decs) == 1 && decs[0].Kind == "decode" {
			seen["handed on "+typ]++
			use("frame")
			c.ok("handed-on", name+" "+decs[0].Name, typ == decs[0].Name, "a %s frame is handed on as %s", decs[0].Name, typ)
			c.ok("handed-on", name+" "+decs[0].Name, it != nil && len(decs[0].Res) == 1 && c.deepSame(st, decs[0].Res[0], info, it, "Info") == "", "the frame handed on is not the one decoded")
			continue
		}
		seen["answered"]++
		use("answer")
		sh := c.intOf(info, it, "Header")
		sess := c.intOf(info, it, "Session")
		if !c.ok("answer", name, typ == "status" && sh != nil && sess != nil, "the answer to a bad frame is a %s", typ) {
			continue
		}
		c.ok("answer", name, c.hasFlag(st, sh, "version", "v1") && c.hasFlag(st, sh, "frametype", "status") && c.hasFlag(st, sh, "errcode", "badpacket"), "the answer is not a version 1 bad-packet status (%s)", c.optOf(st, sh, "errcode"))
		if len(decs) == 1 {
			nm := decs[0].Name
			seen["answered "+nm]++
			c.ok("answer", name+" "+nm, nm == "data" || nm == "metadata" || nm == "status", "a %s frame that does not decode is answered", nm)
			c.ok("session", name+" "+nm, st.eqBits(sess, st.readInt(h.data, linC(4), 4, false), 32), "the answer is not for the session in the frame")
		} else {
			seen["answered version"]++
			c.ok("answer", name+" version", notV1 && lenOK, "a frame that was not decoded is answered without being known to be of another version")
			c.ok("session", name+" version", st.proveEQ(sess, linC(0)) || st.eqBits(sess, st.readInt(h.data, linC(4), 4, false), 32), "the answer is for a session that is not in the frame")
		}
	}
	for _, k := range []string{"decode beacon", "decode request", "decode metadata", "decode data", "decode status", "handed on beacon", "handed on request", "handed on metadata", "handed on data", "handed on status", "answered version", "answered data", "answered metadata", "answered status", "dropped"} {
		c.ok("reached", name+": "+k, seen[k] > 0, "no path: %s", k)
	}
	c.notes = append(c.notes, fmt.Sprintf("%s: %v.", name, seen))
}

// readsFrom: the connection read is the one the listener was started on.
func (n *nodeT) readsFrom(l *listenerT, h *heard) bool {
	for i, a := range append(append([]Val(nil), l.ev.Args...), l.ev.Fn.Bind...) {
		ok := false
		n.parts(l.out.st, a, fmt.Sprint(i), 0, func(x Val, path string) {
			if h.conn != nil && valKey(x) == valKey(h.conn) {
				ok = true
			}
		})
		if ok {
			return true
		}
	}
	return false
}
