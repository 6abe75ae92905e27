package main

// The running node: the activities main starts, the listener and the
// dispatcher. Used by C15, C16, C17 and C23.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reaches: functions whose synchronous or asynchronous call tree contains an
// instruction for which hit holds.
func (e *Engine) reaches(f *ssa.Function, hit func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if hit(in) {
					return true
				}
				var ops [16]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && e.isRepo(g) && !isUIPrint(g) && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func isNetRead(n string) bool {
	return strings.Contains(n, "net.") && strings.Contains(n, ").Read")
}

func callName(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	c := ci.Common()
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if g := c.StaticCallee(); g != nil {
		return g.String()
	}
	return ""
}

func readsNet(in ssa.Instruction) bool { return isNetRead(callName(in)) }
func receives(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Select:
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				return true
			}
		}
	case *ssa.UnOp:
		return x.Op == token.ARROW
	}
	return false
}

// bodyHas: a loop body that contains such an instruction itself or in what it calls.
func (e *Engine) bodyHas(body map[*ssa.BasicBlock]bool, hit func(ssa.Instruction) bool) bool {
	for b := range body {
		for _, in := range b.Instrs {
			if hit(in) {
				return true
			}
			if ci, ok := in.(*ssa.Call); ok {
				if g := ci.Common().StaticCallee(); g != nil && e.isRepo(g) && !isUIPrint(g) && e.reaches(g, hit) {
					return true
				}
			}
		}
	}
	return false
}

// printStubs: the text forms of frames are decided by C01; here any text.
func (c *Ctx) stubs() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range frameTypes {
		for _, p := range f.prints {
			if g := c.e.fn(p); g != nil {
				m[g] = true
			}
		}
	}
	return m
}

// isUIPrint: a function that shows its arguments in a window.
func isUIPrint(f *ssa.Function) bool {
	sg := f.Signature
	if sg.Results().Len() != 0 || !sg.Variadic() || sg.Params().Len() < 2 || sg.Recv() != nil {
		return false
	}
	if !strings.HasSuffix(sg.Params().At(0).Type().String(), "gocui.Gui") {
		return false
	}
	_, ok := sg.Params().At(sg.Params().Len() - 1).Type().(*types.Slice).Elem().Underlying().(*types.Interface)
	return ok
}

type listenerT struct {
	ev  *Event
	net string // network of the connection it was started on
	out *Outcome
}

// role names a queue by how it was handed to a listener, so that it can be
// recognised on any path.
func role(net, path string) string { return net + " listener's " + path }

// dispatched: one path through a dispatcher from receiving one item.
type dispatched struct {
	o     *Outcome
	first bool   // main itself
	act   string // the activity
	role  string
	queue string
	alt   string // kind of item: a frame type, "other", or "" when the queue is not for frames
	val   Val
	ev    *Event
	after []*Event
	roles map[string]string // queue id -> role on this path
	conns map[string]string // connection -> network
	pre   []*Event
}

type nodeT struct {
	c         *Ctx
	main      *ssa.Function
	starts    []*Outcome
	listeners []*listenerT
	disp      []*dispatched
}

const mtuMin = 68

func mtuLin() *Lin { return linA(mkAtom("mtu", big.NewInt(mtuMin), big.NewInt(1<<20))) }

// mainFn: the main function that starts listeners.
func (c *Ctx) mainFn() *ssa.Function {
	var r []*ssa.Function
	for p := range c.e.repoPkgs {
		if p.Pkg.Name() != "main" {
			continue
		}
		if f := p.Func("main"); f != nil && c.e.reaches(f, readsNet) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	if len(r) == 0 {
		return nil
	}
	return r[0]
}

// node runs main from its start until it waits for the first frame.
func (c *Ctx) node() *nodeT {
	n := &nodeT{c: c, main: c.mainFn()}
	if n.main == nil {
		c.fail("anchor", "main", "", "no main function that reads from the network was found")
		return n
	}
	n.run("start", func(s *State, x ssa.Instruction) bool { return true }, true, nil, nil)
	return n
}

// dispatch runs main from its start through one item of one of its queues;
// prep sets up tables, extra stands in for functions decided elsewhere.
func (n *nodeT) dispatch(scn string, alts []recvAlt, join bool, prep func(st *State), extra hookFn) {
	if n.main == nil {
		return
	}
	e := n.c.e
	e.recvAlts = func(s *State, t types.Type) []recvAlt {
		if i, ok := t.Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
			return alts
		}
		return nil
	}
	defer func() { e.recvAlts = nil }()
	// a second pass of the loop that drains the queues
	seen := map[string]bool{}
	n.run(scn, func(s *State, x ssa.Instruction) bool {
		if !received(s) {
			// starts that differ in nothing that was started are handled once
			k := ""
			for _, v := range s.events() {
				switch {
				case v.Kind == "go":
					k += v.Name + n.c.e.pos(v.Pos) + ","
				case v.Kind == "call" && strings.HasPrefix(v.Name, "net.Listen"):
					x, _ := constStrOf(s, v.Args[0])
					k += v.Name + x + ","
				}
			}
			if seen[k] {
				return true
			}
			seen[k] = true
			return false
		}
		for l := s.ev; l != nil; l = l.prev {
			if l.ev.Kind == "recv" && l.ev.Pos == x.Pos() {
				return true
			}
		}
		return false
	}, join, prep, extra)
}

type hookFn func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool)

func received(s *State) bool {
	for l := s.ev; l != nil; l = l.prev {
		if l.ev.Kind == "recv" {
			return true
		}
	}
	return false
}

func (n *nodeT) run(scn string, stop func(s *State, x ssa.Instruction) bool, join bool, prep func(st *State), extra hookFn) {
	c, e := n.c, n.c.e
	prints := c.stubs()
	readconf := e.fn("sarflags.Cliflags.ReadConfig")
	mtu := mtuLin()
	oh, or, ou, og, oi, ol, oc := e.hook, e.onRecv, e.unroll, e.syncGo, e.obligeIf, e.joinLoop, e.joinCall
	oin, oout := e.maxIn, e.maxOut
	e.maxIn, e.maxOut = 6000, 6000
	defer func() {
		e.hook, e.onRecv, e.unroll, e.syncGo, e.obligeIf, e.joinLoop, e.joinCall = oh, or, ou, og, oi, ol, oc
		e.maxIn, e.maxOut = oin, oout
	}()
	e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if fn != nil && prints[fn] {
			return ret(s, strSrc(freshSrc("text", nil))), true
		}
		if fn != nil && e.isRepo(fn) && isUIPrint(fn) {
			return ret(s), true
		}
		if fn != nil && fn == readconf {
			bad := s.clone()
			e.havocVal(s, args[0], 0)
			return append(ret(s, nilIface), ret(bad, newErr("ReadConfig"))...), true
		}
		if fn != nil && fn == e.fn("sarflags.Mtu") {
			return ret(s, &IntV{mtu}), true
		}
		if extra != nil {
			if r, ok := extra(s, fn, name, args); ok {
				return r, true
			}
		}
		return nil, false
	}
	e.onRecv = stop
	// what fails before anything is received is a failed start
	e.obligeIf = received
	e.unroll = func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
		return e.bodyHas(body, receives)
	}
	e.syncGo = func(s *State, f *FuncV) bool {
		if f == nil || f.Fn == nil || !e.isRepo(f.Fn) {
			return false
		}
		// goroutines started while a frame is handled; the listeners and
		// other long running activities are analysed on their own
		return !e.reaches(f.Fn, readsNet) && !e.reaches(f.Fn, receives)
	}
	// what happens on the way that starts nothing and sends nothing is merged
	matters := func(in ssa.Instruction) bool {
		switch in.(type) {
		case *ssa.Go, *ssa.MakeChan, *ssa.Send:
			return true
		}
		return receives(in) || strings.HasPrefix(callName(in), "net.Listen") || readsNet(in) || isWrite(callName(in))
	}
	e.joinLoop = func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
		return fn == n.main && !e.bodyHas(body, matters)
	}
	quiet := map[*ssa.Function]bool{}
	e.joinCall = func(fn *ssa.Function, s *State) bool {
		if !e.isRepo(fn) || !join && received(s) {
			return false
		}
		q, ok := quiet[fn]
		if !ok {
			q = !e.reaches(fn, matters)
			quiet[fn] = q
		}
		return q
	}
	c.exits = true
	defer func() { c.exits = false }()
	st := c.st0.clone()
	if prep != nil {
		prep(st)
	}
	outs := c.runFn(scn+": main", st, n.main, nil)
	if len(n.starts) == 0 {
		for _, o := range outs {
			if o.exit == "again" {
				n.starts = append(n.starts, o)
				n.findListeners(o)
			}
		}
		return
	}
	for _, o := range outs {
		n.path(o, true, n.main.String(), o.st.events())
	}
	// activities of their own that drain queues
	seen := map[string]bool{}
	for _, o := range outs {
		for _, v := range o.st.events() {
			if v.Kind != "go" || v.Fn == nil || v.Fn.Fn == nil || !e.isRepo(v.Fn.Fn) || e.reaches(v.Fn.Fn, readsNet) || !e.reaches(v.Fn.Fn, receives) {
				continue
			}
			k := v.Fn.Fn.String()
			for _, a := range append(append([]Val(nil), v.Args...), v.Fn.Bind...) {
				k += "," + valKey(a)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			s := o.st.clone()
			s.ev = nil
			pre := o.st.events()
			for _, x := range c.runFn(scn+": go "+v.Fn.Fn.String(), s, v.Fn.Fn, v.Fn.Bind, v.Args...) {
				n.path(x, false, k, append(append([]*Event(nil), pre...), x.st.events()...))
			}
		}
	}
	if os.Getenv("SARA_DEBUG") != "" {
		for _, l := range n.listeners {
			fmt.Println("listener", l.net, l.ev.Fn.Fn, l.ev.Args)
		}
		for _, d := range n.disp {
			s := ""
			for _, v := range d.after {
				s += " " + v.Kind + ":" + v.Name
			}
			fmt.Println("dispatch", d.role, d.alt, d.o.exit, s)
		}
	}
}

// isListener: the start of an activity that reads from the network.
func (n *nodeT) isListener(v *Event) bool {
	return v.Kind == "go" && v.Fn != nil && v.Fn.Fn != nil && n.c.e.isRepo(v.Fn.Fn) && n.c.e.reaches(v.Fn.Fn, readsNet)
}

// parts walks the channels and connections a value holds.
func (n *nodeT) parts(st *State, v Val, path string, depth int, f func(v Val, path string)) {
	v = n.c.e.expand(v)
	switch x := v.(type) {
	case *ChanV:
		f(x, path)
	case *StructV:
		for i, y := range x.F {
			n.parts(st, y, fmt.Sprintf("%s.%d", path, i), depth+1, f)
		}
	case *IfaceV:
		if x.V != nil {
			n.parts(st, x.V, path, depth+1, f)
		}
	case *PtrV:
		f(x, path)
		if o := st.obj(x.Obj); o != nil && o.K == 'v' && depth < 4 && n.c.ownType(o.T) {
			n.parts(st, o.V, path, depth+1, f)
		}
	}
}

// ownType: a type of the repository or made of such (not a library's).
func (c *Ctx) ownType(t types.Type) bool {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Pkg() != nil && strings.HasPrefix(x.Obj().Pkg().Path(), modPath)
	case *types.Pointer:
		return strings.HasSuffix(x.String(), "net.UDPConn")
	case *types.Chan, *types.Struct:
		return true
	}
	return false
}

// wiring: the connections opened and the listeners started by some events.
func (n *nodeT) wiring(st *State, evs []*Event) (conns, roles map[string]string, ls []*listenerT) {
	conns, roles = map[string]string{}, map[string]string{}
	for _, v := range evs {
		if v.Kind == "call" && strings.HasPrefix(v.Name, "net.Listen") && len(v.Res) > 0 {
			if s, ok := constStrOf(st, v.Args[0]); ok {
				conns[valKey(v.Res[0])] = s
			}
		}
		if n.isListener(v) {
			l := &listenerT{ev: v}
			args := append(append([]Val(nil), v.Args...), v.Fn.Bind...)
			for i, a := range args {
				n.parts(st, a, fmt.Sprint("argument ", i), 0, func(x Val, path string) {
					if s := conns[valKey(x)]; s != "" && l.net == "" {
						l.net = s
					}
				})
			}
			for i, a := range args {
				n.parts(st, a, fmt.Sprint("argument ", i), 0, func(x Val, path string) {
					if ch, ok := x.(*ChanV); ok {
						roles[ch.Id] = role(l.net, path)
					}
				})
			}
			ls = append(ls, l)
		}
	}
	return
}

func (n *nodeT) findListeners(o *Outcome) {
	_, _, ls := n.wiring(o.st, o.st.events())
	for _, l := range ls {
		dup := false
		for _, m := range n.listeners {
			if m.ev.Pos == l.ev.Pos && m.net == l.net {
				dup = true
			}
		}
		if !dup {
			l.out = o
			n.listeners = append(n.listeners, l)
		}
	}
}

// path splits a path at its first receive.
func (n *nodeT) path(o *Outcome, first bool, act string, evs []*Event) {
	for i, v := range evs {
		if v.Kind != "recv" {
			continue
		}
		d := &dispatched{o: o, first: first, act: act, queue: v.Name, alt: v.Alt, ev: v, after: evs[i+1:], pre: evs[:i]}
		d.conns, d.roles, _ = n.wiring(o.st, evs)
		d.role = d.roles[v.Name]
		if len(v.Res) > 0 {
			d.val = v.Res[0]
		}
		n.disp = append(n.disp, d)
		return
	}
}

// packetAlts: one unknown packet of every frame type, by value or by
// reference, and something else.
func (c *Ctx) packetAlts(byRef map[string]bool) []recvAlt {
	var r []recvAlt
	for _, f := range frameTypes[:5] {
		fn := c.e.fn(f.typ + ".Val")
		if fn == nil {
			c.fail("anchor", f.typ+".Val", "", "not found")
			continue
		}
		t := fn.Signature.Results().At(0).Type()
		name := f.name
		r = append(r, recvAlt{name, func(s *State) Val {
			v := c.e.sym(t, "rx."+name)
			if byRef[name] {
				return &IfaceV{T: types.NewPointer(t), V: c.alloc(s, t, v, "rx."+name)}
			}
			return &IfaceV{T: t, V: v}
		}})
	}
	r = append(r, recvAlt{"other", func(s *State) Val {
		return &IfaceV{T: types.Typ[types.Complex128], V: c.e.fresh(types.Typ[types.Complex128])}
	}})
	return r
}

// ----------------------------------------------------------------- listener

// heard: one path of the listener after one successful read.
type heard struct {
	o       *Outcome
	n       *Lin // length of the frame
	data    Seq  // contents of the receive buffer
	buf     *SliceV
	conn    Val
	from    *PtrV
	fromVal Val
	after   []*Event
}

// listen runs the listener of one start over one received frame.
func (c *Ctx) listen(l *listenerT) []*heard {
	e := c.e
	prints := c.stubs()
	mtu := mtuLin()
	decs := map[*ssa.Function]string{}
	for _, f := range frameTypes[:5] {
		if g := e.fn(f.dec); g != nil {
			decs[g] = f.name
		} else {
			c.fail("anchor", f.dec, "", "not found")
		}
	}
	oh, ou, og := e.hook, e.unroll, e.syncGo
	oin, oout := e.maxIn, e.maxOut
	e.maxIn, e.maxOut = 1000, 3000
	defer func() { e.hook, e.unroll, e.syncGo = oh, ou, og; e.maxIn, e.maxOut = oin, oout }()
	hs := map[*Event]*heard{}
	e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if fn != nil && prints[fn] {
			return ret(s, strSrc(freshSrc("text", nil))), true
		}
		if fn != nil && e.isRepo(fn) && isUIPrint(fn) {
			return ret(s), true
		}
		if fn != nil && fn == e.fn("sarflags.Mtu") {
			return ret(s, &IntV{mtu}), true
		}
		if fn != nil && decs[fn] != "" {
			return c.decodeStub(s, fn, decs[fn], args), true
		}
		if isNetRead(name) {
			for _, v := range s.events() {
				if v.Kind == "read" {
					return []*Outcome{{st: s, exit: "again"}}, true
				}
			}
			return c.readStub(s, fn, name, args, site, hs), true
		}
		return nil, false
	}
	e.unroll = func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool { return e.bodyHas(body, readsNet) }
	e.syncGo = func(s *State, f *FuncV) bool {
		return f != nil && f.Fn != nil && e.isRepo(f.Fn) && !e.reaches(f.Fn, readsNet)
	}
	s := l.out.st.clone()
	s.ev = nil
	oi := e.obligeIf
	e.obligeIf = nil
	defer func() { e.obligeIf = oi }()
	c.exits = true
	defer func() { c.exits = false }()
	var r []*heard
	for _, o := range c.runFn("listener "+l.net, s, l.ev.Fn.Fn, l.ev.Fn.Bind, l.ev.Args...) {
		evs := o.st.events()
		for i, v := range evs {
			if v.Kind == "read" {
				h := *hs[v]
				h.o, h.after = o, evs[i+1:]
				r = append(r, &h)
				break
			}
		}
	}
	return r
}

// decodeStub: any decoded frame, or an error leaving anything behind (what
// decoders do with the bytes is decided by C01 to C03).
func (c *Ctx) decodeStub(s *State, fn *ssa.Function, typ string, args []Val) []*Outcome {
	bad := s.clone()
	ev := &Event{Kind: "decode", Name: typ, Args: append([]Val(nil), args...)}
	c.e.snapshot(s, ev)
	c.e.havocVal(s, args[0], 0)
	if p, ok := args[0].(*PtrV); ok {
		ev.Res = []Val{c.e.load(s, p, fn.Params[0].Type().Underlying().(*types.Pointer).Elem())}
	}
	s.addEvent(ev)
	bv := &Event{Kind: "decode-failed", Name: typ, Args: append([]Val(nil), args...)}
	c.e.snapshot(bad, bv)
	c.e.havocVal(bad, args[0], 0)
	bad.addEvent(bv)
	return append(ret(s, nilIface), ret(bad, newErr("Decode"))...)
}

// readStub: any frame of any length up to the buffer from any sender, or an error.
func (c *Ctx) readStub(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction, hs map[*Event]*heard) []*Outcome {
	e := c.e
	bad := s.clone()
	src := freshSrc("frame", nil)
	h := &heard{n: src.Len}
	if len(args) > 0 {
		h.conn = args[0]
	}
	for _, a := range args {
		if b, ok := a.(*SliceV); ok {
			e.havocVal(s, b, 0)
			h.buf = b
			s.assumeGE(linSub(b.Len, h.n))
			if o := s.obj(b.Arr); o != nil {
				n := *o
				if q, ok := s.seqWrite(n.S, b.Off, Seq{{K: pSrc, Src: src, Off: linC(0), Len: src.Len}}); ok {
					n.S = q
					s.setObj(&n)
				}
			}
			h.data, _ = s.sliceSeq(b)
		}
	}
	var sig *types.Signature
	if fn != nil {
		sig = fn.Signature
	} else if ci, ok := site.(ssa.CallInstruction); ok {
		sig = ci.Common().Signature()
	}
	var good, fail []Val
	for i := 0; sig != nil && i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		switch {
		case basicInt(t) != nil:
			good, fail = append(good, &IntV{h.n}), append(fail, &IntV{linC(0)})
		case strings.HasSuffix(t.String(), "net.UDPAddr"):
			at := t.Underlying().(*types.Pointer).Elem()
			h.from = c.alloc(s, at, e.sym(at, "sender"), "sender")
			h.fromVal = e.load(s, h.from, at)
			good, fail = append(good, h.from), append(fail, &PtrV{})
		case t.String() == "error":
			good, fail = append(good, nilIface), append(fail, newErr("Read"))
		default:
			good, fail = append(good, e.fresh(t)), append(fail, zeroVal(t))
		}
	}
	ev := &Event{Kind: "read", Name: name}
	hs[ev] = h
	s.addEvent(ev)
	bad.addEvent(&Event{Kind: "read-failed", Name: name})
	if s.dead {
		return ret(bad, fail...)
	}
	return append(ret(s, good...), ret(bad, fail...)...)
}
