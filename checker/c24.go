package main

// C24: every documented command is dispatched and no input line crashes the node.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C24"] = &checkDef{run: checkC24, min: 300, crash: true,
		rule: "Abstract interpretation of the dispatcher over each documented command word, over each with the argument \"?\" and over an unknown line (any number of unknown words), and of the activity it starts: a documented word starts a handler, a word no documented command has is reported, the usage shown is that of the command, every path through every handler shows something or has an effect, and none can crash or end the node. Each transfer command with an address and a file name registers a transfer of its kind, of that file and with that peer. The key bindings and the printing functions are run with unknown views and texts. The words the dispatcher knows are compared with the documented ones."}
}

// a path through the handling of one input line
type cmdPath struct {
	run   *Outcome // of the dispatcher
	o     *Outcome // of the activity it started, or of the dispatcher
	cmd   *Event   // how it was started; nil if it was not
	pre   *State   // when it started
	shown []*Event
}

// windows: the names of the views the program creates.
func (c *Ctx) windows() map[string]bool {
	r := map[string]bool{}
	for p := range c.e.repoPkgs {
		for _, f := range funcsOf(c.e.prog, p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(*ssa.Call); ok && callName(in) == "(*github.com/jroimartin/gocui.Gui).SetView" {
						if k, ok := cl.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							r[constant.StringVal(k.Value)] = true
						}
					}
				}
			}
		}
	}
	return r
}

// guiHook: views that were created exist, and one of them is current.
func (c *Ctx) guiHook() hookFn {
	win := c.windows()
	view := c.libType("github.com/jroimartin/gocui", "View")
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		const gui = "(*github.com/jroimartin/gocui.Gui)."
		if !strings.HasPrefix(name, gui) || view == nil {
			return nil, false
		}
		v := func() Val { k := freshKey("view"); return c.alloc(s, view, c.e.sym(view, k), k) }
		switch strings.TrimPrefix(name, gui) {
		case "CurrentView":
			return ret(s, v()), true
		case "View", "SetCurrentView", "SetViewOnTop", "SetViewOnBottom":
			s.addEvent(&Event{Kind: "window", Name: name, Args: args})
			w, ok := constStrOf(s, args[1])
			if ok && win[w] {
				return ret(s, v(), nilIface), true
			}
			bad := s.clone()
			r := ret(bad, &PtrV{}, newErr(name))
			if !ok {
				r = append(r, ret(s, v(), nilIface)...)
			}
			return r, true
		}
		return nil, false
	}
}

func (c *Ctx) hooks(hs ...hookFn) hookFn {
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		for _, h := range hs {
			if r, ok := h(s, fn, name, args); ok {
				return r, ok
			}
		}
		return nil, false
	}
}

// answering marks the paths on which something is shown.
func (c *Ctx) answering() hookFn {
	shows := map[*ssa.Function]bool{}
	for _, n := range showing {
		if f := c.e.fn("sarwin." + n); f != nil {
			shows[f] = true
		}
	}
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if fn != nil && shows[fn] {
			s.truth["answered"] = true
		}
		return nil, false
	}
}

var showing = []string{"MsgPrintf", "MsgPrintln", "CmdPrintf", "CmdPrintln", "ErrPrintf", "ErrPrintln", "PacketPrintf", "PacketPrintln"}

func (c *Ctx) gui() *PtrV {
	t := c.libType("github.com/jroimartin/gocui", "Gui")
	g := c.e.sym(types.NewPointer(t), "gui").(*PtrV)
	gq := *g
	gq.MayNil = ""
	return &gq
}

// settingsState: every setting of the node is unknown.
func (c *Ctx) settingsState(entries int) (*State, int) {
	st := c.st0.clone()
	t := c.e.typ("sarflags.Cliflags")
	gv := c.e.globalVar("sarflags.Cliflag")
	if t == nil || gv == nil {
		c.fail("anchor", "sarflags.Cliflag", "", "the settings of the node were not found")
		return nil, 0
	}
	v, ok := c.e.expand(c.e.sym(t, "set")).(*StructV)
	i := fieldIdx(t, "Global")
	if !ok || i < 0 {
		c.fail("anchor", "sarflags.Cliflags", "", "the settings of the node are not a struct with a map of flags")
		return nil, 0
	}
	n := &StructV{F: append([]Val{}, v.F...)}
	mo := st.newObj('m', t.Underlying().(*types.Struct).Field(i).Type(), "flags")
	mo.M = &MapO{ent: map[string]MapEnt{}}
	for _, f := range defaultFlags {
		mo.M.keys = append(mo.M.keys, fmt.Sprintf("%q", f))
		mo.M.ent[fmt.Sprintf("%q", f)] = MapEnt{k: strC(f), v: strSrc(mkSrc("set:"+f, nil))}
	}
	st.setObj(mo)
	n.F[i] = &MapV{Obj: mo.id}
	p := c.alloc(st, t, n, "set")
	o := *st.obj(c.e.global(gv))
	o.V = p
	st.setObj(&o)
	// a few transfers and peers
	for _, name := range []string{"sarwin.Transfers", "beacon.Peers"} {
		g := c.tableOf(name)
		if g == nil || !c.setTable(st, name, g, entries, 0) {
			continue
		}
		es, _ := c.getTable(st, g)
		for _, en := range es {
			c.withPeer(st, en)
		}
	}
	return st, p.Obj
}

// withPeer: a registered transfer has the address of its peer.
func (c *Ctx) withPeer(st *State, en entryT) {
	p, ok := en.raw.(*PtrV)
	if !ok || p.Obj == 0 {
		return
	}
	o := *st.obj(p.Obj)
	t, ok := o.T.Underlying().(*types.Struct)
	sv, ok2 := c.e.expand(o.V).(*StructV)
	if !ok || !ok2 {
		return
	}
	n := &StructV{F: append([]Val{}, sv.F...)}
	for i := 0; i < t.NumFields(); i++ {
		if pt, ok := t.Field(i).Type().(*types.Pointer); ok && pt.Elem().String() == "net.UDPAddr" {
			n.F[i] = c.peerPtr(st, freshKey("peer"))
		}
	}
	o.V = n
	st.setObj(&o)
}

// command analyses what happens with a line the operator typed.
func (c *Ctx) command(scn string, st *State, line Val) []*cmdPath {
	name := "sarwin.Run"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", name, "", "the dispatcher of command lines was not found")
		return nil
	}
	var r []*cmdPath
	c.withHook(c.hooks(c.answering(), c.localHook(), c.guiHook(), c.addrHook()), func() {
		c.e.maxIn, c.e.maxOut = 200, 400
		outs := c.run(scn, st, name, c.gui(), line)
		c.e.maxIn, c.e.maxOut = 16, 400
		for _, o := range outs {
			var gos []*Event
			var shown []*Event
			for _, v := range o.st.events() {
				if v.Kind == "go" && v.Fn != nil && v.Fn.Fn != nil {
					gos = append(gos, v)
				}
				if v.Kind == "print" {
					shown = append(shown, v)
				}
			}
			if len(gos) == 0 || o.exit != "" {
				r = append(r, &cmdPath{run: o, o: o, shown: shown})
				continue
			}
			for _, v := range gos {
				s := o.st.clone()
				s.ev = nil
				c.e.maxIn = 16
				if c.wide != nil && c.wide(v) {
					c.e.maxIn = 400
				}
				pre := s.clone()
				for _, h := range c.runFn(scn+": "+shortName(v.Fn.Fn.String()), s, v.Fn.Fn, v.Fn.Bind, v.Args...) {
					sh := append([]*Event{}, shown...)
					for _, x := range h.st.events() {
						if x.Kind == "print" {
							sh = append(sh, x)
						}
					}
					r = append(r, &cmdPath{run: o, o: h, cmd: v, pre: pre, shown: sh})
				}
			}
		}
	})
	return r
}

// changed: a place of the state before differs after.
func (c *Ctx) changed(before, after *State) bool {
	for id, o := range before.heap {
		n := after.heap[id]
		if n == o || n == nil {
			continue
		}
		if o.M != nil && n.M != nil {
			if o.M.open || n.M.open || len(o.M.ent) != len(n.M.ent) {
				return true
			}
			for k, e := range o.M.ent {
				f, ok := n.M.ent[k]
				if !ok || !after.valEqual(e.v, f.v) {
					return true
				}
			}
			continue
		}
		if o.V != nil && n.V != nil && (valKey(o.V) == valKey(n.V) || after.valEqual(o.V, n.V)) {
			continue
		}
		return true
	}
	return false
}

// handlers: the words the dispatcher knows: the keys of the tables of
// functions it reads.
func (c *Ctx) handlers() map[string]bool {
	fn := c.e.fn("sarwin.Run")
	r := map[string]bool{}
	for g := range c.e.globals {
		m, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok || fn == nil || g.Pkg != fn.Pkg {
			continue
		}
		if _, ok := m.Elem().Underlying().(*types.Signature); !ok {
			continue
		}
		o := c.st0.obj(c.e.global(g))
		mv, ok := c.e.expand(o.V).(*MapV)
		if !ok || mv.Obj == 0 {
			continue
		}
		for k := range c.st0.obj(mv.Obj).M.ent {
			r[strings.Trim(k, "\"")] = true
		}
	}
	return r
}

// recursion: a call of a function under way returns anything of its type with
// no slice longer than the one it was given.
func (c *Ctx) recursion() func(s *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
	return func(s *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if !c.e.isRepo(fn) {
			return nil, false
		}
		outs := c.e.havocCall(s, fn.Signature, fn.String(), args, site, true)
		for _, o := range outs {
			for _, r := range o.ret {
				for _, a := range args {
					x, o1 := r.(*SliceV)
					y, o2 := a.(*SliceV)
					if o1 && o2 {
						o.st.assumeGE(linSub(y.Len, x.Len))
					}
				}
			}
		}
		return outs, true
	}
}

// addrHook: an address text gives the address of a peer or an error, and
// taking addresses off a list gives a list no longer. Both functions are
// analysed on their own for any argument.
func (c *Ctx) addrHook() hookFn {
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if fn == nil || !c.e.isRepo(fn) || fn.Signature.Recv() != nil {
			return nil, false
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		switch {
		case ps.Len() == 1 && ps.At(0).Type().String() == "string" && rs.Len() == 2 && rs.At(0).Type().String() == "*net.UDPAddr":
			bad := s.clone()
			key := freshKey("addr")
			if a, ok := args[0].(*StrV); ok {
				if w, ok := a.S.constStr(); ok {
					key = "addr:" + w
				}
			}
			return append(ret(s, c.peerPtr(s, key), nilIface), ret(bad, &PtrV{}, newErr(name))...), true
		case ps.Len() == 2 && ps.At(0).Type().String() == "[]net.UDPAddr" && rs.Len() == 1 && rs.At(0).Type().String() == "[]net.UDPAddr":
			r := c.e.sym(rs.At(0).Type(), freshKey("left")).(*SliceV)
			if a, ok := args[0].(*SliceV); ok {
				s.assumeGE(linSub(a.Len, r.Len))
			}
			return ret(s, r), true
		}
		return nil, false
	}
}

// addresses: the functions addrHook describes, with any argument.
func (c *Ctx) addresses() {
	for _, n := range []string{"sarnet.UDPAddress", "sarnet.RemoveUDPAddrValue"} {
		f := c.e.fn(n)
		if f == nil {
			continue
		}
		st, _ := c.settingsState(0)
		var args []Val
		for i, p := range f.Params {
			if strings.HasSuffix(p.Type().String(), "*net.UDPAddr") {
				args = append(args, c.peerPtr(st, "peer"))
				continue
			}
			args = append(args, c.e.sym(p.Type(), fmt.Sprintf("arg%d", i)))
		}
		for _, o := range c.run("any argument of "+n, st, n, args...) {
			c.ok("runs", n, o.exit == "", "%s ends with %s", n, o.exit)
			if len(o.ret) == 2 && n == "sarnet.UDPAddress" {
				pv, isPtr := o.ret[0].(*PtrV)
				c.ok("address", n, sureErr(o.st, o.ret[1]) || isPtr && nonNil(pv), "an address without error can be missing")
			}
		}
	}
}

func checkC24(c *Ctx) {
	c.e.onRec = c.recursion()
	defer func() { c.e.onRec = nil }()
	c.e.maxIn, c.e.maxOut = 16, 400
	c.fine = 150
	names := sortedKeys(c.tables.Commands)
	// the dispatcher and the documentation know the same words
	hs := c.handlers()
	for _, w := range sortedKeys(hs) {
		_, ok := c.tables.Commands[w]
		c.ok("documented", w, ok, "the command %s has a handler and is not documented", w)
	}
	for _, w := range names {
		c.ok("handled", w, len(hs) == 0 || hs[w], "the documented command %s has no handler", w)
	}
	// a documented word starts its handler
	by := map[string][]string{}
	fnOf := map[string]string{}
	for _, w := range names {
		st, _ := c.settingsState(1)
		if st == nil {
			return
		}
		n := 0
		for _, p := range c.command("the line "+w, st, strC(w)) {
			if !c.ok("dispatch", w, p.cmd != nil || c.changed(st, p.o.st), "the documented command %s does not start a handler on some path", w) {
				continue
			}
			n++
			if p.cmd != nil {
				k := c.handlerKey(p.cmd)
				fnOf[w] = k
			}
			c.quietPath(w, st, p)
		}
		c.ok("dispatch", w+"/path", n > 0, "the documented command %s leads nowhere", w)
		if k := fnOf[w]; k != "" {
			by[k] = append(by[k], w)
		}
	}
	// asking for help shows the command's own usage
	for _, w := range names {
		st, _ := c.settingsState(1)
		n := 0
		for _, p := range c.command("the line "+w+" ?", st, strC(w+" ?")) {
			n++
			own, other := false, ""
			for _, v := range p.shown {
				for _, x := range names {
					u := c.tables.Commands[x].Usage
					if u == "" || !c.shows(p.o.st, v, "usage:"+u) {
						continue
					}
					if x == w || c.synonyms(x, w) {
						own = true
					} else {
						other = x
					}
				}
			}
			c.ok("usage", w, own || other == "", "asked for the usage of %s, the node shows that of %s", w, other)
			c.quietPath(w+" ?", st, p)
		}
		c.ok("usage", w+"/path", n > 0, "asking for the usage of %s leads nowhere", w)
	}
	// any line
	for _, shape := range []string{"", " ", "\t  "} {
		st, _ := c.settingsState(1)
		for _, p := range c.command(fmt.Sprintf("the blank line %q", shape), st, strC(shape)) {
			c.ok("blank", fmt.Sprintf("%q", shape), p.o.exit == "" && p.cmd == nil, "a blank line starts something")
		}
	}
	cov := map[string]int{}
	for n := 0; n < 3; n++ {
		c.anyLine(n, cov, by)
	}
	for k, ws := range by {
		f := k
		if i := strings.IndexByte(f, '|'); i > 0 {
			f = f[:i]
		}
		_ = ws
		c.ok("reached", shortName(f), cov[shortName(f)] > 0, "no unknown line reaches the handler")
	}
	var hn []string
	for h := range cov {
		hn = append(hn, h)
	}
	sort.Strings(hn)
	c.notes = append(c.notes, fmt.Sprintf("%d documented commands, %d activities analysed over an unknown line.", len(names), len(hn)))
	c.transfers(names)
	c.addresses()
	c.keys()
	c.printing()
	c.activities()
}

// transfers: the commands named like a kind of transfer register that kind,
// of the named file, with the named peer.
func (c *Ctx) transfers(names []string) {
	g := c.tableOf("sarwin.Transfers")
	t := c.libType("net", "UDPAddr")
	kinds := map[string]bool{"get": true, "getdir": true, "take": true, "put": true, "putblind": true, "give": true, "delete": true}
	if g == nil || t == nil {
		return
	}
	for _, w := range names {
		if !kinds[w] {
			continue
		}
		line := w + " 10.0.0.1 some.file"
		st, _ := c.settingsState(0)
		n := 0
		for _, p := range c.command("the line "+line, st, strC(line)) {
			c.ok("runs", w, p.o.exit == "" || p.o.exit == "block", "the command ends with %s", p.o.exit)
			es, ok := c.getTable(p.o.st, g)
			if !ok { // what the paths leave is decided by C27
				continue
			}
			for _, e := range es {
				n++
				kind, isT := fieldOf(e.v, e.t, "Ttype").(*StrV)
				file, isF := fieldOf(e.v, e.t, "Filename").(*StrV)
				if !isT || !isF {
					continue
				}
				c.ok("transfer", w, p.o.st.seqEqual(kind.S, strC(w).S) == 1, "the command %s starts another kind of transfer", w)
				c.ok("transfer", w, p.o.st.seqEqual(file.S, strC("some.file").S) == 1, "the command %s starts a transfer of another file than the one named", w)
				s := p.o.st.clone()
				want, o1 := c.addrText(s, c.alloc(s, t, c.e.sym(t, "addr:10.0.0.1"), "asked"))
				got, o2 := c.addrText(s, fieldOf(e.v, e.t, "Peer"))
				c.ok("transfer", w, o1 && o2 && s.seqEqual(got, want) == 1, "the command %s starts a transfer with another peer than the one named", w)
			}
		}
		c.ok("transfer", w+"/path", n > 0, "the command %s never registers a transfer", w)
	}
}

// synonyms: two words documented alike.
func (c *Ctx) synonyms(x, y string) bool {
	a, b := c.tables.Commands[x], c.tables.Commands[y]
	return a.Help == b.Help && strings.TrimPrefix(a.Usage, x) == strings.TrimPrefix(b.Usage, y)
}

// names: a text taken as it is from the line is known to be one of the words.
func (c *Ctx) names(st *State, ws []string) bool {
	for src, v := range st.sknown {
		as := true
		for s := src; s != nil; s = s.par {
			if strings.Contains(s.from, "ToLower") || strings.Contains(s.from, "ToUpper") || strings.Contains(s.from, "Title") {
				as = false
			}
		}
		for _, w := range ws {
			if as && v == w {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) handlerKey(v *Event) string {
	f := v.Fn.Fn
	if f.Signature.Params().Len() == 0 { // a closure: what it is bound to
		return f.String()
	}
	return f.String() + valsKey(v.Fn.Bind)
}

func (c *Ctx) anyLine(n int, cov map[string]int, by map[string][]string) {
	st, _ := c.settingsState(n)
	line := c.e.sym(types.Typ[types.String], "line")
	for _, p := range c.command(fmt.Sprintf("an unknown line, %d transfers and peers", n), st, line) {
		if p.cmd == nil {
			c.ok("unknown", "the dispatcher", len(p.shown) > 0 || c.blankLine(p.o.st, line), "a line that is no command is not reported")
			continue
		}
		h := shortName(p.cmd.Fn.Fn.String())
		cov[h]++
		if ws := by[c.handlerKey(p.cmd)]; len(ws) > 0 {
			c.ok("named", h, c.names(p.run.st, ws), "a line can start the command although its first word is not %s", strings.Join(ws, " or "))
		}
		c.quietPath(h, st, p)
	}
}

func valsKey(vs []Val) string {
	k := ""
	for _, v := range vs {
		k += "|" + valKey(v)
	}
	return k
}

// blankLine: nothing but white space, or nothing.
func (c *Ctx) blankLine(st *State, line Val) bool {
	s, ok := line.(*StrV)
	if !ok {
		return false
	}
	if st.seqEqual(s.S, nil) == 1 {
		return true
	}
	// no words: the list of words is empty
	for _, f := range st.facts {
		_ = f
	}
	return c.noWords(st, line)
}

func (c *Ctx) noWords(st *State, line Val) bool {
	for _, arg := range []Val{line, c.trimmedText(st, line)} {
		if arg == nil {
			continue
		}
		n := c.e.symSlice(types.Typ[types.String], "fields("+argsKey(st, []Val{arg})+")")
		if st.proveEQ(n.Len, linC(0)) {
			return true
		}
		if t, ok := arg.(*StrV); ok && st.seqEqual(t.S, nil) == 1 {
			return true
		}
	}
	return false
}

func (c *Ctx) trimmedText(st *State, line Val) Val {
	v := c.pureOf(st, "strings.TrimSpace", types.Typ[types.String], line)
	return v
}

// quietPath: the path neither ends the node nor does nothing unseen.
func (c *Ctx) quietPath(what string, st *State, p *cmdPath) {
	if p.cmd == nil {
		return
	}
	if p.o.exit == "block" {
		return
	}
	if !c.ok("runs", what, p.o.exit == "", "the command %s ends with %s", what, p.o.exit) {
		return
	}
	act := len(p.shown) > 0 || p.o.st.truth["answered"]
	for _, v := range p.o.st.events() {
		if v.Kind == "go" || v.Kind == "window" || v.Kind == "call" && strings.HasPrefix(v.Name, "os.") {
			act = true
		}
	}
	if !act {
		act = c.changed(p.pre, p.o.st)
	}
	if !act && os.Getenv("SARA_DEBUG") != "" {
		fmt.Println("SILENT", what)
		for _, v := range p.o.st.events() {
			fmt.Println("   ", v.Kind, v.Name)
		}
	}
	pos := ""
	if p.cmd != nil && p.cmd.Fn != nil {
		pos = fnPos(c.e, p.cmd.Fn.Fn)
	}
	c.oblig++
	c.rules["answered"]++
	if !act {
		c.fail("answered", what, pos, "there is a line the command neither acts on nor reports")
	}
}

// shows: the text is part of what is printed.
func (c *Ctx) shows(st *State, v *Event, text string) bool {
	for _, a := range v.Args {
		for _, s := range c.printed(st, a) {
			if strings.Contains(s, text) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) printed(st *State, a Val) []string {
	a = c.e.expand(a)
	switch x := a.(type) {
	case *StrV:
		if s, ok := constStrOf(st, x); ok {
			return []string{s}
		}
	case *IfaceV:
		if x.V != nil {
			return c.printed(st, x.V)
		}
	case *SliceV:
		es, _ := c.sliceEntries(st, x, types.NewInterfaceType(nil, nil))
		var r []string
		for _, en := range es {
			r = append(r, c.printed(st, en.v)...)
		}
		return r
	}
	return nil
}

// keys: the functions bound to keys, with unknown views.
func (c *Ctx) keys() {
	kb := c.e.fn("sarwin.Keybindings")
	if kb == nil {
		c.fail("anchor", "sarwin.Keybindings", "", "not found")
		return
	}
	var fs []*FuncV
	seen := map[*ssa.Function]bool{}
	st, _ := c.settingsState(1)
	c.withHook(func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if name == "(*github.com/jroimartin/gocui.Gui).SetKeybinding" && len(args) == 5 {
			if f, ok := args[4].(*FuncV); ok && f.Fn != nil && !seen[f.Fn] {
				seen[f.Fn] = true
				fs = append(fs, f)
			}
		}
		return nil, false
	}, func() { c.run("key bindings", st, "sarwin.Keybindings", c.gui()) })
	c.ok("keys", "bindings", len(fs) >= 6, "only %d functions are bound to keys", len(fs))
	view := c.libType("github.com/jroimartin/gocui", "View")
	run := c.e.fn("sarwin.Run")
	for _, f := range fs {
		if len(f.Fn.Params) != 2 {
			continue
		}
		st, _ := c.settingsState(1)
		v := c.alloc(st, view, c.e.sym(view, "view"), "view")
		name := shortName(f.Fn.String())
		var line *StrV
		ran := 0
		hook := func(s *State, fn *ssa.Function, n string, args []Val) ([]*Outcome, bool) {
			if n == "(*github.com/jroimartin/gocui.View).Line" {
				line = strSrc(mkSrc("typed", nil))
				return append(ret(s.clone(), line, nilIface), ret(s, strC(""), newErr("Line"))...), true
			}
			if n == "(*github.com/jroimartin/gocui.View).Name" {
				return c.e.pureCall(s, n, fn2sig(fn, c), args), true
			}
			if fn != nil && fn == run {
				ran++
				s.addEvent(&Event{Kind: "run", Name: n, Args: args})
				return ret(s, boolC(true)), true
			}
			return nil, false
		}
		c.exits = true
		c.withHook(c.hooks(hook, c.localHook(), c.guiHook(), c.addrHook()), func() {
			for _, o := range c.runFn("key "+name, st, f.Fn, f.Bind, c.gui(), v) {
				if o.exit != "" && o.exit != "block" {
					// leaving is what the operator asked for
					c.ok("leave", name, line != nil && c.saysLeave(o.st), "a key ends the node although the operator did not ask to leave")
				}
			}
		})
		c.exits = false
	}
}

func fn2sig(fn *ssa.Function, c *Ctx) *types.Signature {
	if fn != nil {
		return fn.Signature
	}
	return types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false)
}

// saysLeave: some text of the path is known to be a command that leaves.
func (c *Ctx) saysLeave(st *State) bool {
	for _, v := range st.sknown {
		if v == "exit" || v == "quit" {
			return true
		}
	}
	return false
}

// printing: showing any text in any colour in the windows used.
func (c *Ctx) printing() {
	for _, n := range showing {
		f := c.e.fn("sarwin." + n)
		if !c.ok("printing", n, f != nil, "the function %s was not found", n) {
			continue
		}
		st, _ := c.settingsState(1)
		var args []Val
		for i, p := range f.Params {
			if i == 0 {
				args = append(args, c.gui())
				continue
			}
			args = append(args, c.e.sym(p.Type(), fmt.Sprintf("arg%d", i)))
		}
		c.withHook(c.guiHook(), func() {
			for _, o := range c.run("printing with "+n, st, "sarwin."+n, args...) {
				c.ok("printing", n+"/end", o.exit == "", "printing ends the node")
				for _, v := range o.st.events() {
					if v.Kind != "update" {
						continue
					}
					for _, a := range v.Args {
						if fv, ok := a.(*FuncV); ok && fv.Fn != nil {
							for _, x := range c.runFn("update by "+n, o.st, fv.Fn, fv.Bind, c.gui()) {
								c.ok("printing", n+"/update", x.exit == "", "updating the window ends the node: %s", x.exit)
							}
						}
					}
				}
			}
		})
	}
}

// activities: what handlers start.
func (c *Ctx) activities() {
	for _, n := range []string{"sarwin.sendbeacons", "sarwin.Transfer.Do"} {
		f := c.e.fn(n)
		if f == nil {
			continue
		}
		st, _ := c.settingsState(1)
		var args []Val
		for i, p := range f.Params {
			switch {
			case strings.HasSuffix(p.Type().String(), "gocui.Gui"):
				args = append(args, c.gui())
			case strings.HasSuffix(p.Type().String(), "net.UDPAddr"):
				args = append(args, c.peerPtr(st, "peer"))
			case strings.HasSuffix(p.Type().String(), ".Transfer"):
				args = append(args, c.symAlloc(st, "sarwin.Transfer", "tran"))
			default:
				args = append(args, c.e.sym(p.Type(), fmt.Sprintf("arg%d", i)))
			}
		}
		c.withHook(c.hooks(c.localHook(), c.guiHook()), func() {
			for _, o := range c.run("activity "+n, st, n, args...) {
				c.ok("runs", n, o.exit == "" || o.exit == "block", "the activity %s ends with %s", n, o.exit)
			}
		})
	}
}
