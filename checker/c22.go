package main

// C22: session numbers of local transfers. C27: the operator's transfer table.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = &checkDef{run: checkC22, min: 200,
		rule: "Abstract interpretation of starting a local transfer with the session counter at an unknown value: on every path the session number of the transfer registered is at a fixed distance from the counter's new value, the counter moves on by one fixed positive step (except from its initial value, which it only has at the start or after wrapping), and all accesses to it lie in one critical section of one lock or are a single atomic step. Every other function that writes the counter is interpreted the same way, so by induction no number repeats before the counter has wrapped."}
}

// localHook replaces file operations, connections and screen output by their
// contracts.
func (c *Ctx) localHook() hookFn {
	ex, op, fm := c.e.fn("fileio.FileExists"), c.e.fn("fileio.FileOpen"), c.e.fn("fileio.FileMeta")
	de := c.e.fn("dirent.DirEnt.New")
	quiet := map[*ssa.Function]bool{}
	for _, n := range []string{"MsgPrintf", "MsgPrintln", "CmdPrintf", "CmdPrintln", "ErrPrintf", "ErrPrintln", "PacketPrintf", "PacketPrintln"} {
		if f := c.e.fn("sarwin." + n); f != nil {
			quiet[f] = true
		}
	}
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		switch {
		case fn == nil:
			return nil, false
		case quiet[fn]:
			s.addEvent(&Event{Kind: "print", Name: fn.Name(), Args: args})
			return ret(s), true
		case fn == ex:
			no := s.clone()
			return append(ret(s, boolC(true)), ret(no, boolC(false))...), true
		case fn == op:
			bad := s.clone()
			p := &PtrV{Ext: freshKey("file")}
			s.addEvent(&Event{Kind: "call", Name: "fileio.FileOpen", Args: args, Res: []Val{p, nilIface}})
			return append(ret(s, p, nilIface), ret(bad, &PtrV{}, newErr("FileOpen"))...), true
		case fn == fm:
			bad := s.clone()
			p := c.symAlloc(s, "fileio.FileMetaData", freshKey("meta"))
			return append(ret(s, p, nilIface), ret(bad, &PtrV{}, newErr("FileMeta"))...), true
		case fn == de:
			bad := s.clone()
			c.e.havocVal(s, args[0], 0)
			return append(ret(s, nilIface), ret(bad, newErr("DirEnt.New"))...), true
		}
		return nil, false
	}
}

// ctrT: an integer in a package variable, or in a struct it holds.
type ctrT struct {
	g     *ssa.Global
	path  []int
	name  string
	basic *types.Basic
}

// intLeaves: the integers held by a variable.
func intLeaves(g *ssa.Global) []ctrT {
	var r []ctrT
	var walk func(t types.Type, path []int, name string)
	walk = func(t types.Type, path []int, name string) {
		switch x := t.Underlying().(type) {
		case *types.Basic:
			if x.Info()&types.IsInteger != 0 {
				r = append(r, ctrT{g, append([]int{}, path...), name, x})
			}
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
				return
			}
			for i := 0; i < x.NumFields(); i++ {
				walk(x.Field(i).Type(), append(path, i), name+"."+x.Field(i).Name())
			}
		}
	}
	walk(g.Type().(*types.Pointer).Elem(), nil, strings.TrimPrefix(g.String(), modPath+"/"))
	return r
}

func integerVar(g *ssa.Global) bool { return len(intLeaves(g)) > 0 }

// counters: the integers in package variables that a run changed.
func (c *Ctx) counters(before, after *State) []ctrT {
	var r []ctrT
	for g := range c.e.globals {
		if !c.e.repoPkgs[g.Pkg] {
			continue
		}
		for _, k := range intLeaves(g) {
			x, y := c.counterVal(before, k, nil), c.counterVal(after, k, nil)
			if x == nil || y == nil || !after.proveEQ(x, y) {
				r = append(r, k)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// counterVal reads or sets such an integer.
func (c *Ctx) counterVal(st *State, k ctrT, set *Lin) *Lin {
	id := c.e.global(k.g)
	o := *st.obj(id)
	var got *Lin
	var walk func(v Val, path []int) Val
	walk = func(v Val, path []int) Val {
		v = c.e.expand(v)
		if len(path) == 0 {
			if iv, ok := v.(*IntV); ok {
				got = iv.L
			}
			return &IntV{set}
		}
		sv, ok := v.(*StructV)
		if !ok || path[0] >= len(sv.F) {
			return v
		}
		n := &StructV{F: append([]Val{}, sv.F...)}
		n.F[path[0]] = walk(sv.F[path[0]], path[1:])
		return n
	}
	v := walk(o.V, k.path)
	if set != nil {
		o.V = v
		st.setObj(&o)
		return set
	}
	return got
}

// peerPtr: an address of unknown contents.
func (c *Ctx) peerPtr(st *State, key string) *PtrV {
	t := c.libType("net", "UDPAddr")
	if t == nil {
		return nil
	}
	return c.alloc(st, t, c.e.sym(t, key), key)
}

// startLocal runs NewInitiator with n transfers registered.
func (c *Ctx) startLocal(scn string, st *State, ttype Val) ([]*Outcome, Val, Val) {
	name := "sarwin.NewInitiator"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 5 {
		c.fail("anchor", name, "", "not found")
		return nil, nil, nil
	}
	peer := c.peerPtr(st, "peer")
	fname := c.e.sym(types.Typ[types.String], "fname")
	flags := c.e.load(st, &PtrV{Obj: c.e.global(c.e.globalVar("sarflags.Cliflag"))}, fn.Params[4].Type())
	g := c.e.sym(fn.Params[0].Type(), "gui").(*PtrV)
	gq := *g
	gq.MayNil = ""
	var outs []*Outcome
	c.withHook(c.localHook(), func() { outs = c.run(scn, st, name, &gq, ttype, peer, fname, flags) })
	return outs, peer, fname
}

func checkC22(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 4000
	tab := c.tableOf("sarwin.Transfers")
	if tab == nil {
		return
	}
	name := "sarwin.NewInitiator"
	// which variable counts
	st := c.st0.clone()
	c.setTable(st, "sarwin.Transfers", tab, 0, 0)
	ttype := c.e.sym(types.Typ[types.String], "ttype")
	outs, _, _ := c.startLocal(name, st, ttype)
	var ctr ctrT
	for _, o := range outs {
		if o.exit != "" || len(o.ret) != 2 || !sureNil(o.st, o.ret[1]) {
			continue
		}
		for _, g := range c.counters(st, o.st) {
			if ctr.g == nil || ctr.name == g.name {
				ctr = g
			} else {
				c.fail("undecided", name, "", "several variables count: "+ctr.name+", "+g.name)
				return
			}
		}
	}
	if !c.ok("counter", name, ctr.g != nil, "no counter moves on when a transfer is started") {
		return
	}
	basic := ctr.basic
	first := c.st0.clone()
	if v, ok := c.e.initial[ctr.g]; ok {
		o := *first.obj(c.e.global(ctr.g))
		o.V = v
		first.setObj(&o)
	}
	v0 := c.counterVal(first, ctr, nil)
	if basic == nil || v0 == nil || !v0.isConst() {
		c.fail("undecided", name, "", "the counter is not an integer")
		return
	}
	bits, _ := intBits(basic)
	c.notes = append(c.notes, fmt.Sprintf("The counter is %s (%d bits), initially %s.", ctr.name, bits, v0.c))
	lo, hi := intRange(basic)
	cl := linA(mkAtom("counter", lo, hi))
	var step, dist *big.Int
	// moved: the counter moved on by the step, or wrapped, or left the start
	moved := func(con string, s *State, must bool) bool {
		now := c.counterVal(s, ctr, nil)
		if now == nil {
			return c.ok("undecided", con, false, "the counter's value is not known")
		}
		d := s.norm(linSub(now, cl))
		if s.proveEQ(cl, v0) {
			return true // the start
		}
		if d.isConst() {
			if d.c.Sign() < 0 {
				d = linAdd(d, linB(pow2(uint(bits)))) // wrapped
			}
			if d.c.Sign() == 0 {
				return c.ok("step", con, !must, "a session number is used again: the counter does not move")
			}
			if step == nil && d.c.Cmp(pow2(uint(bits-1))) < 0 {
				step = d.c
			}
			return c.ok("step", con, step != nil && d.c.Cmp(step) == 0, "the counter moves by %s", d.c)
		}
		return c.ok("step", con, false, "the counter is set to something else than its next value")
	}
	atomically := func(o *Outcome) (string, bool) {
		acc := []int{}
		ev := o.st.events()
		for i, v := range ev {
			if v.Kind == "rd" || v.Kind == "wr" || v.Kind == "atomic" {
				acc = append(acc, i)
			}
		}
		if len(acc) == 0 {
			return "", true
		}
		// all atomic: only the last may move it
		ok := true
		for n, i := range acc {
			if ev[i].Kind != "atomic" {
				ok = false
				break
			}
			op, _ := constStrOf(o.st, ev[i].Args[0])
			if n == len(acc)-1 {
				ok = op == "Add" || op == "Load" && len(acc) == 1
			} else {
				ok = op == "CompareAndSwap"
			}
			if !ok {
				break
			}
		}
		if ok {
			return "atomic", true
		}
		held := map[string]bool{}
		for i, v := range ev {
			if i > acc[0] {
				break
			}
			if v.Kind == "lock" {
				held[v.Name] = true
			} else if v.Kind == "unlock" {
				delete(held, v.Name)
			}
		}
		for i := acc[0]; i <= acc[len(acc)-1]; i++ {
			if ev[i].Kind == "unlock" {
				delete(held, ev[i].Name)
			}
		}
		var ls []string
		for l := range held {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		return strings.Join(ls, " "), len(ls) > 0
	}
	common := map[string]int{}
	sections := 0
	section := func(con string, o *Outcome) bool {
		ls, ok := atomically(o)
		if !c.ok("critical-section", con, ok, "the counter is used outside a critical section, or in more than one") {
			return false
		}
		if ls != "" {
			sections++
			for _, l := range strings.Fields(ls) {
				common[l]++
			}
		}
		return true
	}
	sizes := []int{0, 1}
	if c.tier == "thorough" {
		sizes = []int{0, 1, 2}
	}
	c.e.watch = map[int]string{c.e.global(ctr.g): "counter"}
	for _, n := range sizes {
		scn := fmt.Sprintf("%s, %d transfers", name, n)
		st := c.st0.clone()
		c.setTable(st, "sarwin.Transfers", tab, n, 1)
		c.counterVal(st, ctr, cl)
		outs, _, _ := c.startLocal(scn, st, ttype)
		good := 0
		for _, o := range outs {
			if o.exit != "" || len(o.ret) != 2 {
				continue
			}
			section(name, o)
			if !sureNil(o.st, o.ret[1]) {
				moved(name, o.st, false)
				continue
			}
			good++
			if !moved(name, o.st, true) {
				continue
			}
			c.e.watch = nil
			es, ok := c.getTable(o.st, tab)
			c.e.watch = map[int]string{c.e.global(ctr.g): "counter"}
			if !c.ok("registered", name, ok && len(es) > 0, "no transfer is registered") {
				continue
			}
			s := c.intOf(es[len(es)-1].v, es[len(es)-1].t, "Session")
			now := c.counterVal(o.st, ctr, nil)
			if !c.ok("session", name, s != nil && now != nil, "the session number is not known") {
				continue
			}
			d := o.st.norm(linSub(s, now))
			if !c.ok("session", name, d.isConst(), "the session number is not taken from the counter") {
				continue
			}
			m := new(big.Int).Mod(d.c, pow2(uint(bits)))
			if dist == nil {
				dist = m
			}
			c.ok("session", name, dist.Cmp(m) == 0, "the session number is not always taken from the counter in the same way")
			// what is returned is what is registered
			if p, ok := o.ret[0].(*PtrV); ok && p.Obj != 0 {
				rs := c.intOf(c.e.load(o.st, p, es[len(es)-1].t), es[len(es)-1].t, "Session")
				c.ok("session", name, rs != nil && o.st.proveEQ(rs, s), "the transfer returned has another session number than the one registered")
			}
		}
		c.ok("reached", scn, good > 0, "no transfer is ever started")
	}
	c.ok("width", name, bits >= 32, "the counter has only %d bits", bits)
	// everybody else who changes the counter
	ran := map[*ssa.Function]bool{}
	var look func(f *ssa.Function, depth int)
	look = func(f *ssa.Function, depth int) {
		if ran[f] || c.e.fn(name) == f {
			return
		}
		ran[f] = true
		con := shortFn(f)
		n0, ks := len(c.finds), map[string]bool{}
		for k := range c.seen {
			ks[k] = true
		}
		st := c.st0.clone()
		c.counterVal(st, ctr, cl)
		old := c.st0
		c.st0 = st
		var outs []*Outcome
		c.withHook(c.localHook(), func() { outs = c.quietRun(f) })
		c.st0 = old
		bad := false
		for _, o := range outs {
			if o.exit != "" {
				continue
			}
			bad = !section(con, o) || bad
			bad = !moved(con, o.st, false) || bad
		}
		if bad && depth < 4 {
			if cs := c.callersOf(f); len(cs) > 0 {
				// what it may be used for is decided by its callers
				c.finds = c.finds[:n0]
				for k := range c.seen {
					if !ks[k] {
						delete(c.seen, k)
					}
				}
				for _, g := range cs {
					look(g, depth+1)
				}
			}
		}
	}
	for _, f := range c.writersOf(ctr.g) {
		look(outermost(f), 0)
	}
	c.e.watch = nil
	all := len(common) == 0 && sections == 0
	for _, k := range common {
		all = all || k == sections
	}
	c.ok("one-lock", ctr.name, all, "the accesses to the counter are not all guarded by one lock")
}

// writersOf: functions outside start-up that do more with a variable than
// read it.
func (c *Ctx) writersOf(g *ssa.Global) []*ssa.Function {
	var r []*ssa.Function
	for _, p := range c.repoPackages() {
		for _, f := range funcsOf(c.e.prog, p) {
			if o := outermost(f); o.Name() == "init" && o.Parent() == nil && o.Signature.Recv() == nil {
				continue
			}
			found := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							found = true
						}
					}
				}
			}
			if found {
				r = append(r, f)
			}
		}
	}
	return r
}
