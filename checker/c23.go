package main

// C23: the peer table.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = &checkDef{run: checkC23, min: 100,
		rule: "Abstract interpretation of processing an unknown beacon over peer tables of zero to two (thorough: three) entries of unknown contents and distinct addresses, both directly and from main's dispatch of a received beacon: on every path there is afterwards exactly one entry for the sender's address, holding the beacon's values; a new entry or a difference in one of the values goes with the result true and a new last-updated time, their absence with the result false and an untouched table; every other entry and every creation time is what it was. A search of the program shows that nothing else changes the table."}
}

type peerTab struct {
	c *Ctx
	g *ssa.Global
}

// the values of a beacon a peer entry holds, and the flag they come from
var peerVals = []struct{ field, from, flag string }{
	{"Freespace", "Freespace", ""}, {"Eid", "Eid", ""},
	{"Maxdesc", "", "descriptor"}, {"Canrx", "", "rxwilling"}, {"Cantx", "", "txwilling"},
}

// optText: the option of a flag in a header, as one unknown text per header and flag.
func (c *Ctx) optText(st *State, hdr Val, flag Val) Val {
	return c.pureOf(st, "option", types.Typ[types.String], hdr, flag)
}

// peerHook: option names by their contract (decided by C05), and the time now.
func (c *Ctx) peerHook() hookFn {
	opt := map[*ssa.Function]bool{}
	for _, n := range []string{"sarflags.GetStr", "sarflags.Name"} {
		if f := c.e.fn(n); f != nil {
			opt[f] = true
		}
	}
	now, nw := c.e.fn("timestamp.Timestamp.Now"), c.e.fn("timestamp.Timestamp.New")
	stamp := func(s *State, args []Val, kind string) []*Outcome {
		t := c.e.typ("timestamp.Timestamp")
		p, ok := args[0].(*PtrV)
		if !ok || t == nil {
			return nil
		}
		v := c.e.sym(t, freshKey("now"))
		c.e.store(s, p, v, t)
		s.addEvent(&Event{Kind: kind, Args: append([]Val{v}, args[1:]...)})
		return ret(s, nilIface)
	}
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		switch {
		case name == "time.Now":
			outs := c.e.pureCall(s, name, types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", c.libType("time", "Time"))), false), []Val{strC(freshKey("clock"))})
			for _, o := range outs {
				o.st.addEvent(&Event{Kind: "clock", Res: o.ret})
			}
			return outs, true
		case fn == nil:
			return nil, false
		case opt[fn] && len(args) == 2:
			return ret(s, c.optText(s, args[0], args[1])), true
		case fn == now:
			r := stamp(s, args, "stamp")
			return r, r != nil
		case fn == nw && len(args) == 3:
			// only a stamp of the clock counts as now
			kind := "stamp-other"
			for _, v := range s.events() {
				if v.Kind == "clock" && valKey(v.Res[0]) == valKey(args[2]) {
					kind = "stamp"
				}
			}
			r := stamp(s, args, kind)
			return r, r != nil
		}
		return nil, false
	}
}

func (t *peerTab) addr(st *State, e entryT) (Seq, bool) {
	s, ok := fieldOf(e.v, e.t, "Addr").(*StrV)
	if !ok {
		return nil, false
	}
	return s.S, true
}

// start: k peers of distinct addresses.
func (t *peerTab) fill(st *State, k int) ([]entryT, bool) {
	c := t.c
	if !c.setTable(st, "beacon.Peers", t.g, k, k%2) {
		return nil, false
	}
	es, ok := c.getTable(st, t.g)
	if !c.ok("undecided", "beacon.Peers", ok, "the table cannot be read") {
		return nil, false
	}
	for i := range es {
		for j := 0; j < i; j++ {
			a, o1 := t.addr(st, es[i])
			b, o2 := t.addr(st, es[j])
			if !c.ok("anchor", "beacon.Peer.Addr", o1 && o2, "the address of a peer was not found") {
				return nil, false
			}
			st.assumeSeqEq(a, b, false)
		}
	}
	return es, true
}

// senderText: the text of the address a beacon came from.
func (c *Ctx) senderText(st *State, addr Val) (Seq, bool) {
	ut := c.libType("net", "UDPAddr")
	if ut == nil {
		return nil, false
	}
	ip := fieldOf(c.e.expand(addr), ut, "IP")
	if ip == nil {
		return nil, false
	}
	s, ok := c.pureOf(st, "(net.IP).String", types.Typ[types.String], ip).(*StrV)
	if !ok {
		return nil, false
	}
	return s.S, true
}

// want: the values an entry must hold after the beacon.
func (c *Ctx) beaconVals(st *State, b Val) ([]Val, bool) {
	bt := c.e.typ("beacon.Beacon")
	h := fieldOf(b, bt, "Header")
	if h == nil {
		return nil, false
	}
	var r []Val
	for _, v := range peerVals {
		x := c.optText(st, h, strC(v.flag))
		if v.flag == "" {
			x = fieldOf(b, bt, v.from)
		}
		if x == nil {
			return nil, false
		}
		r = append(r, x)
	}
	return r, true
}

// sameVal: 1 equal, -1 different, 0 not known.
func (c *Ctx) sameVal(st *State, a, b Val) int {
	switch x := a.(type) {
	case *StrV:
		if y, ok := b.(*StrV); ok {
			return st.seqEqual(x.S, y.S)
		}
	case *IntV:
		if y, ok := b.(*IntV); ok {
			if st.proveEQ(x.L, y.L) {
				return 1
			}
			if st.proveNE(x.L, y.L) {
				return -1
			}
		}
	}
	return 0
}

// after decides the table on one path; told is the result, nil when there is none.
func (t *peerTab) after(o *Outcome, con string, before []entryT, sender Seq, vals []Val, told Val, cover map[string]bool) {
	c, st := t.c, o.st
	pt := c.e.typ("beacon.Peer")
	after, ok := c.getTable(st, t.g)
	if !c.ok("table", con, ok, "the table is not known afterwards") {
		return
	}
	// the entry of that address before
	was := -1
	for i := range before {
		a, ok := t.addr(st, before[i])
		if !c.ok("undecided", con, ok, "the address of a peer is not known") {
			return
		}
		switch st.seqEqual(a, sender) {
		case 1:
			was = i
		case 0:
			// both have to be excluded or decided on this path
			s := st.clone()
			s.assumeSeqEq(a, sender, true)
			if !s.contradictory() && was < 0 {
				// not searched: a later entry must be it
				excluded := false
				for j := range before {
					b, _ := t.addr(st, before[j])
					excluded = excluded || j != i && st.seqEqual(b, sender) == 1
				}
				c.ok("table", con, excluded, "the beacon is processed although an entry for its address may be there, unexamined")
			}
		}
	}
	at := -1
	used := map[int]bool{}
	n := 0
	for j := range after {
		a, ok := t.addr(st, after[j])
		if !ok {
			c.ok("undecided", con, false, "the address of a peer is not known")
			return
		}
		if st.seqEqual(a, sender) == 1 {
			n++
			at = j
		}
	}
	if !c.ok("one-entry", con, n == 1, "there are %d entries for the address of the beacon", n) {
		return
	}
	for k, v := range peerVals {
		got := fieldOf(after[at].v, after[at].t, v.field)
		c.ok("mirrors", con+" "+v.field, got != nil && c.sameVal(st, got, vals[k]) == 1, "the entry's %s is not that of the beacon", v.field)
	}
	// the others
	for i := range before {
		if i == was {
			continue
		}
		found := false
		for j := range after {
			if j != at && !used[j] && c.deepSame(st, before[i].v, after[j].v, pt, "") == "" {
				used[j], found = true, true
				break
			}
		}
		c.ok("others", con, found, "the entry of another address is changed or lost")
	}
	c.ok("others", con, len(used)+1 == len(after), "there are entries nobody sent a beacon for")
	cr, up := fieldOf(after[at].v, pt, "Created"), fieldOf(after[at].v, pt, "Updated")
	tt := c.e.typ("timestamp.Timestamp")
	if !c.ok("anchor", "beacon.Peer", cr != nil && up != nil && tt != nil, "creation and last-updated times not found") {
		return
	}
	isNow := func(v Val) bool {
		for _, e := range st.events() {
			if e.Kind == "stamp" && c.deepSame(st, v, e.Args[0], tt, "") == "" {
				return true
			}
		}
		return false
	}
	report := func(want bool, why string) {
		if told == nil {
			return
		}
		b, ok := told.(*BoolV)
		c.ok("told", con, ok && st.evalBool(b) == map[bool]int{true: 1, false: -1}[want], "%s", why)
	}
	if was < 0 {
		cover["new"] = true
		c.ok("created", con, isNow(cr) && isNow(up), "a new entry is not stamped with the time it is made")
		report(true, "the caller is not told of a new peer")
		return
	}
	old := before[was].v
	c.ok("created", con, c.deepSame(st, fieldOf(old, pt, "Created"), cr, tt, "") == "", "the creation time changes")
	same, differs := true, false
	for k, v := range peerVals {
		switch c.sameVal(st, fieldOf(old, pt, v.field), vals[k]) {
		case 1:
		case -1:
			same, differs = false, true
		default:
			same = false
		}
	}
	if !same && !differs {
		// whether anything differs follows only from all of the values together
		s := st.clone()
		for k, v := range peerVals {
			switch x := fieldOf(old, pt, v.field).(type) {
			case *StrV:
				s.assumeSeqEq(x.S, vals[k].(*StrV).S, true)
			case *IntV:
				s.assumeEQ(linSub(x.L, vals[k].(*IntV).L))
			}
		}
		differs = s.contradictory()
	}
	moved := isNow(up)
	kept := c.deepSame(st, fieldOf(old, pt, "Updated"), up, tt, "") == ""
	switch {
	case same:
		cover["same"] = true
		c.ok("updated", con, kept, "the last-updated time moves although nothing differs")
		report(false, "the caller is told of a change although nothing differs")
	case differs:
		cover["changed"] = true
		c.ok("updated", con, moved, "the last-updated time does not move although a value differs")
		report(true, "the caller is not told although a value differs")
	default:
		c.ok("undecided", con, false, "the path does not establish whether the beacon differs from the entry")
	}
}

func checkC23(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 2000, 8000
	g := c.tableOf("beacon.Peers")
	np := c.e.fn("beacon.NewPeer")
	if g == nil || np == nil || c.e.typ("beacon.Peer") == nil || len(np.Params) != 2 {
		c.fail("anchor", "beacon.NewPeer, beacon.Peers", "", "the peer table or its update was not found")
		return
	}
	t := &peerTab{c, g}
	n := 2
	if c.tier == "thorough" {
		n = 3
		c.e.maxIn, c.e.maxOut = 8000, 40000
	}
	c.withHook(c.peerHook(), func() {
		for k := 0; k <= n; k++ {
			st := c.st0.clone()
			before, ok := t.fill(st, k)
			if !ok {
				return
			}
			b := c.symAlloc(st, "beacon.Beacon", "beacon")
			from := c.e.sym(np.Params[1].Type(), "from")
			if p, ok := from.(*PtrV); ok {
				p.MayNil = ""
			}
			con := fmt.Sprintf("beacon.NewPeer, %d peers", k)
			cover := map[string]bool{}
			bv0 := c.e.expand(st.obj(b.Obj).V)
			for _, o := range c.run(con, st, "beacon.NewPeer", b, from) {
				if o.exit != "" {
					continue
				}
				addr := c.e.load(o.st, from.(*PtrV), c.libType("net", "UDPAddr"))
				s, ok := c.senderText(o.st, addr)
				vals, ok2 := c.beaconVals(o.st, bv0)
				if !c.ok("anchor", con, ok && ok2 && len(o.ret) == 1, "the sender, the beacon's values or the result were not found") {
					continue
				}
				t.after(o, con, before, s, vals, o.ret[0], cover)
				c.ok("beacon", con, c.deepSame(o.st, bv0, o.st.obj(b.Obj).V, c.e.typ("beacon.Beacon"), "") == "", "the beacon itself is changed")
			}
			c.ok("reached", con, cover["new"] && (k == 0 || cover["same"] && cover["changed"]), "not all of a new, a changed and an unchanged peer occur: %v", cover)
		}
	})
	t.dispatched()
	t.list()
	// nobody else
	cover := map[*ssa.Function]bool{np: true}
	for _, f := range c.writersOf(g) {
		o := outermost(f)
		ok := cover[o] || c.onlyReads(f, g) || len(c.callersOf(o)) > 0
		for _, x := range c.callersOf(o) {
			ok = ok && (cover[x] || cover[o] || c.onlyReads(f, g))
		}
		c.ok("writers", "beacon.Peers in "+shortFn(o), ok, "the peer table is changed outside the processing of beacons")
	}
}

// onlyReads: every use of the variable's address in f is a load, and what is
// loaded is only read.
func (c *Ctx) onlyReads(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				continue
			case *ssa.Store:
				if rootGlobal(x.Addr) == g {
					return false
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) {
					return false
				}
			}
		}
	}
	return true
}

// dispatched: a received beacon is processed into the table by main.
func (t *peerTab) dispatched() {
	c := t.c
	n := c.node()
	if n.main == nil {
		return
	}
	var alts, stat []recvAlt
	for _, a := range c.packetAlts(map[string]bool{}) {
		switch a.label {
		case "beacon":
			alts = append(alts, a)
		case "status":
			stat = append(stat, a)
		}
	}
	if !c.ok("anchor", "beacon.Packet", len(alts) > 0 && len(stat) > 0, "packets of beacons and statuses were not found") {
		return
	}
	// the queues whose statuses are sent are those of outgoing frames
	out := map[string]bool{}
	enc := c.e.fn("status.Status.Encode")
	n.dispatch("status", stat[:1], false, nil, func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if fn == nil || fn != enc || !received(s) {
			return nil, false
		}
		return ret(s, symBytes(c.e, "encoded"), nilIface), true
	})
	for _, d := range n.disp {
		if d.alt == "status" && len(netWrites(d.after)) > 0 {
			out[d.queueKey()] = true
		}
	}
	// packets may travel by value or by reference
	for _, a := range c.packetAlts(map[string]bool{"beacon": true}) {
		if a.label == "beacon" {
			alts = append(alts, a)
		}
	}
	pick := alts[:1]
	for i := range alts {
		n.disp = nil
		n.dispatch("beacon, by value or reference", alts[i:i+1], false, func(st *State) { t.fill(st, 0) }, c.peerHook())
		hit := false
		for _, d := range n.disp {
			es, ok := c.getTable(d.o.st, t.g)
			hit = hit || d.alt != "" && ok && len(es) > 0
		}
		if hit {
			pick = alts[i : i+1]
			break
		}
	}
	for k := 0; k <= 1; k++ {
		var before []entryT
		ok := true
		n.disp = nil
		n.dispatch(fmt.Sprintf("beacon, %d peers", k), pick, false, func(st *State) {
			before, ok = t.fill(st, k)
		}, c.peerHook())
		if !ok {
			return
		}
		fams := map[string]bool{}
		for _, d := range n.disp {
			if d.alt == "" || out[d.queueKey()] {
				continue
			}
			q := d.queueKey()
			con := fmt.Sprintf("beacon on %s, %d peers", q, k)
			st := d.o.st
			typ, info, addr, it, _ := c.packet(st, d.ev.Res[0], nil)
			if !c.ok("undecided", con, typ == "beacon" && it != nil, "the beacon is not known") {
				continue
			}
			fams[strings.Fields(q)[0]] = true
			s, ok := c.senderText(st, addr)
			vals, ok2 := c.beaconVals(st, c.e.expand(info))
			if !c.ok("anchor", con, ok && ok2, "the sender or the beacon's values were not found") {
				continue
			}
			cover := map[string]bool{}
			t.after(d.o, con, before, s, vals, nil, cover)
		}
		c.ok("reached", fmt.Sprintf("dispatch, %d peers", k), len(fams) >= 2, "beacons are processed from %d of the two address families", len(fams))
	}
}

// list: the copy of the table handed to the operator.
func (t *peerTab) list() {
	c, name := t.c, "beacon.PeerList"
	if c.e.fn(name) == nil {
		return // the table is read where it is shown
	}
	for k := 0; k <= 2; k++ {
		st := c.st0.clone()
		before, ok := t.fill(st, k)
		if !ok {
			return
		}
		for _, o := range c.run(fmt.Sprintf("%s, %d peers", name, k), st, name) {
			if !c.ok("list", name, o.exit == "" && len(o.ret) == 1, "does not return a list") {
				continue
			}
			pt := c.e.typ("beacon.Peer")
			got, ok := c.sliceEntries(o.st, o.ret[0], pt)
			ok = ok && len(got) == k
			for i := 0; ok && i < k; i++ {
				ok = c.deepSame(o.st, before[i].v, got[i].v, pt, "") == ""
			}
			c.ok("list", name, ok, "the list is not a copy of the table")
			now, ok := c.getTable(o.st, t.g)
			ok = ok && len(now) == k
			for i := 0; ok && i < k; i++ {
				ok = c.deepSame(o.st, before[i].v, now[i].v, pt, "") == ""
			}
			c.ok("list", name, ok, "listing the peers changes the table")
		}
	}
}
