package main

// C17: every request is answered by exactly one status for its session.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C17"] = &checkDef{run: checkC17, min: 300,
		rule: "Abstract interpretation of main from its start until a received request packet with unknown contents has been handled, started activities included, with no, one and two transfers of unknown contents already registered and the file operations replaced by their contract (the file is there or not, it could be removed or not), which is decided separately. On every path exactly one status is put on the outgoing queue of the family, carrying the request's session and the requester's address; its error code is proved to be one the flags of the request, the existence of the file it names and the result of removing it call for, success is proved to be called for, and then the file was removed or exactly one transfer with the identity of the request is registered."}
}

func checkC17(c *Ctx) {
	n := c.node()
	if n.main == nil {
		return
	}
	c.fileContract()
	g := c.tableOf("trans.Transfers")
	ex, rm := c.e.fn("fileio.FileExists"), c.e.fn("fileio.FileRm")
	if g == nil || ex == nil || rm == nil {
		c.fail("anchor", "fileio.FileExists, fileio.FileRm", "", "not found")
		return
	}
	extra := func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		switch {
		case fn == nil:
			return nil, false
		case fn == ex:
			no := s.clone()
			s.addEvent(&Event{Kind: "exists", Args: args})
			no.addEvent(&Event{Kind: "absent", Args: args})
			return append(ret(s, boolC(true)), ret(no, boolC(false))...), true
		case fn == rm:
			bad := s.clone()
			s.addEvent(&Event{Kind: "removed", Args: args})
			bad.addEvent(&Event{Kind: "remove-failed", Args: args})
			return append(ret(s, nilIface), ret(bad, newErr("FileRm"))...), true
		}
		return nil, false
	}
	var alts []recvAlt
	for _, byRef := range []bool{false, true} {
		for _, a := range c.packetAlts(map[string]bool{"request": byRef}) {
			if a.label == "request" {
				a := a
				mk := a.mk
				lab := "request"
				if byRef {
					lab = "request by reference"
				}
				alts = append(alts, recvAlt{lab, func(s *State) Val { return mk(s) }})
			}
		}
	}
	sizes := []int{0, 1, 2}
	if c.tier == "thorough" {
		sizes = []int{0, 1, 2, 3}
	}
	for _, k := range sizes {
		var before []entryT
		ok := true
		n.disp = nil
		n.dispatch(fmt.Sprintf("request, %d transfers", k), alts[:1], false, func(st *State) {
			ok = c.setTable(st, "trans.Transfers", g, k, k%2)
			before, _ = c.getTable(st, g)
		}, extra)
		if !ok {
			return
		}
		c.answers(n, g, before, k)
	}
}

func (c *Ctx) answers(n *nodeT, g *ssa.Global, before []entryT, k int) {
	fams := map[string]int{}
	codes := map[string]int{}
	for _, d := range n.disp {
		if d.alt == "" {
			continue
		}
		q := d.queueKey()
		// requests are handled where they are answered; packets on other queues are C16's
		st := d.o.st
		typ, info, addr, it, at := c.packet(st, d.ev.Res[0], nil)
		if typ != "request" {
			c.ok("undecided", q, false, "the request is not known")
			continue
		}
		h := c.intOf(info, it, "Header")
		sess := c.intOf(info, it, "Session")
		fname := fieldOf(info, it, "Fname")
		if h == nil || sess == nil || fname == nil {
			c.fail("anchor", "request.Request", "", "Header, Session or Fname not found")
			return
		}
		var sends []*Event
		for _, v := range d.after {
			switch v.Kind {
			case "send":
				sends = append(sends, v)
			case "unknown":
				c.ok("undecided", q, false, "paths were merged")
			}
		}
		if len(sends) == 0 && fams[q] == 0 && !c.rxQueue(n, d) {
			continue
		}
		fams[q]++
		name := "request on " + q
		opt := func(f string) string { return c.optOf(st, h, f) }
		rt := opt("reqtype")
		if rt == "" {
			rt = "unknown type"
		}
		con := name + " " + rt
		if !c.ok("one-status", con, len(sends) == 1, "%d frames are queued in answer to one request", len(sends)) {
			continue
		}
		s := sends[0]
		if s.NB {
			c.ok("one-status", con, false, "the answer may be dropped")
		}
		styp, sinfo, saddr, sit, sat := c.packet(st, s.Args[0], nil)
		if !c.ok("status", con, styp == "status", "the answer is a %q", styp) {
			continue
		}
		oq := d.keyOf(s.Name)
		c.ok("family", con, oq != q && strings.Fields(oq)[0] == strings.Fields(q)[0], "the answer to a request from the %s goes to %s", q, oq)
		c.ok("address", con, at != nil && sat != nil && c.deepSame(st, addr, saddr, at, "Addr") == "", "the answer is not for the requester's address")
		sh, ss := c.intOf(sinfo, sit, "Header"), c.intOf(sinfo, sit, "Session")
		if sh == nil || ss == nil {
			continue
		}
		c.ok("session", con, st.eqBits(ss, sess, 32), "the answer does not carry the request's session")
		c.ok("status", con, c.hasFlag(st, sh, "version", "v1") && c.hasFlag(st, sh, "frametype", "status"), "the answer is not a version 1 status")
		code := c.optOf(st, sh, "errcode")
		codes[code]++
		con += " " + code
		var exists, absent, removed, failed int
		named := true
		for _, v := range d.after {
			switch v.Kind {
			case "exists":
				exists++
			case "absent":
				absent++
			case "removed":
				removed++
			case "remove-failed":
				failed++
			case "call":
				if strings.HasPrefix(v.Name, "os.Remove") || strings.HasPrefix(v.Name, "os.Rename") {
					c.ok("undecided", con, false, "%s changes files", v.Name)
				}
				continue
			default:
				continue
			}
			named = named && len(v.Args) > 0 && c.same(st, v.Args[0], fname, nil)
		}
		c.ok("file", con, named, "the file looked at or removed is not the one named in the request")
		c.ok("file", con, removed+failed == 0 || rt == "delete", "a file is removed by a request that does not ask for it")
		// what became of the table
		after, okT := c.getTable(st, g)
		if !c.ok("table", con, okT, "the table is not known afterwards") {
			continue
		}
		kept := len(after) >= len(before)
		for i := range before {
			if kept && c.deepSame(st, before[i].v, after[i].v, before[i].t, "") != "" {
				kept = false
			}
		}
		if !c.ok("table", con, kept, "a transfer already registered is changed or lost") {
			continue
		}
		added := after[len(before):]
		ident := func(e entryT, byText bool) bool {
			es := c.intOf(e.v, e.t, "Session")
			if es == nil || !st.eqBits(es, sess, 32) {
				return false
			}
			pa := fieldOf(e.v, e.t, "Peer")
			if pa == nil {
				return false
			}
			if c.deepSame(st, pa, addr, at, "") == "" {
				return true
			}
			return byText && c.sameAddrText(st, pa, addr)
		}
		hasType := func(e entryT) bool {
			v, ok := fieldOf(e.v, e.t, "Ttype").(*StrV)
			return ok && rt != "" && st.seqEqual(v.S, strC(rt).S) == 1
		}
		var dup, dupOther bool
		for _, e := range before {
			if ident(e, true) {
				if hasType(e) {
					dup = true
				} else {
					dupOther = true
				}
			}
		}
		known := map[string]bool{"get": true, "getdir": true, "take": true, "delete": true, "put": true, "give": true}
		unknown := true
		for t := range known {
			unknown = unknown && c.hasNotFlag(st, h, "reqtype", t)
		}
		reads := rt == "get" || rt == "getdir" || rt == "take"
		writes := rt == "put" || rt == "give"
		unsupported := c.hasNotFlag(st, h, "version", "v1") || c.hasNotFlag(st, h, "udplite", "no") || c.hasNotFlag(st, h, "stream", "no") || unknown
		plain := c.hasFlag(st, h, "version", "v1") && c.hasFlag(st, h, "udplite", "no") && c.hasFlag(st, h, "stream", "no") && known[rt]
		if code != "success" {
			c.ok("table", con, len(added) == 0, "a transfer is registered although the answer is %s", code)
		}
		switch code {
		case "badrequest":
			c.ok("code", con, unsupported || dupOther, "a supported request is answered as a bad request")
		case "cantreceive":
			c.ok("code", con, c.hasFlag(st, h, "rxwilling", "invalid") || reads && c.hasNotFlag(st, h, "rxwilling", "yes"), "a requester that is willing to receive is told it is not")
		case "cantsend":
			c.ok("code", con, c.hasFlag(st, h, "txwilling", "invalid") || writes && c.hasNotFlag(st, h, "txwilling", "yes"), "a requester that is willing to send is told it is not")
		case "filenotfound":
			c.ok("code", con, absent > 0 && exists == 0 && (reads || rt == "delete"), "the file is there, or not looked at, or not needed")
		case "fileinuse":
			c.ok("code", con, exists > 0 && absent == 0 && writes, "the file is not there, or not looked at, or needed")
		case "didnotdelete":
			c.ok("code", con, failed > 0 && removed == 0 && rt == "delete", "the removal did not fail")
		case "success":
			c.ok("success", con, plain, "success is reported for an unsupported request")
			if rt == "delete" {
				c.ok("success", con, removed == 1 && failed == 0, "success is reported but the file was not removed")
				c.ok("table", con, len(added) == 0, "a deletion is registered as a transfer")
				break
			}
			c.ok("success", con, !reads || exists > 0 && absent == 0, "success is reported for a file that is missing")
			c.ok("success", con, !writes || absent > 0 && exists == 0, "success is reported although the file exists")
			c.ok("success", con, !reads || c.hasFlag(st, h, "rxwilling", "yes"), "success is reported to a requester unwilling to receive")
			c.ok("success", con, !writes || c.hasFlag(st, h, "txwilling", "yes"), "success is reported to a requester unwilling to send")
			if len(added) == 0 {
				c.ok("registered", con, dup, "success is reported but no transfer is registered")
				break
			}
			c.ok("registered", con, len(added) == 1, "%d transfers are registered for one request", len(added))
			e := added[0]
			c.ok("registered", con, ident(e, false), "the transfer registered is not for the session and peer of the request")
			c.ok("registered", con, hasType(e), "the transfer registered is not of the type requested")
			c.ok("registered", con, c.same(st, fieldOf(e.v, e.t, "Filename"), fname, nil), "the transfer registered is not for the file requested")
		default:
			c.ok("code", con, false, "the error code %q is not one that tells an outcome", code)
		}
	}
	c.ok("one-status", "families", len(fams) == 2, "requests are answered on %d queues, one per family expected", len(fams))
	for _, k := range []string{"badrequest", "cantreceive", "cantsend", "filenotfound", "fileinuse", "didnotdelete", "success"} {
		c.ok("reached", k, codes[k] > 0, "no path answers %s", k)
	}
	var ks []string
	for x := range codes {
		ks = append(ks, fmt.Sprintf("%s %d", x, codes[x]))
	}
	sort.Strings(ks)
	c.notes = append(c.notes, fmt.Sprintf("%d transfers registered before: paths by answer: %s.", k, strings.Join(ks, ", ")))
}

// rxQueue: the queue on which other requests are answered.
func (c *Ctx) rxQueue(n *nodeT, d *dispatched) bool {
	for _, x := range n.disp {
		if x.queueKey() == d.queueKey() && x.alt == d.alt {
			for _, v := range x.after {
				if v.Kind == "send" {
					return true
				}
			}
		}
	}
	return false
}

// sameAddrText: the two addresses are known to print alike.
func (c *Ctx) sameAddrText(st *State, a, b Val) bool {
	sig := c.addrStringSig()
	if sig == nil {
		return false
	}
	x := c.e.pureCall(st.clone(), "(*net.UDPAddr).String", sig, []Val{c.e.expand(a)})
	y := c.e.pureCall(st.clone(), "(*net.UDPAddr).String", sig, []Val{c.e.expand(b)})
	p, o1 := x[0].ret[0].(*StrV)
	q, o2 := y[0].ret[0].(*StrV)
	return o1 && o2 && st.seqEqual(p.S, q.S) == 1
}

func (c *Ctx) addrStringSig() *types.Signature {
	np := c.e.prog.ImportedPackage("net")
	if np == nil {
		return nil
	}
	t := np.Type("UDPAddr")
	if t == nil {
		return nil
	}
	m := c.e.prog.LookupMethod(types.NewPointer(t.Type()), np.Pkg, "String")
	if m == nil {
		return nil
	}
	return m.Signature
}

// pureOf evaluates a method of a library value the way the code under
// analysis would.
func (c *Ctx) pureOf(st *State, name string, res types.Type, args ...Val) Val {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", res)), false)
	return c.e.pureCall(st, name, sig, args)[0].ret[0]
}

// fileContract: the file operations stand for what the request asks about.
func (c *Ctx) fileContract() {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	name := "fileio.FileExists"
	st := c.st0.clone()
	fn := c.e.sym(types.Typ[types.String], "fname")
	yes, no := 0, 0
	var path Val
	for _, o := range c.run(name, st, name, fn) {
		if !c.ok("exists", name, o.exit == "" && len(o.ret) == 1, "does not return") {
			continue
		}
		var stat *Event
		for _, v := range o.st.events() {
			if v.Kind == "call" && (v.Name == "os.Stat" || v.Name == "os.Lstat") {
				stat = v
			}
		}
		if !c.ok("exists", name, stat != nil, "does not look at the file") {
			continue
		}
		path = stat.Args[0]
		b, _ := o.ret[0].(*BoolV)
		r := 0
		if b != nil {
			r = o.st.evalBool(b)
		}
		if !c.ok("undecided", name, r != 0, "the result is not decided on some path") {
			continue
		}
		if isErr(o.st, stat.Res[1]) {
			no++
			c.ok("exists", name, r < 0, "a file that cannot be examined is said to exist")
			continue
		}
		if r > 0 {
			yes++
			continue
		}
		// there, but neither directory nor regular file
		ok := c.modeIs(o.st, stat.Res[0], modeDir) < 0 && c.modeIs(o.st, stat.Res[0], modeRegular) < 0
		c.ok("exists", name, ok, "a regular file or directory is said not to exist")
	}
	c.ok("exists", name, yes > 0 && no > 0, "the answer does not depend on the file")
	name = "fileio.FileRm"
	good := 0
	for _, o := range c.run(name, st, name, fn) {
		if !c.ok("remove", name, o.exit == "" && len(o.ret) == 1, "does not return") {
			continue
		}
		rms, failed := 0, false
		var res Val
		for _, v := range o.st.events() {
			if v.Kind == "call" && v.Name == "os.Remove" {
				rms++
				res = v.Res[0]
				failed = !sureNil(o.st, res)
				c.ok("remove", name, path != nil && c.same(o.st, v.Args[0], path, nil), "removes another file than the one whose existence is examined")
			} else if v.Kind == "call" && strings.HasPrefix(v.Name, "os.") {
				c.ok("remove", name, !strings.Contains(v.Name, "All") && !strings.Contains(v.Name, "Rename"), "%s", v.Name)
			}
		}
		if isErr(o.st, o.ret[0]) {
			continue
		}
		good++
		c.ok("remove", name, rms == 1 && (!failed || valKey(res) == valKey(o.ret[0])), "success is reported without the file having been removed")
	}
	c.ok("remove", name, good > 0, "never succeeds")
}

const (
	modeDir     = 1 << 31
	modeLink    = 1 << 27
	modePipe    = 1 << 25
	modeType    = 1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19
	modeRegular = 0 // none of the type bits
)

// modeIs: whether a file information is known to be of a kind (1), known not
// to be (-1), or neither.
func (c *Ctx) modeIs(st *State, info Val, kind int64) int {
	m, ok := c.e.fileMode(st, info).(*IntV)
	if !ok {
		return 0
	}
	mask := kind
	if kind == modeRegular {
		mask = modeType
	}
	bs, ok := st.toBits(m.L, 32)
	if !ok {
		return 0
	}
	for i := range bs {
		if mask>>uint(i)&1 == 0 {
			bs[i] = bit{}
		}
	}
	l := fromBits(bs)
	set := 0
	switch {
	case st.proveEQ(l, linC(0)):
		set = -1
	case st.proveGE(linAddC(l, -1)):
		set = 1
	}
	if kind == modeRegular {
		set = -set
	}
	return set
}
