package main

// C27: the tables of transfers.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C27"] = &checkDef{run: checkC27, min: 150,
		rule: "Abstract interpretation of every operation of the transfer tables (looking up, matching, removing, starting as initiator, registering as responder, registering a received request) over tables of zero to two (thorough: three) transfers of unknown contents. On every path what is found has exactly the direction, session and peer asked for and nothing is found only if each entry is known to differ in one of them; a removal takes out exactly one entry, with the identity of the transfer removed, and fails only if there is none; a registration adds exactly one entry with the identity asked for, and each entry present before is known to differ from it; on every other path the table is what it was. A search of the whole program shows that nothing else changes the tables or the identity of a transfer."}
}

// differs: 1 the two truth values are alike, -1 they differ.
func boolAlike(st *State, a, b Val) int {
	x, o1 := a.(*BoolV)
	y, o2 := b.(*BoolV)
	if !o1 || !o2 {
		return 0
	}
	res := 0
	for _, want := range []bool{true, false} {
		if st.evalBool(x) == map[bool]int{true: -1, false: 1}[want] {
			continue
		}
		s := st.clone()
		s.assume(x, want)
		if s.contradictory() {
			continue
		}
		k := s.evalBool(y)
		if k == 0 {
			return 0
		}
		if !want {
			k = -k
		}
		if res != 0 && res != k {
			return 0
		}
		res = k
	}
	return res
}

type identT struct {
	dir  Val // nil: not part of the identity
	sess *Lin
	peer Seq // the text of the address
}

func (c *Ctx) identOf(st *State, v Val, t types.Type, withDir bool) (identT, bool) {
	var id identT
	if withDir {
		id.dir = fieldOf(v, t, "Direction")
		if id.dir == nil {
			return id, false
		}
	}
	id.sess = c.intOf(v, t, "Session")
	p := fieldOf(v, t, "Peer")
	if id.sess == nil || p == nil {
		return id, false
	}
	q, ok := c.addrText(st, p)
	id.peer = q
	return id, ok
}

// addrText: what an address prints as.
func (c *Ctx) addrText(st *State, a Val) (Seq, bool) {
	sig := c.addrStringSig()
	if sig == nil {
		return nil, false
	}
	if p, isP := a.(*PtrV); isP {
		if p.Ext == "" && p.Obj == 0 || p.MayNil != "" && st.evalBool(boolOpaque("nilptr:"+p.MayNil)) == 1 {
			return strC("<nil>").S, true
		}
		a = c.e.load(st, p, c.libType("net", "UDPAddr"))
	}
	v, ok := c.e.pureCall(st, "(*net.UDPAddr).String", sig, []Val{c.e.expand(a)})[0].ret[0].(*StrV)
	if !ok {
		return nil, false
	}
	return v.S, true
}

// alike: 1 the identities are equal, -1 they differ, 0 it is not known.
func (c *Ctx) alike(st *State, a, b identT) int {
	all := true
	if a.dir != nil && b.dir != nil {
		switch boolAlike(st, a.dir, b.dir) {
		case -1:
			return -1
		case 0:
			all = false
		}
	}
	if st.proveNE(a.sess, b.sess) {
		return -1
	}
	if !st.eqBits(a.sess, b.sess, 32) {
		all = false
	}
	switch st.seqEqual(a.peer, b.peer) {
	case -1:
		return -1
	case 0:
		all = false
	}
	if all {
		return 1
	}
	// what the path assumed may exclude that all of them agree
	s := st.clone()
	s.assumeEQ(linSub(a.sess, b.sess))
	if s.contradictory() {
		return -1
	}
	return 0
}

type tranTab struct {
	c       *Ctx
	g       *ssa.Global
	name    string
	withDir bool
}

func (t *tranTab) idents(st *State, es []entryT) ([]identT, bool) {
	var r []identT
	for _, e := range es {
		id, ok := t.c.identOf(st, e.v, e.t, t.withDir)
		if !ok {
			return nil, false
		}
		r = append(r, id)
	}
	return r, true
}

// twins: the path needs two entries of one identity to begin with.
func (t *tranTab) twins(st *State, ids []identT) bool {
	for i := range ids {
		for j := 0; j < i; j++ {
			if t.c.alike(st, ids[i], ids[j]) == 1 {
				return true
			}
		}
	}
	return false
}

// sameEntry: the entry is the one that was there, with its contents.
func (t *tranTab) sameEntry(st *State, a, b entryT) bool {
	if a.obj != b.obj {
		return false
	}
	return t.c.deepSame(st, a.v, b.v, a.t, "") == ""
}

func (t *tranTab) unchanged(st *State, con string, before []entryT) bool {
	after, ok := t.c.getTable(st, t.g)
	if !t.c.ok("table", con, ok, "the table is not known afterwards") {
		return false
	}
	ok = len(after) == len(before)
	for i := range before {
		ok = ok && t.sameEntry(st, before[i], after[i])
	}
	return t.c.ok("table", con, ok, "the table or a transfer in it is changed")
}

// removed: which of the entries are gone; the others are as they were.
func (t *tranTab) removed(st *State, con string, before []entryT) ([]int, bool) {
	after, ok := t.c.getTable(st, t.g)
	if !t.c.ok("table", con, ok, "the table is not known afterwards") {
		return nil, false
	}
	var gone []int
	used := map[int]bool{}
	for i := range before {
		at := -1
		for j := range after {
			if !used[j] && t.sameEntry(st, before[i], after[j]) {
				at = j
				break
			}
		}
		if at < 0 {
			gone = append(gone, i)
		} else {
			used[at] = true
		}
	}
	return gone, t.c.ok("table", con, len(used) == len(after), "the remaining transfers are not those that were there")
}

func checkC27(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 4000
	g := c.tableOf("sarwin.Transfers")
	tg := c.tableOf("trans.Transfers")
	if g == nil || tg == nil {
		c.fail("anchor", "sarwin.Transfers, trans.Transfers", "", "the tables of transfers were not found")
		return
	}
	n := 2
	if c.tier == "thorough" {
		n = 3
		c.e.maxIn, c.e.maxOut = 8000, 40000
	}
	t := &tranTab{c, g, "sarwin.Transfers", true}
	for k := 0; k <= n; k++ {
		t.lookup(k)
		t.match(k)
		t.remove(k)
		t.initiator(k)
		t.responder(k)
	}
	x := &tranTab{c, tg, "trans.Transfers", false}
	for k := 0; k <= n; k++ {
		x.received(k)
	}
	t.others([]string{"sarwin.Transfer.Remove", "sarwin.NewInitiator", "sarwin.NewResponder"})
	x.others([]string{"trans.AddRxTran"})
}

func (t *tranTab) start(k int) (*State, []entryT, bool) {
	st := t.c.st0.clone()
	if !t.c.setTable(st, t.name, t.g, k, k%2) {
		return nil, nil, false
	}
	es, ok := t.c.getTable(st, t.g)
	return st, es, t.c.ok("undecided", t.name, ok, "the table cannot be read")
}

// found decides what a search returned.
func (t *tranTab) found(o *Outcome, con string, before []entryT, ids []identT, want identT, hits *int) {
	c := t.c
	if len(o.ret) == 0 {
		c.ok("undecided", con, false, "nothing is returned")
		return
	}
	p, ok := o.ret[0].(*PtrV)
	if !c.ok("undecided", con, ok && p.Ext == "" && p.MayNil == "", "what is returned is not known") {
		return
	}
	if p.Obj == 0 {
		for _, id := range ids {
			c.ok("nothing", con, c.alike(o.st, id, want) == -1, "nothing is found although a transfer may be registered with the values asked for")
		}
	} else {
		at := -1
		for i := range before {
			if before[i].obj == p.Obj && len(p.Path) == 0 {
				at = i
			}
		}
		if c.ok("found", con, at >= 0, "what is returned is not a registered transfer") {
			*hits++
			c.ok("found", con, c.alike(o.st, ids[at], want) == 1, "the transfer returned may differ from the one asked for")
		}
	}
	t.unchanged(o.st, con, before)
}

func (t *tranTab) lookup(k int) {
	c, name := t.c, "sarwin.Lookup"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 3 {
		c.fail("anchor", name, "", "not found")
		return
	}
	st, before, ok := t.start(k)
	if !ok {
		return
	}
	dir := c.e.sym(fn.Params[0].Type(), "direction")
	sess := c.e.sym(fn.Params[1].Type(), "session")
	peer := c.e.sym(fn.Params[2].Type(), "peeraddr")
	hits := 0
	for _, o := range c.run(fmt.Sprintf("%s, %d transfers", name, k), st, name, dir, sess, peer) {
		if o.exit != "" {
			continue
		}
		ids, ok := t.idents(o.st, before)
		if !c.ok("undecided", name, ok, "the identity of a transfer is not known") {
			continue
		}
		s, o1 := sess.(*IntV)
		p, o2 := peer.(*StrV)
		if !o1 || !o2 {
			c.fail("anchor", name, "", "takes no session number and address")
			return
		}
		t.found(o, name, before, ids, identT{dir, s.L, p.S}, &hits)
	}
	c.ok("reached", fmt.Sprintf("%s, %d transfers", name, k), k == 0 || hits >= k, "only %d of %d transfers can be found", hits, k)
}

func (t *tranTab) match(k int) {
	c, name := t.c, "sarwin.Match"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", name, "", "not found")
		return
	}
	st, before, ok := t.start(k)
	if !ok {
		return
	}
	peer := c.e.sym(fn.Params[0].Type(), "peeraddr")
	sess := c.e.sym(fn.Params[1].Type(), "session")
	hits := 0
	for _, o := range c.run(fmt.Sprintf("%s, %d transfers", name, k), st, name, peer, sess) {
		if o.exit != "" {
			continue
		}
		ids, ok := t.idents(o.st, before)
		if !c.ok("undecided", name, ok, "the identity of a transfer is not known") {
			continue
		}
		s, o1 := sess.(*IntV)
		p, o2 := peer.(*StrV)
		if !o1 || !o2 {
			c.fail("anchor", name, "", "takes no address and session number")
			return
		}
		t.found(o, name, before, ids, identT{nil, s.L, p.S}, &hits)
	}
	c.ok("reached", fmt.Sprintf("%s, %d transfers", name, k), k == 0 || hits >= k, "only %d of %d transfers can be found", hits, k)
}

func (t *tranTab) remove(k int) {
	c, name := t.c, "sarwin.Transfer.Remove"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 1 {
		c.fail("anchor", name, "", "not found")
		return
	}
	for which := -1; which < k; which++ {
		st, before, ok := t.start(k)
		if !ok {
			return
		}
		var recv *PtrV
		con := name
		if which >= 0 {
			recv = &PtrV{Obj: before[which].obj}
			con += " of a registered transfer"
		} else {
			recv = c.symAlloc(st, "sarwin.Transfer", "other")
			con += " of a transfer not registered"
		}
		me := c.e.expand(c.e.load(st, recv, recvElem(fn)))
		good := 0
		for _, o := range c.run(fmt.Sprintf("%s %d of %d", name, which, k), st, name, recv) {
			if o.exit != "" {
				continue
			}
			ids, ok := t.idents(o.st, before)
			id, ok2 := c.identOf(o.st, me, recvElem(fn), true)
			if !c.ok("undecided", con, ok && ok2 && len(o.ret) == 1, "the identity of a transfer is not known") {
				continue
			}
			if t.twins(o.st, ids) {
				continue
			}
			if !sureNil(o.st, o.ret[0]) {
				if !c.ok("undecided", con, sureErr(o.st, o.ret[0]), "whether it fails is not known") {
					continue
				}
				t.unchanged(o.st, con, before)
				for i := range ids {
					c.ok("failure", con, which < 0 && c.alike(o.st, ids[i], id) == -1, "the transfer is not removed although it is registered")
				}
				continue
			}
			good++
			gone, ok := t.removed(o.st, con, before)
			if !ok {
				continue
			}
			if c.ok("one", con, len(gone) == 1, "%d transfers are removed", len(gone)) {
				c.ok("removed", con, gone[0] == which || c.alike(o.st, ids[gone[0]], id) == 1, "another transfer is removed")
			}
		}
		c.ok("reached", con, good > 0 || k == 0, "nothing can ever be removed")
	}
}

func recvElem(fn *ssa.Function) types.Type {
	if p, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return fn.Params[0].Type()
}

// sureErr: the error is known not to be nil.
func sureErr(st *State, v Val) bool {
	i, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	if i.Sym != "" && i.MayNil {
		return st.evalBool(boolOpaque("nilif:"+i.Sym)) == -1
	}
	return i.Sym != "" || i.T != nil
}

// registered decides a successful registration; the new entry is returned.
func (t *tranTab) registered(st *State, con string, before []entryT) *entryT {
	c := t.c
	after, ok := c.getTable(st, t.g)
	if !c.ok("table", con, ok, "the table is not known afterwards") {
		return nil
	}
	if !c.ok("one", con, len(after) == len(before)+1, "%d transfers are registered, there were %d", len(after), len(before)) {
		return nil
	}
	// the new one may be anywhere
	at := len(before)
	for i := range before {
		if !t.sameEntry(st, before[i], after[i]) {
			at = i
			break
		}
	}
	for i := range before {
		j := i
		if i >= at {
			j = i + 1
		}
		if !c.ok("table", con, t.sameEntry(st, before[i], after[j]), "a transfer already registered is changed or lost") {
			return nil
		}
	}
	return &after[at]
}

// initiatorFails: only transfers without a connection may be given up.
func (t *tranTab) givenUp(st *State, con string, before []entryT) {
	gone, ok := t.removed(st, con, before)
	if !ok {
		return
	}
	for _, i := range gone {
		p, ok := fieldOf(before[i].v, before[i].t, "Conn").(*PtrV)
		none := ok && (p.Ext == "" && p.Obj == 0 || p.MayNil != "" && st.evalBool(boolOpaque("nilptr:"+p.MayNil)) == 1)
		t.c.ok("removed", con, none, "a transfer with a connection is removed when another is refused")
	}
}

func (t *tranTab) initiator(k int) {
	c, name := t.c, "sarwin.NewInitiator"
	fn := c.e.fn(name)
	if fn == nil {
		c.fail("anchor", name, "", "not found")
		return
	}
	st, before, ok := t.start(k)
	if !ok {
		return
	}
	ttype := c.e.sym(types.Typ[types.String], "ttype")
	outs, peer, fname := c.startLocal(fmt.Sprintf("%s, %d transfers", name, k), st, ttype)
	good := 0
	for _, o := range outs {
		if o.exit != "" || len(o.ret) != 2 {
			continue
		}
		ids, ok := t.idents(o.st, before)
		if !c.ok("undecided", name, ok, "the identity of a transfer is not known") {
			continue
		}
		if t.twins(o.st, ids) {
			continue
		}
		if !sureNil(o.st, o.ret[1]) {
			if c.ok("undecided", name, sureErr(o.st, o.ret[1]), "whether it fails is not known") {
				t.givenUp(o.st, name, before)
			}
			continue
		}
		good++
		e := t.registered(o.st, name, before)
		if e == nil {
			continue
		}
		p, ok := o.ret[0].(*PtrV)
		c.ok("returned", name, ok && p.Obj == e.obj && p.Obj != 0, "the transfer returned is not the one registered")
		c.ok("identity", name, c.isTrue(o.st, fieldOf(e.v, e.t, "Direction")), "the transfer registered is not one of an initiator")
		text, o1 := c.addrText(o.st, fieldOf(e.v, e.t, "Peer"))
		asked, o2 := c.addrText(o.st, peer)
		c.ok("identity", name, o1 && o2 && o.st.seqEqual(text, asked) == 1, "the transfer registered is not to the peer asked for")
		c.ok("identity", name, c.same(o.st, fieldOf(e.v, e.t, "Filename"), fname, nil), "the transfer registered is not for the file asked for")
		c.ok("identity", name, c.same(o.st, fieldOf(e.v, e.t, "Ttype"), ttype, nil), "the transfer registered is not of the type asked for")
		f, o3 := c.e.expand(fname).(*StrV)
		for i, b := range before {
			n, o4 := fieldOf(b.v, b.t, "Filename").(*StrV)
			c.ok("same-file", name, o2 && o3 && o4 && (o.st.seqEqual(ids[i].peer, asked) == -1 || o.st.seqEqual(n.S, f.S) == -1), "a second transfer of one file to one peer is registered")
		}
	}
	c.ok("reached", fmt.Sprintf("%s, %d transfers", name, k), good > 0, "no transfer is ever registered")
}

func (c *Ctx) isTrue(st *State, v Val) bool {
	b, ok := v.(*BoolV)
	return ok && st.evalBool(b) == 1
}

func (t *tranTab) responder(k int) {
	c, name := t.c, "sarwin.NewResponder"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 3 {
		c.fail("anchor", name, "", "not found")
		return
	}
	st, before, ok := t.start(k)
	if !ok {
		return
	}
	gui := c.nonNil(fn.Params[0].Type(), "gui")
	req := c.e.sym(fn.Params[1].Type(), "request")
	rt := fn.Params[1].Type()
	rv := c.e.expand(req)
	if p, ok := rt.Underlying().(*types.Pointer); ok {
		rt = p.Elem()
		req = c.alloc(st, rt, c.e.sym(rt, "request"), "request")
		rv = c.e.expand(c.e.load(st, req.(*PtrV), rt))
	}
	peer := c.e.sym(fn.Params[2].Type(), "peeraddr")
	sess, fname := c.intOf(rv, rt, "Session"), fieldOf(rv, rt, "Fname")
	if sess == nil || fname == nil {
		c.fail("anchor", name, "", "takes no request")
		return
	}
	// the text of flags does not matter here
	local := c.localHook()
	text := map[*ssa.Function]bool{}
	for _, f := range []string{"GetStr", "AddFlagD", "AddFlag", "ReplaceFlag"} {
		if f := c.e.fn("sarflags." + f); f != nil && f.Signature.Results().Len() == 1 {
			text[f] = true
		}
	}
	var outs []*Outcome
	c.withHook(func(s *State, f *ssa.Function, n string, a []Val) ([]*Outcome, bool) {
		if f != nil && text[f] {
			return c.e.pureCall(s, n, f.Signature, a), true
		}
		return local(s, f, n, a)
	}, func() {
		outs = c.run(fmt.Sprintf("%s, %d transfers", name, k), st, name, gui, req, peer)
	})
	good := 0
	for _, o := range outs {
		if o.exit != "" || len(o.ret) != 1 {
			continue
		}
		ids, ok := t.idents(o.st, before)
		if !c.ok("undecided", name, ok, "the identity of a transfer is not known") {
			continue
		}
		if !sureNil(o.st, o.ret[0]) {
			if c.ok("undecided", name, sureErr(o.st, o.ret[0]), "whether it fails is not known") {
				t.unchanged(o.st, name, before)
			}
			continue
		}
		good++
		e := t.registered(o.st, name, before)
		if e == nil {
			continue
		}
		id, ok := c.identOf(o.st, e.v, e.t, true)
		if !c.ok("identity", name, ok, "the identity of the transfer registered is not known") {
			continue
		}
		c.ok("identity", name, c.isFalse(o.st, id.dir), "the transfer registered is not one of a responder")
		c.ok("identity", name, o.st.eqBits(id.sess, sess, 32), "the transfer registered is not for the session of the request")
		c.ok("identity", name, c.same(o.st, fieldOf(e.v, e.t, "Filename"), fname, nil), "the transfer registered is not for the file of the request")
		from := false
		for _, v := range o.st.events() {
			if v.Kind != "call" || len(v.Res) == 0 {
				continue
			}
			for _, a := range v.Args {
				if _, str := a.(*StrV); str && c.same(o.st, a, peer, nil) && valKey(v.Res[0]) == valKey(fieldOf(e.v, e.t, "Peer")) {
					from = true
				}
			}
		}
		c.ok("identity", name, from || strings.Contains(valKey(fieldOf(e.v, e.t, "Peer")), "peeraddr"), "the transfer registered is not for the peer the request came from")
		for i := range ids {
			c.ok("twice", name, c.alike(o.st, ids[i], id) == -1, "a transfer with the same direction, session and peer may already be registered")
		}
	}
	c.ok("reached", fmt.Sprintf("%s, %d transfers", name, k), good > 0, "no transfer is ever registered")
}

func (c *Ctx) nonNil(t types.Type, key string) Val {
	v := c.e.sym(t, key)
	if p, ok := v.(*PtrV); ok {
		q := *p
		q.MayNil = ""
		return &q
	}
	return v
}

// received: the table of transfers requested by others.
func (t *tranTab) received(k int) {
	c, name := t.c, "trans.AddRxTran"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 4 {
		c.fail("anchor", name, "", "not found")
		return
	}
	st, before, ok := t.start(k)
	if !ok {
		return
	}
	rt := c.e.typ("request.Request")
	if rt == nil {
		c.fail("anchor", "request.Request", "", "not found")
		return
	}
	rq := c.alloc(st, rt, c.e.sym(rt, "request"), "request")
	rv := c.e.expand(c.e.load(st, rq, rt))
	from := c.peerPtr(st, "from")
	var args []Val
	for i, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), rt):
			args = append(args, rv)
		case strings.HasSuffix(p.Type().String(), "request.Request"):
			args = append(args, rq)
		case p.Type().String() == "net.UDPAddr":
			args = append(args, c.e.load(st, from, p.Type()))
		case p.Type().String() == "*net.UDPAddr":
			args = append(args, from)
		default:
			args = append(args, c.nonNil(p.Type(), fmt.Sprintf("arg%d", i)))
		}
	}
	rm := c.e.fn("fileio.FileRm")
	local := c.localHook()
	var outs []*Outcome
	c.withHook(func(s *State, f *ssa.Function, n string, a []Val) ([]*Outcome, bool) {
		if f != nil && f == rm {
			bad := s.clone()
			return append(ret(s, nilIface), ret(bad, newErr("FileRm"))...), true
		}
		return local(s, f, n, a)
	}, func() {
		outs = c.run(fmt.Sprintf("%s, %d transfers", name, k), st, name, args...)
	})
	good := 0
	for _, o := range outs {
		if o.exit != "" {
			continue
		}
		after, ok := c.getTable(o.st, t.g)
		if !c.ok("table", name, ok, "the table is not known afterwards") {
			continue
		}
		if len(after) <= len(before) {
			t.unchanged(o.st, name, before)
			continue
		}
		good++
		ids, ok := t.idents(o.st, before)
		e := t.registered(o.st, name, before)
		if !ok || e == nil {
			c.ok("undecided", name, ok, "the identity of a transfer is not known")
			continue
		}
		id, ok := c.identOf(o.st, e.v, e.t, false)
		asked, ok2 := c.addrText(o.st, from)
		if !c.ok("identity", name, ok && ok2, "the identity of the transfer registered is not known") {
			continue
		}
		sess := c.intOf(rv, rt, "Session")
		c.ok("identity", name, sess != nil && o.st.eqBits(id.sess, sess, 32), "the transfer registered is not for the session of the request")
		at := c.libType("net", "UDPAddr")
		pv := fieldOf(e.v, e.t, "Peer")
		same := o.st.seqEqual(id.peer, asked) == 1
		if _, ptr := pv.(*PtrV); !ptr {
			same = same || c.deepSame(o.st, pv, c.e.load(o.st, from, at), at, "") == ""
		}
		c.ok("identity", name, same, "the transfer registered is not for the peer the request came from")
		for i := range ids {
			c.ok("twice", name, c.alike(o.st, ids[i], id) == -1, "a transfer with the same session and peer may already be registered")
		}
	}
	c.ok("reached", fmt.Sprintf("%s, %d transfers", name, k), good > 0, "no transfer is ever registered")
}

// others: nothing else changes the table or the identity of a transfer.
func (t *tranTab) others(roots []string) {
	c := t.c
	cover := map[*ssa.Function]bool{}
	for _, r := range roots {
		if f := c.e.fn(r); f != nil {
			cover[f] = true
		}
	}
	memo := map[*ssa.Function]int{}
	var covered func(f *ssa.Function) bool
	covered = func(f *ssa.Function) bool {
		if cover[f] {
			return true
		}
		switch memo[f] {
		case 1:
			return true // in progress
		case 2:
			return true
		case 3:
			return false
		}
		memo[f] = 1
		cs := c.callersOf(f)
		ok := len(cs) > 0
		for _, g := range cs {
			ok = ok && covered(g)
		}
		memo[f] = 2
		if !ok {
			memo[f] = 3
		}
		return ok
	}
	for _, f := range c.writersOf(t.g) {
		o := outermost(f)
		c.ok("writers", t.name+" in "+shortFn(o), covered(o), "the table of transfers is changed outside the operations analysed")
	}
	et := t.g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice).Elem()
	byRef := false
	if p, ok := et.Underlying().(*types.Pointer); ok {
		et, byRef = p.Elem(), true
	}
	idf := map[int]bool{}
	for _, n := range []string{"Direction", "Session", "Peer"} {
		if i := fieldIdx(et, n); i >= 0 {
			idf[i] = true
		}
	}
	var sites []string
	for _, p := range c.repoPackages() {
		for _, f := range funcsOf(c.e.prog, p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					a, ok := s.Addr.(*ssa.FieldAddr)
					hit := false
					var base ssa.Value
					if ok {
						if p, isP := a.X.Type().Underlying().(*types.Pointer); isP && types.Identical(p.Elem(), et) && idf[a.Field] {
							hit, base = true, a.X
						}
					} else if p, isP := s.Addr.Type().Underlying().(*types.Pointer); isP && types.Identical(p.Elem(), et) {
						hit, base = true, s.Addr
					}
					if !hit {
						continue
					}
					for {
						if x, ok := base.(*ssa.FieldAddr); ok {
							base = x.X
						} else if x, ok := base.(*ssa.IndexAddr); ok {
							base = x.X
						} else {
							break
						}
					}
					if _, fresh := base.(*ssa.Alloc); fresh {
						continue
					}
					if _, slice := base.Type().Underlying().(*types.Slice); slice && byRef {
						continue // a list of copies
					}
					sites = append(sites, shortFn(outermost(f)))
					c.ok("identity-kept", t.name+" in "+shortFn(outermost(f)), covered(outermost(f)), "the identity of a transfer is changed outside the operations analysed")
				}
			}
		}
	}
	sort.Strings(sites)
	c.notes = append(c.notes, fmt.Sprintf("%s: identity written in %s.", t.name, strings.Join(sites, ", ")))
}
