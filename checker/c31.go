package main

// C31: the beacons an operator asks for.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C31"] = &checkDef{run: checkC31, min: 60,
		rule: "Abstract interpretation of the beacon command for each form of line (v4, v6, one, two and three addresses, off) with 1, 2, 3 and 20 beacons configured and an unknown interval, and then of every activity it starts: to each address named on the line (the multicast address for v4 and v6) goes exactly the configured number of frames, with a wait of exactly the configured seconds between one and the next, unless an address, connection, frame or send failed; nothing is sent to anything else, and nothing at all for off. With 200 to 3000000000 beacons configured, which do not fit the smaller integers, the sending loop is taken for any number of turns, and what it counts to is not another number."}
}

// beaconHook: the methods of a beacon which do not send work or fail; an
// address text is an address or an error, which is recorded.
func (c *Ctx) beaconHook() hookFn {
	bt := c.e.typ("beacon.Beacon")
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if fn == nil || !c.e.isRepo(fn) {
			return nil, false
		}
		ps, rs := fn.Signature.Params(), fn.Signature.Results()
		r := fn.Signature.Recv()
		switch {
		case r == nil && ps.Len() == 1 && ps.At(0).Type().String() == "string" && rs.Len() == 2 && rs.At(0).Type().String() == "*net.UDPAddr":
			a, _ := args[0].(*StrV)
			b := boolOpaque(freshKey("address"))
			if a != nil { // the same text is the same address again
				b = boolOpaque("address:" + s.normSeq(a.S).key())
			}
			bad := s.clone()
			s.assume(b, true)
			bad.assume(b, false)
			if bad.dead && !s.dead || s.dead && !bad.dead {
				if s.dead {
					bad.addEvent(&Event{Kind: "address", Name: name, Args: args, Res: []Val{&PtrV{}, newErr(name)}})
					return ret(bad, &PtrV{}, newErr(name)), true
				}
				p := c.peerPtr(s, freshKey("addr"))
				s.addEvent(&Event{Kind: "address", Name: name, Args: args, Res: []Val{p, nilIface}})
				return ret(s, p, nilIface), true
			}
			p := c.peerPtr(s, freshKey("addr"))
			s.addEvent(&Event{Kind: "address", Name: name, Args: args, Res: []Val{p, nilIface}})
			bad.addEvent(&Event{Kind: "address", Name: name, Args: args, Res: []Val{&PtrV{}, newErr(name)}})
			return append(ret(s, p, nilIface), ret(bad, &PtrV{}, newErr(name))...), true
		case r != nil && bt != nil && (types.Identical(r.Type(), bt) || types.Identical(r.Type(), types.NewPointer(bt))) &&
			!c.e.reaches(fn, func(in ssa.Instruction) bool { return isWrite(callName(in)) }):
			n := rs.Len()
			fails := n > 0 && rs.At(n-1).Type().String() == "error"
			if fails && isPtrV(args[0]) && ps.Len() > 0 {
				c.e.havocVal(s, args[0], 0)
			}
			var good, none []Val
			for i := 0; i < n; i++ {
				if fails && i == n-1 {
					good, none = append(good, nilIface), append(none, newErr(name))
					continue
				}
				v := c.e.sym(rs.At(i).Type(), freshKey(fn.Name()))
				good, none = append(good, v), append(none, v)
			}
			out := []*Outcome{}
			if fails {
				bad := s.clone()
				bad.addEvent(&Event{Kind: "call", Name: name, Args: args, Res: none})
				out = ret(bad, none...)
			}
			return append(ret(s, good...), out...), true
		}
		return nil, false
	}
}

func isPtrV(v Val) bool { _, ok := v.(*PtrV); return ok }

// beaconState: n beacons, any interval.
func (c *Ctx) beaconState(n int64) (*State, *Lin) {
	st, id := c.settingsState(0)
	if st == nil {
		return nil, nil
	}
	t := c.e.typ("sarflags.Cliflags")
	i := fieldIdx(t, "Bcount")
	j := fieldIdx(t, "Timeout")
	o := *st.obj(id)
	sv, ok := c.e.expand(o.V).(*StructV)
	if !ok || i < 0 || j < 0 {
		c.fail("anchor", "sarflags.Cliflags", "", "the settings have no number of beacons or no timeouts")
		return nil, nil
	}
	tt := t.Underlying().(*types.Struct).Field(j).Type()
	tv, ok := c.e.expand(sv.F[j]).(*StructV)
	k := fieldIdx(tt, "Binterval")
	if !ok || k < 0 {
		c.fail("anchor", "sarflags.Cliflags.Timeout", "", "the settings have no interval between beacons")
		return nil, nil
	}
	m := &StructV{F: append([]Val{}, sv.F...)}
	m.F[i] = &IntV{linC(n)}
	iv, ok := c.e.expand(tv.F[k]).(*IntV)
	if !ok {
		c.fail("anchor", "sarflags.Cliflags.Timeout", "", "the interval between beacons is not a number")
		return nil, nil
	}
	st.assumeGE(linAddC(iv.L, -1))
	st.assumeGE(linSub(linC(1000000), iv.L))
	o.V = m
	st.setObj(&o)
	return st, iv.L
}

func checkC31(c *Ctx) {
	c.e.onRec = c.recursion()
	defer func() { c.e.onRec = nil }()
	f := c.e.fn("sarwin.Run")
	if f == nil || len(f.Params) != 2 {
		c.fail("anchor", "sarwin.Run", "", "the interpreter of command lines was not found")
		return
	}
	t := c.e.typ("sarflags.Cliflags")
	a := []string{"10.0.0.1", "10.0.0.2", "fe80::1"}
	counts := []int64{1, 2, 3, 20}
	if c.tier == "thorough" {
		counts = append(counts, 4, 5, 60)
	}
	lines := []struct {
		line string
		to   []string // texts of addresses, or settings
	}{
		{"beacon v4", []string{"V4Multicast"}}, {"beacon v6", []string{"V6Multicast"}},
		{"beacon " + a[0], a[:1]}, {"beacon " + a[2], a[2:]}, {"beacon " + a[0] + " " + a[1], a[:2]}, {"beacon " + strings.Join(a, " "), a},
		{"beacon", nil}, {"beacon ?", nil}, {"beacon off", nil}, {"beacon off " + a[0], nil}, {"beacon off " + a[0] + " " + a[1], nil},
	}
	sent := map[string]int{}
	defer func(old func(*ssa.Function, map[*ssa.BasicBlock]bool) bool, turns int) {
		c.e.unroll, c.e.turns = old, turns
	}(c.e.unroll, c.e.turns)
	c.manyBeacons("beacon v4", []int64{200, 300, 40000, 70000, 3000000000})
	c.e.turns = int(counts[len(counts)-1]) + 2
	c.e.unroll = func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool {
		return c.e.bodyHas(body, func(in ssa.Instruction) bool { return isWrite(callName(in)) })
	}
	for _, l := range lines {
		for _, n := range counts {
			if n > 3 && len(l.to) != 1 {
				continue
			}
			st, iv := c.beaconState(n)
			if st == nil {
				return
			}
			con := fmt.Sprintf("%s, %d configured", l.line, n)
			// the texts asked for
			set := fieldsOf(st, c, t, l.to)
			c.withHook(c.hooks(c.beaconHook(), c.localHook(), c.guiHook()), func() {
				c.e.maxIn, c.e.maxOut = 200, 400
				for _, o := range c.run(con, st, "sarwin.Run", c.gui(), strC(l.line)) {
					if o.exit != "" {
						c.ok("runs", con, o.exit == "block", "the command ends with %s", o.exit)
						continue
					}
					from := &beaconRun{text: make([]Seq, len(set)), no: make([]bool, len(set))}
					for _, r := range c.beaconsOf(con, o, from, set, n, iv) {
						sent[l.line] += r.sent
						for i, w := range set {
							if r.failed || r.no[i] || r.text[i] == nil && r.anyNo() {
								continue
							}
							c.ok("each", con, r.by[i] == 1, "%d activities send the beacons to %s instead of one", r.by[i], strText(w))
						}
					}
				}
			})
		}
	}
	for _, l := range lines {
		if len(l.to) > 0 {
			c.ok("sends", l.line, sent[l.line] > 0, "%s never sends a beacon", l.line)
		}
	}
}

// manyBeacons: the numbers of beacons that do not fit the smaller integers.
// The loop that sends them is taken for any number of turns; the frames are
// counted in an object of the program's state. Only a count that cannot be the
// configured one is reported, as this leaves open what a loop with its end in
// the middle counts to.
func (c *Ctx) manyBeacons(line string, counts []int64) {
	writes := func(in ssa.Instruction) bool { return isWrite(callName(in)) }
	old := c.e.brief
	defer func() { c.e.brief = old }()
	c.e.brief = func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool { return c.e.bodyHas(body, writes) }
	t := types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "Sent", types.Typ[types.Int], false)}, nil)
	for _, n := range counts {
		st, _ := c.beaconState(n)
		if st == nil {
			return
		}
		count := c.alloc(st, t, &StructV{F: []Val{&IntV{linC(0)}}}, "frames sent")
		sent := func(s *State) *Lin { return c.field(s, count, "Sent").(*IntV).L }
		con := fmt.Sprintf("%s, %d configured", line, n)
		write := func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
			if isWrite(name) {
				c.setField(s, count, "Sent", &IntV{linAddC(sent(s), 1)})
			}
			return nil, false
		}
		failed := func(s *State) bool {
			for _, v := range s.events() {
				if k := len(v.Res); k > 0 && isErrVal(v.Res[k-1]) && sureErr(s, v.Res[k-1]) {
					return true
				}
			}
			return false
		}
		c.withHook(c.hooks(write, c.beaconHook(), c.localHook(), c.guiHook()), func() {
			c.e.maxIn, c.e.maxOut = 200, 400
			var each func(o *Outcome)
			each = func(o *Outcome) {
				for _, v := range o.st.events() {
					if o.exit != "" || v.Kind != "go" || v.Fn == nil || v.Fn.Fn == nil || !c.e.isRepo(v.Fn.Fn) {
						continue
					}
					s := o.st.clone()
					s.ev = nil
					c.setField(s, count, "Sent", &IntV{linC(0)})
					sends := c.e.reaches(v.Fn.Fn, writes)
					for _, h := range c.runFn(con+": "+shortName(v.Fn.Fn.String()), s, v.Fn.Fn, v.Fn.Bind, v.Args...) {
						// one frame: an activity for each
						if h.exit == "" && sends && !failed(o.st) && !failed(h.st) && !h.st.proveEQ(sent(h.st), linC(1)) && !starts(h.st) {
							c.ok("number", con, !h.st.proveNE(sent(h.st), linC(n)), "the number of beacons sent by %s is not the configured one", shortName(v.Fn.Fn.String()))
						}
						each(h)
					}
				}
			}
			for _, o := range c.run(con, st, "sarwin.Run", c.gui(), strC(line)) {
				each(o)
			}
		})
	}
}

// starts: an activity was started.
func starts(s *State) bool {
	for _, v := range s.events() {
		if v.Kind == "go" {
			return true
		}
	}
	return false
}

// fieldsOf: the texts, or the settings of that name.
func fieldsOf(st *State, c *Ctx, t types.Type, ws []string) []*StrV {
	var r []*StrV
	for _, w := range ws {
		if i := fieldIdx(t, w); i >= 0 {
			v := c.e.load(st, &PtrV{Obj: c.e.global(c.e.globalVar("sarflags.Cliflag"))}, types.NewPointer(t))
			if p, ok := v.(*PtrV); ok {
				if x, ok := c.field(st, p, w).(*StrV); ok {
					r = append(r, x)
					continue
				}
			}
			c.fail("anchor", "sarflags.Cliflags."+w, "", "the setting "+w+" was not found")
			continue
		}
		r = append(r, strC(w))
	}
	return r
}

// beaconRun: what one path of an activity and of those it starts amounts to.
type beaconRun struct {
	text   []Seq  // the addresses asked for, when they are known to be some
	no     []bool // the text is no address
	by     []int  // activities sending to it
	sent   int
	failed bool // an operation failed
}

func (r *beaconRun) key() string {
	k := fmt.Sprint(r.no, r.by, r.sent, r.failed)
	for _, t := range r.text {
		k += "|"
		if t != nil {
			k += t.key()
		}
	}
	return k
}

func (r *beaconRun) anyNo() bool {
	for _, x := range r.no {
		if x {
			return true
		}
	}
	return false
}

// beaconsOf decides one path of an activity, and those it starts.
func (c *Ctx) beaconsOf(con string, o *Outcome, from *beaconRun, want []*StrV, n int64, iv *Lin) []*beaconRun {
	base := &beaconRun{text: append([]Seq{}, from.text...), no: append([]bool{}, from.no...), by: make([]int, len(want))}
	for _, v := range o.st.events() {
		if v.Kind != "address" {
			continue
		}
		for i, w := range want {
			if s, ok := v.Args[0].(*StrV); ok && o.st.seqEqual(s.S, w.S) == 1 {
				if sureErr(o.st, v.Res[1]) {
					base.no[i] = true
				} else if q, ok := c.addrText(o.st, v.Res[0]); ok {
					base.text[i] = q
				}
			}
		}
	}
	c.timetable(con, o, base, n, iv)
	runs := []*beaconRun{base}
	for _, v := range o.st.events() {
		if v.Kind != "go" || v.Fn == nil || v.Fn.Fn == nil || !c.e.isRepo(v.Fn.Fn) {
			continue
		}
		s := o.st.clone()
		s.ev = nil
		alts := map[string]*beaconRun{}
		for _, h := range c.runFn(con+": "+shortName(v.Fn.Fn.String()), s, v.Fn.Fn, v.Fn.Bind, v.Args...) {
			if h.exit != "" {
				c.ok("runs", con, h.exit == "block", "sending beacons ends with %s", h.exit)
				continue
			}
			for _, x := range c.beaconsOf(con, h, base, want, n, iv) {
				alts[x.key()] = x
			}
		}
		var next []*beaconRun
		for _, k := range sortedKeys(alts) {
			x := alts[k]
			for _, r := range runs {
				y := &beaconRun{text: append([]Seq{}, x.text...), sent: x.sent + r.sent, failed: x.failed || r.failed}
				for i := range want {
					y.by = append(y.by, x.by[i]+r.by[i])
					y.no = append(y.no, x.no[i] || r.no[i])
					if y.text[i] == nil {
						y.text[i] = r.text[i]
					}
				}
				next = append(next, y)
			}
		}
		runs = next
	}
	return runs
}

// isErrVal: an interface value which is an error when it is not nil.
func isErrVal(v Val) bool {
	i, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	if i.T != nil {
		return types.Implements(i.T, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	}
	return strings.HasPrefix(i.Sym, "err:")
}

func strText(v *StrV) string {
	if s, ok := v.S.constStr(); ok {
		return s
	}
	return "the configured multicast address"
}

// timetable decides one path of an activity: what it sends where and when.
func (c *Ctx) timetable(con string, h *Outcome, r *beaconRun, n int64, iv *Lin) {
	texts := r.text
	sent := map[int]int{}
	last := map[int]bool{}
	waited := map[int]*Lin{}
	failed := false
	var tick *Lin
	conns := map[string]int{} // connection -> address
	all := -2
	wait := func(d *Lin) {
		for i := range last {
			waited[i] = linAdd(waited[i], d)
		}
	}
	place := func(v Val) int {
		for {
			x, ok := v.(*IfaceV)
			if !ok || x.V == nil {
				break
			}
			v = x.V
		}
		p, ok := v.(*PtrV)
		if !ok {
			return -1
		}
		q, ok := c.addrText(h.st, p)
		if !ok {
			return -1
		}
		for i, t := range texts {
			if t != nil && h.st.seqEqual(q, t) == 1 {
				return i
			}
		}
		return -1
	}
	for _, v := range h.st.events() {
		if v.Kind == "recv" && tick != nil {
			wait(tick)
			continue
		}
		if v.Kind != "call" {
			continue
		}
		var d *Lin
		if len(v.Args) > 0 {
			if x, ok := v.Args[0].(*IntV); ok {
				d = x.L
			}
		}
		switch v.Name {
		case "time.Sleep", "time.After", "time.NewTimer":
			if d != nil {
				wait(d)
			}
			continue
		case "time.NewTicker", "time.Tick":
			tick = d
			continue
		}
		if k := len(v.Res); k > 0 && isErrVal(v.Res[k-1]) && sureErr(h.st, v.Res[k-1]) {
			failed = true
		}
		if strings.HasPrefix(v.Name, "net.Dial") && len(v.Res) == 2 && !sureErr(h.st, v.Res[1]) {
			at := -1
			for _, x := range v.Args {
				if i := place(x); i >= 0 {
					at = i
				}
			}
			conns[argsKey(h.st, v.Res[:1])] = at
			if all == -2 {
				all = at
			} else {
				all = -1
			}
		}
		if isWrite(v.Name) && len(v.Res) == 2 {
			at, ok := -1, false
			for _, x := range v.Args[1:] {
				if i := place(x); i >= 0 {
					at, ok = i, true
				}
			}
			if !ok {
				if at, ok = conns[argsKey(h.st, v.Args[:1])]; !ok {
					at = all
				}
			}
			c.ok("addressee", con, at >= 0, "a frame is sent to an address not asked for, at %s", c.e.pos(v.Pos))
			if at < 0 {
				continue
			}
			if last[at] {
				w := waited[at]
				c.ok("interval", con, w != nil && h.st.proveEQ(w, linMul(iv, big.NewInt(1000000000))), "the wait before the beacon sent at %s is not the configured interval", c.e.pos(v.Pos))
			}
			last[at] = true
			waited[at] = linC(0)
			sent[at]++
			if w, ok := v.Res[0].(*IntV); ok {
				for _, x := range v.Args {
					if b, ok := x.(*SliceV); ok && h.st.proveNE(b.Len, w.L) {
						failed = true // a short write
					}
				}
			}
		}
	}
	for _, k := range sent {
		c.ok("count", con, int64(k) == n || failed && int64(k) < n, "%d beacons are sent instead of %d", k, n)
	}
	for i, k := range sent {
		r.by[i]++
		r.sent += k
	}
	r.failed = r.failed || failed
}
