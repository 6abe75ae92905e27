package main

// C08: constructors build exactly the requested frame.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = &checkDef{run: checkC08, min: 2000, crash: true,
		rule: "Abstract interpretation of New and Make of every frame type into a receiver of unknown previous contents with unknown information. The flag strings are every single flag=option, every ordered pair of options of different flags, the full list, blanks, the malformed shapes, and one completely unknown string; the resulting header is compared bit by bit with the requested one and every information item with the field that carries it."}
}

type ctorT struct {
	f     frameT
	info  string            // pkg.Type of the information
	items map[string]string // field of the information -> field of the frame
	base  []string          // flags every string needs
}

var ctors = []ctorT{
	{frameTypes[0], "beacon.Binfo", map[string]string{"Eid": "Eid"}, nil},
	{frameTypes[1], "request.Rinfo", map[string]string{"Session": "Session", "Fname": "Fname", "Auth": "Auth"}, nil},
	{frameTypes[2], "metadata.Minfo", map[string]string{"Session": "Session"}, []string{"csumtype=none", "transfer=file"}},
	{frameTypes[3], "data.Dinfo", map[string]string{"Session": "Session", "Offset": "Offset", "Payload": "Payload"}, nil},
	{frameTypes[4], "status.Sinfo", map[string]string{"Session": "Session", "Progress": "Progress", "Inrespto": "Inrespto", "Holes": "Holes"}, nil},
}

// one flag assignment and what it asks of the header
type flagSet struct {
	text   string
	sets   [][2]string // flag, option in the header
	tstamp string      // timestamp type asked for
	name   string
}

func (c *Ctx) flagSets(ct ctorT) []flagSet {
	var r []flagSet
	for _, n := range c.tables.Frameflags[ct.f.name] {
		fl, ok := c.tables.Flags[n]
		if !ok || n == "version" || n == "frametype" || n == "csumlen" {
			continue
		}
		for _, o := range sortedKeys(fl.Options) {
			fs := flagSet{text: n + "=" + o, name: n, sets: [][2]string{{n, o}}}
			switch {
			case n == "csumtype":
				fs.sets = append(fs.sets, [2]string{"csumlen", o})
			case n == "transfer" && o == "bundle", n == "freespaced" && o == "d128":
				continue // refused, see refused
			case n == "freespaced":
				fs.sets = [][2]string{{"freespace", "yes"}, {n, o}}
			case n == "reqtstamp" && o == "yes":
				fs.tstamp = "posix32"
			case ct.f.name == "metadata" && n == "transfer" && o != "file":
				// depends on what the file is
			}
			r = append(r, fs)
		}
	}
	for _, t := range sortedKeys(c.tables.Timestamp.Options) {
		switch ct.f.name {
		case "status":
			r = append(r, flagSet{text: t, name: "reqtstamp", tstamp: t, sets: [][2]string{{"reqtstamp", "yes"}}})
		case "data":
			r = append(r, flagSet{text: "reqtstamp=" + t, name: "reqtstamp", tstamp: t, sets: [][2]string{{"reqtstamp", "yes"}}})
		}
	}
	return r
}

func (c *Ctx) refused(ct ctorT) []string {
	r := []string{"", ",", "bogus", "descriptor", "descriptor=", "descriptor=bogus", "bogus=yes", "=d32", "=", "descriptor=d32=d32", "descriptor=d32,bogus=yes", "bogus=yes,descriptor=d32", "descriptor=d32,,descriptor=d32", "Descriptor=d32", "descriptor=D32"}
	if ct.f.name == "status" {
		r = append(r, "timestamp=posix32")
	}
	ap := map[string]bool{"version": true, "frametype": true}
	for _, n := range c.tables.Frameflags[ct.f.name] {
		ap[n] = true
	}
	if ct.f.name == "status" {
		ap["stream"] = true
	}
	for _, n := range sortedKeys(c.tables.Flags) {
		if ap[n] {
			continue
		}
		for _, o := range sortedKeys(c.tables.Flags[n].Options) {
			r = append(r, n+"="+o)
		}
	}
	switch ct.f.name {
	case "beacon":
		r = append(r, "freespaced=d128", "freespaced=bogus", "freespace=maybe")
	case "data":
		r = append(r, "transfer=bundle", "reqtstamp=bogus", "reqtstamp=")
	case "metadata":
		r = append(r, "transfer=bundle,csumtype=none", "csumtype=bogus,transfer=file")
	case "status":
		r = append(r, "reqtstamp=bogus", "posix16", "errcode=bogus")
	}
	return r
}

// fileStubs replaces the exported file operations by their contract (any
// result, or an error): what they do is decided by C18 to C21 and C28.
func (c *Ctx) fileStubs() func() {
	old := c.e.hook
	meta, sum, de := c.e.fn("fileio.FileMeta"), c.e.fn("fileio.Checksum"), c.e.fn("dirent.DirEnt.New")
	c.e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if fn == nil {
			return nil, false
		}
		bad := s.clone()
		switch fn {
		case meta:
			t := c.e.typ("fileio.FileMetaData")
			if t == nil {
				return nil, false
			}
			p := c.symAlloc(s, "fileio.FileMetaData", freshKey("meta"))
			if i, ok := c.field(s, p, "Info").(*IfaceV); ok {
				n := *i
				n.MayNil = false
				c.setField(s, p, "Info", &n)
			}
			return append(ret(s, p, nilIface), ret(bad, &PtrV{}, newErr("FileMeta"))...), true
		case sum:
			return append(ret(s, c.e.fresh(types.NewSlice(types.Typ[types.Uint8])), nilIface), ret(bad, nilSlice(), newErr("Checksum"))...), true
		case de:
			c.e.havocVal(s, args[0], 0)
			c.e.havocVal(bad, args[0], 0)
			return append(ret(s, nilIface), ret(bad, newErr("DirEnt.New"))...), true
		}
		return nil, false
	}
	return func() { c.e.hook = old }
}

func checkC08(c *Ctx) {
	defer c.fileStubs()()
	for _, ct := range ctors {
		c.ctorMake(ct)
		sets := c.flagSets(ct)
		var base []flagSet
		for _, b := range ct.base {
			for _, s := range sets {
				if s.text == b {
					base = append(base, s)
				}
			}
		}
		with := func(fs ...flagSet) []flagSet {
			var r []flagSet
			for _, b := range base {
				over := false
				for _, f := range fs {
					if f.name == b.name {
						over = true
					}
				}
				if !over {
					r = append(r, b)
				}
			}
			return append(r, fs...)
		}
		for _, s := range sets {
			c.ctorNew(ct, with(s), ",")
			c.ctorNew(ct, with(s), " , ")
		}
		// ordered pairs; every option at least once each way
		step := 3
		if c.tier == "thorough" {
			step = 1
		}
		n := 0
		for _, a := range sets {
			for _, b := range sets {
				if a.name == b.name || clash(a, b) {
					continue
				}
				if n++; n%step == 0 {
					c.ctorNew(ct, with(a, b), ",")
				}
			}
		}
		// the last option wins
		for i, a := range sets {
			for j, b := range sets {
				if i != j && a.name == b.name && a.tstamp == "" && b.tstamp == "" && a.name != "csumtype" {
					c.ctorNew(ct, with(a, b), ",")
					break
				}
			}
		}
		// everything at once, first and last options
		for _, last := range []bool{false, true} {
			pick := map[string]flagSet{}
			var order []string
			for _, s := range sets {
				if _, ok := pick[s.name]; !ok {
					order = append(order, s.name)
				} else if !last {
					continue
				}
				if s.name == "transfer" && ct.f.name == "metadata" && s.text != "transfer=file" {
					continue
				}
				pick[s.name] = s
			}
			var l []flagSet
			for _, n := range order {
				if n != "freespace" {
					l = append(l, pick[n])
				}
			}
			c.ctorNew(ct, l, ",")
		}
		for _, bad := range c.refused(ct) {
			st, p, info, _ := c.ctorState(ct, "")
			con := ct.f.typ + ".New(" + bad + ")"
			for _, o := range c.method(st, con, ct.f.typ+".New", p, strC(bad), info) {
				if o.exit != "" {
					continue
				}
				c.ok("refused", con, isErr(o.st, o.ret[0]), "the flag string %q is malformed or not applicable to a %s but is accepted", bad, ct.f.name)
			}
		}
		// any string at all
		st, p, info, _ := c.ctorState(ct, "")
		con := ct.f.typ + ".New(unknown flags)"
		for _, o := range c.method(st, con, ct.f.typ+".New", p, c.e.sym(types.Typ[types.String], "flags"), info) {
			c.ok("returns", con, o.exit == "", "ends by %s", o.exit)
			if o.exit == "" && !isErr(o.st, o.ret[0]) {
				c.items(ct, con, o, p, info)
			}
		}
	}
}

func clash(a, b flagSet) bool {
	if a.text == "transfer=stream" && b.name == "csumtype" || b.text == "transfer=stream" && a.name == "csumtype" {
		return true // no checksum of a stream
	}
	in := map[string]bool{}
	for _, s := range a.sets {
		in[s[0]] = true
	}
	for _, s := range b.sets {
		if in[s[0]] {
			return true
		}
	}
	return false
}

// ctorState: a receiver of unknown contents and unknown information. space
// fixes the freespace bit the receiver starts with.
func (c *Ctx) ctorState(ct ctorT, space string) (*State, *PtrV, Val, *Lin) {
	st := c.st0.clone()
	p := c.symAlloc(st, ct.f.typ, "old")
	ip := c.symAlloc(st, ct.info, "info")
	t := c.e.typ(ct.info)
	if t == nil {
		t = types.Typ[types.Int]
	}
	h := c.intField(st, p, "Header")
	if space != "" {
		c.setFlag(st, h, 32, c.tables.Flags["freespace"], space)
	}
	return st, p, &IfaceV{T: types.NewPointer(t), V: ip}, h
}

func (c *Ctx) put(st *State, h *Lin, flag, opt string) *Lin {
	fl, ok := c.tables.Flags[flag]
	v, ok2 := fl.Options[opt]
	if !ok || !ok2 {
		c.fail("anchor", "saratoga.json/"+flag, "", "flag "+flag+" has no option "+opt)
		return h
	}
	r, ok := st.fieldSet(h, 32, fl.Msb, fl.Len, int64(v))
	if !ok {
		return h
	}
	return r
}

func (c *Ctx) ctorNew(ct ctorT, fs []flagSet, sep string) {
	var txt []string
	for _, f := range fs {
		txt = append(txt, f.text)
	}
	flags := strings.Join(txt, sep)
	if sep != "," {
		flags = " " + strings.Replace(flags, "=", " = ", -1) + " "
	}
	starts := []string{""}
	if ct.f.name == "beacon" {
		starts = []string{"no", "yes"}
	}
	for _, space := range starts {
		st, p, info, h := c.ctorState(ct, space)
		h = c.put(st, h, "version", "v1")
		h = c.put(st, h, "frametype", ct.f.name)
		ts := ""
		for _, f := range fs {
			for _, s := range f.sets {
				h = c.put(st, h, s[0], s[1])
			}
			if f.name == "reqtstamp" {
				ts = f.tstamp
			}
		}
		con := fmt.Sprintf("%s.New(%s)", ct.f.typ, flags)
		outs := c.method(st, con+space, ct.f.typ+".New", p, strC(flags), info)
		c.ctorDone(ct, con, outs, p, info, h, ts)
	}
}

func (c *Ctx) ctorMake(ct ctorT) {
	starts := []string{""}
	if ct.f.name == "beacon" {
		starts = []string{"no", "yes"}
	}
	tss := []string{""}
	if ct.f.name == "data" || ct.f.name == "status" {
		tss = []string{"no", "yes"}
	}
	for _, space := range starts {
		for _, rt := range tss {
			st, p, info, _ := c.ctorState(ct, "")
			h := symInt("header", 32)
			if space != "" {
				c.setFlag(st, h, 32, c.tables.Flags["freespace"], space)
			}
			ts := ""
			if rt != "" {
				c.setFlag(st, h, 32, c.tables.Flags["reqtstamp"], rt)
				if rt == "yes" && ct.f.name == "data" {
					ts = "posix32"
				}
			}
			con := ct.f.typ + ".Make"
			outs := c.method(st, con+" "+space+rt, ct.f.typ+".Make", p, &IntV{h}, info)
			w := c.put(st, h, "version", "v1")
			w = c.put(st, w, "frametype", ct.f.name)
			c.ctorDone(ct, con, outs, p, info, w, ts)
		}
	}
}

func (c *Ctx) ctorDone(ct ctorT, con string, outs []*Outcome, p *PtrV, info Val, h *Lin, ts string) {
	n := 0
	for _, o := range outs {
		if !c.ok("returns", con, o.exit == "", "ends by %s", o.exit) {
			continue
		}
		if isErr(o.st, o.ret[0]) {
			continue
		}
		c.ok("result", con, sureNil(o.st, o.ret[0]), "the result is neither surely an error nor surely success")
		n++
		got, _ := c.field(o.st, p, "Header").(*IntV)
		if got == nil {
			c.fail("anchor", ct.f.typ+".Header", "", "header field not found")
			return
		}
		if ct.f.name == "beacon" {
			c.beaconDone(con, o, p, info, h, got.L)
		} else {
			c.ok("header", con, o.st.eqBits(got.L, h, 32), "the header is %s instead of %s", o.st.bitStr(got.L), o.st.bitStr(h))
		}
		c.items(ct, con, o, p, info)
		if ts != "" {
			tv := c.field(o.st, p, "Tstamp")
			th, _ := fieldOf(tv, c.e.typ("timestamp.Timestamp"), "header").(*IntV)
			want := int64(c.tables.Timestamp.Options[ts])
			good := th != nil
			if good {
				w := 8
				if b, ok := o.st.fieldGet(th.L, w, c.tables.Timestamp.Msb, c.tables.Timestamp.Len); !ok || !o.st.proveEQ(b, linC(want)) {
					good = false
				}
			}
			c.ok("timestamp", con, good, "a %s timestamp was asked for but its type is not set", ts)
		}
	}
	c.ok("accepted", con, n > 0, "never succeeds")
}

func (st *State) bitStr(l *Lin) string {
	b, ok := st.toBits(st.norm(l), 32)
	if !ok {
		return l.String()
	}
	s := ""
	for i := len(b) - 1; i >= 0; i-- {
		s += fmt.Sprint(b[i]) + " "
	}
	if len(s) > 900 {
		s = s[:900]
	}
	return s
}

func (c *Ctx) beaconDone(con string, o *Outcome, p *PtrV, info Val, h, got *Lin) {
	st := o.st
	fs, fd := c.tables.Flags["freespace"], c.tables.Flags["freespaced"]
	mask := func(l *Lin) *Lin {
		l, _ = st.fieldSet(l, 32, fs.Msb, fs.Len, 0)
		l, _ = st.fieldSet(l, 32, fd.Msb, fd.Len, 0)
		return l
	}
	asked, _ := st.fieldGet(h, 32, fs.Msb, fs.Len)
	have, _ := st.fieldGet(got, 32, fs.Msb, fs.Len)
	space, _ := c.field(st, p, "Freespace").(*IntV)
	ip, _ := info.(*IfaceV).V.(*PtrV)
	given, _ := c.field(st, ip, "Freespace").(*IntV)
	if asked == nil || have == nil || space == nil || given == nil {
		c.fail("header", con, "", "the freespace bits are not decided")
		return
	}
	no, yes := linC(int64(fs.Options["no"])), linC(int64(fs.Options["yes"]))
	switch {
	case st.proveEQ(asked, no):
		c.ok("header", con, st.eqBits(got, h, 32), "the header is %s instead of %s", st.bitStr(got), st.bitStr(h))
		c.ok("items", con+".Freespace", st.proveEQ(space.L, linC(0)), "no free space is advertised but the value is kept")
	case st.proveEQ(asked, yes):
		c.ok("header", con, st.eqBits(mask(got), mask(h), 32), "the header is %s instead of %s", st.bitStr(got), st.bitStr(h))
		if st.proveEQ(have, no) {
			c.ok("items", con+".Freespace", st.proveEQ(space.L, linC(0)) && st.proveEQ(given.L, linC(0)), "free space was asked for and given but is not advertised")
			return
		}
		c.ok("header", con, st.proveEQ(have, yes), "free space was asked for but its flag is not decided")
		d, _ := st.fieldGet(got, 32, fd.Msb, fd.Len)
		fit := false
		for o, n := range map[string]int{"d16": 2, "d32": 4, "d64": 8} {
			if d != nil && st.proveEQ(d, linC(int64(fd.Options[o]))) && st.proveGE(linSub(linB(maxOf(n)), space.L)) {
				fit = true
			}
		}
		c.ok("items", con+".Freespace", fit, "the free space descriptor is not wide enough for the value")
		if !st.proveEQ(given.L, linC(0)) {
			s2 := st.clone()
			s2.assumeNE(given.L)
			c.ok("items", con+".Freespace", s2.dead || s2.proveEQ(space.L, given.L), "the free space given is not the one carried")
		}
	default:
		c.fail("header", con, "", "the freespace bit is not decided")
	}
}

// items: the information is carried unchanged and not aliased.
func (c *Ctx) items(ct ctorT, con string, o *Outcome, p *PtrV, info Val) {
	ip, _ := info.(*IfaceV).V.(*PtrV)
	t := c.e.typ(ct.f.typ)
	for _, a := range sortedKeys(ct.items) {
		b := ct.items[a]
		x, y := c.field(o.st, ip, a), c.field(o.st, p, b)
		if x == nil || y == nil {
			c.fail("anchor", ct.f.typ+"."+b, "", "field not found")
			continue
		}
		c.ok("items", con+"."+b, c.same(o.st, x, y, nil), "%s of the information is not carried unchanged in %s: %s instead of %s", a, b, short(y), short(x))
	}
	_ = t
}
