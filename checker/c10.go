package main

// C10: timestamps.

import (
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = &checkDef{run: checkC10, min: 100,
		rule: "Abstract interpretation of New, Now, Put, Get, Secs and Print for every timestamp type of the flag table on an unknown instant (any representable seconds and nanoseconds) and a receiver of unknown previous contents: stored seconds and nanoseconds are proved equal to the instant's, an error is proved to mean that the seconds do not fit, the wire form is proved sixteen bytes long and to read back the same, and the printed time is proved to be the stored instant in UTC, in a layout that shows every part of it. A local text read from any bytes is written and read again as the same text."}
}

const epoch2000 = 946684800

func checkC10(c *Ctx) {
	t := c.e.typ("timestamp.Timestamp")
	if t == nil {
		c.fail("anchor", "timestamp.Timestamp", "", "not found")
		return
	}
	T := "timestamp.Timestamp."
	sec := linA(mkAtom("instant.sec", minTimeSec, maxTimeSec))
	nsec := linA(mkAtom("instant.nsec", bigZero, big.NewInt(999999999)))
	inst := &TimeV{Sec: sec, Nsec: nsec}
	old := c.e.hook
	c.e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if name == "time.Now" {
			return ret(s, inst), true
		}
		return nil, false
	}
	defer func() { c.e.hook = old }()
	for _, typ := range sortedKeys(c.tables.Timestamp.Options) {
		narrow := strings.HasPrefix(typ, "posix32") || typ == "epoch2000_32"
		nano := strings.HasSuffix(typ, "_32") && typ != "epoch2000_32"
		local := typ == "localinterp"
		base := int64(0)
		if typ == "epoch2000_32" {
			base = epoch2000
		}
		rel := linAddC(sec, -base)
		for _, fn := range []string{"New", "Now"} {
			con := T + fn + "(" + typ + ")"
			st := c.st0.clone()
			p := c.symAlloc(st, "timestamp.Timestamp", "old")
			args := []Val{strC(typ)}
			if fn == "New" {
				args = append(args, inst)
			}
			n := 0
			for _, o := range c.method(st, con, T+fn, p, args...) {
				if !c.ok("returns", con, o.exit == "", "ends by %s", o.exit) {
					continue
				}
				if isErr(o.st, o.ret[0]) {
					f := o.st.clone()
					if narrow {
						f.assumeGE(rel)
						f.assumeGE(linSub(linB(maxOf(4)), rel))
					}
					c.ok("fits", con, f.dead || f.contradictory(), "an instant whose seconds fit is refused")
					continue
				}
				if !c.ok("result", con, sureNil(o.st, o.ret[0]), "neither surely an error nor surely success") {
					continue
				}
				n++
				c.tsCheck(o, p, con, typ, rel, sec, nsec, narrow, nano, local)
			}
			c.ok("accepted", con, n > 0, "never succeeds")
		}
	}
	// unknown types
	for _, bad := range []string{"", "posix16", "yes", "posix32,posix64", "Posix32", "timestamp=posix32"} {
		if _, ok := c.tables.Timestamp.Options[bad]; ok {
			continue
		}
		con := T + "New(" + bad + ")"
		st := c.st0.clone()
		p := c.symAlloc(st, "timestamp.Timestamp", "old")
		for _, o := range c.method(st, con, T+"New", p, strC(bad), inst) {
			c.ok("refused", con, o.exit == "" && isErr(o.st, o.ret[0]), "an undefined timestamp type is accepted")
		}
	}
	// any timestamp at all is written as sixteen bytes, and Secs is its seconds
	st := c.st0.clone()
	p := c.symAlloc(st, "timestamp.Timestamp", "any")
	for _, o := range c.method(st, T+"Put any", T+"Put", p) {
		s, ok := o.ret[0].(*SliceV)
		c.ok("sixteen", T+"Put", o.exit == "" && ok && o.st.proveEQ(s.Len, linC(16)), "the wire form is not always sixteen bytes")
	}
	// local text from anyone survives being written and read again
	if code, ok := c.tables.Timestamp.Options["localinterp"]; ok {
		con := T + "Get(localinterp)"
		st := c.st0.clone()
		b := c.e.sym(types.NewSlice(types.Typ[types.Byte]), "wire").(*SliceV)
		_ = code
		p := c.symAlloc(st, "timestamp.Timestamp", "rx")
		for _, o := range c.method(st, con, T+"Get", p, b) {
			if o.exit != "" || !sureNil(o.st, o.ret[0]) {
				continue
			}
			for _, w := range c.method(o.st, con+" Put", T+"Put", p) {
				q := c.symAlloc(w.st, "timestamp.Timestamp", "again")
				for _, r := range c.method(w.st, con+" Get", T+"Get", q, w.ret[0]) {
					for _, f := range []string{"header", "secs", "nsecs", "local"} {
						x, y := c.field(r.st, p, f), c.field(r.st, q, f)
						c.ok("again", con+"."+f, sureNil(r.st, r.ret[0]) && c.same(r.st, x, y, nil), "%s is %s when written and read again, not %s", f, short(y), short(x))
					}
				}
			}
		}
	}
	for _, o := range c.method(st, T+"Secs any", T+"Secs", p) {
		v, ok := o.ret[0].(*IntV)
		w, ok2 := c.field(o.st, p, "secs").(*IntV)
		c.ok("secs", T+"Secs", ok && ok2 && o.st.proveEQ(v.L, w.L), "Secs is not the stored seconds")
	}
}

// contradictory: two facts exclude each other (the state is not marked dead yet).
func (st *State) contradictory() bool {
	return st.proveGE(linC(-1))
}

func (c *Ctx) tsCheck(o *Outcome, p *PtrV, con, typ string, rel, sec, nsec *Lin, narrow, nano, local bool) {
	T := "timestamp.Timestamp."
	st := o.st
	get := func(s *State, q *PtrV, f string) *Lin {
		if v, ok := c.field(s, q, f).(*IntV); ok {
			return v.L
		}
		c.fail("anchor", T+f, "", "field not found")
		return linC(-77)
	}
	wantS, wantN := rel, linC(0)
	if nano {
		wantN = nsec
	}
	if local {
		wantS = linC(0)
	}
	code := linC(int64(c.tables.Timestamp.Options[typ]))
	hd, ok := st.fieldGet(get(st, p, "header"), 8, c.tables.Timestamp.Msb, c.tables.Timestamp.Len)
	c.ok("type", con, ok && st.proveEQ(hd, code), "the type is not %s", typ)
	s := get(st, p, "secs")
	good := st.proveEQ(s, wantS)
	if !good && !narrow && !local {
		// two's complement of a negative count
		good = st.proveEQ(s, linAdd(wantS, linB(pow2(64))))
	}
	c.ok("seconds", con, good, "the seconds are %s instead of %s", st.norm(s), wantS)
	c.ok("nanoseconds", con, st.proveEQ(get(st, p, "nsecs"), wantN), "the nanoseconds are %s instead of %s", st.norm(get(st, p, "nsecs")), wantN)
	if narrow {
		c.ok("fits", con, st.proveGE(rel) && st.proveGE(linSub(linB(maxOf(4)), rel)), "seconds that do not fit are accepted")
	}
	// wire and back
	for _, w := range c.method(st, con+" Put", T+"Put", p) {
		b, ok := w.ret[0].(*SliceV)
		if !c.ok("sixteen", con, w.exit == "" && ok && w.st.proveEQ(b.Len, linC(16)), "the wire form is not sixteen bytes") {
			continue
		}
		s2 := w.st
		q := c.symAlloc(s2, "timestamp.Timestamp", "rx")
		n := 0
		for _, r := range c.method(s2, con+" Get", T+"Get", q, b) {
			if !c.ok("reads", con, r.exit == "" && sureNil(r.st, r.ret[0]), "the wire form is refused when read back") {
				continue
			}
			n++
			for _, f := range []string{"header", "secs", "nsecs", "local"} {
				x, y := c.field(r.st, p, f), c.field(r.st, q, f)
				c.ok("roundtrip", con+"."+f, x != nil && y != nil && c.same(r.st, x, y, nil), "%s read back is %s instead of %s", f, short(y), short(x))
			}
		}
		c.ok("reads", con, n > 0, "never read back")
	}
	// printing
	f := c.e.fn(T + "Print")
	for _, w := range c.runFn(con+" Print", st, f, nil, c.recv(st, f, p)) {
		if !c.ok("prints", con, w.exit == "", "printing ends by %s", w.exit) {
			continue
		}
		sv, _ := w.ret[0].(*StrV)
		if local {
			l, _ := c.field(w.st, p, "local").(*StrV)
			c.ok("prints", con, sv != nil && l != nil && w.st.seqEqual(sv.S, l.S) == 1, "the local text is not what is printed")
			continue
		}
		var tm *TimeV
		lay := ""
		for _, pc := range w.st.normSeq(sv.S) {
			if pc.K == pSrc && pc.Src.op == "format" {
				tm, _ = pc.Src.args[0].(*TimeV)
				lay += " " + pc.Src.path
			}
		}
		if !c.ok("prints", con, tm != nil, "the printed text is not a formatted time: %s", short(w.ret[0])) {
			continue
		}
		eq := w.st.proveEQ(tm.Sec, sec) || w.st.proveEQ(tm.Sec, linAdd(sec, linB(pow2(64))))
		c.ok("prints", con, eq, "the printed seconds are %s instead of %s", w.st.norm(tm.Sec), sec)
		c.ok("prints", con, w.st.proveEQ(tm.Nsec, wantN), "the printed nanoseconds are %s instead of %s", w.st.norm(tm.Nsec), wantN)
		c.ok("prints", con, tm.UTC || !strings.Contains(lay, "UTC"), "local time is printed as UTC")
		base := time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
		for _, u := range []struct {
			what string
			then time.Time
		}{{"year", base.AddDate(1, 0, 0)}, {"month", base.AddDate(0, 1, 0)}, {"day", base.AddDate(0, 0, 1)}, {"half of the day", base.Add(12 * time.Hour)},
			{"hour", base.Add(time.Hour)}, {"minute", base.Add(time.Minute)}, {"second", base.Add(time.Second)}} {
			c.ok("prints", con, base.Format(lay) != u.then.Format(lay), "the layout %q does not show the %s", lay, u.what)
		}
		if nano {
			c.ok("prints", con, strings.Contains(lay, ".0") || strings.Contains(lay, ".9"), "the fraction of the second is not printed")
		}
	}
}
