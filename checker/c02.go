package main

import (
	"fmt"
)

func init() {
	checks["C02"] = &checkDef{run: checkC02, min: 400, crash: true,
		rule: "Abstract interpretation of each encoder over unknown frame contents, partitioned by the flags that decide the layout, followed by the matching decoder on the bytes produced, into a receiver of unknown previous contents: every field read back is proved equal to the one encoded."}
	checks["C03"] = &checkDef{run: checkC03, min: 60, crash: true,
		rule: "Abstract interpretation of each encoder over unknown frame contents: the byte sequence returned is compared, as a sequence of segments, with the published layout for that flag partition."}
	checks["C04"] = &checkDef{run: checkC04, min: 150, crash: true,
		rule: "Abstract interpretation of each encoder over unknown numbers: every successful outcome is proved to imply that each number fits the width announced, and under the assumption that all fit no refusing outcome is feasible."}
}

// encode runs the encoder of a scenario and splits the outcomes.
func (c *Ctx) encode(s *codecScen, st *State) (ok []*Outcome, seqs []Seq, bad []*Outcome) {
	outs := c.method(st, s.name, s.f.enc, s.p)
	for _, o := range outs {
		if !c.ok("no-exit", s.f.enc, o.exit == "", "encoding can end the process (%s)", s.name) {
			continue
		}
		if len(o.ret) == 2 && !sureNil(o.st, o.ret[1]) {
			if !isErr(o.st, o.ret[1]) {
				c.ok("decided", s.f.enc, false, "outcome of encoding unknown (%s)", s.name)
			}
			bad = append(bad, o)
			continue
		}
		sl, isS := o.ret[0].(*SliceV)
		if !c.ok("bytes", s.f.enc, isS, "result is not a known byte slice (%s)", s.name) {
			continue
		}
		q, got := o.st.sliceSeq(sl)
		if !c.ok("bytes", s.f.enc, got, "contents of the result are unknown (%s)", s.name) {
			continue
		}
		ok = append(ok, o)
		seqs = append(seqs, q)
	}
	return
}

func checkC02(c *Ctx) {
	for _, s := range c.codecScenarios() {
		if s.refuse {
			continue
		}
		ok, _, _ := c.encode(s, s.st)
		c.ok("encodes", s.f.enc+"/"+s.name, len(ok) > 0, "no value can be encoded")
		for _, o := range ok {
			st := o.st.clone()
			q := c.symAlloc(st, s.f.typ, "prev")
			if s.f.name == "dirent" || s.f.name == "metadata" {
				// the receiver's old contents are unknown
			}
			outs := c.method(st, s.name+" decode", s.f.dec, q, o.ret[0])
			n := 0
			for _, d := range outs {
				con := s.f.dec + "/" + s.name
				if !c.ok("decodes", con, d.exit == "" && sureNil(d.st, d.ret[0]), "an encoded frame is refused by the decoder") {
					continue
				}
				n++
				t := c.e.typ(s.f.typ)
				for _, fl := range s.cmp {
					want := c.field(o.st, s.p, fl)
					got := c.field(d.st, q, fl)
					c.ok("roundtrip", con+"."+fl, got != nil && c.same(d.st, want, got, nil), "field %s of %s is not what was encoded: %s instead of %s", fl, t, short(got), short(want))
				}
			}
			c.ok("decodes", s.f.dec+"/"+s.name, n > 0, "no decoding outcome")
		}
	}
	// timestamps: the wire form of each type
	for _, ts := range sortedKeys(c.tables.Timestamp.Options) {
		st := c.st0.clone()
		tv, _ := c.tsVal(st, ts, "ts")
		tt := c.e.typ("timestamp.Timestamp")
		p := c.alloc(st, tt, tv, "ts")
		for _, o := range c.method(st, "timestamp/"+ts, "timestamp.Timestamp.Put", p) {
			q := c.symAlloc(o.st, "timestamp.Timestamp", "prevts")
			for _, d := range c.method(o.st, "timestamp/"+ts+" get", "timestamp.Timestamp.Get", q, o.ret[0]) {
				con := "timestamp.Timestamp.Get/" + ts
				if !c.ok("decodes", con, d.exit == "" && sureNil(d.st, d.ret[0]), "an encoded timestamp is refused") {
					continue
				}
				got := d.st.obj(q.Obj).V
				c.ok("roundtrip", con, c.same(d.st, tv, got, nil), "timestamp reads back as %s instead of %s", short(got), short(tv))
			}
		}
	}
}

func checkC03(c *Ctx) {
	for _, s := range c.codecScenarios() {
		if s.refuse {
			continue
		}
		ok, seqs, _ := c.encode(s, s.st)
		c.ok("encodes", s.f.enc+"/"+s.name, len(ok) > 0, "no value can be encoded")
		for i, o := range ok {
			c.ok("length", s.f.enc+"/"+s.name, o.st.proveEQ(seqLen(seqs[i]), seqLen(s.layout)), "frame is %s bytes long instead of %s", seqLen(seqs[i]), seqLen(s.layout))
			c.ok("layout", s.f.enc+"/"+s.name, o.st.seqEqual(seqs[i], s.layout) == 1, "bytes are %s instead of %s", o.st.normSeq(seqs[i]), s.layout)
		}
	}
	for _, ts := range sortedKeys(c.tables.Timestamp.Options) {
		st := c.st0.clone()
		tv, lay := c.tsVal(st, ts, "ts")
		p := c.alloc(st, c.e.typ("timestamp.Timestamp"), tv, "ts")
		outs := c.method(st, "timestamp/"+ts, "timestamp.Timestamp.Put", p)
		c.ok("encodes", "timestamp.Timestamp.Put/"+ts, len(outs) > 0, "no outcome")
		for _, o := range outs {
			con := "timestamp.Timestamp.Put/" + ts
			sl, isS := o.ret[0].(*SliceV)
			if !c.ok("bytes", con, isS, "result unknown") {
				continue
			}
			q, got := o.st.sliceSeq(sl)
			c.ok("layout", con, got && o.st.seqEqual(q, lay) == 1, "bytes are %s instead of %s", q, lay)
		}
	}
	// the wire form of any timestamp whatsoever is sixteen bytes
	st := c.st0.clone()
	p := c.symAlloc(st, "timestamp.Timestamp", "anyts")
	for _, o := range c.method(st, "timestamp/any", "timestamp.Timestamp.Put", p) {
		sl, isS := o.ret[0].(*SliceV)
		c.ok("length", "timestamp.Timestamp.Put", isS && o.st.proveEQ(sl.Len, linC(16)), "wire form is not sixteen bytes")
	}
}

func checkC04(c *Ctx) {
	for _, s := range c.codecScenarios() {
		con := s.f.enc + "/" + s.name
		ok, seqs, bad := c.encode(s, s.st)
		if s.refuse {
			c.ok("refused", con, len(ok) == 0 && len(bad) > 0, "a frame with an unsupported descriptor is encoded")
			continue
		}
		_ = seqs
		for _, o := range ok {
			for _, nf := range s.nums {
				c.ok("fits", con+"."+nf.name, o.st.proveGE(nf.l) && o.st.proveGE(linSub(linB(maxOf(nf.n)), nf.l)), "%s is encoded in %d bytes although it may not fit", nf.name, nf.n)
			}
			if s.holes != nil {
				st := o.st.clone()
				k := linA(freshAtom("anyk", bigZero, maxLen))
				st.assumeGE(linAddC(linSub(s.holes.Len, k), -1))
				st.instForall(s.holes, k)
				a, b := c.holeVals(s.holes, k)
				for i, l := range []*Lin{a, b} {
					c.ok("fits", fmt.Sprintf("%s.Holes.%d", con, i), st.dead || st.proveGE(l) && st.proveGE(linSub(linB(maxOf(s.hn)), l)), "a hole boundary is encoded in %d bytes although it may not fit", s.hn)
				}
			}
		}
		c.ok("accepted", con, len(ok) > 0, "nothing can be encoded")
		// everything fits: no refusal
		st := s.st.clone()
		for _, nf := range s.nums {
			st.assumeGE(linSub(linB(maxOf(nf.n)), nf.l))
		}
		if s.valid != nil {
			s.valid(st)
		}
		c.ok("accepted", con, !st.dead, "internal: contradictory scenario")
		_, _, bad2 := c.encode(s, st)
		for _, o := range bad2 {
			c.ok("accepted", con, false, "a frame whose values all fit is refused: %s", short(o.ret[1]))
		}
		c.ok("accepted", con, true, "")
	}
	// any header whose descriptor is none of the supported ones is refused
	for _, f := range frameTypes {
		var fl FlagT
		bits := 32
		switch f.name {
		case "data", "status":
			fl = c.header("", "descriptor")
		case "dirent":
			fl, bits = c.tables.Dirent["descriptor"], 16
		case "beacon":
			fl = c.header("", "freespaced")
		default:
			continue
		}
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, "x"+f.name)
		h := c.intField(st, p, "Header")
		if f.name == "beacon" {
			c.setFlag(st, h, bits, c.header("", "freespace"), "yes")
		}
		v, _ := st.fieldGet(h, bits, fl.Msb, fl.Len)
		for d := range descWidth {
			st.assumeNE(linSub(v, linC(int64(fl.Options[d]))))
		}
		if st.dead {
			continue
		}
		s := &codecScen{name: f.name + "/unsupported", f: f, st: st, p: p}
		ok, _, bad := c.encode(s, st)
		c.ok("refused", f.enc+"/unsupported", len(ok) == 0 && len(bad) > 0, "a frame with no supported descriptor is encoded")
	}
}
