package main

// Scenarios shared by C02, C03 and C04: every frame type with unknown contents,
// partitioned by the flags that decide its layout, together with the
// published layout and the range each number has to fit.

import (
	"fmt"
	"go/types"
	"math/big"
)

type numField struct {
	name string
	l    *Lin
	n    int // bytes on the wire
}

type codecScen struct {
	name   string
	f      frameT
	st     *State
	p      *PtrV
	layout Seq
	nums   []numField
	holes  *Src // status: list of holes (Start, End)
	hn     int
	refuse bool         // encoding has to be refused
	valid  func(*State) // assumptions under which encoding has to succeed
	tstamp string       // timestamp type, "" when absent
	cmp    []string     // fields that have to survive
}

var descWidth = map[string]int{"d16": 2, "d32": 4, "d64": 8}

func maxOf(n int) *big.Int { return new(big.Int).Sub(pow2(uint(8*n)), bigOne) }

func beInt(l *Lin, n int) Seq {
	return Seq{{K: pInt, V: l, N: n, Len: linC(int64(n))}}
}
func cat(ss ...Seq) Seq {
	var r Seq
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}

// setFlag assumes that the header word has the option.
func (c *Ctx) setFlag(st *State, w *Lin, bits int, fl FlagT, opt string) {
	v, ok := st.fieldGet(w, bits, fl.Msb, fl.Len)
	if !ok {
		panic("flag field not readable")
	}
	st.assumeEQ(linSub(v, linC(int64(fl.Options[opt]))))
}
func (c *Ctx) clearFlag(st *State, w *Lin, bits int, fl FlagT, opt string) {
	v, _ := st.fieldGet(w, bits, fl.Msb, fl.Len)
	st.assumeNE(linSub(v, linC(int64(fl.Options[opt]))))
}

func (c *Ctx) header(typ, field string) FlagT {
	fl, ok := c.tables.Flags[field]
	if !ok {
		c.fail("anchor", "flags/"+field, "", "flag "+field+" is not in the tables")
	}
	return fl
}

// tsVal: a well-formed timestamp of the given type, as constructed by New.
func (c *Ctx) tsVal(st *State, typ, key string) (Val, Seq) {
	t := c.e.typ("timestamp.Timestamp")
	v := c.e.sym(t, key).(*StructV)
	set := func(f string, x Val) {
		if i := fieldIdx(t, f); i >= 0 {
			v.F[i] = x
		} else if f != "ttype" {
			c.fail("anchor", "timestamp.Timestamp."+f, "", "field not found")
		}
	}
	code := int64(c.tables.Timestamp.Options[typ])
	set("header", &IntV{linC(code)})
	set("ttype", strC(typ))
	set("local", strC(""))
	set("nsecs", &IntV{linC(0)})
	s32 := linA(mkAtom(key+".secs32", bigZero, maxOf(4)))
	s64 := linA(mkAtom(key+".secs64", bigZero, maxOf(8)))
	ns := linA(mkAtom(key+".nano", bigZero, big.NewInt(999999999)))
	head := Seq{{K: pConst, Data: string([]byte{byte(code)}), Len: linC(1)}}
	zero := func(n int64) Seq { return Seq{{K: pZero, Len: linC(n)}} }
	switch typ {
	case "posix32", "epoch2000_32":
		set("secs", &IntV{s32})
		return v, cat(head, beInt(s32, 4), zero(11))
	case "posix64":
		set("secs", &IntV{s64})
		return v, cat(head, beInt(s64, 8), zero(7))
	case "posix32_32":
		set("secs", &IntV{s32})
		set("nsecs", &IntV{ns})
		return v, cat(head, beInt(s32, 4), beInt(ns, 4), zero(7))
	case "posix64_32":
		set("secs", &IntV{s64})
		set("nsecs", &IntV{ns})
		return v, cat(head, beInt(s64, 8), beInt(ns, 4), zero(3))
	}
	set("secs", &IntV{linC(0)})
	set("local", strC(typ))
	return v, cat(head, Seq{{K: pConst, Data: typ, Len: linC(int64(len(typ)))}}, zero(int64(15-len(typ))))
}

func (c *Ctx) setField(st *State, p *PtrV, name string, v Val) {
	o := *st.obj(p.Obj)
	i := fieldIdx(o.T, name)
	if i < 0 {
		c.fail("anchor", o.T.String()+"."+name, "", "field not found")
		return
	}
	sv := c.e.expand(o.V).(*StructV)
	n := &StructV{F: append([]Val(nil), sv.F...)}
	n.F[i] = v
	o.V = n
	st.setObj(&o)
}

func (c *Ctx) intField(st *State, p *PtrV, name string) *Lin {
	if v, ok := c.field(st, p, name).(*IntV); ok {
		return v.L
	}
	c.fail("anchor", name, "", "integer field not found")
	return linC(0)
}

func (c *Ctx) codecScenarios() []*codecScen {
	var r []*codecScen
	hd := func(f frameT, key string) (*State, *PtrV, *Lin) {
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, key)
		return st, p, c.intField(st, p, "Header")
	}
	tsTypes := sortedKeys(c.tables.Timestamp.Options)
	descs := []string{"d16", "d32", "d64", "d128"}
	fd := c.header("", "descriptor")
	ft := c.header("", "reqtstamp")
	ff := c.header("", "freespace")
	ffd := c.header("", "freespaced")
	for _, f := range frameTypes {
		switch f.name {
		case "beacon":
			mk := func(fs string) {
				st, p, h := hd(f, "b")
				eid := c.field(st, p, "Eid").(*StrV)
				s := &codecScen{name: "beacon/" + fs, f: f, st: st, p: p, cmp: []string{"Header", "Freespace", "Eid"}}
				if fs == "none" {
					c.setFlag(st, h, 32, ff, "no")
					// what is advertised when nothing is: zero
					c.setField(st, p, "Freespace", &IntV{linC(0)})
					s.layout = cat(beInt(h, 4), eid.S)
				} else {
					c.setFlag(st, h, 32, ff, "yes")
					c.setFlag(st, h, 32, ffd, fs)
					n, ok := descWidth[fs]
					s.refuse = !ok
					fr := c.intField(st, p, "Freespace")
					s.nums = []numField{{"Freespace", fr, n}}
					if ok {
						s.layout = cat(beInt(h, 4), beInt(fr, n), eid.S)
					}
				}
				r = append(r, s)
			}
			mk("none")
			for _, d := range descs {
				mk(d)
			}
		case "request":
			for _, auth := range []string{"auth", "noauth"} {
				st, p, h := hd(f, "r")
				s := &codecScen{name: "request/" + auth, f: f, st: st, p: p, cmp: []string{"Header", "Session", "Fname", "Auth"}}
				fn := c.field(st, p, "Fname").(*StrV)
				var as Seq
				if auth == "auth" {
					a := c.field(st, p, "Auth").(*SliceV)
					as, _ = st.sliceSeq(a)
					st.assumeGE(linAddC(a.Len, -1))
				} else {
					c.setField(st, p, "Auth", nilSlice())
				}
				s.layout = cat(beInt(h, 4), beInt(c.intField(st, p, "Session"), 4), fn.S, Seq{{K: pZero, Len: linC(1)}}, as)
				s.valid = func(st *State) { c.noNul(st, fn) }
				r = append(r, s)
			}
		case "metadata":
			for _, d := range descs {
				st, p, h := hd(f, "m")
				dv, dl, num, refuse, valid := c.direntVal(st, "m.Dir", d)
				c.setField(st, p, "Dir", dv)
				cs := c.field(st, p, "Checksum").(*SliceV)
				cseq, _ := st.sliceSeq(cs)
				cl := c.header("", "csumlen")
				s := &codecScen{name: "metadata/" + d, f: f, st: st, p: p, cmp: []string{"Header", "Session", "Checksum", "Dir"}, refuse: refuse, nums: []numField{num}}
				s.layout = cat(beInt(h, 4), beInt(c.intField(st, p, "Session"), 4), cseq, dl)
				s.valid = func(st *State) {
					valid(st)
					v, _ := st.fieldGet(h, 32, cl.Msb, cl.Len)
					st.assumeEQ(linSub(cs.Len, linMul(v, big.NewInt(4))))
				}
				r = append(r, s)
			}
		case "dirent":
			for _, d := range descs {
				st := c.st0.clone()
				dv, dl, num, refuse, valid := c.direntVal(st, "de", d)
				p := c.alloc(st, c.e.typ("dirent.DirEnt"), dv, "de")
				r = append(r, &codecScen{name: "dirent/" + d, f: f, st: st, p: p, layout: dl, nums: []numField{num}, refuse: refuse, valid: valid,
					cmp: []string{"Header", "Size", "Mtime", "Ctime", "Path"}})
			}
		case "data", "status":
			for _, d := range descs {
				for _, ts := range append([]string{""}, tsTypes...) {
					st, p, h := hd(f, f.name)
					s := &codecScen{name: f.name + "/" + d + "/" + ts, f: f, st: st, p: p, tstamp: ts, cmp: []string{"Header", "Session"}}
					c.setFlag(st, h, 32, fd, d)
					n, ok := descWidth[d]
					s.refuse = !ok
					if !ok {
						n = 16
					}
					s.layout = cat(beInt(h, 4), beInt(c.intField(st, p, "Session"), 4))
					if ts == "" {
						c.clearFlag(st, h, 32, ft, "yes")
					} else {
						c.setFlag(st, h, 32, ft, "yes")
						tv, tl := c.tsVal(st, ts, f.name+".ts")
						c.setField(st, p, "Tstamp", tv)
						s.layout = cat(s.layout, tl)
						s.cmp = append(s.cmp, "Tstamp")
					}
					if f.name == "data" {
						off := c.intField(st, p, "Offset")
						pl, _ := st.sliceSeq(c.field(st, p, "Payload").(*SliceV))
						s.nums = []numField{{"Offset", off, n}}
						s.layout = cat(s.layout, beInt(off, n), pl)
						s.cmp = append(s.cmp, "Offset", "Payload")
					} else {
						pr, in := c.intField(st, p, "Progress"), c.intField(st, p, "Inrespto")
						hs := c.field(st, p, "Holes").(*SliceV)
						hq, _ := st.sliceSeq(hs)
						src := hq[0].Src
						s.holes, s.hn = src, n
						s.nums = []numField{{"Progress", pr, n}, {"Inrespto", in, n}}
						s.layout = cat(s.layout, beInt(pr, n), beInt(in, n), c.holeLayout(src, n))
						s.cmp = append(s.cmp, "Progress", "Inrespto", "Holes")
						if ok {
							s.valid = func(st *State) { c.holesFit(st, src, n) }
						}
					}
					r = append(r, s)
				}
			}
		}
	}
	return r
}

func (c *Ctx) holeVals(src *Src, k *Lin) (start, end *Lin) {
	v := symElem(src, k, src.Elem, "")
	a, ok1 := fieldOf(v, src.Elem, "Start").(*IntV)
	b, ok2 := fieldOf(v, src.Elem, "End").(*IntV)
	if !ok1 || !ok2 {
		c.fail("anchor", "holes.Hole", "", "fields Start and End not found")
		return linC(0), linC(0)
	}
	return a.L, b.L
}

func (c *Ctx) holeLayout(src *Src, n int) Seq {
	k := freshAtom("hole", bigZero, maxLen)
	a, b := c.holeVals(src, linA(k))
	c.e.nextRep++
	rep := &Rep{id: c.e.nextRep, K: k, M: 2 * n, ok: true, Body: cat(beInt(a, n), beInt(b, n))}
	return Seq{{K: pRep, Rep: rep, Off: linC(0), Len: linMul(src.Len, big.NewInt(int64(2*n)))}}
}

// holesFit: assume that every hole boundary fits n bytes (and an int).
func (c *Ctx) holesFit(st *State, src *Src, n int) {
	k := freshAtom("anyhole", bigZero, maxLen)
	a, b := c.holeVals(src, linA(k))
	m := linB(maxOf(n))
	st.forall = append(st.forall, &Forall{K: k, N: src.Len, Facts: []*Lin{a, b, linSub(m, a), linSub(m, b)}})
}

func (c *Ctx) noNul(st *State, s *StrV) {
	a := c.e.ixAtom(st, s.S, 0)
	st.assumeEQ(linAddC(linA(a), 1))
}

// direntVal: a directory entry of the given descriptor, its layout, and the
// assumptions under which it can be encoded.
func (c *Ctx) direntVal(st *State, key, d string) (Val, Seq, numField, bool, func(*State)) {
	t := c.e.typ("dirent.DirEnt")
	v := c.e.sym(t, key).(*StructV)
	set := func(f string, x Val) { v.F[fieldIdx(t, f)] = x }
	h := v.F[fieldIdx(t, "Header")].(*IntV).L
	c.setFlag(st, h, 16, c.tables.Dirent["descriptor"], d)
	m, _ := c.tsVal(st, "epoch2000_32", key+".m")
	ct, _ := c.tsVal(st, "epoch2000_32", key+".c")
	set("Mtime", m)
	set("Ctime", ct)
	n, ok := descWidth[d]
	if !ok {
		n = 16
	}
	size := v.F[fieldIdx(t, "Size")].(*IntV).L
	path := v.F[fieldIdx(t, "Path")].(*StrV)
	tt := c.e.typ("timestamp.Timestamp")
	lay := cat(beInt(h, 2), beInt(size, n), beInt(fieldOf(m, tt, "secs").(*IntV).L, 4), beInt(fieldOf(ct, tt, "secs").(*IntV).L, 4), path.S, Seq{{K: pZero, Len: linC(1)}})
	valid := func(st *State) {
		c.noNul(st, path)
		st.assumeGE(linSub(linC(1024), seqLen(path.S)))
	}
	return v, lay, numField{"Size", size, n}, !ok, valid
}

// same: two values read from states st are equal, slices by contents.
func (c *Ctx) same(st *State, a, b Val, t types.Type) bool {
	a, b = c.e.expand(a), c.e.expand(b)
	switch x := a.(type) {
	case *IntV:
		y, ok := b.(*IntV)
		return ok && (st.proveEQ(x.L, y.L) || st.eqBits(x.L, y.L, 64))
	case *StrV:
		y, ok := b.(*StrV)
		return ok && st.seqEqual(x.S, y.S) == 1
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok || !st.proveEQ(x.Len, y.Len) {
			return false
		}
		if st.proveEQ(x.Len, linC(0)) {
			return true
		}
		p, o1 := st.sliceSeq(x)
		q, o2 := st.sliceSeq(y)
		return o1 && o2 && st.seqEqual(p, q) == 1
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		var s *types.Struct
		if t != nil {
			s, _ = t.Underlying().(*types.Struct)
		}
		for i := range x.F {
			var ft types.Type
			if s != nil {
				ft = s.Field(i).Type()
			}
			if !c.same(st, x.F[i], y.F[i], ft) {
				return false
			}
		}
		return true
	}
	return valKey(a) == valKey(b) || st.valEqual(a, b)
}

func short(v Val) string {
	s := valStr(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func valStr(v Val) string {
	switch x := v.(type) {
	case *IntV:
		return x.L.String()
	case *StrV:
		return x.S.String()
	case *StructV:
		s := "{"
		for _, f := range x.F {
			s += valStr(f) + ", "
		}
		return s + "}"
	case *SliceV:
		if o := eng.base[x.Arr]; o != nil && o.S != nil {
			return fmt.Sprintf("slice of %s [%s:+%s]", o.S, x.Off, x.Len)
		}
	}
	return valKey(v)
}
