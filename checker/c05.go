package main

// C05: flag accessors are exact bit-field operations.

import (
	"fmt"
	"math/big"
)

func init() {
	checks["C05"] = &checkDef{run: checkC05, min: 300, crash: true,
		rule: "Abstract interpretation of every flag accessor over an unknown word, per field and option of the shipped tables: the result is compared bit by bit with the word in which exactly the field's bits were replaced."}
}

// fieldSet: word l of width w with bits of field (msb,len) replaced by val.
func (st *State) fieldSet(l *Lin, w, msb, n int, val int64) (*Lin, bool) {
	bs, ok := st.toBits(l, w)
	if !ok {
		return nil, false
	}
	sh := w - msb - n
	nb := append([]bit(nil), bs...)
	for i := 0; i < n; i++ {
		nb[sh+i] = bit{c: byte(big.NewInt(val).Bit(i))}
	}
	return fromBits(nb), true
}
func (st *State) fieldGet(l *Lin, w, msb, n int) (*Lin, bool) {
	bs, ok := st.toBits(l, w)
	if !ok {
		return nil, false
	}
	sh := w - msb - n
	return fromBits(bs[sh : sh+n]), true
}

type flagAPI struct {
	kind        string
	w           int
	set, get    string
	names       []string // accessors returning the option's name
	test        string
	fields      map[string]FlagT
	hasField    bool
	good, valid string
}

func checkC05(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 4000
	apis := []flagAPI{
		{kind: "header", w: 32, set: "sarflags.Set", get: "sarflags.Get", names: []string{"sarflags.GetStr", "sarflags.Name"}, test: "sarflags.Test", fields: c.tables.Flags, hasField: true, good: "sarflags.Good", valid: "sarflags.Valid"},
		{kind: "dirent", w: 16, set: "sarflags.SetD", get: "sarflags.GetD", names: []string{"sarflags.GetDStr", "sarflags.NameD"}, test: "sarflags.TestD", fields: c.tables.Dirent, hasField: true, good: "sarflags.GoodD", valid: "sarflags.ValidD"},
		{kind: "timestamp", w: 8, set: "sarflags.SetT", get: "sarflags.GetT", names: []string{"sarflags.GetTStr", "sarflags.NameT"}, fields: map[string]FlagT{"": c.tables.Timestamp}, good: ""},
	}
	for _, a := range apis {
		c.flagAPI(a)
	}
}

func (c *Ctx) flagAPI(a flagAPI) {
	word := symInt("word"+a.kind, uint(a.w))
	args := func(w *Lin, field string, more ...Val) []Val {
		r := []Val{&IntV{w}}
		if a.hasField {
			r = append(r, strC(field))
		}
		return append(r, more...)
	}
	for _, f := range sortedKeys(a.fields) {
		fl := a.fields[f]
		// Get over an unknown word
		gets := c.run(fmt.Sprintf("%s(word,%q)", a.get, f), c.st0, a.get, args(word, f)...)
		c.ok("get", a.get+"/"+f, len(gets) > 0, "no outcome")
		for _, o := range gets {
			want, ok := o.st.fieldGet(word, a.w, fl.Msb, fl.Len)
			iv, isI := o.ret[0].(*IntV)
			c.ok("get", a.get+"/"+f, ok && isI && o.exit == "" && o.st.eqBits(iv.L, want, a.w), "does not read exactly the %d bits from bit %d: %s", fl.Len, fl.Msb, valKey(o.ret[0]))
			c.pure(a.get+"/"+f, o)
		}
		// names over an unknown word: exactly the option whose value is stored, "" otherwise
		for _, n := range a.names {
			outs := c.run(fmt.Sprintf("%s(word,%q)", n, f), c.st0, n, args(word, f)...)
			for _, o := range outs {
				c.pure(n+"/"+f, o)
				s, isC := constStrOf(o.st, o.ret[0])
				v, ok := o.st.fieldGet(word, a.w, fl.Msb, fl.Len)
				if !c.ok("name", n+"/"+f, isC && ok, "result is not one of the option names: %s", valKey(o.ret[0])) {
					continue
				}
				if s == "" {
					for on, ov := range fl.Options {
						c.ok("name", n+"/"+f, o.st.proveNE(v, linC(int64(ov))), "returns no option although option %s may be stored", on)
					}
				} else {
					ov, known := fl.Options[s]
					c.ok("name", n+"/"+f, known && o.st.proveEQ(v, linC(int64(ov))), "returns %q although the field may hold something else", s)
				}
			}
			c.ok("name", n+"/"+f, len(outs) > 0, "no outcome")
		}
		for _, on := range sortedKeys(fl.Options) {
			ov := fl.Options[on]
			con := fmt.Sprintf("%s/%s=%s", a.set, f, on)
			outs := c.run(con, c.st0, a.set, args(word, f, strC(on))...)
			c.ok("set", con, len(outs) > 0, "no outcome")
			for _, o := range outs {
				c.pure(con, o)
				if !c.ok("set", con, o.exit == "" && len(o.ret) == 2 && nilErr(o.ret[1]), "a defined option is refused") {
					continue
				}
				want, ok := o.st.fieldSet(word, a.w, fl.Msb, fl.Len, int64(ov))
				iv, isI := o.ret[0].(*IntV)
				if !c.ok("set", con, ok && isI && o.st.eqBits(iv.L, want, a.w), "does not change exactly the bits of the field: %s", valKey(o.ret[0])) {
					continue
				}
				// reading it back, by value and by name
				for _, g := range c.run(con+" get", o.st, a.get, args(iv.L, f)...) {
					gv, isI := g.ret[0].(*IntV)
					c.ok("set-get", con, isI && g.st.proveEQ(gv.L, linC(int64(ov))), "reads back as %s", valKey(g.ret[0]))
				}
				for _, n := range a.names {
					ns := c.run(con+" "+n, o.st, n, args(iv.L, f)...)
					for _, g := range ns {
						s, isC := constStrOf(g.st, g.ret[0])
						c.ok("set-name", con+"/"+n, isC && s == on, "reads back as %q", s)
					}
					c.ok("set-name", con+"/"+n, len(ns) > 0, "no outcome")
				}
				if a.test != "" {
					for _, tn := range sortedKeys(fl.Options) {
						var ta []Val
						if a.kind == "header" {
							ta = []Val{&IntV{iv.L}, strC(f), &StrV{}, strC(tn)}
						} else {
							ta = []Val{&IntV{iv.L}, strC(f), strC(tn)}
						}
						for _, g := range c.run(con+" test "+tn, o.st, a.test, ta...) {
							bv, isB := g.ret[0].(*BoolV)
							want := 1
							if fl.Options[tn] != ov {
								want = -1
							}
							c.ok("set-test", con+"/"+a.test, isB && g.st.evalBool(bv) == want, "test for %s gives the wrong answer", tn)
						}
					}
				}
			}
			if a.valid != "" {
				for _, o := range c.run(con+" valid", c.st0, a.valid, strC(f), strC(on)) {
					bv, isB := o.ret[0].(*BoolV)
					c.ok("valid", a.valid+"/"+f+"="+on, isB && o.st.evalBool(bv) == 1, "a defined option is not valid")
				}
			}
		}
		// any string as option: accepted exactly when defined
		uo := strSrc(mkSrc("anyoption", nil))
		outs := c.run(fmt.Sprintf("%s(word,%q,any)", a.set, f), c.st0, a.set, args(word, f, uo)...)
		c.setAny(a, f, word, outs, func(s string) bool { _, ok := fl.Options[s]; return ok }, uo)
	}
	if a.hasField {
		uf, uo := strSrc(mkSrc("anyfield", nil)), strSrc(mkSrc("anyoption", nil))
		outs := c.run(a.set+"(word,any,any)", c.st0, a.set, &IntV{word}, uf, uo)
		n := 0
		for _, o := range outs {
			if len(o.ret) == 2 && isErr(o.st, o.ret[1]) {
				n++
				iv, isI := o.ret[0].(*IntV)
				c.ok("unknown", a.set, isI && o.st.proveEQ(iv.L, word), "an error does not leave the word unchanged")
				continue
			}
			fs, ok1 := constStrOf(o.st, uf)
			os, ok2 := constStrOf(o.st, uo)
			_, def := a.fields[fs].Options[os]
			c.ok("unknown", a.set, o.exit == "" && ok1 && ok2 && def && nilErr(o.ret[1]), "an undefined field or option is accepted")
		}
		c.ok("unknown", a.set, n > 0, "no refusing outcome")
		for _, g := range append([]string{a.get}, a.names...) {
			for _, o := range c.run(g+"(word,any)", c.st0, g, &IntV{word}, uf) {
				fs, known := constStrOf(o.st, uf)
				if _, def := a.fields[fs]; known && def {
					continue
				}
				if g == a.get {
					continue
				}
				s, isC := constStrOf(o.st, o.ret[0])
				c.ok("unknown-name", g, isC && s == "", "an unknown field reads as option %q", s)
			}
		}
		for _, o := range c.run(a.good+"(any)", c.st0, a.good, uf) {
			bv, isB := o.ret[0].(*BoolV)
			fs, known := constStrOf(o.st, uf)
			_, def := a.fields[fs]
			want := -1
			if known && def {
				want = 1
			}
			c.ok("good", a.good, isB && o.st.evalBool(bv) == want, "wrong answer about field %q", fs)
		}
		for _, o := range c.run(a.valid+"(any,any)", c.st0, a.valid, uf, uo) {
			bv, isB := o.ret[0].(*BoolV)
			fs, k1 := constStrOf(o.st, uf)
			os, k2 := constStrOf(o.st, uo)
			_, def := a.fields[fs].Options[os]
			want := -1
			if k1 && k2 && def {
				want = 1
			}
			c.ok("valid", a.valid, isB && o.st.evalBool(bv) == want, "wrong answer about %q=%q", fs, os)
		}
	}
}

func (c *Ctx) setAny(a flagAPI, f string, word *Lin, outs []*Outcome, def func(string) bool, uo *StrV) {
	con := a.set + "/" + f + "=?"
	n := 0
	for _, o := range outs {
		if len(o.ret) == 2 && isErr(o.st, o.ret[1]) {
			n++
			iv, isI := o.ret[0].(*IntV)
			c.ok("unknown", con, isI && o.st.proveEQ(iv.L, word), "an error does not leave the word unchanged")
			s, k := constStrOf(o.st, uo)
			c.ok("unknown", con, !(k && def(s)), "the defined option %q is refused", s)
			continue
		}
		s, k := constStrOf(o.st, uo)
		c.ok("unknown", con, o.exit == "" && k && def(s), "an undefined option is accepted")
	}
	c.ok("unknown", con, n > 0, "no refusing outcome")
}

// pure: the outcome changed nothing that existed before the call.
func (c *Ctx) pure(con string, o *Outcome) {
	for _, ch := range changed(c.st0, o.st) {
		c.fail("pure", con, "", "changes "+ch)
	}
	c.oblig++
	c.rules["pure"]++
}
