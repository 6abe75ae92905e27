package main

// C11: received ranges.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["C11"] = &checkDef{run: checkC11, min: 200, crash: true,
		rule: "Induction over the history of received ranges. For every well-formed record (ascending, non-negative, no two entries touching or overlapping) of up to the stated number of entries with unknown boundaries, and an unknown range, abstract interpretation of Add with a case split on every comparison; in every outcome the result is proved well formed and, for an unknown point, membership in the result is proved equivalent to membership in the old record or the non-empty range. Getholes and Lenholes are proved to yield exactly the gaps."}
}

type iv struct{ s, e *Lin }

// fills: a record of n entries with unknown boundaries; spare unused capacity behind it.
func (c *Ctx) fills(st *State, n, spare int) (*SliceV, []iv) {
	t := c.e.typ("holes.Hole")
	prev := linC(-1)
	var el []Val
	var r []iv
	for i := 0; i < n+spare; i++ {
		v := c.e.sym(t, fmt.Sprintf("fill%d", i)).(*StructV)
		el = append(el, v)
		if i >= n {
			continue
		}
		a, b := c.holePair(v, t)
		st.assumeGE(linAddC(linSub(a, prev), -1)) // a > prev
		st.assumeGE(linAddC(linSub(b, a), -1))
		prev = b
		r = append(r, iv{a, b})
	}
	o := st.newObj('a', t, "fills")
	if len(el) > 0 {
		o.S = Seq{{K: pElems, Elems: el, Len: linC(int64(len(el)))}}
	}
	st.setObj(o)
	if n+spare == 0 {
		return nilSlice(), nil
	}
	return &SliceV{Arr: o.id, Off: linC(0), Len: linC(int64(n)), Cap: linC(int64(n + spare)), Nil: 'n'}, r
}

func (c *Ctx) holePair(v Val, t types.Type) (*Lin, *Lin) {
	a, o1 := fieldOf(v, t, "Start").(*IntV)
	b, o2 := fieldOf(v, t, "End").(*IntV)
	if !o1 || !o2 {
		return nil, nil
	}
	return a.L, b.L
}

// list reads back a slice of holes of decided length.
func (c *Ctx) list(st *State, v Val) ([]iv, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := st.norm(s.Len).constInt()
	if !ok {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	q, ok := st.sliceSeq(s)
	if !ok {
		return nil, false
	}
	t := c.e.typ("holes.Hole")
	var r []iv
	for i := 0; i < n; i++ {
		e := st.elemVal(q, linC(int64(i)), t)
		if e == nil {
			return nil, false
		}
		a, b := c.holePair(e, t)
		if a == nil {
			return nil, false
		}
		r = append(r, iv{a, b})
	}
	return r, true
}

// outside: the constraint sets under which x lies in none of the ascending intervals.
func gapsOf(l []iv, x *Lin) [][]*Lin {
	var r [][]*Lin
	for i := 0; i <= len(l); i++ {
		var f []*Lin
		if i > 0 {
			f = append(f, linSub(x, l[i-1].e))
		}
		if i < len(l) {
			f = append(f, linAddC(linSub(l[i].s, x), -1))
		}
		r = append(r, f)
	}
	return r
}

func excluded(st *State, fs ...[]*Lin) bool {
	s := st.clone()
	for _, f := range fs {
		for _, l := range f {
			s.assumeGE(l)
			if s.dead {
				return true
			}
		}
	}
	return s.contradictory()
}

func in(i iv, x *Lin) []*Lin { return []*Lin{linSub(x, i.s), linAddC(linSub(i.e, x), -1)} }

func checkC11(c *Ctx) {
	if c.e.typ("holes.Hole") == nil {
		c.fail("anchor", "holes.Hole", "", "not found")
		return
	}
	c.e.maxIn, c.e.maxOut = 4000, 4000
	max := 4
	if c.tier == "thorough" {
		max = 6
	}
	c.notes = append(c.notes, fmt.Sprintf("Records of up to %d entries.", max))
	it := types.Typ[types.Int]
	for n := 0; n <= max; n++ {
		for _, spare := range []int{0, 2} {
			st := c.st0.clone()
			fl, pre := c.fills(st, n, spare)
			a := c.e.sym(it, "start").(*IntV)
			b := c.e.sym(it, "end").(*IntV)
			st.assumeGE(a.L)
			con := fmt.Sprintf("holes.Holes.Add to %d", n)
			outs := c.run(con, st, "holes.Holes.Add", fl, a, b)
			c.ok("returns", con, len(outs) > 0, "never returns")
			for _, o := range outs {
				if !c.ok("returns", con, o.exit == "" && len(o.ret) == 1, "ends by %s", o.exit) {
					continue
				}
				l, ok := c.list(o.st, o.ret[0])
				if !c.ok("decided", con, ok, "the resulting record is not decided") {
					continue
				}
				prev := linC(-1)
				good := true
				for _, i := range l {
					if !o.st.proveGE(linAddC(linSub(i.s, prev), -1)) || !o.st.proveGE(linAddC(linSub(i.e, i.s), -1)) {
						good = false
					}
					prev = i.e
				}
				if !c.ok("ordered", con, good, "the record is not ascending with gaps between all entries: %s", ivs(o.st, l)) {
					continue
				}
				x := linA(freshAtom("x", bigZero, maxLen))
				nw := iv{a.L, b.L}
				whole := true
				for _, i := range append(append([]iv{}, pre...), nw) {
					for _, g := range gapsOf(l, x) {
						if !excluded(o.st, in(i, x), g) {
							whole = false
						}
					}
				}
				c.ok("covers", con, whole, "a received byte is missing from the record %s", ivs(o.st, l))
				only := true
				for _, i := range l {
					for _, g := range gapsOf(pre, x) {
						if !excluded(o.st, in(i, x), g, []*Lin{linAddC(linSub(a.L, x), -1)}) || !excluded(o.st, in(i, x), g, []*Lin{linSub(x, b.L)}) {
							only = false
						}
					}
				}
				c.ok("exact", con, only, "the record %s covers a byte that was not received", ivs(o.st, l))
			}
		}
	}
	for n := 0; n <= max+1; n++ {
		st := c.st0.clone()
		fl, pre := c.fills(st, n, 0)
		con := fmt.Sprintf("holes.Holes.Getholes of %d", n)
		before := st
		for _, o := range c.run(con, st, "holes.Holes.Getholes", fl) {
			if !c.ok("returns", con, o.exit == "" && len(o.ret) == 1, "ends by %s", o.exit) {
				continue
			}
			l, ok := c.list(o.st, o.ret[0])
			if !c.ok("decided", con, ok, "the holes are not decided") {
				continue
			}
			var want []iv
			if n > 0 && !o.st.proveEQ(pre[0].s, linC(0)) {
				c.ok("decided", con, o.st.proveGE(linAddC(pre[0].s, -1)), "whether the record starts at zero is not decided")
				want = append(want, iv{linC(0), pre[0].s})
			}
			for i := 1; i < n; i++ {
				want = append(want, iv{pre[i-1].e, pre[i].s})
			}
			same := len(l) == len(want)
			for i := 0; same && i < len(l); i++ {
				same = o.st.proveEQ(l[i].s, want[i].s) && o.st.proveEQ(l[i].e, want[i].e)
			}
			c.ok("gaps", con, same, "the holes are %s instead of %s", ivs(o.st, l), ivs(o.st, want))
			c.ok("unchanged", con, len(changed(before, o.st)) == 0, "asking for the holes changes %v", changed(before, o.st))
			// count
			for _, p := range c.run(con+" count", o.st, "holes.Holes.Lenholes", fl) {
				v, ok := p.ret[0].(*IntV)
				c.ok("count", con, p.exit == "" && ok && p.st.proveEQ(v.L, linC(int64(len(want)))), "the count is not %d", len(want))
			}
		}
	}
}

func ivs(st *State, l []iv) string {
	s := ""
	for _, i := range l {
		s += fmt.Sprintf("[%s,%s)", st.norm(i.s), st.norm(i.e))
	}
	return s
}
