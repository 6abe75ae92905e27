package main

// Linear forms over integer symbols ("atoms"): the numeric part of the
// abstract domain.  An atom stands for one unknown mathematical integer of the
// analysed program state (a field of an input, a length, a flag field, ...).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
	bigNeg1 = big.NewInt(-1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// Atom is an integer symbol. Derived atoms remember how they were built, so
// that they can be rebuilt under a substitution of loop indices.
type Atom struct {
	id     int
	key    string
	lo, hi *big.Int // nil = unbounded
	op     string   // "" for primitive; field, elem, be, idx, div, mod, len, ...
	parent *Atom    // op=field
	flo    int      // op=field: lowest bit
	flen   int      // op=field: number of bits
	args   []Val
	iargs  []int
	sargs  []string
}

// width: number of bits w with 0 <= atom < 2^w, or -1.
func (a *Atom) width() int {
	if a.lo == nil || a.hi == nil || a.lo.Sign() < 0 {
		return -1
	}
	return a.hi.BitLen()
}

var atomTab = map[string]*Atom{}
var atomList []*Atom
var atomSeq int

func mkAtom(key string, lo, hi *big.Int) *Atom {
	if a, ok := atomTab[key]; ok {
		return a
	}
	a := &Atom{id: len(atomList), key: key, lo: lo, hi: hi}
	atomList = append(atomList, a)
	atomTab[key] = a
	return a
}

func freshAtom(hint string, lo, hi *big.Int) *Atom {
	atomSeq++
	return mkAtom(fmt.Sprintf("%s#%d", hint, atomSeq), lo, hi)
}

type Term struct {
	a *Atom
	c *big.Int
}

// Lin = c + sum t.c * t.a, terms sorted by atom id, no zero coefficients.
type Lin struct {
	c *big.Int
	t []Term
	k string
}

func linC(v int64) *Lin      { return &Lin{c: big.NewInt(v)} }
func linB(v *big.Int) *Lin   { return &Lin{c: v} }
func linA(a *Atom) *Lin      { return &Lin{c: bigZero, t: []Term{{a, bigOne}}} }
func (l *Lin) isConst() bool { return len(l.t) == 0 }
func (l *Lin) isC(v int64) bool {
	return len(l.t) == 0 && l.c.IsInt64() && l.c.Int64() == v
}
func (l *Lin) atom() *Atom {
	if len(l.t) == 1 && l.c.Sign() == 0 && l.t[0].c.Cmp(bigOne) == 0 {
		return l.t[0].a
	}
	return nil
}

// constInt returns the constant as int if it is one and small.
func (l *Lin) constInt() (int, bool) {
	if l.isConst() && l.c.IsInt64() {
		return int(l.c.Int64()), true
	}
	return 0, false
}

func (l *Lin) key() string {
	if l.k == "" {
		var b strings.Builder
		b.WriteString(l.c.String())
		for _, t := range l.t {
			fmt.Fprintf(&b, "+%s*a%d", t.c.String(), t.a.id)
		}
		l.k = b.String()
	}
	return l.k
}

func (l *Lin) String() string {
	if l == nil {
		return "<nil>"
	}
	var b strings.Builder
	for i, t := range l.t {
		if i > 0 {
			b.WriteString(" + ")
		}
		if t.c.Cmp(bigOne) != 0 {
			fmt.Fprintf(&b, "%s*", t.c)
		}
		b.WriteString(t.a.key)
	}
	if len(l.t) == 0 {
		return l.c.String()
	}
	if l.c.Sign() != 0 {
		fmt.Fprintf(&b, " + %s", l.c)
	}
	return b.String()
}

// a + f*b
func linAddMul(a *Lin, f *big.Int, b *Lin) *Lin {
	r := &Lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(f, b.c))}
	if len(b.t) == 0 {
		r.t = a.t
		return r
	}
	out := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].a.id < b.t[j].a.id):
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].a.id < a.t[i].a.id:
			c := new(big.Int).Mul(f, b.t[j].c)
			if c.Sign() != 0 {
				out = append(out, Term{b.t[j].a, c})
			}
			j++
		default:
			c := new(big.Int).Add(a.t[i].c, new(big.Int).Mul(f, b.t[j].c))
			if c.Sign() != 0 {
				out = append(out, Term{a.t[i].a, c})
			}
			i++
			j++
		}
	}
	r.t = out
	return r
}

func linAdd(a, b *Lin) *Lin { return linAddMul(a, bigOne, b) }
func linSub(a, b *Lin) *Lin { return linAddMul(a, bigNeg1, b) }
func linAddC(a *Lin, v int64) *Lin {
	return &Lin{c: new(big.Int).Add(a.c, big.NewInt(v)), t: a.t}
}
func linMul(a *Lin, f *big.Int) *Lin {
	if f.Sign() == 0 {
		return linC(0)
	}
	r := &Lin{c: new(big.Int).Mul(a.c, f), t: make([]Term, len(a.t))}
	for i, t := range a.t {
		r.t[i] = Term{t.a, new(big.Int).Mul(t.c, f)}
	}
	return r
}
func linNeg(a *Lin) *Lin   { return linMul(a, bigNeg1) }
func linEq(a, b *Lin) bool { return a.key() == b.key() }
func (l *Lin) coef(a *Atom) *big.Int {
	for _, t := range l.t {
		if t.a == a {
			return t.c
		}
	}
	return bigZero
}
func (l *Lin) has(a *Atom) bool {
	for _, t := range l.t {
		if t.a == a {
			return true
		}
	}
	return false
}

// interval of l from atom ranges only (nil = unbounded)
func (l *Lin) bounds() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, t := range l.t {
		al, ah := t.a.lo, t.a.hi
		if t.c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(t.c, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(t.c, ah))
			}
		}
	}
	return
}

// normalise a constraint l >= 0: divide by gcd of the coefficients, flooring
// the constant (integer tightening).
func tighten(l *Lin) *Lin {
	if len(l.t) == 0 {
		return l
	}
	g := new(big.Int)
	for _, t := range l.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(bigOne) == 0 {
		return l
	}
	r := &Lin{c: floorDiv(l.c, g), t: make([]Term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = Term{t.a, new(big.Int).Quo(t.c, g)}
	}
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0 => floor
	return q
}

// infeasible: true when the conjunction of cs (each >= 0) together with the
// atoms' ranges has no integer solution, established by bounded
// Fourier-Motzkin elimination (the polyhedra domain's emptiness test).
// false means "not established".
func infeasible(cs []*Lin) bool {
	seen := map[string]bool{}
	var work []*Lin
	atoms := map[*Atom]bool{}
	add := func(l *Lin) bool { // returns true if contradiction
		l = tighten(l)
		if l.isConst() {
			return l.c.Sign() < 0
		}
		k := l.key()
		if seen[k] {
			return false
		}
		// drop constraints implied by ranges alone
		seen[k] = true
		work = append(work, l)
		return false
	}
	for _, c := range cs {
		if lo, hi := c.bounds(); hi != nil && hi.Sign() < 0 {
			return true
		} else if lo != nil && lo.Sign() >= 0 {
			continue
		}
		if add(c) {
			return true
		}
	}
	for _, c := range work {
		for _, t := range c.t {
			atoms[t.a] = true
		}
	}
	var al []*Atom
	for a := range atoms {
		al = append(al, a)
	}
	sort.Slice(al, func(i, j int) bool { return al[i].id < al[j].id })
	for _, a := range al {
		if a.lo != nil {
			if add(&Lin{c: new(big.Int).Neg(a.lo), t: []Term{{a, bigOne}}}) {
				return true
			}
		}
		if a.hi != nil {
			if add(&Lin{c: a.hi, t: []Term{{a, bigNeg1}}}) {
				return true
			}
		}
	}
	budget := 3000
	for len(atoms) > 0 {
		// choose the atom with the least fill-in
		type pn struct{ p, n int }
		cnt := map[*Atom]*pn{}
		for _, c := range work {
			for _, t := range c.t {
				x := cnt[t.a]
				if x == nil {
					x = &pn{}
					cnt[t.a] = x
				}
				if t.c.Sign() > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Atom
		bestCost := 0
		for a, x := range cnt {
			cost := x.p*x.n - x.p - x.n
			if best == nil || cost < bestCost || (cost == bestCost && a.id < best.id) {
				best, bestCost = a, cost
			}
		}
		var pos, neg, rest []*Lin
		for _, c := range work {
			s := c.coef(best).Sign()
			switch {
			case s > 0:
				pos = append(pos, c)
			case s < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		if len(pos)*len(neg) > budget {
			return false
		}
		budget -= len(pos) * len(neg)
		work = rest
		seen = map[string]bool{}
		for _, c := range work {
			seen[c.key()] = true
		}
		for _, p := range pos {
			for _, n := range neg {
				cp := p.coef(best)
				cn := new(big.Int).Neg(n.coef(best))
				l := linAdd(linMul(p, cn), linMul(n, cp))
				if add(l) {
					return true
				}
			}
		}
		work = prune(work)
		delete(atoms, best)
	}
	return false
}

// prune: among constraints with identical linear part keep the strongest.
func prune(cs []*Lin) []*Lin {
	m := map[string]int{}
	var out []*Lin
	for _, c := range cs {
		k := (&Lin{c: bigZero, t: c.t}).key()
		if i, ok := m[k]; ok {
			if c.c.Cmp(out[i].c) < 0 {
				out[i] = c
			}
			continue
		}
		m[k] = len(out)
		out = append(out, c)
	}
	return out
}
