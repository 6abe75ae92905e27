package main

// Abstract states: heap, linear facts, bit facts, string facts.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Obj struct {
	id    int
	K     byte // 'v' cell, 'a' array, 'm' map, 'i' iterator
	T     types.Type
	V     Val
	S     Seq
	M     *MapO
	It    *IterO
	Label string
}

type MapEnt struct {
	k, v Val
}
type MapO struct {
	keys []string
	ent  map[string]MapEnt
	del  map[string]bool // keys known absent in an open map
	open bool            // unknown further entries
	name string
	T    *types.Map
}

func (m *MapO) clone() *MapO {
	c := *m
	c.keys = append([]string(nil), m.keys...)
	c.ent = make(map[string]MapEnt, len(m.ent))
	for k, v := range m.ent {
		c.ent[k] = v
	}
	c.del = make(map[string]bool, len(m.del))
	for k := range m.del {
		c.del[k] = true
	}
	return &c
}
func (m *MapO) set(key string, e MapEnt) {
	if _, ok := m.ent[key]; !ok {
		m.keys = append(m.keys, key)
		sort.Strings(m.keys)
	}
	m.ent[key] = e
	delete(m.del, key)
}

type IterO struct {
	m    *MapO
	keys []string
	pos  int
	sym  bool
	str  Seq
	isS  bool
}

type Event struct {
	Kind   string
	Name   string
	Args   []Val
	Data   map[int]Seq // contents of slice arguments at the time
	Res    []Val
	Pos    token.Pos
	In     *ssa.Function
	Held   map[string]int
	Fn     *FuncV // the function started by a go statement
	Select bool   // part of a select statement
	NB     bool   // one of several alternatives
	Alt    string // which kind of value was received
}
type EvList struct {
	prev *EvList
	ev   *Event
	n    int
}

type kb struct{ mask, val *big.Int }

type Forall struct {
	K     *Atom
	N     *Lin // for all 0 <= K < N
	Facts []*Lin
	Neqs  []*Lin
	Truth map[string]bool
	Bools []*BoolV
}

type State struct {
	env    map[ssa.Value]Val
	defers []deferred
	heap   map[int]*Obj
	facts  []*Lin
	neqs   []*Lin
	sub    map[*Atom]*Lin
	kbits  map[*Atom]kb
	excl   map[*Atom]map[int64]bool
	truth  map[string]bool
	pred   map[string]*BoolV // predicate behind each truth key
	sknown map[*Src]string
	sne    map[*Src]map[string]bool
	forall []*Forall
	ev     *EvList
	held   map[string]int // locks held
	dead   bool
	prev   *ssa.BasicBlock
	depth  int
	cache  map[string]bool
	note   string
	wlog   []wrec // array writes of the current loop iteration
}

type wrec struct {
	obj    int
	off, n *Lin
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	ins  ssa.Instruction
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m)+4)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func newState() *State {
	return &State{env: map[ssa.Value]Val{}, heap: map[int]*Obj{}, sub: map[*Atom]*Lin{},
		kbits: map[*Atom]kb{}, excl: map[*Atom]map[int64]bool{}, truth: map[string]bool{}, pred: map[string]*BoolV{},
		sknown: map[*Src]string{}, sne: map[*Src]map[string]bool{}, held: map[string]int{}, cache: map[string]bool{}}
}

func (st *State) clone() *State {
	c := *st
	c.env = cloneMap(st.env)
	c.heap = cloneMap(st.heap)
	c.facts = st.facts[:len(st.facts):len(st.facts)]
	c.neqs = st.neqs[:len(st.neqs):len(st.neqs)]
	c.forall = st.forall[:len(st.forall):len(st.forall)]
	c.defers = st.defers[:len(st.defers):len(st.defers)]
	c.wlog = st.wlog[:len(st.wlog):len(st.wlog)]
	c.sub = cloneMap(st.sub)
	c.kbits = cloneMap(st.kbits)
	c.excl = cloneMap(st.excl)
	c.truth = cloneMap(st.truth)
	c.pred = cloneMap(st.pred)
	c.sknown = cloneMap(st.sknown)
	c.sne = cloneMap(st.sne)
	c.held = cloneMap(st.held)
	c.cache = cloneMap(st.cache)
	return &c
}

func (st *State) touch() {
	if len(st.cache) > 0 {
		st.cache = map[string]bool{}
	}
}

// ------------------------------------------------------------ normalisation

func (st *State) norm(l *Lin) *Lin {
	if l == nil || len(l.t) == 0 {
		return l
	}
	for n := 0; n < 50; n++ {
		changed := false
		for _, t := range l.t {
			if r := st.subst(t.a); r != nil {
				nl := linAddMul(l, new(big.Int).Neg(t.c), linA(t.a))
				l = linAddMul(nl, t.c, r)
				changed = true
				break
			}
		}
		if !changed {
			return l
		}
	}
	return l
}

// subst returns the replacement of an atom, or nil.
func (st *State) subst(a *Atom) *Lin {
	if r, ok := st.sub[a]; ok {
		return r
	}
	if a.op == "field" {
		if r, ok := st.sub[a.parent]; ok {
			if bs, ok := st.toBits(r, a.parent.width()); ok {
				return fromBits(bs[a.flo : a.flo+a.flen])
			}
		}
		if k, ok := st.kbits[a.parent]; ok {
			any := false
			for i := 0; i < a.flen; i++ {
				if k.mask.Bit(a.flo+i) == 1 {
					any = true
				}
			}
			if any {
				bs := make([]bit, a.flen)
				for i := range bs {
					if k.mask.Bit(a.flo+i) == 1 {
						bs[i] = bit{c: byte(k.val.Bit(a.flo + i))}
					} else {
						bs[i] = bit{c: 2, a: a.parent, i: a.flo + i}
					}
				}
				return fromBits(bs)
			}
		}
	} else if k, ok := st.kbits[a]; ok {
		w := a.width()
		full := true
		for i := 0; i < w; i++ {
			if k.mask.Bit(i) == 0 {
				full = false
				break
			}
		}
		if full && w > 0 {
			return linB(k.val)
		}
	}
	return nil
}

// ------------------------------------------------------------------ proving

var statProve, statFM int

func (st *State) relevant(l *Lin) []*Lin {
	in := map[*Atom]bool{}
	for _, t := range l.t {
		in[t.a] = true
	}
	fs := make([]*Lin, 0, len(st.facts))
	for _, f := range st.facts {
		n := st.norm(f)
		if !n.isConst() {
			fs = append(fs, n)
		} else if n.c.Sign() < 0 {
			return []*Lin{n}
		}
	}
	used := make([]bool, len(fs))
	var out []*Lin
	for {
		ch := false
		for i, f := range fs {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range f.t {
				if in[t.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, f)
				for _, t := range f.t {
					in[t.a] = true
				}
			}
		}
		if !ch {
			return out
		}
	}
}

// proveGE: l >= 0 holds in every concrete state described by st.
func (st *State) proveGE(l *Lin) bool {
	l = st.norm(l)
	if l.isConst() {
		return l.c.Sign() >= 0
	}
	lo, _ := l.bounds()
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	k := "g" + l.key()
	if r, ok := st.cache[k]; ok {
		return r
	}
	statProve++
	neg := linAddC(linNeg(l), -1)
	rel := st.relevant(l)
	r := infeasible(append([]*Lin{neg}, rel...))
	if !r && len(st.neqs) > 0 {
		// disequalities sharing atoms: strengthen one-sided bounds
		in := map[*Atom]bool{}
		for _, t := range l.t {
			in[t.a] = true
		}
		for _, f := range rel {
			for _, t := range f.t {
				in[t.a] = true
			}
		}
		extra := append([]*Lin{neg}, rel...)
		ch := false
		for _, q := range st.neqs {
			q = st.norm(q)
			hit := false
			for _, t := range q.t {
				if in[t.a] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			if infeasible(append([]*Lin{linAddC(linNeg(q), -1)}, extra...)) { // q>=0
				extra = append(extra, linAddC(q, -1))
				ch = true
			} else if infeasible(append([]*Lin{linAddC(q, -1)}, extra...)) { // q<=0
				extra = append(extra, linAddC(linNeg(q), -1))
				ch = true
			}
		}
		if ch {
			r = infeasible(extra)
		}
	}
	st.cache[k] = r
	return r
}

func (st *State) proveEQ(a, b *Lin) bool {
	d := st.norm(linSub(a, b))
	if d.isConst() {
		return d.c.Sign() == 0
	}
	if st.proveGE(d) && st.proveGE(linNeg(d)) {
		return true
	}
	if u, ok := st.unfield(d); ok {
		return u.isConst() && u.c.Sign() == 0 || st.proveGE(u) && st.proveGE(linNeg(u))
	}
	return false
}

// unfield: bit fields of numbers known to be small, by the numbers.
func (st *State) unfield(d *Lin) (*Lin, bool) {
	r, some := d, false
	for _, t := range d.t {
		if t.a.op != "field" {
			continue
		}
		p := linA(t.a.parent)
		if t.a.parent.lo == nil || t.a.parent.lo.Sign() < 0 {
			if !st.proveGE(p) {
				continue
			}
		}
		var by *Lin
		if t.a.flo > 0 && st.proveGE(linSub(linB(new(big.Int).Sub(pow2(uint(t.a.flo)), bigOne)), p)) {
			by = linC(0)
		} else if t.a.flo == 0 && st.proveGE(linSub(linB(new(big.Int).Sub(pow2(uint(t.a.flen)), bigOne)), p)) {
			by = p
		}
		if by != nil {
			r = linAdd(r, linMul(linSub(by, linA(t.a)), t.c))
			some = true
		}
	}
	return st.norm(r), some
}

func (st *State) proveNE(a, b *Lin) bool {
	d := st.norm(linSub(a, b))
	if d.isConst() {
		return d.c.Sign() != 0
	}
	if st.proveGE(linAddC(d, -1)) || st.proveGE(linAddC(linNeg(d), -1)) {
		return true
	}
	for _, q := range st.neqs {
		q = st.norm(q)
		if linEq(q, d) || linEq(linNeg(q), d) {
			return true
		}
	}
	if at, c, ok := atomEqConst(d); ok {
		if ex := st.excl[at]; ex != nil && c.IsInt64() && ex[c.Int64()] {
			return true
		}
	}
	return false
}

// d == 0 of the form ±(atom - c)
func atomEqConst(d *Lin) (*Atom, *big.Int, bool) {
	if len(d.t) != 1 {
		return nil, nil, false
	}
	if d.t[0].c.Cmp(bigOne) == 0 {
		return d.t[0].a, new(big.Int).Neg(d.c), true
	}
	if d.t[0].c.Cmp(bigNeg1) == 0 {
		return d.t[0].a, d.c, true
	}
	q, m := new(big.Int), new(big.Int)
	q.QuoRem(new(big.Int).Neg(d.c), d.t[0].c, m)
	if m.Sign() == 0 {
		return d.t[0].a, q, true
	}
	return nil, nil, false
}

func (st *State) addFact(l *Lin) {
	l = st.norm(l)
	if l.isConst() {
		if l.c.Sign() < 0 {
			st.dead = true
		}
		return
	}
	if lo, _ := l.bounds(); lo != nil && lo.Sign() >= 0 {
		return
	}
	k := l.key()
	for _, f := range st.facts {
		if f.key() == k {
			return
		}
	}
	st.facts = append(st.facts, l)
	st.touch()
}

// assumeGE adds l >= 0; the state becomes dead if that is contradictory.
func (st *State) assumeGE(l *Lin) {
	l = st.norm(l)
	if l.isConst() {
		if l.c.Sign() < 0 {
			st.dead = true
		}
		return
	}
	if st.proveGE(linAddC(linNeg(l), -1)) {
		st.dead = true
		return
	}
	st.addFact(l)
	// an atom squeezed to a single value
	if len(l.t) == 1 {
		a := l.t[0].a
		if a.width() >= 0 && a.width() <= 8 {
			st.checkExcl(a)
		}
	}
}

func (st *State) assumeEQ(l *Lin) {
	l = st.norm(l)
	if l.isConst() {
		if l.c.Sign() != 0 {
			st.dead = true
		}
		return
	}
	if st.proveGE(linAddC(l, -1)) || st.proveGE(linAddC(linNeg(l), -1)) {
		st.dead = true
		return
	}
	for _, q := range st.neqs {
		q = st.norm(q)
		if linEq(q, l) || linEq(linNeg(q), l) {
			st.dead = true
			return
		}
	}
	if a, c, ok := atomEqConst(l); ok {
		st.setConst(a, c)
		return
	}
	if st.fieldsEq(l) {
		return
	}
	var best *Atom
	for _, t := range l.t {
		if t.c.CmpAbs(bigOne) == 0 {
			if best == nil || (best.op == "field" && t.a.op != "field") || t.a.id > best.id {
				best = t.a
			}
		}
	}
	if best == nil {
		st.addFact(l)
		st.addFact(linNeg(l))
		return
	}
	c := l.coef(best)
	rest := linAddMul(l, new(big.Int).Neg(c), linA(best)) // l = c*best + rest
	var e *Lin
	if c.Sign() > 0 {
		e = linNeg(rest)
	} else {
		e = rest
	}
	st.sub[best] = e
	st.touch()
	if best.lo != nil {
		st.addFact(linSub(e, linB(best.lo)))
	}
	if best.hi != nil {
		st.addFact(linSub(linB(best.hi), e))
	}
}

// fieldsEq: disjoint shifted bit fields that add up to a constant are each
// the matching bits of it.
func (st *State) fieldsEq(l *Lin) bool {
	if len(l.t) < 2 {
		return false
	}
	if l.t[0].c.Sign() < 0 {
		l = linNeg(l)
	}
	want := new(big.Int).Neg(l.c)
	if want.Sign() < 0 {
		return false
	}
	used := new(big.Int)
	type part struct {
		a *Atom
		s uint
		n int
	}
	var ps []part
	for _, t := range l.t {
		n := t.a.width()
		if t.c.Sign() <= 0 || n <= 0 {
			return false
		}
		s := t.c.TrailingZeroBits()
		if t.c.Cmp(pow2(s)) != 0 {
			return false
		}
		m := new(big.Int).Lsh(new(big.Int).Sub(pow2(uint(n)), bigOne), s)
		if new(big.Int).And(used, m).Sign() != 0 {
			return false
		}
		used.Or(used, m)
		ps = append(ps, part{t.a, s, n})
	}
	if new(big.Int).AndNot(want, used).Sign() != 0 {
		st.dead = true
		return true
	}
	for _, p := range ps {
		v := new(big.Int).Rsh(want, p.s)
		v.And(v, new(big.Int).Sub(pow2(uint(p.n)), bigOne))
		if st.assumeEQ(linSub(linA(p.a), linB(v))); st.dead {
			return true
		}
	}
	return true
}

func (st *State) setConst(a *Atom, c *big.Int) {
	if (a.lo != nil && c.Cmp(a.lo) < 0) || (a.hi != nil && c.Cmp(a.hi) > 0) {
		st.dead = true
		return
	}
	if ex := st.excl[a]; ex != nil && c.IsInt64() && ex[c.Int64()] {
		st.dead = true
		return
	}
	p, lo, n := a, 0, a.width()
	if a.op == "field" {
		p, lo, n = a.parent, a.flo, a.flen
	}
	st.sub[a] = linB(c)
	if n > 0 && n <= 64 {
		k, ok := st.kbits[p]
		if !ok {
			k = kb{new(big.Int), new(big.Int)}
		}
		m, v := new(big.Int).Set(k.mask), new(big.Int).Set(k.val)
		for i := 0; i < n; i++ {
			b := c.Bit(i)
			if m.Bit(lo+i) == 1 && v.Bit(lo+i) != b {
				st.dead = true
				return
			}
			m.SetBit(m, lo+i, 1)
			v.SetBit(v, lo+i, b)
		}
		st.kbits[p] = kb{m, v}
		if w := p.width(); p != a && c.Sign() == 0 && lo > 0 && lo+n == w {
			// the part below is all there is of it
			st.assumeGE(linSub(linB(new(big.Int).Sub(pow2(uint(lo)), bigOne)), linA(p)))
			if st.dead {
				return
			}
		}
	}
	st.touch()
	// facts about the atom must still hold
	for _, f := range st.facts {
		g := st.norm(f)
		if g.isConst() && g.c.Sign() < 0 {
			st.dead = true
			return
		}
	}
	for _, q := range st.neqs {
		g := st.norm(q)
		if g.isConst() && g.c.Sign() == 0 {
			st.dead = true
			return
		}
	}
}

func (st *State) checkExcl(a *Atom) {
	w := a.width()
	if w < 1 || w > 8 {
		return
	}
	ex := st.excl[a]
	n := 1 << uint(w)
	var left []int64
	for v := 0; v < n; v++ {
		if ex[int64(v)] {
			continue
		}
		if big.NewInt(int64(v)).Cmp(a.hi) > 0 {
			continue
		}
		ok := true
		for _, f := range st.facts {
			f = st.norm(f)
			if len(f.t) == 1 && f.t[0].a == a {
				x := new(big.Int).Mul(f.t[0].c, big.NewInt(int64(v)))
				x.Add(x, f.c)
				if x.Sign() < 0 {
					ok = false
					break
				}
			}
		}
		if ok {
			left = append(left, int64(v))
			if len(left) > 1 {
				return
			}
		}
	}
	if len(left) == 0 {
		st.dead = true
	} else if _, done := st.sub[a]; !done {
		st.setConst(a, big.NewInt(left[0]))
	}
}

func (st *State) assumeNE(l *Lin) {
	l = st.norm(l)
	if l.isConst() {
		if l.c.Sign() == 0 {
			st.dead = true
		}
		return
	}
	if st.proveGE(l) && st.proveGE(linNeg(l)) {
		st.dead = true
		return
	}
	if a, c, ok := atomEqConst(l); ok {
		w := a.width()
		if w >= 1 && w <= 8 && c.IsInt64() {
			ex := map[int64]bool{}
			for k := range st.excl[a] {
				ex[k] = true
			}
			ex[c.Int64()] = true
			st.excl[a] = ex
			st.touch()
			st.checkExcl(a)
			return
		}
	}
	if st.proveGE(l) {
		st.addFact(linAddC(l, -1))
		return
	}
	if st.proveGE(linNeg(l)) {
		st.addFact(linAddC(linNeg(l), -1))
		return
	}
	k := l.key()
	for _, q := range st.neqs {
		if q.key() == k {
			return
		}
	}
	st.neqs = append(st.neqs, l)
	st.touch()
}

// ---------------------------------------------------------------- booleans

// evalBool: +1 true, -1 false, 0 unknown.
func (st *State) evalBool(b *BoolV) int {
	sg := func(v bool) int {
		if v {
			return 1
		}
		return -1
	}
	neg := 1
	if b.Neg {
		neg = -1
	}
	switch b.Op {
	case 'c':
		return sg(b.C)
	case '>':
		l := st.norm(b.L)
		if st.proveGE(l) {
			return neg
		}
		if st.proveGE(linAddC(linNeg(l), -1)) {
			return -neg
		}
		return 0
	case '=':
		l := st.norm(b.L)
		if l.isConst() {
			return neg * sg(l.c.Sign() == 0)
		}
		if st.proveNE(l, linC(0)) {
			return -neg
		}
		if st.proveEQ(l, linC(0)) {
			return neg
		}
		return 0
	case 's':
		return neg * st.seqEqual(b.A, b.B)
	case 'n':
		if v, ok := st.truth["nil:"+b.Sl.NilKey]; ok {
			return neg * sg(v)
		}
		if st.proveGE(linAddC(b.Sl.Len, -1)) {
			return -neg
		}
		return 0
	}
	if v, ok := st.truth[b.Key]; ok {
		return neg * sg(v)
	}
	return 0
}

func (st *State) assume(b *BoolV, v bool) {
	if b.Neg {
		v = !v
	}
	switch b.Op {
	case 'c':
		if b.C != v {
			st.dead = true
		}
	case '>':
		if v {
			st.assumeGE(b.L)
		} else {
			st.assumeGE(linAddC(linNeg(b.L), -1))
		}
	case '=':
		if v {
			st.assumeEQ(b.L)
		} else {
			st.assumeNE(b.L)
		}
	case 's':
		st.assumeSeqEq(b.A, b.B, v)
	case 'n':
		st.truth["nil:"+b.Sl.NilKey] = v
		if v {
			st.assumeEQ(b.Sl.Len)
		}
	default:
		if w, ok := st.truth[b.Key]; ok {
			if w != v {
				st.dead = true
			}
			return
		}
		st.truth[b.Key] = v
		st.pred[b.Key] = b
	}
}

func (st *State) seqEqKey(a, b Seq) string {
	x, y := a.key(), b.key()
	// the length of a whole source may come to be written differently
	if s := st.wholeSrc(a); s != nil {
		x = fmt.Sprintf("W%d", s.id)
	}
	if s := st.wholeSrc(b); s != nil {
		y = fmt.Sprintf("W%d", s.id)
	}
	if x > y {
		x, y = y, x
	}
	return "seq:" + x + "=" + y
}

// wholeSrc: the sequence is exactly one complete source.
func (st *State) wholeSrc(s Seq) *Src {
	if len(s) == 1 && s[0].K == pSrc && s[0].Off.isC(0) && linEq(st.norm(s[0].Len), st.norm(s[0].Src.Len)) {
		return s[0].Src
	}
	return nil
}

// seqEqual: 1 equal, -1 different, 0 unknown.
func (st *State) seqEqual(a, b Seq) int {
	a, b = st.normSeq(a), st.normSeq(b)
	if a.key() == b.key() {
		return 1
	}
	ca, oka := a.constStr()
	cb, okb := b.constStr()
	if oka && okb {
		if ca == cb {
			return 1
		}
		return -1
	}
	if v, ok := st.truth[st.seqEqKey(a, b)]; ok {
		if v {
			return 1
		}
		return -1
	}
	la, lb := seqLen(a), seqLen(b)
	if st.proveNE(la, lb) {
		return -1
	}
	if oka {
		a, b = b, a
		ca, cb = cb, ca
		okb = true
	}
	if okb {
		if s := st.wholeSrc(a); s != nil {
			if st.sne[s][cb] {
				return -1
			}
		}
		if !possiblyEqualConst(a, cb) {
			return -1
		}
	}
	// strip a common prefix / suffix piecewise
	if len(a) > 1 || len(b) > 1 {
		x, y := a, b
		for len(x) > 0 && len(y) > 0 {
			if x[0].key() == y[0].key() {
				x, y = x[1:], y[1:]
				continue
			}
			if st.proveEQ(x[0].Len, y[0].Len) {
				if st.pieceEqual(x[0], y[0]) {
					x, y = x[1:], y[1:]
					continue
				}
				return 0
			}
			if st.proveGE(linSub(y[0].Len, x[0].Len)) {
				h, t, ok := st.splitPiece(y[0], x[0].Len)
				if !ok {
					return 0
				}
				y = append(Seq{h, t}, y[1:]...)
				continue
			}
			if st.proveGE(linSub(x[0].Len, y[0].Len)) {
				h, t, ok := st.splitPiece(x[0], y[0].Len)
				if !ok {
					return 0
				}
				x = append(Seq{h, t}, x[1:]...)
				continue
			}
			return 0
		}
		if len(x) == 0 && len(y) == 0 {
			return 1
		}
		if len(x) == 0 && st.proveEQ(seqLen(y), linC(0)) || len(y) == 0 && st.proveEQ(seqLen(x), linC(0)) {
			return 1
		}
		return 0
	}
	if len(a) == 1 && len(b) == 1 && st.proveEQ(la, lb) && st.pieceEqual(a[0], b[0]) {
		return 1
	}
	if st.proveEQ(la, linC(0)) && st.proveEQ(lb, linC(0)) {
		return 1
	}
	return 0
}

func possiblyEqualConst(a Seq, c string) bool {
	// leading constant pieces must be a prefix, trailing ones a suffix
	if len(a) > 0 && a[0].K == pConst {
		d := a[0].Data
		if len(c) < len(d) || c[:len(d)] != d {
			return false
		}
	}
	if len(a) > 0 && a[len(a)-1].K == pConst {
		d := a[len(a)-1].Data
		if len(c) < len(d) || c[len(c)-len(d):] != d {
			return false
		}
	}
	return true
}

// pieceEqual: same-length pieces provably hold the same elements.
func (st *State) pieceEqual(a, b Piece) bool {
	if a.key() == b.key() {
		return true
	}
	if a.K == pZero && b.K == pZero {
		return true
	}
	if a.K == pSrc && b.K == pSrc {
		return a.Src == b.Src && st.proveEQ(a.Off, b.Off)
	}
	ca, oka := Seq{a}.constStr()
	cb, okb := Seq{b}.constStr()
	if oka && okb {
		return ca == cb
	}
	if a.K == pInt && b.K == pInt && a.N == b.N && a.Lo == b.Lo {
		return st.proveEQ(a.V, b.V) || a.Lo == 0 && st.lowBitsEqual(a.V, b.V, 8*a.N)
	}
	if a.K == pRep || b.K == pRep {
		if a.K != pRep {
			a, b = b, a
		}
		// compare element-wise for a generic index
		n := a.Len
		q := freshAtom("q", bigZero, maxLen)
		s2 := st.clone()
		m := int64(a.Rep.M)
		// iterations count: Len/M
		s2.assumeGE(linSub(n, linMul(linAddC(linA(q), 1), big.NewInt(m))))
		if s2.dead {
			return true
		}
		if b.K == pRep && b.Rep.M == a.Rep.M && a.Rep.ok && b.Rep.ok {
			x := s2.instRep(a.Rep, s2.norm(linAdd(a.Off, linA(q))))
			y := s2.instRep(b.Rep, s2.norm(linAdd(b.Off, linA(q))))
			if s2.seqEqual(x, y) == 1 {
				return true
			}
		}
		for j := int64(0); j < m; j++ {
			ix := linAddC(linMul(linA(q), big.NewInt(m)), j)
			va := s2.elemVal(Seq{a}, ix, nil)
			vb := s2.elemVal(Seq{b}, ix, nil)
			if va == nil || vb == nil || !s2.valEqual(va, vb) {
				if os.Getenv("SARA_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "pieceEqual", j, va, vb, a.Rep.ok, b.Rep.Body, a.Rep.Body, a.Rep.Facts)
				}
				return false
			}
		}
		return true
	}
	return false
}

// lowBitsEqual: the n lowest bits of two numbers are the same bits.
func (st *State) lowBitsEqual(x, y *Lin, n int) bool {
	bx, ok1 := st.toBits(st.norm(x), 64)
	by, ok2 := st.toBits(st.norm(y), 64)
	return ok1 && ok2 && n <= 64 && st.sameBits(bx[:n], by[:n])
}

// sameBits compares bits, those above what a number can reach being zero.
func (st *State) sameBits(bx, by []bit) bool {
	tight := map[*Atom]int{}
	trim := func(b bit) bit {
		if b.c != 2 {
			return b
		}
		k, ok := tight[b.a]
		if !ok {
			k = 1 << 20
			for _, w := range []int{8, 16, 32} {
				if st.proveGE(linSub(linB(new(big.Int).Sub(pow2(uint(w)), bigOne)), linA(b.a))) {
					k = w
					break
				}
			}
			tight[b.a] = k
		}
		if b.i >= k {
			return bit{}
		}
		return b
	}
	for i := range bx {
		if bx[i] != by[i] && trim(bx[i]) != trim(by[i]) {
			return false
		}
	}
	return true
}

func (st *State) assumeSeqEq(a, b Seq, v bool) {
	a, b = st.normSeq(a), st.normSeq(b)
	switch st.seqEqual(a, b) {
	case 1:
		if !v {
			st.dead = true
		}
		return
	case -1:
		if v {
			st.dead = true
		}
		return
	}
	k := st.seqEqKey(a, b)
	st.truth[k] = v
	st.pred[k] = &BoolV{Op: 's', A: a, B: b}
	if _, ok := a.constStr(); ok {
		a, b = b, a
	}
	c, isC := b.constStr()
	s := st.wholeSrc(a)
	if s != nil && isC {
		if v {
			// what is known of comparisons with s holds for c
			var ks []string
			for k2, p := range st.pred {
				if p != nil && p.Op == 's' && k2 != k && (st.wholeSrc(p.A) == s || st.wholeSrc(p.B) == s) {
					ks = append(ks, k2)
				}
			}
			sort.Strings(ks)
			st.sknown[s] = c
			st.assumeEQ(linAddC(s.Len, -int64(len(c))))
			for _, k2 := range ks {
				p := st.pred[k2]
				if t, ok := st.truth[k2]; ok && !st.dead && p != nil {
					st.assumeSeqEq(p.A, p.B, t)
				}
			}
		} else {
			m := map[string]bool{}
			for x := range st.sne[s] {
				m[x] = true
			}
			m[c] = true
			st.sne[s] = m
			if c == "" {
				st.assumeGE(linAddC(s.Len, -1))
			}
		}
		return
	}
	if v {
		st.assumeEQ(linSub(seqLen(a), seqLen(b)))
	} else if isC && c == "" {
		st.assumeGE(linAddC(seqLen(a), -1))
	}
}

// -------------------------------------------------------------------- heap

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return eng.base[id]
}
func (st *State) setObj(o *Obj) { st.heap[o.id] = o }

func (st *State) newObj(k byte, t types.Type, label string) *Obj {
	eng.nextObj++
	o := &Obj{id: eng.nextObj, K: k, T: t, Label: label}
	st.heap[o.id] = o
	return o
}

func (st *State) addEvent(e *Event) {
	n := 0
	if st.ev != nil {
		n = st.ev.n
	}
	e.Held = st.held
	st.held = cloneMap(st.held)
	st.ev = &EvList{prev: st.ev, ev: e, n: n + 1}
}
func (st *State) events() []*Event {
	var r []*Event
	for l := st.ev; l != nil; l = l.prev {
		r = append(r, l.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) dump() string {
	s := ""
	for _, f := range st.facts {
		s += fmt.Sprintf("  %s >= 0\n", st.norm(f))
	}
	for a, l := range st.sub {
		s += fmt.Sprintf("  %s := %s\n", a.key, l)
	}
	for _, q := range st.neqs {
		s += fmt.Sprintf("  %s != 0\n", st.norm(q))
	}
	for k, v := range st.truth {
		s += fmt.Sprintf("  %s = %v\n", k, v)
	}
	for k, v := range st.sknown {
		s += fmt.Sprintf("  %s == %q\n", k.key, v)
	}
	return s
}
