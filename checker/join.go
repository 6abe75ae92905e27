package main

// Joining abstract states.

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type joiner struct {
	a, b  *State
	r     *State
	memo  map[string]Val
	twins []int
}

func newJoiner(a, b *State) *joiner {
	r := newState()
	j := &joiner{a: a, b: b, r: r, memo: map[string]Val{}}
	r.depth, r.prev, r.defers = a.depth, a.prev, a.defers
	return j
}

// finish computes the joined state; env of the result covers the values both
// states define when like is non-nil.
func (j *joiner) finish(like *State) *State {
	a, b, r := j.a, j.b, j.r
	if like != nil {
		for v, x := range a.env {
			if y, ok := b.env[v]; ok {
				var t types.Type
				if v != nil {
					t = v.Type()
				}
				r.env[v] = j.val(x, y, t)
			}
		}
	} else {
		r.env = map[ssa.Value]Val{}
	}
	for id, o := range a.heap {
		p := b.obj(id)
		if p == nil {
			r.heap[id] = o
			continue
		}
		r.heap[id] = j.obj(o, p)
	}
	for id, p := range b.heap {
		if _, ok := a.heap[id]; ok {
			continue
		}
		o := a.obj(id)
		if o == nil {
			r.heap[id] = p
			continue
		}
		r.heap[id] = j.obj(o, p)
	}
	for x, l := range a.sub {
		if m, ok := b.sub[x]; ok && linEq(l, m) {
			r.sub[x] = l
		} else if _, isC := b.kbits[x]; !isC && b.proveEQ(linA(x), l) {
			r.sub[x] = l
		}
	}
	for x, l := range b.sub {
		if _, ok := r.sub[x]; !ok && a.proveEQ(linA(x), l) {
			// avoid cycles: only constants
			if l.isConst() {
				r.sub[x] = l
			}
		}
	}
	for x, k := range a.kbits {
		k2, ok := b.kbits[x]
		if !ok {
			continue
		}
		m := new(big.Int).And(k.mask, k2.mask)
		d := new(big.Int).Xor(k.val, k2.val)
		m.AndNot(m, d)
		if m.Sign() != 0 {
			r.kbits[x] = kb{m, new(big.Int).And(k.val, m)}
		}
	}
	for x, ex := range a.excl {
		ex2 := b.excl[x]
		n := map[int64]bool{}
		for v := range ex {
			if ex2[v] || b.proveNE(linA(x), linC(v)) {
				n[v] = true
			}
		}
		if len(n) > 0 {
			r.excl[x] = n
		}
	}
	for k, v := range a.truth {
		if w, ok := b.truth[k]; ok && w == v {
			r.truth[k] = v
			r.pred[k] = a.pred[k]
		}
	}
	for s, v := range a.sknown {
		if w, ok := b.sknown[s]; ok && w == v {
			r.sknown[s] = v
		}
	}
	for s, m := range a.sne {
		n := map[string]bool{}
		for c := range m {
			if b.sne[s][c] {
				n[c] = true
			} else if k, ok := b.sknown[s]; ok && k != c {
				n[c] = true
			}
		}
		if len(n) > 0 {
			r.sne[s] = n
		}
	}
	seen := map[string]bool{}
	keep := func(f *Lin, o *State) {
		k := f.key()
		if seen[k] {
			return
		}
		seen[k] = true
		if o.proveGE(f) {
			r.addFact(f)
		}
	}
	for _, f := range a.facts {
		keep(f, b)
	}
	for _, f := range b.facts {
		keep(f, a)
	}
	for _, q := range a.neqs {
		if b.proveNE(q, linC(0)) {
			r.neqs = append(r.neqs, q)
		}
	}
	for _, f := range a.forall {
		for _, g := range b.forall {
			if f == g {
				r.forall = append(r.forall, f)
			}
		}
	}
	// events: common prefix, then unknown
	ea, eb := a.ev, b.ev
	for ea != eb {
		na, nb := 0, 0
		if ea != nil {
			na = ea.n
		}
		if eb != nil {
			nb = eb.n
		}
		if na >= nb && ea != nil {
			ea = ea.prev
		} else {
			eb = eb.prev
		}
	}
	r.ev = ea
	if a.ev != ea || b.ev != ea {
		// printing is not an event anyone asks about
		if onlyPrint(a.ev, ea) && onlyPrint(b.ev, ea) {
		} else {
			r.addEvent(&Event{Kind: "unknown"})
		}
	}
	for k, n := range a.held {
		if b.held[k] == n {
			r.held[k] = n
		} else {
			r.held[k] = -99
		}
	}
	for k := range b.held {
		if _, ok := a.held[k]; !ok && b.held[k] != 0 {
			r.held[k] = -99
		}
	}
	r.wlog = a.wlog
	if len(b.wlog) > len(a.wlog) {
		r.wlog = b.wlog
	}
	return r
}

func onlyPrint(l, stop *EvList) bool {
	for ; l != stop; l = l.prev {
		if l.ev.Kind != "print" {
			return false
		}
	}
	return true
}

func (j *joiner) obj(o, p *Obj) *Obj {
	if o == p {
		return o
	}
	n := *o
	switch o.K {
	case 'v':
		if aa, ok := o.V.(*ArrV); ok {
			if bb, ok := p.V.(*ArrV); ok {
				if aa.S.key() == bb.S.key() {
					return o
				}
				n.V = &ArrV{S: unkSeq(linC(aa.N)), N: aa.N}
				return &n
			}
		}
		n.V = j.val(o.V, p.V, o.T)
	case 'a':
		if o.S.key() == p.S.key() {
			return o
		}
		la, lb := seqLen(o.S), seqLen(p.S)
		l := j.lin(la, lb, bigZero, pow2(43))
		n.S = unkSeq(l)
	case 'm':
		if mapSame(o.M, p.M) {
			return o
		}
		n.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, open: true, name: freshKey("jmap"), T: o.M.T}
	case 'i':
		it := *o.It
		if p.It.pos != it.pos {
			it.sym = true
		}
		n.It = &it
	}
	return &n
}

func mapSame(a, b *MapO) bool {
	if a == b {
		return true
	}
	if a.open != b.open || a.name != b.name || len(a.ent) != len(b.ent) || len(a.del) != len(b.del) {
		return false
	}
	for k, v := range a.ent {
		w, ok := b.ent[k]
		if !ok || valKey(v.v) != valKey(w.v) {
			return false
		}
	}
	for k := range a.del {
		if !b.del[k] {
			return false
		}
	}
	return true
}

func (j *joiner) lin(x, y *Lin, lo, hi *big.Int) *Lin {
	x, y = j.a.norm(x), j.b.norm(y)
	if linEq(x, y) {
		return x
	}
	k := x.key() + "|" + y.key()
	if v, ok := j.memo[k]; ok {
		return v.(*IntV).L
	}
	xl, xh := x.bounds()
	yl, yh := y.bounds()
	if xl != nil && yl != nil {
		m := xl
		if yl.Cmp(m) < 0 {
			m = yl
		}
		if lo == nil || m.Cmp(lo) > 0 {
			lo = m
		}
	}
	if xh != nil && yh != nil {
		m := xh
		if yh.Cmp(m) > 0 {
			m = yh
		}
		if hi == nil || m.Cmp(hi) < 0 {
			hi = m
		}
	}
	z := linA(freshAtom("j", lo, hi))
	j.memo[k] = &IntV{z}
	// relational bounds against constants and each other's form
	for _, c := range []*Lin{x, y, linC(0), linC(1)} {
		if j.a.proveGE(linSub(c, x)) && j.b.proveGE(linSub(c, y)) {
			j.r.addFact(linSub(c, z))
		}
		if j.a.proveGE(linSub(x, c)) && j.b.proveGE(linSub(y, c)) {
			j.r.addFact(linSub(z, c))
		}
	}
	return z
}

func (j *joiner) val(x, y Val, t types.Type) Val {
	if x == y || valKey(x) == valKey(y) {
		return x
	}
	k := "v" + valKey(x) + "|" + valKey(y)
	if v, ok := j.memo[k]; ok {
		return v
	}
	v := j.val1(x, y, t)
	j.memo[k] = v
	return v
}

func (j *joiner) val1(x, y Val, t types.Type) Val {
	x, y = eng.expand(x), eng.expand(y)
	switch a := x.(type) {
	case *IntV:
		if b, ok := y.(*IntV); ok {
			var lo, hi *big.Int
			if bt := basicInt(t); bt != nil {
				lo, hi = intRange(bt)
			}
			return &IntV{j.lin(a.L, b.L, lo, hi)}
		}
	case *BoolV:
		if b, ok := y.(*BoolV); ok {
			ea, eb := j.a.evalBool(a), j.b.evalBool(b)
			if ea != 0 && ea == eb {
				return boolC(ea == 1)
			}
			return boolOpaque(freshKey("jb"))
		}
	case *StrV:
		if b, ok := y.(*StrV); ok {
			sa, sb := j.a.normSeq(a.S), j.b.normSeq(b.S)
			if sa.key() == sb.key() {
				return &StrV{sa}
			}
			s := freshSrc("js", nil)
			l := j.lin(seqLen(sa), seqLen(sb), bigZero, maxLen)
			j.r.assumeEQ(linSub(s.Len, l))
			// differing from constants both exclude
			return strSrc(s)
		}
	case *StructV:
		if b, ok := y.(*StructV); ok && len(a.F) == len(b.F) {
			n := &StructV{}
			var st *types.Struct
			if t != nil {
				st, _ = t.Underlying().(*types.Struct)
			}
			for i := range a.F {
				var ft types.Type
				if st != nil {
					ft = st.Field(i).Type()
				}
				n.F = append(n.F, j.val(a.F[i], b.F[i], ft))
			}
			return n
		}
	case *TimeV:
		if b, ok := y.(*TimeV); ok {
			return &TimeV{Sec: j.lin(a.Sec, b.Sec, minTimeSec, maxTimeSec), Nsec: j.lin(a.Nsec, b.Nsec, bigZero, big.NewInt(999999999)), UTC: a.UTC && b.UTC}
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok {
			l := j.lin(a.Len, b.Len, bigZero, pow2(42))
			n := &SliceV{Len: l, Nil: '?', NilKey: freshKey("jn")}
			if a.Nil == b.Nil && a.Nil != '?' {
				n.Nil = a.Nil
			}
			if a.Arr == b.Arr {
				n.Arr = a.Arr
				n.Off = j.lin(a.Off, b.Off, bigZero, pow2(42))
				n.Cap = j.lin(a.Cap, b.Cap, bigZero, pow2(42))
				if linEq(n.Len, n.Cap) || j.a.proveGE(linSub(a.Cap, a.Len)) {
					j.r.addFact(linSub(n.Cap, n.Len))
				}
				return n
			}
			var et types.Type
			if oa := j.a.obj(a.Arr); oa != nil {
				et = elemTypeOf(oa)
			} else if ob := j.b.obj(b.Arr); ob != nil {
				et = elemTypeOf(ob)
			}
			eng.nextObj++
			o := &Obj{id: eng.nextObj, K: 'a', T: et, S: unkSeq(l)}
			if ca, ok := j.a.sliceSeq(a); ok {
				if cb, ok := j.b.sliceSeq(b); ok && ca.key() == cb.key() {
					o.S = ca
				}
			}
			j.r.heap[o.id] = o
			n.Arr, n.Off, n.Cap = o.id, linC(0), l
			return n
		}
	case *PtrV:
		if b, ok := y.(*PtrV); ok {
			if t == nil {
				for _, q := range []struct {
					s *State
					p *PtrV
				}{{j.a, a}, {j.b, b}} {
					if q.p.Obj != 0 && len(q.p.Path) == 0 {
						if o := q.s.obj(q.p.Obj); o != nil && o.K == 'v' && o.T != nil {
							t = types.NewPointer(o.T)
						}
					}
				}
			}
			if v := j.twin(a, b); v != nil {
				return v
			}
			if t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					v := eng.fresh(t).(*PtrV)
					if j.nonNil(j.a, a) && j.nonNil(j.b, b) {
						v.MayNil = ""
					}
					return v
				}
			}
			p := &PtrV{Ext: freshKey("jp")}
			if !(j.nonNil(j.a, a) && j.nonNil(j.b, b)) {
				p.MayNil = p.Ext
			}
			return p
		}
	case *IfaceV:
		if b, ok := y.(*IfaceV); ok {
			if a.T != nil && b.T != nil && types.Identical(a.T, b.T) {
				return &IfaceV{T: a.T, V: j.val(a.V, b.V, a.T)}
			}
			na, nb := eng.isNilB(j.a, a), eng.isNilB(j.b, b)
			return &IfaceV{Sym: freshKey("ji"), MayNil: !(j.a.evalBool(na) == -1 && j.b.evalBool(nb) == -1)}
		}
	case *TupleV:
		if b, ok := y.(*TupleV); ok && len(a.E) == len(b.E) {
			n := &TupleV{}
			for i := range a.E {
				var et types.Type
				if tt, ok := t.(*types.Tuple); ok {
					et = tt.At(i).Type()
				}
				n.E = append(n.E, j.val(a.E[i], b.E[i], et))
			}
			return n
		}
	}
	if t != nil {
		return eng.fresh(t)
	}
	return &OpaqueV{T: t, Key: freshKey("jo")}
}

// twin: two objects allocated separately on either side become one.
func (j *joiner) twin(a, b *PtrV) *PtrV {
	if a.Obj == 0 || b.Obj == 0 || a.Obj == b.Obj || len(a.Path) != 0 || len(b.Path) != 0 || a.MayNil != "" || b.MayNil != "" {
		return nil
	}
	oa, ob := j.a.obj(a.Obj), j.b.obj(b.Obj)
	if oa == nil || ob == nil || oa.K != 'v' || ob.K != 'v' || oa.T == nil || ob.T == nil || !types.Identical(oa.T, ob.T) {
		return nil
	}
	if j.a.obj(b.Obj) != nil || j.b.obj(a.Obj) != nil {
		return nil
	}
	eng.nextObj++
	id := eng.nextObj
	p := &PtrV{Obj: id}
	j.memo["v"+valKey(a)+"|"+valKey(b)] = p
	n := j.obj(oa, ob)
	m := *n
	m.id = id
	j.r.heap[id] = &m
	j.twins = append(j.twins, a.Obj, b.Obj)
	return p
}

// dropTwins removes the objects that became one with another and that nothing
// refers to any more.
func (j *joiner) dropTwins(ret ...Val) {
	if len(j.twins) == 0 {
		return
	}
	gone := map[int]bool{}
	for _, id := range j.twins {
		gone[id] = true
	}
	used := map[int]bool{}
	var val func(v Val)
	var seq func(s Seq)
	ref := func(id int) {
		if !gone[id] || used[id] {
			return
		}
		used[id] = true
		if o := j.r.heap[id]; o != nil {
			if o.V != nil {
				val(o.V)
			}
			seq(o.S)
		}
	}
	val = func(v Val) {
		switch x := v.(type) {
		case *PtrV:
			ref(x.Obj)
		case *StructV:
			for _, f := range x.F {
				val(f)
			}
		case *TupleV:
			for _, f := range x.E {
				val(f)
			}
		case *IfaceV:
			if x.V != nil {
				val(x.V)
			}
		case *FuncV:
			for _, f := range x.Bind {
				val(f)
			}
		case *OpaqueV:
			for _, f := range x.Args {
				val(f)
			}
		case *ArrV:
			seq(x.S)
		case *SliceV:
			ref(x.Arr)
		case *MapV:
			ref(x.Obj)
		case *RefV:
			val(x.V)
			if x.Addr != nil {
				val(x.Addr)
			}
		}
	}
	seq = func(s Seq) {
		for _, p := range s {
			for _, v := range p.Elems {
				val(v)
			}
			if p.Rep != nil {
				seq(p.Rep.Body)
			}
		}
	}
	for _, v := range ret {
		val(v)
	}
	for _, v := range j.r.env {
		val(v)
	}
	for _, d := range j.r.defers {
		if d.fn != nil {
			val(d.fn)
		}
		for _, v := range d.args {
			val(v)
		}
	}
	for _, v := range j.r.events() {
		for _, a := range v.Args {
			val(a)
		}
		for _, a := range v.Res {
			val(a)
		}
	}
	for id, o := range j.r.heap {
		if gone[id] {
			continue
		}
		if o.V != nil {
			val(o.V)
		}
		seq(o.S)
		if o.M != nil {
			for _, e := range o.M.ent {
				val(e.k)
				val(e.v)
			}
		}
	}
	for id := range gone {
		if !used[id] {
			delete(j.r.heap, id)
		}
	}
}

func (j *joiner) nonNil(s *State, p *PtrV) bool {
	return s.evalBool(eng.isNilB(s, p)) == -1
}
