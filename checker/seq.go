package main

// Operations on abstract sequences (byte strings, buffers, element arrays).

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func (st *State) normSeq(s Seq) Seq {
	out := make(Seq, 0, len(s))
	for _, p := range s {
		p.Len = st.norm(p.Len)
		if p.Len.isC(0) {
			continue
		}
		switch p.K {
		case pSrc:
			p.Off = st.norm(p.Off)
			if c, ok := st.sknown[p.Src]; ok {
				o, ok1 := p.Off.constInt()
				n, ok2 := p.Len.constInt()
				if ok1 && ok2 && o >= 0 && o+n <= len(c) {
					p = Piece{K: pConst, Data: c[o : o+n], Len: p.Len}
				}
			}
		case pInt:
			p.V = st.norm(p.V)
			if p.V.isConst() {
				n, _ := p.Len.constInt()
				p = Piece{K: pConst, Data: beBytes(p.V.c, p.N)[p.Lo : p.Lo+n], Len: p.Len}
			}
		case pRep:
			p.Off = st.norm(p.Off)
		}
		if n := len(out); n > 0 {
			q := &out[n-1]
			switch {
			case q.K == pConst && p.K == pConst:
				q.Data += p.Data
				q.Len = linAdd(q.Len, p.Len)
				continue
			case q.K == pZero && p.K == pZero:
				q.Len = linAdd(q.Len, p.Len)
				continue
			case q.K == pSrc && p.K == pSrc && q.Src == p.Src && linEq(linAdd(q.Off, q.Len), p.Off):
				q.Len = linAdd(q.Len, p.Len)
				continue
			case q.K == pInt && p.K == pInt && q.N == p.N && linEq(q.V, p.V):
				if n, ok := q.Len.constInt(); ok && q.Lo+n == p.Lo {
					q.Len = linAdd(q.Len, p.Len)
					continue
				}
			case q.K == pInt && p.K == pInt:
				if m, ok := joinFields(*q, p); ok {
					*q = m
					continue
				}
			case q.K == pElems && p.K == pElems:
				q.Elems = append(append([]Val(nil), q.Elems...), p.Elems...)
				q.Len = linAdd(q.Len, p.Len)
				continue
			case q.K == pRep && p.K == pRep && q.Rep == p.Rep && linEq(linAdd(linMul(q.Off, big.NewInt(int64(q.Rep.M))), q.Len), linMul(p.Off, big.NewInt(int64(p.Rep.M)))):
				q.Len = linAdd(q.Len, p.Len)
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// joinFields: two numbers written one after the other which are neighbouring
// bits of one number, a high part and the part below it, are that number.
func joinFields(q, p Piece) (Piece, bool) {
	qa, qlo, ok1 := fieldAt(q)
	pa, plo, ok2 := fieldAt(p)
	if !ok1 || !ok2 || qa != pa || q.N+p.N > 8 || qlo != plo+8*p.N {
		return p, false
	}
	n := 8 * (q.N + p.N)
	if w := qa.width(); plo+n > w {
		n = w - plo
	}
	v := linA(mkField(qa, plo, n))
	return Piece{K: pInt, V: v, N: q.N + p.N, Len: linC(int64(q.N + p.N))}, true
}

// fieldAt is the number of which the whole of p is the bits from lo up.
func fieldAt(p Piece) (a *Atom, lo int, ok bool) {
	if p.Lo != 0 || !p.Len.isC(int64(p.N)) || len(p.V.t) != 1 || p.V.c.Sign() != 0 || p.V.t[0].c.Cmp(bigOne) != 0 {
		return nil, 0, false
	}
	a = p.V.t[0].a
	w := a.width()
	if w < 0 {
		return nil, 0, false
	}
	if a.op == "field" {
		a, lo = a.parent, a.flo
	}
	if w < 8*p.N && lo+w < a.width() { // bits above are cut off
		return nil, 0, false
	}
	return a, lo, true
}

func beBytes(v *big.Int, n int) string {
	b := make([]byte, n)
	x := new(big.Int).And(v, new(big.Int).Sub(pow2(uint(8*n)), bigOne))
	x.FillBytes(b)
	return string(b)
}

// splitPiece cuts p after at elements (0 <= at <= p.Len must hold).
func (st *State) splitPiece(p Piece, at *Lin) (h, t Piece, ok bool) {
	at = st.norm(at)
	h, t = p, p
	h.Len = at
	t.Len = st.norm(linSub(p.Len, at))
	switch p.K {
	case pZero:
		return h, t, true
	case pUnk:
		eng.nextUnk++
		h.Id = eng.nextUnk
		eng.nextUnk++
		t.Id = eng.nextUnk
		return h, t, true
	case pSrc:
		t.Off = st.norm(linAdd(p.Off, at))
		return h, t, true
	}
	n, isc := at.constInt()
	switch p.K {
	case pConst:
		if !isc || n > len(p.Data) {
			return h, t, false
		}
		h.Data, t.Data = p.Data[:n], p.Data[n:]
		return h, t, true
	case pInt:
		if !isc {
			return h, t, false
		}
		t.Lo = p.Lo + n
		return h, t, true
	case pElems:
		if !isc || n > len(p.Elems) {
			return h, t, false
		}
		h.Elems, t.Elems = p.Elems[:n], p.Elems[n:]
		return h, t, true
	case pRep:
		m := big.NewInt(int64(p.Rep.M))
		q, ok := divExact(at, m)
		if ok {
			t.Off = st.norm(linAdd(p.Off, q))
			return h, t, true
		}
		// cut inside an iteration: expand that iteration if it is at a constant remainder
		return h, t, false
	}
	return h, t, false
}

// divExact: l/m when every coefficient and the constant are divisible.
func divExact(l *Lin, m *big.Int) (*Lin, bool) {
	r := &Lin{}
	q, rem := new(big.Int), new(big.Int)
	q.QuoRem(l.c, m, rem)
	if rem.Sign() != 0 {
		return nil, false
	}
	r.c = q
	for _, t := range l.t {
		q, rem := new(big.Int), new(big.Int)
		q.QuoRem(t.c, m, rem)
		if rem.Sign() != 0 {
			return nil, false
		}
		r.t = append(r.t, Term{t.a, q})
	}
	return r, true
}

// seqSplit cuts s at offset at. ok=false when positions cannot be ordered.
func (st *State) seqSplit(s Seq, at *Lin) (Seq, Seq, bool) {
	at = st.norm(at)
	pos := linC(0)
	for i, p := range s {
		if st.proveEQ(at, pos) {
			return s[:i], s[i:], true
		}
		end := linAdd(pos, p.Len)
		// at inside p ?
		if st.proveGE(linSub(at, end)) {
			pos = end
			continue
		}
		if st.proveGE(linSub(at, pos)) && st.proveGE(linSub(end, at)) {
			rel := st.norm(linSub(at, pos))
			if p.K == pRep {
				if h, ex, ok := st.expandRep(p, rel); ok {
					ns := append(append(append(Seq{}, s[:i]...), h...), ex...)
					ns = append(ns, s[i+1:]...)
					n := len(s[:i]) + len(h)
					// now rel falls into ex, finite body
					a, b, ok2 := st.seqSplit(ns[n:], linSub(at, seqLen(ns[:n])))
					if !ok2 {
						return nil, nil, false
					}
					return append(append(Seq{}, ns[:n]...), a...), b, true
				}
			}
			h, t, ok := st.splitPiece(p, rel)
			if !ok {
				return nil, nil, false
			}
			a := append(append(Seq{}, s[:i]...), h)
			b := append(Seq{t}, s[i+1:]...)
			return st.normSeq(a), st.normSeq(b), true
		}
		return nil, nil, false
	}
	if st.proveEQ(at, pos) {
		return s, nil, true
	}
	return nil, nil, false
}

// expandRep: rel is a position inside a repetition piece but not a multiple of
// the body size: peel the iteration containing it.
func (st *State) expandRep(p Piece, rel *Lin) (head Seq, rest Seq, ok bool) {
	m := int64(p.Rep.M)
	r := new(big.Int)
	q := new(big.Int)
	q.DivMod(rel.c, big.NewInt(m), r)
	if r.Sign() == 0 {
		return nil, nil, false
	}
	base := &Lin{c: new(big.Int).Sub(rel.c, r), t: rel.t}
	it, ok := divExact(base, big.NewInt(m))
	if !ok || !p.Rep.ok {
		return nil, nil, false
	}
	h := p
	h.Len = base
	k := st.norm(linAdd(p.Off, it))
	body := st.instRep(p.Rep, k)
	t := p
	t.Off = linAddC(k, 1)
	t.Len = st.norm(linSub(linSub(p.Len, base), linC(m)))
	if h.Len.isC(0) {
		head = nil
	} else {
		head = Seq{h}
	}
	rest = append(append(Seq{}, body...), t)
	return head, rest, true
}

// instRep instantiates a loop body at iteration k and adopts its facts.
func (st *State) instRep(r *Rep, k *Lin) Seq {
	sb := &subst{a: r.K, l: k}
	for _, f := range r.Facts {
		st.addFact(sb.lin(f))
	}
	return sb.seq(r.Body)
}

// seqSub returns s[lo:hi].
func (st *State) seqSub(s Seq, lo, hi *Lin) (Seq, bool) {
	_, b, ok := st.seqSplit(s, lo)
	if !ok {
		return nil, false
	}
	a, _, ok := st.seqSplit(b, linSub(hi, lo))
	if !ok {
		return nil, false
	}
	return st.normSeq(a), true
}

// seqWrite replaces s[off:off+len(d)] by d.
func (st *State) seqWrite(s Seq, off *Lin, d Seq) (Seq, bool) {
	if len(d) == 0 {
		return s, true
	}
	a, b, ok := st.seqSplit(s, off)
	if !ok {
		return nil, false
	}
	_, c, ok := st.seqSplit(b, seqLen(d))
	if !ok {
		return nil, false
	}
	r := append(append(append(Seq{}, a...), d...), c...)
	return st.normSeq(r), true
}

func unkSeq(n *Lin) Seq {
	eng.nextUnk++
	return Seq{{K: pUnk, Len: n, Id: eng.nextUnk}}
}

// elemVal reads element ix of s. For byte sequences (et nil) the result is an
// IntV in 0..255. nil when the position cannot be resolved.
func (st *State) elemVal(s Seq, ix *Lin, et types.Type) Val {
	ix = st.norm(ix)
	pos := linC(0)
	for _, p := range s {
		end := linAdd(pos, p.Len)
		if st.proveGE(linSub(ix, end)) {
			pos = end
			continue
		}
		if !st.proveGE(linSub(ix, pos)) || !st.proveGE(linAddC(linSub(end, ix), -1)) {
			return nil
		}
		rel := st.norm(linSub(ix, pos))
		switch p.K {
		case pConst:
			if n, ok := rel.constInt(); ok && n < len(p.Data) {
				return &IntV{linC(int64(p.Data[n]))}
			}
			return nil
		case pZero:
			if et == nil || isByte(et) {
				return &IntV{linC(0)}
			}
			return st.zero(et)
		case pSrc:
			return st.srcElem(p.Src, st.norm(linAdd(p.Off, rel)))
		case pInt:
			if n, ok := rel.constInt(); ok {
				bi := p.N - 1 - (p.Lo + n) // byte significance
				if bs, ok := st.toBits(p.V, 8*p.N); ok {
					return &IntV{fromBits(bs[8*bi : 8*bi+8])}
				}
			}
			return nil
		case pElems:
			if n, ok := rel.constInt(); ok && n < len(p.Elems) {
				return p.Elems[n]
			}
			return nil
		case pRep:
			if !p.Rep.ok {
				return nil
			}
			m := int64(p.Rep.M)
			r := new(big.Int)
			q := new(big.Int)
			q.DivMod(rel.c, big.NewInt(m), r)
			it, ok := divExact(&Lin{c: new(big.Int).Sub(rel.c, r), t: rel.t}, big.NewInt(m))
			if !ok {
				return nil
			}
			body := st.instRep(p.Rep, st.norm(linAdd(p.Off, it)))
			return st.elemVal(body, linB(r), et)
		}
		return nil
	}
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

// srcElem: element ix of a source.
func (st *State) srcElem(s *Src, ix *Lin) Val {
	if s.Elem == nil {
		a := mkAtom(fmt.Sprintf("%s[%s]", s.key, ix.key()), bigZero, big.NewInt(255))
		if a.op == "" {
			a.op = "byte"
			a.args = []Val{s, &IntV{ix}}
		}
		return &IntV{linA(a)}
	}
	v := symElem(s, ix, s.Elem, "")
	st.instForall(s, ix)
	return v
}

// symElem: the symbolic value at path of element ix of s.
func symElem(s *Src, ix *Lin, t types.Type, path string) Val {
	key := fmt.Sprintf("%s[%s]%s", s.key, ix.key(), path)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u)
			a := mkAtom(key, lo, hi)
			if a.op == "" {
				a.op = "elem"
				a.args = []Val{s, &IntV{ix}}
				a.sargs = []string{path}
			}
			return &IntV{linA(a)}
		case u.Info()&types.IsString != 0:
			d := mkSrc(key, nil)
			if d.op == "" {
				d.op, d.par, d.idx, d.path = "elem", s, ix, path
			}
			return strSrc(d)
		case u.Info()&types.IsBoolean != 0:
			return boolOpaque("elem:" + key)
		}
	case *types.Struct:
		if isTime(t) {
			sec := mkAtom(key+".sec", minTimeSec, maxTimeSec)
			ns := mkAtom(key+".nsec", bigZero, big.NewInt(999999999))
			return &TimeV{Sec: linA(sec), Nsec: linA(ns)}
		}
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.F = append(sv.F, symElem(s, ix, u.Field(i).Type(), path+fmt.Sprintf(".%d", i)))
		}
		return sv
	}
	v := eng.sym(t, key)
	if p, ok := v.(*PtrV); ok && p.Obj != 0 {
		if _, ok := eng.symInfo[p.Obj]; !ok {
			eng.symInfo[p.Obj] = symElemInfo{s, ix, t, path}
		}
	}
	return v
}

type symElemInfo struct {
	s    *Src
	ix   *Lin
	t    types.Type
	path string
}

// instForall: adopt universally quantified loop facts about element ix of s.
func (st *State) instForall(s *Src, ix *Lin) {
	for _, f := range st.forall {
		if ix.has(f.K) {
			continue
		}
		if !st.proveGE(ix) || !st.proveGE(linAddC(linSub(f.N, ix), -1)) {
			continue
		}
		sb := &subst{a: f.K, l: ix}
		for _, l := range f.Facts {
			st.addFact(sb.lin(l))
		}
		for _, l := range f.Neqs {
			st.assumeNE(sb.lin(l))
		}
		for k, v := range f.Truth {
			_ = k
			_ = v
		}
		for i, b := range f.Bools {
			_ = i
			nb := sb.bool(b)
			st.assume(nb, true)
		}
	}
}

// readBE reads n bytes big-endian (or little if le) at off.
func (st *State) readInt(s Seq, off *Lin, n int, le bool) *Lin {
	sub, ok := st.seqSub(s, off, linAddC(off, int64(n)))
	if ok && !le && len(sub) == 1 {
		p := sub[0]
		switch p.K {
		case pInt:
			if p.N == n && p.Lo == 0 {
				if st.proveGE(p.V) && st.proveGE(linSub(linB(new(big.Int).Sub(pow2(uint(8*n)), bigOne)), p.V)) {
					return p.V
				}
				if bs, ok := st.toBits(p.V, 64); ok {
					return fromBits(bs[:8*n])
				}
			}
		case pSrc:
			if p.Src.Elem == nil {
				a := mkAtom(fmt.Sprintf("be%d(%s@%s)", 8*n, p.Src.key, p.Off.key()), bigZero, new(big.Int).Sub(pow2(uint(8*n)), bigOne))
				if a.op == "" {
					a.op = "be"
					a.args = []Val{p.Src, &IntV{p.Off}}
					a.iargs = []int{n}
				}
				return linA(a)
			}
		}
	}
	if ok {
		// assemble from single bytes
		bs := make([]bit, 8*n)
		good := true
		for i := 0; i < n && good; i++ {
			v, _ := st.elemVal(sub, linC(int64(i)), nil).(*IntV)
			if v == nil {
				good = false
				break
			}
			bb, ok := st.toBits(v.L, 8)
			if !ok {
				good = false
				break
			}
			at := 8 * (n - 1 - i)
			if le {
				at = 8 * i
			}
			copy(bs[at:], bb)
		}
		if good {
			return fromBits(bs)
		}
	}
	return linA(freshAtom(fmt.Sprintf("read%d", 8*n), bigZero, new(big.Int).Sub(pow2(uint(8*n)), bigOne)))
}

// ---------------------------------------------------------------- equality

// valEqual: provably the same value (slices: same contents and length).
func (st *State) valEqual(a, b Val) bool {
	switch x := a.(type) {
	case *IntV:
		y, ok := b.(*IntV)
		return ok && (st.proveEQ(x.L, y.L) || len(x.L.t) > 1 && st.lowBitsEqual(x.L, y.L, 64) || len(y.L.t) > 1 && st.lowBitsEqual(x.L, y.L, 64))
	case *StrV:
		y, ok := b.(*StrV)
		return ok && st.seqEqual(x.S, y.S) == 1
	case *BoolV:
		y, ok := b.(*BoolV)
		if !ok {
			return false
		}
		ex, ey := st.evalBool(x), st.evalBool(y)
		if ex != 0 && ey != 0 {
			return ex == ey
		}
		return x.key() == y.key()
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.valEqual(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if !st.proveEQ(x.Len, y.Len) {
			return false
		}
		if st.proveEQ(x.Len, linC(0)) {
			return true
		}
		cx, ok1 := st.sliceSeq(x)
		cy, ok2 := st.sliceSeq(y)
		return ok1 && ok2 && st.seqEqual(cx, cy) == 1
	case *TimeV:
		y, ok := b.(*TimeV)
		return ok && st.proveEQ(x.Sec, y.Sec) && st.proveEQ(x.Nsec, y.Nsec)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok {
			return false
		}
		if x.T != nil && y.T != nil {
			return types.Identical(x.T, y.T) && st.valEqual(x.V, y.V)
		}
		return valKey(a) == valKey(b)
	case *ArrV:
		y, ok := b.(*ArrV)
		return ok && st.seqEqual(x.S, y.S) == 1
	}
	return valKey(a) == valKey(b)
}

// sliceSeq: the contents of a slice.
func (st *State) sliceSeq(s *SliceV) (Seq, bool) {
	if s.Arr == 0 {
		return nil, true
	}
	o := st.obj(s.Arr)
	if o == nil {
		return nil, false
	}
	return st.seqSub(o.arr(), s.Off, linAdd(s.Off, s.Len))
}

func (o *Obj) arr() Seq {
	if a, ok := o.V.(*ArrV); ok && o.K != 'a' {
		return a.S
	}
	return o.S
}

// ------------------------------------------------------------- substitution

// subst rebuilds values with atom a replaced by l.
type subst struct {
	a *Atom
	l *Lin
	m map[*Atom]*Lin
}

func (sb *subst) lin(x *Lin) *Lin {
	if x == nil {
		return nil
	}
	r := linB(x.c)
	for _, t := range x.t {
		r = linAddMul(r, t.c, sb.atom(t.a))
	}
	return r
}

func (sb *subst) atom(a *Atom) *Lin {
	if a == sb.a {
		return sb.l
	}
	switch a.op {
	case "field":
		p := sb.atom(a.parent)
		if pa := p.atom(); pa != nil {
			if pa == a.parent {
				return linA(a)
			}
			return linA(mkField(pa, a.flo, a.flen))
		}
		return linA(a)
	case "elem":
		s := sb.src(a.args[0].(*Src))
		ix := sb.lin(a.args[1].(*IntV).L)
		if s == a.args[0].(*Src) && linEq(ix, a.args[1].(*IntV).L) {
			return linA(a)
		}
		key := fmt.Sprintf("%s[%s]%s", s.key, ix.key(), a.sargs[0])
		n := mkAtom(key, a.lo, a.hi)
		n.op, n.args, n.sargs = "elem", []Val{s, &IntV{ix}}, a.sargs
		return linA(n)
	case "byte":
		s := sb.src(a.args[0].(*Src))
		ix := sb.lin(a.args[1].(*IntV).L)
		n := mkAtom(fmt.Sprintf("%s[%s]", s.key, ix.key()), a.lo, a.hi)
		n.op, n.args = "byte", []Val{s, &IntV{ix}}
		return linA(n)
	case "be":
		s := sb.src(a.args[0].(*Src))
		ix := sb.lin(a.args[1].(*IntV).L)
		n := mkAtom(fmt.Sprintf("be%d(%s@%s)", 8*a.iargs[0], s.key, ix.key()), a.lo, a.hi)
		n.op, n.args, n.iargs = "be", []Val{s, &IntV{ix}}, a.iargs
		return linA(n)
	case "call":
		args := make([]Val, len(a.args))
		ch := false
		for i, v := range a.args {
			args[i] = sb.val(v)
			if valKey(args[i]) != valKey(v) {
				ch = true
			}
		}
		if !ch {
			return linA(a)
		}
		n := callAtom(a.sargs[0], args, a.lo, a.hi)
		return linA(n)
	}
	if sb.m != nil {
		if r, ok := sb.m[a]; ok {
			return r
		}
	}
	return linA(a)
}

// callAtom: the integer result of a pure function applied to args.
func callAtom(fn string, args []Val, lo, hi *big.Int) *Atom {
	var b strings.Builder
	b.WriteString(fn + "(")
	for i, a := range args {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(valKey(a))
	}
	b.WriteByte(')')
	n := mkAtom(b.String(), lo, hi)
	if n.op == "" {
		n.op, n.args, n.sargs = "call", args, []string{fn}
	}
	return n
}

func (sb *subst) src(s *Src) *Src {
	if s.op != "elem" {
		return s
	}
	p := sb.src(s.par)
	ix := sb.lin(s.idx)
	if p == s.par && linEq(ix, s.idx) {
		return s
	}
	n := mkSrc(fmt.Sprintf("%s[%s]%s", p.key, ix.key(), s.path), s.Elem)
	n.op, n.par, n.idx, n.path = "elem", p, ix, s.path
	return n
}

func (sb *subst) seq(s Seq) Seq {
	out := make(Seq, len(s))
	for i, p := range s {
		p.Len = sb.lin(p.Len)
		p.Off = sb.lin(p.Off)
		p.V = sb.lin(p.V)
		if p.Src != nil {
			p.Src = sb.src(p.Src)
		}
		if p.Elems != nil {
			e := make([]Val, len(p.Elems))
			for j, v := range p.Elems {
				e[j] = sb.val(v)
			}
			p.Elems = e
		}
		out[i] = p
	}
	return out
}

func (sb *subst) bool(b *BoolV) *BoolV {
	switch b.Op {
	case '>':
		return boolGE(sb.lin(b.L))
	case '=':
		c := *b
		c.L = sb.lin(b.L)
		return &c
	case 's':
		c := *b
		c.A, c.B = sb.seq(b.A), sb.seq(b.B)
		return &c
	}
	return b
}

func (sb *subst) val(v Val) Val {
	switch x := v.(type) {
	case *IntV:
		return &IntV{sb.lin(x.L)}
	case *StrV:
		return &StrV{sb.seq(x.S)}
	case *BoolV:
		return sb.bool(x)
	case *StructV:
		n := &StructV{F: make([]Val, len(x.F))}
		for i, f := range x.F {
			n.F[i] = sb.val(f)
		}
		return n
	case *TimeV:
		return &TimeV{Sec: sb.lin(x.Sec), Nsec: sb.lin(x.Nsec), UTC: x.UTC}
	case *SliceV:
		c := *x
		c.Off, c.Len, c.Cap = sb.lin(x.Off), sb.lin(x.Len), sb.lin(x.Cap)
		return &c
	case *IfaceV:
		if x.V != nil {
			c := *x
			c.V = sb.val(x.V)
			return &c
		}
	case *PtrV:
		c := *x
		if inf, ok := eng.symInfo[x.Obj]; ok {
			s2, ix2 := sb.src(inf.s), sb.lin(inf.ix)
			if n, ok := symElem(s2, ix2, inf.t, inf.path).(*PtrV); ok {
				c.Obj, c.MayNil = n.Obj, n.MayNil
				if x.MayNil == "" {
					c.MayNil = ""
				}
			}
		}
		c.Path = append([]Sel(nil), x.Path...)
		for i := range c.Path {
			if c.Path[i].Idx != nil {
				c.Path[i].Idx = sb.lin(c.Path[i].Idx)
			}
		}
		return &c
	case *Src:
		return sb.src(x)
	}
	return v
}
