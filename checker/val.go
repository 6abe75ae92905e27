package main

// Abstract values.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type IntV struct{ L *Lin }

// BoolV: op 'c' constant, '>' L>=0, '=' L==0, 's' A==B (byte sequences),
// 'o' opaque predicate Key, 'n' slice is nil. Neg negates ('c' uses C only).
type BoolV struct {
	Op   byte
	C    bool
	L    *Lin
	A, B Seq
	Key  string
	Neg  bool
	Sl   *SliceV
}
type StrV struct{ S Seq }
type FloatV struct {
	L   *Lin // exact integral value when non-nil
	Key string
}
type PtrV struct {
	Obj  int // 0 = nil pointer
	Path []Sel
	Ext  string // symbolic identity of an external object (non-nil)
	// MayNil, when set, names the unknown "is nil" fact of this pointer
	MayNil string
}
type Sel struct {
	F   int  // field index, when Idx == nil
	Idx *Lin // element index
}
type SliceV struct {
	Arr           int // array object; 0 for nil slice
	Off, Len, Cap *Lin
	Nil           byte // 'y' nil, 'n' non-nil, '?' unknown
	NilKey        string
}
type StructV struct{ F []Val }
type ArrV struct {
	S Seq
	N int64
}
type IfaceV struct {
	T types.Type // dynamic type; nil with Sym=="" means nil interface
	V Val
	// symbolic interface value (unknown dynamic type)
	Sym    string
	MayNil bool
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Ext  string
	B    *ssa.Builtin
}
type MapV struct{ Obj int }
type ChanV struct{ Id string }
type TupleV struct{ E []Val }

// OpaqueV: a value of a type the analysis does not look into; identified by Key.
type OpaqueV struct {
	T    types.Type
	Key  string
	Op   string
	Args []Val
}

// TimeV: time.Time by its Unix seconds and nanoseconds.
type TimeV struct {
	Sec, Nsec *Lin
	UTC       bool
}

// RefV: reflect.Value
type RefV struct {
	V    Val
	T    types.Type
	Addr *PtrV
}
type IterV struct{ Obj int } // map/string range iterator (state kept in heap object)

// UnkV: anything of type T.
// Its parts are named after Key, so that reading one twice gives one value.
type UnkV struct {
	T   types.Type
	Key string
}

// ---------------------------------------------------------------- sequences

type PKind byte

const (
	pConst PKind = 'c'
	pZero  PKind = 'z'
	pSrc   PKind = 's'
	pInt   PKind = 'i'
	pElems PKind = 'e'
	pRep   PKind = 'r'
	pUnk   PKind = 'u'
)

type Piece struct {
	K     PKind
	Len   *Lin
	Data  string // pConst
	Src   *Src   // pSrc
	Off   *Lin   // pSrc: offset in Src; pRep: first iteration
	V     *Lin   // pInt
	N, Lo int    // pInt: bytes [Lo,Lo+Len) of the N byte big endian form of V
	Elems []Val  // pElems
	Rep   *Rep   // pRep
	Id    int    // pUnk
}
type Seq []Piece

// Rep: the elements produced by iterations of a loop: Body(K) per iteration.
type Rep struct {
	id    int
	K     *Atom
	Body  Seq
	M     int // elements per iteration
	Facts []*Lin
	Truth map[string]bool
	ok    bool
}

// Src: an unknown array or string of the initial state.
type Src struct {
	id   int
	key  string
	Len  *Lin
	Elem types.Type // nil = bytes
	op   string     // "" primitive; "elem": derived from parent element
	par  *Src
	idx  *Lin
	path string
	args []Val
	from string // the pure library call it is a result of
}

var srcTab = map[string]*Src{}

// cutOf: texts which end with none of these bytes, as those were cut off.
var cutOf = map[*Src]string{}
var srcList []*Src

func mkSrc(key string, elem types.Type) *Src {
	if s, ok := srcTab[key]; ok {
		return s
	}
	s := &Src{id: len(srcList), key: key, Elem: elem}
	srcList = append(srcList, s)
	srcTab[key] = s
	la := mkAtom("len("+key+")", bigZero, maxLen)
	la.op = "len"
	s.Len = linA(la)
	return s
}

// Lengths are assumed below 2^40 (no address space holds more).
var maxLen = pow2(40)

var srcSeq int

func freshSrc(hint string, elem types.Type) *Src {
	srcSeq++
	return mkSrc(fmt.Sprintf("%s$%d", hint, srcSeq), elem)
}

func strC(s string) *StrV {
	if s == "" {
		return &StrV{}
	}
	return &StrV{Seq{{K: pConst, Len: linC(int64(len(s))), Data: s}}}
}
func strSrc(s *Src) *StrV {
	return &StrV{Seq{{K: pSrc, Len: s.Len, Src: s, Off: linC(0)}}}
}

func (s Seq) constStr() (string, bool) {
	switch len(s) {
	case 0:
		return "", true
	case 1:
		if s[0].K == pConst {
			return s[0].Data, true
		}
		if s[0].K == pZero {
			if n, ok := s[0].Len.constInt(); ok && n < 4096 {
				return string(make([]byte, n)), true
			}
		}
		return "", false
	}
	var b strings.Builder
	for _, p := range s {
		x, ok := (Seq{p}).constStr()
		if !ok {
			return "", false
		}
		b.WriteString(x)
	}
	return b.String(), true
}

func seqLen(s Seq) *Lin {
	l := linC(0)
	for _, p := range s {
		l = linAdd(l, p.Len)
	}
	return l
}

func (p Piece) key() string {
	switch p.K {
	case pConst:
		return fmt.Sprintf("%q", p.Data)
	case pZero:
		return "0*(" + p.Len.key() + ")"
	case pSrc:
		return fmt.Sprintf("S%d[%s:+%s]", p.Src.id, p.Off.key(), p.Len.key())
	case pInt:
		return fmt.Sprintf("I(%s)/%d[%d:+%s]", p.V.key(), p.N, p.Lo, p.Len.key())
	case pElems:
		var b strings.Builder
		b.WriteString("E{")
		for _, e := range p.Elems {
			b.WriteString(valKey(e))
			b.WriteByte(';')
		}
		return b.String() + "}"
	case pRep:
		return fmt.Sprintf("R%d[%s:+%s]", p.Rep.id, p.Off.key(), p.Len.key())
	}
	return fmt.Sprintf("U%d(%s)", p.Id, p.Len.key())
}
func (s Seq) key() string {
	var b strings.Builder
	for _, p := range s {
		b.WriteString(p.key())
		b.WriteByte('.')
	}
	return b.String()
}

func (p Piece) String() string {
	switch p.K {
	case pConst:
		return fmt.Sprintf("%q", p.Data)
	case pZero:
		return fmt.Sprintf("zero(%s)", p.Len)
	case pSrc:
		return fmt.Sprintf("%s[%s:+%s]", p.Src.key, p.Off, p.Len)
	case pInt:
		return fmt.Sprintf("be%d(%s)[%d:+%s]", p.N*8, p.V, p.Lo, p.Len)
	case pElems:
		return fmt.Sprintf("elems(%s)", p.key())
	case pRep:
		return fmt.Sprintf("rep(%s x %d)", p.Len, p.Rep.M)
	}
	return fmt.Sprintf("unknown(%s)", p.Len)
}
func (s Seq) String() string {
	var b []string
	for _, p := range s {
		b = append(b, p.String())
	}
	return strings.Join(b, "·")
}

// ------------------------------------------------------------------- keys

func valKey(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case *IntV:
		return "i" + v.L.key()
	case *BoolV:
		return v.key()
	case *StrV:
		return "s" + v.S.key()
	case *FloatV:
		if v.L != nil {
			return "f" + v.L.key()
		}
		return "f?" + v.Key
	case *PtrV:
		if v.Obj == 0 && v.Ext == "" {
			return "nilptr"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "p%d%s", v.Obj, v.Ext)
		for _, s := range v.Path {
			if s.Idx != nil {
				fmt.Fprintf(&b, "[%s]", s.Idx.key())
			} else {
				fmt.Fprintf(&b, ".%d", s.F)
			}
		}
		return b.String()
	case *SliceV:
		return fmt.Sprintf("sl%d[%s:+%s]%c%s", v.Arr, v.Off.key(), v.Len.key(), v.Nil, v.NilKey)
	case *StructV:
		var b strings.Builder
		b.WriteString("{")
		for _, e := range v.F {
			b.WriteString(valKey(e))
			b.WriteByte(',')
		}
		return b.String() + "}"
	case *ArrV:
		return "A" + v.S.key()
	case *IfaceV:
		if v.Sym != "" {
			return "if?" + v.Sym
		}
		if v.T == nil {
			return "nilif"
		}
		return "if(" + v.T.String() + ":" + valKey(v.V) + ")"
	case *FuncV:
		if v.Fn == nil {
			return "fn?" + v.Ext
		}
		var b strings.Builder
		b.WriteString("fn" + v.Fn.String())
		for _, e := range v.Bind {
			b.WriteString("|" + valKey(e))
		}
		return b.String()
	case *MapV:
		return fmt.Sprintf("map%d", v.Obj)
	case *ChanV:
		return "ch" + v.Id
	case *TupleV:
		var b strings.Builder
		b.WriteString("(")
		for _, e := range v.E {
			b.WriteString(valKey(e) + ",")
		}
		return b.String() + ")"
	case *OpaqueV:
		return "o<" + v.Key + ">"
	case *TimeV:
		return "t(" + v.Sec.key() + "," + v.Nsec.key() + ")"
	case *RefV:
		return "ref(" + valKey(v.V) + ")"
	case *IterV:
		return fmt.Sprintf("it%d", v.Obj)
	case *UnkV:
		return "unk" + v.Key
	case *Src:
		return fmt.Sprintf("S%d", v.id)
	}
	return fmt.Sprintf("?%T", v)
}

func (b *BoolV) key() string {
	n := ""
	if b.Neg {
		n = "!"
	}
	switch b.Op {
	case 'c':
		return fmt.Sprintf("b%v", b.C)
	case '>', '=':
		return n + "b" + string(b.Op) + b.L.key()
	case 's':
		return n + "bs" + b.A.key() + "==" + b.B.key()
	case 'n':
		return n + "bn" + b.Sl.NilKey
	}
	return n + "bo" + b.Key
}

func boolC(v bool) *BoolV { return &BoolV{Op: 'c', C: v} }
func boolGE(l *Lin) *BoolV {
	if l.isConst() {
		return boolC(l.c.Sign() >= 0)
	}
	return &BoolV{Op: '>', L: l}
}
func boolEQ(l *Lin) *BoolV {
	if l.isConst() {
		return boolC(l.c.Sign() == 0)
	}
	return &BoolV{Op: '=', L: l}
}
func boolOpaque(key string) *BoolV { return &BoolV{Op: 'o', Key: key} }
func boolNot(b *BoolV) *BoolV {
	if b.Op == 'c' {
		return boolC(!b.C)
	}
	if b.Op == '>' { // !(L>=0)  ==  -L-1 >= 0
		return boolGE(linAddC(linNeg(b.L), -1))
	}
	c := *b
	c.Neg = !c.Neg
	return &c
}

var nilIface = &IfaceV{}

func isNilIface(v Val) (isNil, known bool) {
	i, ok := v.(*IfaceV)
	if !ok {
		return false, false
	}
	if i.Sym != "" {
		if i.MayNil {
			return false, false
		}
		return false, true
	}
	return i.T == nil, true
}

// ------------------------------------------------------------------- bits

type bit struct {
	c   byte // 0,1 constant; 2 = atom bit
	a   *Atom
	i   int
	neg bool
}

func mkField(a *Atom, lo, n int) *Atom {
	if a.op == "field" {
		lo += a.flo
		a = a.parent
	}
	if lo == 0 && n == a.width() {
		return a
	}
	f := mkAtom(fmt.Sprintf("%s{%d+%d}", a.key, lo, n), bigZero, new(big.Int).Sub(pow2(uint(n)), bigOne))
	f.op, f.parent, f.flo, f.flen = "field", a, lo, n
	return f
}

func fromBits(bs []bit) *Lin {
	r := linC(0)
	for p := 0; p < len(bs); {
		b := bs[p]
		if b.c != 2 {
			if b.c == 1 {
				r = linAdd(r, linB(pow2(uint(p))))
			}
			p++
			continue
		}
		q := p + 1
		for q < len(bs) && bs[q].c == 2 && bs[q].a == b.a && bs[q].neg == b.neg && bs[q].i == b.i+(q-p) {
			q++
		}
		n := q - p
		f := linA(mkField(b.a, b.i, n))
		if b.neg {
			f = linSub(linB(new(big.Int).Sub(pow2(uint(n)), bigOne)), f)
		}
		r = linAdd(r, linMul(f, pow2(uint(p))))
		p = q
	}
	return r
}

// toBits expresses a non-negative linear form as bits, when its terms are
// disjoint shifted bit fields.
func (st *State) toBits(l *Lin, w int) ([]bit, bool) {
	bs := make([]bit, w)
	l = st.norm(l)
	if l.c.Sign() < 0 {
		// a form such as (2^n-1) - f cannot be recognised here
		if !l.isConst() {
			return nil, false
		}
		c := new(big.Int).Add(l.c, pow2(uint(w)))
		if c.Sign() < 0 {
			return nil, false
		}
		l = linB(c)
	}
	for i := 0; i < w; i++ {
		if l.c.Bit(i) == 1 {
			bs[i].c = 1
		}
	}
	if l.c.BitLen() > w {
		return nil, false
	}
	for _, t := range l.t {
		if t.c.Sign() <= 0 {
			return nil, false
		}
		s := int(t.c.TrailingZeroBits())
		if t.c.Cmp(pow2(uint(s))) != 0 {
			return nil, false
		}
		aw := t.a.width()
		if aw < 0 {
			// a signed atom known non-negative here
			if s == 0 && t.a.lo != nil && t.a.hi != nil && st.proveGE(linA(t.a)) {
				aw = t.a.hi.BitLen()
			} else {
				return nil, false
			}
		}
		if k := w - s; aw > k && k > 0 && st.proveGE(linSub(linB(new(big.Int).Sub(pow2(uint(k)), bigOne)), linA(t.a))) {
			aw = k // known to be small
		}
		for j := 0; j < aw; j++ {
			b := bit{c: 2, a: t.a, i: j}
			if t.a.op == "field" {
				b.a, b.i = t.a.parent, t.a.flo+j
			}
			if kb, ok := st.kbits[b.a]; ok && kb.mask.Bit(b.i) == 1 {
				b = bit{c: byte(kb.val.Bit(b.i))}
			}
			if s+j >= w {
				if b.c != 0 {
					return nil, false
				}
				continue
			}
			if bs[s+j].c != 0 && b.c != 0 {
				return nil, false
			}
			if b.c != 0 {
				bs[s+j] = b
			}
		}
	}
	return bs, true
}
