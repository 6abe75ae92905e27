package main

// Models of the built-in functions and of the library functions the
// repository uses. Everything not modelled is an "external call": it is
// recorded as an event, may overwrite what its pointer arguments refer to and
// returns an unknown result.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	st   *State
	name string
	args []Val
	in   ssa.Instruction
	sig  *types.Signature
	fn   *ssa.Function
}

type intrinsic func(e *Engine, c *callCtx) []*Outcome

var intrinsics map[string]intrinsic

func ret(st *State, v ...Val) []*Outcome { return []*Outcome{{st: st, ret: v}} }

// newErr: some non-nil error.
func newErr(hint string) *IfaceV { return &IfaceV{Sym: freshKey("err:" + hint)} }

func mayErr(hint string) *IfaceV { return &IfaceV{Sym: freshKey("err:" + hint), MayNil: true} }

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(s *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []Val) []*Outcome {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				return ret(s, &IntV{s.norm(x.Cap)})
			}
			return ret(s, &IntV{s.norm(x.Len)})
		case *StrV:
			return ret(s, &IntV{s.norm(seqLen(x.S))})
		case *ArrV:
			return ret(s, &IntV{s.norm(seqLen(x.S))})
		case *MapV:
			if x.Obj == 0 {
				return ret(s, &IntV{linC(0)})
			}
			m := s.obj(x.Obj).M
			if !m.open {
				// symbolic keys are distinct entries once stored
				return ret(s, &IntV{linC(int64(len(m.keys)))})
			}
			return ret(s, &IntV{linA(mkAtom(fmt.Sprintf("maplen(%s/%d/%d)", m.name, len(m.keys), len(m.del)), bigZero, maxLen))})
		}
		return ret(s, &IntV{linA(freshAtom("len", bigZero, maxLen))})
	case "append":
		return ret(s, e.append(s, in, args, c))
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok {
			return ret(s, &IntV{linA(freshAtom("n", bigZero, maxLen))})
		}
		var src Seq
		var n *Lin
		okS := false
		switch x := args[1].(type) {
		case *SliceV:
			src, okS = s.sliceSeq(x)
			n = x.Len
		case *StrV:
			src, okS = s.normSeq(x.S), true
			n = seqLen(x.S)
		default:
			n = linA(freshAtom("n", bigZero, maxLen))
		}
		return e.copyTo(s, d, src, n, okS)
	case "delete":
		m, ok := args[0].(*MapV)
		if !ok || m.Obj == 0 {
			return ret(s)
		}
		var outs []*Outcome
		mt := c.Args[0].Type().Underlying().(*types.Map)
		for _, h := range e.mapFind(s, s.obj(m.Obj).M, args[1], mt.Elem()) {
			o := h.s.obj(m.Obj)
			no := *o
			no.M = o.M.clone()
			if _, ok := no.M.ent[h.key]; ok {
				delete(no.M.ent, h.key)
				for i, k := range no.M.keys {
					if k == h.key {
						no.M.keys = append(no.M.keys[:i:i], no.M.keys[i+1:]...)
						break
					}
				}
			}
			no.M.del[h.key] = true
			h.s.setObj(&no)
			outs = append(outs, ret(h.s)...)
		}
		return outs
	case "min", "max":
		acc, ok := args[0].(*IntV)
		if !ok {
			return ret(s, e.fresh(c.Args[0].Type()))
		}
		outs := []sl{{s, acc.L}}
		for _, a := range args[1:] {
			iv, ok := a.(*IntV)
			if !ok {
				return ret(s, e.fresh(c.Args[0].Type()))
			}
			var nx []sl
			for _, o := range outs {
				ge := boolGE(o.s.norm(linSub(o.l, iv.L))) // acc >= a
				f := o.s.clone()
				o.s.assume(ge, true)
				f.assume(ge, false)
				hi, lo := o.l, iv.L
				if name == "min" {
					hi, lo = lo, hi
				}
				if !o.s.dead {
					nx = append(nx, sl{o.s, hi})
				}
				if !f.dead {
					nx = append(nx, sl{f, lo})
				}
			}
			outs = nx
		}
		var r []*Outcome
		for _, o := range outs {
			r = append(r, ret(o.s, &IntV{o.l})...)
		}
		return r
	case "print", "println", "close":
		s.addEvent(&Event{Kind: name, Args: args, Pos: in.Pos(), In: in.Parent()})
		return ret(s)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*PtrV); ok {
			if !e.nonNilPtr(s, p, in, "method value") {
				return nil
			}
		}
		return ret(s, args[0])
	case "recover":
		if e.recovered != nil {
			return ret(s, e.recovered)
		}
		return ret(s, nilIface)
	case "clear":
		if m, ok := args[0].(*MapV); ok {
			if o := s.obj(m.Obj); o != nil && o.M != nil {
				n := *o
				n.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, name: o.M.name, T: o.M.T}
				s.setObj(&n)
			}
			return ret(s)
		}
		if x, ok := args[0].(*SliceV); ok {
			if x.Arr == 0 && x.Len.isC(0) {
				return ret(s)
			}
			t, isS := c.Args[0].Type().Underlying().(*types.Slice)
			if o := s.obj(x.Arr); o != nil && x.Arr != 0 && isS {
				no := *o
				e.writeSeq(s, &no, x.Off, s.zeroSeq(t.Elem(), x.Len))
				s.setObj(&no)
			} else {
				e.havocVal(s, x, 0)
			}
			return ret(s)
		}
	}
	e.imprec["builtin "+name] = true
	if r := c.Signature().Results(); r.Len() == 1 {
		return ret(s, e.fresh(r.At(0).Type()))
	}
	return ret(s)
}

// copyTo copies n elements of src to d, the count being the smaller length.
func (e *Engine) copyTo(s *State, d *SliceV, src Seq, n *Lin, okS bool) []*Outcome {
	n = s.norm(n)
	full := func(st *State, cnt *Lin, whole bool) *Outcome {
		if d.Arr != 0 && !st.norm(cnt).isC(0) {
			o := st.obj(d.Arr)
			no := *o
			part := src
			ok := okS
			if okS && !whole {
				part, ok = st.seqSub(src, linC(0), cnt)
			}
			if !ok {
				part = unkSeq(cnt)
			}
			e.writeSeq(st, &no, d.Off, part)
			st.setObj(&no)
		}
		return &Outcome{st: st, ret: []Val{&IntV{st.norm(cnt)}}}
	}
	fits := boolGE(s.norm(linSub(d.Len, n)))
	switch s.evalBool(fits) {
	case 1:
		return []*Outcome{full(s, n, true)}
	case -1:
		return []*Outcome{full(s, d.Len, false)}
	}
	f := s.clone()
	s.assume(fits, true)
	f.assume(fits, false)
	var r []*Outcome
	if !s.dead {
		r = append(r, full(s, n, true))
	}
	if !f.dead {
		r = append(r, full(f, d.Len, false))
	}
	return r
}

func (e *Engine) append(s *State, in ssa.Instruction, args []Val, c *ssa.CallCommon) Val {
	a, ok := args[0].(*SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if !ok {
		return e.fresh(c.Args[0].Type())
	}
	var add Seq
	var n *Lin
	okAdd := true
	switch x := args[1].(type) {
	case *SliceV:
		add, okAdd = s.sliceSeq(x)
		n = x.Len
	case *StrV:
		add = s.normSeq(x.S)
		n = seqLen(add)
	default:
		return e.fresh(c.Args[0].Type())
	}
	n = s.norm(n)
	if n.isC(0) {
		return a
	}
	if !okAdd {
		add = unkSeq(n)
	}
	total := s.norm(linAdd(a.Len, n))
	nonnil := byte('n')
	nk := ""
	if !s.proveGE(linAddC(n, -1)) {
		nonnil, nk = '?', freshKey("app")
	}
	if a.Arr != 0 && s.proveGE(linSub(a.Cap, total)) {
		no := *s.obj(a.Arr)
		e.writeSeq(s, &no, s.norm(linAdd(a.Off, a.Len)), add)
		s.setObj(&no)
		r := *a
		r.Len = total
		r.Nil = 'n'
		return &r
	}
	old, okOld := s.sliceSeq(a)
	if !okOld {
		old = unkSeq(a.Len)
	}
	if a.Arr != 0 && !s.proveGE(linAddC(linSub(total, a.Cap), -1)) {
		// the spare capacity of the old array may have been overwritten
		o := s.obj(a.Arr)
		if h, _, ok := s.seqSplit(o.arr(), linAdd(a.Off, a.Len)); ok {
			no := *o
			rest := s.norm(linSub(seqLen(o.arr()), linAdd(a.Off, a.Len)))
			if !rest.isC(0) {
				ns := append(append(Seq{}, h...), unkSeq(rest)...)
				if no.K == 'a' {
					no.S = ns
				} else if av, ok := no.V.(*ArrV); ok {
					no.V = &ArrV{S: ns, N: av.N}
				}
				s.setObj(&no)
			}
		}
	}
	o := s.newObj('a', et, "")
	cp := freshAtom("cap", bigZero, pow2(42))
	s.addFact(linSub(linA(cp), total))
	o.S = s.normSeq(append(append(append(Seq{}, old...), add...), Piece{K: pUnk, Len: linSub(linA(cp), total), Id: e.nextUnkId()}))
	return &SliceV{Arr: o.id, Off: linC(0), Len: total, Cap: linA(cp), Nil: nonnil, NilKey: nk}
}

func (e *Engine) nextUnkId() int { e.nextUnk++; return e.nextUnk }

// ---------------------------------------------------------- external calls

// pureExternal: library functions without effects whose result depends on
// their arguments only.
func pureExternal(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "path/filepath.", "path.", "(time.", "(net.IP)", "(*net.UDPAddr).String", "net.ParseIP", "unicode", "bytes.", "(net/netip", "(*net.UDPAddr).", "(net.IPMask)", "(io/fs.FileInfo)", "(os.FileInfo)", "(io/fs.FileMode)", "(reflect.", "math.", "net.IPv4", "(error).Error", "(*errors", "errors.", "(*strings.Reader)", "slices.", "sort.SearchStrings", "(*os.File).Name", "(net.Addr).String"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readOnlyArgs: externals with effects that do not write through their arguments.
func readOnlyArgs(name string) bool {
	for _, p := range []string{"Scan", "Statfs", "tat", ".Read", "CopyBuffer", ").Get"} {
		if strings.Contains(name, p) && (strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "syscall.") || strings.HasPrefix(name, "io.") || strings.HasPrefix(name, "(io.") || strings.HasPrefix(name, "(net.")) {
			return false
		}
	}
	for _, p := range []string{"fmt.", "log.", "os.", "(*os.File).Write", "(*os.File).Seek", "(*os.File).Close", "(*os.File).Stat", "(*os.File).Sync", "(*os.File).Truncate", "net.", "(*net.UDPConn).Write", "(*net.UDPConn).Close", "(*net.UDPConn).Set", "io.", "(hash.", "hash", "crypto", "time.", "sync.", "(*sync.", "syscall.", "(*github.com/jroimartin/gocui", "github.com/jroimartin/gocui", "(net.", "(io."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Engine) external(s *State, in ssa.Instruction, name string, sig *types.Signature, args []Val) []*Outcome {
	if e.hook != nil {
		if r, ok := e.hook(s, nil, name, args, in); ok {
			return r
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f(e, &callCtx{st: s, name: name, args: args, in: in, sig: sig})
	}
	if pureExternal(name) {
		return e.pureCall(s, name, sig, args)
	}
	return e.effectCall(s, in, name, sig, args, !readOnlyArgs(name))
}

func argsKey(s *State, args []Val) string {
	k := ""
	for i, a := range args {
		if i > 0 {
			k += ","
		}
		k += contentKey(s, a)
	}
	return k
}

func contentKey(s *State, a Val) string {
	switch x := a.(type) {
	case *SliceV:
		if q, ok := s.sliceSeq(x); ok {
			return "[" + s.normSeq(q).key() + "]"
		}
	case *StrV:
		return "s" + s.normSeq(x.S).key()
	case *IntV:
		return "i" + s.norm(x.L).key()
	case *StructV:
		k := "{"
		for _, f := range x.F {
			k += contentKey(s, eng.expand(f)) + ";"
		}
		return k + "}"
	}
	return valKey(a)
}

// pureCall: a deterministic, total function of its arguments. With an error
// result the two outcomes are kept apart.
func (e *Engine) pureCall(s *State, name string, sig *types.Signature, args []Val) []*Outcome {
	key := name + "(" + argsKey(s, args) + ")"
	rs := sig.Results()
	var vals []Val
	hasErr := false
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrorType(t) {
			hasErr = true
			vals = append(vals, nil)
			continue
		}
		v := e.sym(t, fmt.Sprintf("%s.%d", key, i))
		if p, ok := v.(*PtrV); ok {
			p.MayNil = key
		}
		if p, ok := v.(*StrV); ok {
			if src := s.wholeSrc(p.S); src != nil && src.from == "" {
				src.from, src.args = name, args
			}
		}
		vals = append(vals, v)
	}
	if !hasErr {
		return ret(s, vals...)
	}
	okb := boolOpaque("ok:" + key)
	mk := func(st *State, good bool) *Outcome {
		r := append([]Val(nil), vals...)
		for i := range r {
			if r[i] == nil {
				if good {
					r[i] = nilIface
				} else {
					r[i] = newErr(name)
				}
			} else if good {
				if p, ok := r[i].(*PtrV); ok {
					q := *p
					q.MayNil = ""
					r[i] = &q
				}
			} else {
				switch r[i].(type) {
				case *PtrV, *IfaceV:
					r[i] = zeroVal(rs.At(i).Type())
				}
			}
		}
		return &Outcome{st: st, ret: r}
	}
	switch s.evalBool(okb) {
	case 1:
		return []*Outcome{mk(s, true)}
	case -1:
		return []*Outcome{mk(s, false)}
	}
	f := s.clone()
	s.assume(okb, true)
	f.assume(okb, false)
	return []*Outcome{mk(s, true), mk(f, false)}
}

// effectCall: an operation of the environment. It is recorded, with its
// arguments and results; when it reports errors, both outcomes follow.
func (e *Engine) effectCall(s *State, in ssa.Instruction, name string, sig *types.Signature, args []Val, havoc bool) []*Outcome {
	if havoc {
		for _, a := range args {
			e.havocVal(s, a, 0)
		}
	}
	rs := sig.Results()
	mk := func(st *State, good, both bool) *Outcome {
		var vals []Val
		key := freshKey(name)
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if isErrorType(t) {
				if both {
					vals = append(vals, &IfaceV{Sym: "err:" + key, MayNil: true})
				} else if good {
					vals = append(vals, nilIface)
				} else {
					vals = append(vals, newErr(name))
				}
				continue
			}
			v := e.sym(t, fmt.Sprintf("%s.%d", key, i))
			switch p := v.(type) {
			case *PtrV:
				if !good {
					v = &PtrV{}
				} else {
					p.MayNil = ""
				}
			case *IfaceV:
				if !good {
					v = nilIface
				} else {
					p.MayNil = false
				}
			}
			vals = append(vals, v)
		}
		ev := &Event{Kind: "call", Name: name, Args: args, Res: vals, Pos: in.Pos(), In: in.Parent()}
		e.snapshot(st, ev)
		st.addEvent(ev)
		return &Outcome{st: st, ret: vals}
	}
	hasErr, hasPtr := false, false
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if isErrorType(t) {
			hasErr = true
			continue
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			hasPtr = true
		}
	}
	if hasErr && hasPtr {
		f := s.clone()
		return []*Outcome{mk(s, true, false), mk(f, false, false)}
	}
	return []*Outcome{mk(s, true, true)}
}

// havocVal forgets everything an unknown callee might overwrite through v.
func (e *Engine) havocVal(s *State, v Val, depth int) {
	if depth > 3 {
		return
	}
	switch x := v.(type) {
	case *PtrV:
		if x.Obj == 0 {
			return
		}
		o := s.obj(x.Obj)
		if o == nil {
			return
		}
		no := *o
		if o.K == 'a' {
			no.S = unkSeq(seqLen(o.S))
		} else if len(x.Path) == 0 && o.T != nil {
			no.V = &UnkV{T: o.T, Key: freshKey("hv")}
			if _, ok := o.V.(*ArrV); ok {
				no.V = e.fresh(o.T)
			}
		} else {
			old := e.load(s, x, nil2any)
			no.V = e.storePath(s, o.V, x.Path, e.freshLike(s, old, nil, false), o.T)
		}
		s.setObj(&no)
	case *SliceV:
		if x.Arr == 0 {
			return
		}
		o := s.obj(x.Arr)
		no := *o
		ns, ok := s.seqWrite(o.arr(), x.Off, unkSeq(x.Len))
		if !ok {
			ns = unkSeq(seqLen(o.arr()))
		}
		if no.K == 'a' {
			no.S = ns
		} else if av, ok := no.V.(*ArrV); ok {
			no.V = &ArrV{S: ns, N: av.N}
		}
		if e.logw > 0 {
			s.wlog = append(s.wlog, wrec{no.id, s.norm(x.Off), s.norm(x.Len)})
		}
		s.setObj(&no)
	case *MapV:
		if x.Obj == 0 {
			return
		}
		o := s.obj(x.Obj)
		no := *o
		no.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, open: true, name: freshKey("hvmap"), T: o.M.T}
		s.setObj(&no)
	case *IfaceV:
		if x.V != nil {
			e.havocVal(s, x.V, depth+1)
		}
	case *StructV:
		for _, f := range x.F {
			e.havocVal(s, f, depth+1)
		}
	}
}

var nil2any types.Type = types.NewInterfaceType(nil, nil)

func (e *Engine) havocCall(s *State, sig *types.Signature, name string, args []Val, in ssa.Instruction, rec bool) []*Outcome {
	return e.effectCall(s, in, name, sig, args, true)
}

// ------------------------------------------------------------- intrinsics

func cstr(s *State, v Val) (string, bool) {
	x, ok := v.(*StrV)
	if !ok {
		return "", false
	}
	return s.normSeq(x.S).constStr()
}
func cint(s *State, v Val) (int, bool) {
	x, ok := v.(*IntV)
	if !ok {
		return 0, false
	}
	return s.norm(x.L).constInt()
}

func (e *Engine) strSlice(s *State, xs []string) Val {
	o := s.newObj('a', types.Typ[types.String], "")
	var el []Val
	for _, x := range xs {
		el = append(el, strC(x))
	}
	n := linC(int64(len(el)))
	if len(el) > 0 {
		o.S = Seq{{K: pElems, Elems: el, Len: n}}
	}
	return &SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'}
}

// seqElems: the elements of a slice, when its length is a known constant.
func (e *Engine) seqElems(s *State, v Val, et types.Type) ([]Val, bool) {
	x, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := s.norm(x.Len).constInt()
	if !ok || n > 2000 {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	o := s.obj(x.Arr)
	if et == nil {
		et = elemTypeOf(o)
	}
	var r []Val
	for i := 0; i < n; i++ {
		v := e.elem(s, o.arr(), linAddC(x.Off, int64(i)), et)
		r = append(r, e.expand(v))
	}
	return r, true
}

func (e *Engine) constStrs(s *State, v Val) ([]string, bool) {
	el, ok := e.seqElems(s, v, types.Typ[types.String])
	if !ok {
		return nil, false
	}
	var r []string
	for _, x := range el {
		c, ok := cstr(s, x)
		if !ok {
			return nil, false
		}
		r = append(r, c)
	}
	return r, true
}

// indexByte: position of the first byte b in q, or -1.
func (e *Engine) indexByte(s *State, q Seq, b byte) *Lin {
	q = s.normSeq(q)
	n := seqLen(q)
	pos := linC(0)
	known := true
	for _, p := range q {
		switch p.K {
		case pConst:
			if i := strings.IndexByte(p.Data, b); i >= 0 {
				return linAddC(pos, int64(i))
			}
		case pZero:
			if b == 0 {
				if s.proveGE(linAddC(p.Len, -1)) {
					return pos
				}
				known = false
			}
		case pSrc:
			if p.Src.Elem != nil {
				known = false
				break
			}
			free := false
			for _, cand := range []Seq{{p}, strSrc(p.Src).S} {
				a := e.ixAtom(s, cand, b)
				if s.proveGE(linAddC(linNeg(linA(a)), -1)) {
					free = true
				}
			}
			if !free {
				known = false
			}
		default:
			known = false
		}
		if !known {
			break
		}
		pos = s.norm(linAdd(pos, p.Len))
	}
	if known {
		return linC(-1)
	}
	a := e.ixAtom(s, q, b)
	s.addFact(linAddC(linSub(n, linA(a)), -1))
	s.addFact(linSub(linA(a), linC(-1)))
	return linA(a)
}

func (e *Engine) ixAtom(s *State, q Seq, b byte) *Atom {
	q = s.normSeq(q)
	return callAtom("indexbyte", []Val{&StrV{q}, &IntV{linC(int64(b))}}, bigNeg1, maxLen)
}

func (e *Engine) contents(s *State, v Val) (Seq, bool) {
	switch x := v.(type) {
	case *StrV:
		return s.normSeq(x.S), true
	case *SliceV:
		q, ok := s.sliceSeq(x)
		if !ok {
			return unkSeq(x.Len), true
		}
		return q, true
	}
	return nil, false
}

func (e *Engine) lenOblige(s *State, in ssa.Instruction, have *Lin, n int64, what string) bool {
	need := linAddC(have, -n)
	ok := s.proveGE(need)
	msg := ""
	if !ok {
		msg = fmt.Sprintf("%s needs %d bytes, has %s", what, n, s.norm(have))
	}
	e.oblige(s, in, "index", ok, msg)
	if !ok {
		s.assumeGE(need)
	}
	return !s.dead
}

func intSeq(s *State, v *Lin, n int, le bool) Seq {
	v = s.norm(v)
	if !le || n == 1 {
		return s.normSeq(Seq{{K: pInt, V: v, N: n, Lo: 0, Len: linC(int64(n))}})
	}
	bs, ok := s.toBits(v, 8*n)
	if !ok {
		return unkSeq(linC(int64(n)))
	}
	var q Seq
	for i := 0; i < n; i++ {
		q = append(q, Piece{K: pInt, V: fromBits(bs[8*i : 8*i+8]), N: 1, Len: linC(1)})
	}
	return s.normSeq(q)
}

func fold(f func(a []string) (Val, bool)) intrinsic {
	return func(e *Engine, c *callCtx) []*Outcome {
		var as []string
		for _, a := range c.args {
			x, ok := cstr(c.st, a)
			if !ok {
				return e.pureCall(c.st, c.name, c.sig, c.args)
			}
			as = append(as, x)
		}
		v, ok := f(as)
		if !ok {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		return ret(c.st, v)
	}
}

func lockIntrinsic(kind string) intrinsic {
	return func(e *Engine, c *callCtx) []*Outcome {
		k := valKey(c.args[0])
		s := c.st
		ev := &Event{Kind: kind, Name: k, Args: c.args, Pos: c.in.Pos(), In: c.in.Parent()}
		s.addEvent(ev)
		if kind == "lock" {
			s.held[k]++
		} else {
			s.held[k]--
		}
		return ret(s)
	}
}

func exitIntrinsic(e *Engine, c *callCtx) []*Outcome {
	e.oblige(c.st, c.in, "exit", false, c.name+" ends the process")
	return []*Outcome{{st: c.st, exit: c.name}}
}

func unknownErr(e *Engine, c *callCtx) []*Outcome { return ret(c.st, newErr(e.instrPos(c.in))) }

func noEffect(e *Engine, c *callCtx) []*Outcome {
	var vals []Val
	rs := c.sig.Results()
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) {
			vals = append(vals, mayErr(c.name))
		} else {
			vals = append(vals, e.fresh(rs.At(i).Type()))
		}
	}
	return ret(c.st, vals...)
}

// fmtVal: the text of a printed argument, when it is known.
func (e *Engine) fmtVal(s *State, v Val, verb byte) (Seq, bool) {
	i, ok := v.(*IfaceV)
	if !ok || i.T == nil {
		return nil, false
	}
	if _, named := types.Unalias(i.T).(*types.Named); named {
		ms := types.NewMethodSet(i.T)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			return nil, false
		}
	}
	switch x := i.V.(type) {
	case *StrV:
		if verb == 's' || verb == 'v' {
			return s.normSeq(x.S), true
		}
	case *IntV:
		if l := s.norm(x.L); l.isConst() && (verb == 'd' || verb == 'v') {
			return strC(l.c.String()).S, true
		}
		if verb == 'd' || verb == 'v' {
			return strSrc(mkSrc("itoa("+s.norm(x.L).key()+")", nil)).S, true
		}
	}
	return nil, false
}

func (e *Engine) sprintf(s *State, format string, args []Val) Seq {
	var q Seq
	ai := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			q = append(q, strC(format[i:]).S...)
			break
		}
		q = append(q, strC(format[i:i+j]).S...)
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("0123456789.+-# *[]", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		verb := format[i]
		plain := i == st
		i++
		if verb == '%' {
			q = append(q, strC("%").S...)
			continue
		}
		if ai < len(args) {
			if plain {
				if t, ok := e.fmtVal(s, args[ai], verb); ok {
					q = append(q, t...)
					ai++
					continue
				}
			}
			k := "fmt(" + format[st:i] + "," + valKey(args[ai]) + ")"
			if _, isSl := args[ai].(*IfaceV); isSl {
				q = append(q, strSrc(mkSrc(k, nil)).S...)
			} else {
				q = append(q, strSrc(freshSrc("fmt", nil)).S...)
			}
			ai++
		}
	}
	return s.normSeq(q)
}

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	initBufs(I)
	I["errors.New"] = unknownErr
	I["fmt.Errorf"] = unknownErr
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "log.Printf", "log.Println", "log.Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput"} {
		n := n
		I[n] = func(e *Engine, c *callCtx) []*Outcome {
			c.st.addEvent(&Event{Kind: "print", Name: n, Args: c.args, Pos: c.in.Pos(), In: c.in.Parent()})
			return noEffect(e, c)
		}
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit", "syscall.Exit"} {
		I[n] = exitIntrinsic
	}
	I["fmt.Sprintf"] = func(e *Engine, c *callCtx) []*Outcome {
		f, ok := cstr(c.st, c.args[0])
		el, ok2 := e.seqElems(c.st, c.args[1], nil)
		if ok && ok2 {
			return ret(c.st, &StrV{e.sprintf(c.st, f, el)})
		}
		return ret(c.st, strSrc(freshSrc("fmt", nil)))
	}
	I["fmt.Sprint"] = func(e *Engine, c *callCtx) []*Outcome {
		el, ok := e.seqElems(c.st, c.args[0], nil)
		if ok && len(el) == 1 {
			if t, ok := e.fmtVal(c.st, el[0], 'v'); ok {
				return ret(c.st, &StrV{t})
			}
		}
		return ret(c.st, strSrc(freshSrc("fmt", nil)))
	}
	I["fmt.Sprintln"] = func(e *Engine, c *callCtx) []*Outcome { return ret(c.st, strSrc(freshSrc("fmt", nil))) }

	// locks
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		I[t+".Lock"] = lockIntrinsic("lock")
		I[t+".Unlock"] = lockIntrinsic("unlock")
		I[t+".RLock"] = lockIntrinsic("lock")
		I[t+".RUnlock"] = lockIntrinsic("unlock")
	}

	initAtomic(I)

	// encoding/binary
	for _, end := range []struct {
		t  string
		le bool
	}{{"bigEndian", false}, {"littleEndian", true}} {
		for _, w := range []int{2, 4, 8} {
			w, end := w, end
			put := func(e *Engine, c *callCtx) []*Outcome {
				b, ok := c.args[1].(*SliceV)
				v, ok2 := c.args[2].(*IntV)
				if !ok || !ok2 {
					return ret(c.st)
				}
				if !e.lenOblige(c.st, c.in, b.Len, int64(w), "PutUint") {
					return nil
				}
				no := *c.st.obj(b.Arr)
				e.writeSeq(c.st, &no, b.Off, intSeq(c.st, v.L, w, end.le))
				c.st.setObj(&no)
				return ret(c.st)
			}
			get := func(e *Engine, c *callCtx) []*Outcome {
				b, ok := c.args[1].(*SliceV)
				if !ok {
					return ret(c.st, e.fresh(c.sig.Results().At(0).Type()))
				}
				if !e.lenOblige(c.st, c.in, b.Len, int64(w), "Uint") {
					return nil
				}
				return ret(c.st, &IntV{c.st.readInt(c.st.obj(b.Arr).arr(), b.Off, w, end.le)})
			}
			app := func(e *Engine, c *callCtx) []*Outcome {
				v, ok := c.args[2].(*IntV)
				a, ok2 := c.args[1].(*SliceV)
				if !ok || !ok2 {
					return ret(c.st, e.fresh(c.sig.Results().At(0).Type()))
				}
				return ret(c.st, e.appendSeq(c.st, a, types.Typ[types.Uint8], intSeq(c.st, v.L, w, end.le)))
			}
			n := fmt.Sprintf("Uint%d", 8*w)
			I["(encoding/binary."+end.t+").Put"+n] = put
			I["(encoding/binary."+end.t+")."+n] = get
			I["(encoding/binary."+end.t+").Append"+n] = app
		}
	}

	// strings, bytes
	ixb := func(e *Engine, c *callCtx) []*Outcome {
		q, ok := e.contents(c.st, c.args[0])
		b, ok2 := cint(c.st, c.args[1])
		if !ok || !ok2 || b < 0 || b > 127 {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		return ret(c.st, &IntV{c.st.norm(e.indexByte(c.st, q, byte(b)))})
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "strings.IndexRune", "bytes.IndexRune"} {
		I[n] = ixb
	}
	ixs := func(contains bool) intrinsic {
		return func(e *Engine, c *callCtx) []*Outcome {
			q, ok := e.contents(c.st, c.args[0])
			sub, ok2 := e.contents(c.st, c.args[1])
			var r *Lin
			if ok && ok2 {
				d, isC := sub.constStr()
				h, hC := c.st.normSeq(q).constStr()
				if isC && hC {
					r = linC(int64(strings.Index(h, d)))
				} else if isC && len(d) == 1 {
					r = e.indexByte(c.st, q, d[0])
				} else {
					a := callAtom("index", []Val{&StrV{c.st.normSeq(q)}, &StrV{c.st.normSeq(sub)}}, bigNeg1, maxLen)
					r = linA(a)
					c.st.addFact(linSub(seqLen(q), r))
				}
			} else {
				return e.pureCall(c.st, c.name, c.sig, c.args)
			}
			if contains {
				return ret(c.st, boolGE(c.st.norm(r)))
			}
			return ret(c.st, &IntV{c.st.norm(r)})
		}
	}
	I["strings.Index"] = ixs(false)
	I["bytes.Index"] = ixs(false)
	I["strings.Contains"] = ixs(true)
	I["bytes.Contains"] = ixs(true)
	containsRune := func(e *Engine, c *callCtx) []*Outcome {
		o := ixb(e, c)
		if iv, ok := o[0].ret[0].(*IntV); ok && len(o) == 1 {
			return ret(o[0].st, boolGE(iv.L))
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["strings.ContainsRune"] = containsRune
	I["strings.Replace"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		a, ok1 := cstr(s, c.args[0])
		o, ok2 := cstr(s, c.args[1])
		n, ok3 := cstr(s, c.args[2])
		k, ok4 := cint(s, c.args[3])
		if ok1 && ok2 && ok3 && ok4 {
			return ret(s, strC(strings.Replace(a, o, n, k)))
		}
		return e.pureCall(s, c.name, c.sig, c.args)
	}
	I["strings.ReplaceAll"] = func(e *Engine, c *callCtx) []*Outcome {
		return I["strings.Replace"](e, &callCtx{st: c.st, name: "strings.Replace", args: append(append([]Val(nil), c.args...), &IntV{linC(-1)}), in: c.in, sig: c.sig})
	}
	I["strings.Split"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		sep, ok2 := cstr(s, c.args[1])
		if a, ok := cstr(s, c.args[0]); ok && ok2 {
			return ret(s, e.strSlice(s, strings.Split(a, sep)))
		}
		key := "split(" + argsKey(s, c.args) + ")"
		sl := e.symSlice(types.Typ[types.String], key)
		n := *sl
		n.Nil = 'n'
		if ok2 && sep != "" {
			s.addFact(linAddC(n.Len, -1))
		}
		return ret(s, &n)
	}
	I["strings.SplitN"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		sep, ok2 := cstr(s, c.args[1])
		k, ok3 := cint(s, c.args[2])
		if a, ok := cstr(s, c.args[0]); ok && ok2 && ok3 {
			return ret(s, e.strSlice(s, strings.SplitN(a, sep, k)))
		}
		key := "splitn(" + argsKey(s, c.args) + ")"
		sl := e.symSlice(types.Typ[types.String], key)
		n := *sl
		if ok2 && sep != "" && ok3 && k > 0 {
			s.addFact(linAddC(n.Len, -1))
			s.addFact(linSub(linC(int64(k)), n.Len))
		}
		return ret(s, &n)
	}
	I["strings.Fields"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		if a, ok := cstr(s, c.args[0]); ok {
			return ret(s, e.strSlice(s, strings.Fields(a)))
		}
		n := *e.symSlice(types.Typ[types.String], "fields("+argsKey(s, c.args)+")")
		return ret(s, &n)
	}
	I["strings.Join"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		el, ok := e.seqElems(s, c.args[0], types.Typ[types.String])
		sep, ok2 := c.args[1].(*StrV)
		if ok && ok2 {
			var q Seq
			for i, x := range el {
				if i > 0 {
					q = append(q, sep.S...)
				}
				sv, ok := x.(*StrV)
				if !ok {
					return e.pureCall(s, c.name, c.sig, c.args)
				}
				q = append(q, sv.S...)
			}
			return ret(s, &StrV{s.normSeq(q)})
		}
		return e.pureCall(s, c.name, c.sig, c.args)
	}
	I["strings.TrimRight"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		a, ok := cstr(s, c.args[0])
		cut, ok2 := cstr(s, c.args[1])
		if ok && ok2 {
			return ret(s, strC(strings.TrimRight(a, cut)))
		}
		if x, k := c.args[0].(*StrV); k && ok2 && len(cut) == 1 && cut[0] < 128 {
			// drop trailing constant bytes; exact when what remains is known
			q := s.normSeq(x.S)
			for len(q) > 0 {
				l := q[len(q)-1]
				if l.K == pZero && cut[0] == 0 {
					q = q[:len(q)-1]
					continue
				}
				if l.K == pConst {
					t := strings.TrimRight(l.Data, cut)
					if t == "" {
						q = q[:len(q)-1]
						continue
					}
					q = append(append(Seq{}, q[:len(q)-1]...), Piece{K: pConst, Data: t, Len: linC(int64(len(t)))})
					return ret(s, &StrV{q})
				}
				break
			}
			if len(q) == 0 {
				return ret(s, &StrV{})
			}
			l := q[len(q)-1]
			if l.K == pSrc && l.Src.Elem == nil {
				// trimmed before, to its end
				if cutOf[l.Src] == cut && s.proveEQ(linAdd(l.Off, l.Len), l.Src.Len) {
					return ret(s, &StrV{q})
				}
				for _, cand := range []Seq{{l}, strSrc(l.Src).S} {
					if s.proveGE(linAddC(linNeg(linA(e.ixAtom(s, cand, cut[0]))), -1)) {
						return ret(s, &StrV{q})
					}
				}
			}
			r := e.pureCall(s, c.name, c.sig, []Val{&StrV{q}, c.args[1]})
			if v, ok := r[0].ret[0].(*StrV); ok {
				s.addFact(linSub(seqLen(q), seqLen(v.S)))
				if len(v.S) == 1 && v.S[0].K == pSrc {
					cutOf[v.S[0].Src] = cut
				}
			}
			return r
		}
		return e.trimmed(c)
	}
	for _, n := range []string{"strings.TrimSpace", "strings.TrimLeft", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix"} {
		n := n
		I[n] = func(e *Engine, c *callCtx) []*Outcome {
			a, ok := cstr(c.st, c.args[0])
			b, ok2 := "", true
			if len(c.args) > 1 {
				b, ok2 = cstr(c.st, c.args[1])
			}
			if ok && ok2 {
				var r string
				switch n {
				case "strings.TrimSpace":
					r = strings.TrimSpace(a)
				case "strings.TrimLeft":
					r = strings.TrimLeft(a, b)
				case "strings.Trim":
					r = strings.Trim(a, b)
				case "strings.TrimPrefix":
					r = strings.TrimPrefix(a, b)
				case "strings.TrimSuffix":
					r = strings.TrimSuffix(a, b)
				}
				return ret(c.st, strC(r))
			}
			if n == "strings.TrimSuffix" && ok2 {
				if x, k := c.args[0].(*StrV); k {
					q := c.st.normSeq(x.S)
					if len(q) > 0 && q[len(q)-1].K == pConst && strings.HasSuffix(q[len(q)-1].Data, b) {
						t := strings.TrimSuffix(q[len(q)-1].Data, b)
						return ret(c.st, &StrV{c.st.normSeq(append(append(Seq{}, q[:len(q)-1]...), strC(t).S...))})
					}
				}
			}
			return e.trimmed(c)
		}
	}
	hasFix := func(suffix bool) intrinsic {
		return func(e *Engine, c *callCtx) []*Outcome {
			q, ok := e.contents(c.st, c.args[0])
			p, ok2 := e.contents(c.st, c.args[1])
			if ok && ok2 {
				if d, isC := p.constStr(); isC {
					if h, hC := q.constStr(); hC {
						if suffix {
							return ret(c.st, boolC(strings.HasSuffix(h, d)))
						}
						return ret(c.st, boolC(strings.HasPrefix(h, d)))
					}
					if !suffix && len(q) > 0 && q[0].K == pConst {
						m := len(d)
						if len(q[0].Data) < m {
							m = len(q[0].Data)
						}
						if q[0].Data[:m] != d[:m] {
							return ret(c.st, boolC(false))
						}
						if m == len(d) {
							return ret(c.st, boolC(true))
						}
					}
				}
			}
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
	}
	I["strings.HasPrefix"] = hasFix(false)
	I["strings.HasSuffix"] = hasFix(true)
	I["strings.ToLower"] = fold(func(a []string) (Val, bool) { return strC(strings.ToLower(a[0])), true })
	I["strings.ToUpper"] = fold(func(a []string) (Val, bool) { return strC(strings.ToUpper(a[0])), true })
	I["strings.EqualFold"] = fold(func(a []string) (Val, bool) { return boolC(strings.EqualFold(a[0], a[1])), true })
	I["strings.Count"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := cstr(c.st, c.args[0])
		b, ok2 := cstr(c.st, c.args[1])
		if ok && ok2 {
			return ret(c.st, &IntV{linC(int64(strings.Count(a, b)))})
		}
		r := callAtom("strings.Count", c.args, bigZero, maxLen)
		return ret(c.st, &IntV{linA(r)})
	}
	I["strings.Repeat"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := cstr(c.st, c.args[0])
		n, ok2 := c.args[1].(*IntV)
		if !ok2 {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		g := c.st.proveGE(n.L)
		e.oblige(c.st, c.in, "panic", g, "strings.Repeat with a negative count")
		if !g {
			c.st.assumeGE(n.L)
			if c.st.dead {
				return nil
			}
		}
		if k, isC := c.st.norm(n.L).constInt(); isC && ok && k*len(a) < 10000 {
			return ret(c.st, strC(strings.Repeat(a, k)))
		}
		r := mkSrc("repeat("+argsKey(c.st, c.args)+")", nil)
		if ok {
			c.st.assumeEQ(linSub(r.Len, linMul(n.L, big.NewInt(int64(len(a))))))
		}
		return ret(c.st, strSrc(r))
	}
	I["strings.Cut"] = func(e *Engine, c *callCtx) []*Outcome {
		s := c.st
		sep, ok2 := cstr(s, c.args[1])
		if a, ok := cstr(s, c.args[0]); ok && ok2 {
			x, y, f := strings.Cut(a, sep)
			return ret(s, strC(x), strC(y), boolC(f))
		}
		q, ok := e.contents(s, c.args[0])
		if !ok || !ok2 || len(sep) != 1 {
			return e.pureCall(s, c.name, c.sig, c.args)
		}
		r := s.norm(e.indexByte(s, q, sep[0]))
		found := boolGE(r)
		f := s.clone()
		s.assume(found, true)
		f.assume(found, false)
		var outs []*Outcome
		if !f.dead {
			outs = append(outs, ret(f, &StrV{q}, &StrV{}, boolC(false))...)
		}
		if !s.dead {
			x, k1 := s.seqSub(q, linC(0), r)
			y, k2 := s.seqSub(q, linAddC(r, 1), seqLen(q))
			if k1 && k2 {
				outs = append(outs, ret(s, &StrV{x}, &StrV{y}, boolC(true))...)
			} else {
				outs = append(outs, ret(s, strSrc(freshSrc("cut", nil)), strSrc(freshSrc("cut", nil)), boolC(true))...)
			}
		}
		return outs
	}
	I["bytes.Equal"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := e.contents(c.st, c.args[0])
		b, ok2 := e.contents(c.st, c.args[1])
		if ok && ok2 {
			return ret(c.st, &BoolV{Op: 's', A: a, B: b})
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["bytes.Clone"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := c.args[0].(*SliceV)
		q, ok2 := e.contents(c.st, c.args[0])
		if !ok || !ok2 {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		o := c.st.newObj('a', types.Typ[types.Uint8], "")
		o.S = q
		r := *a
		r.Arr, r.Off, r.Cap = o.id, linC(0), r.Len
		return ret(c.st, &r)
	}

	// strconv
	I["strconv.Itoa"] = func(e *Engine, c *callCtx) []*Outcome {
		if n, ok := cint(c.st, c.args[0]); ok {
			return ret(c.st, strC(strconv.Itoa(n)))
		}
		if iv, ok := c.args[0].(*IntV); ok {
			return ret(c.st, strSrc(mkSrc("itoa("+c.st.norm(iv.L).key()+")", nil)))
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["strconv.Atoi"] = func(e *Engine, c *callCtx) []*Outcome {
		if a, ok := cstr(c.st, c.args[0]); ok {
			n, err := strconv.Atoi(a)
			if err != nil {
				return ret(c.st, &IntV{linC(int64(n))}, newErr("atoi"))
			}
			return ret(c.st, &IntV{linC(int64(n))}, nilIface)
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["strconv.ParseInt"] = func(e *Engine, c *callCtx) []*Outcome {
		if a, ok := cstr(c.st, c.args[0]); ok {
			base, ok1 := cint(c.st, c.args[1])
			bits, ok2 := cint(c.st, c.args[2])
			if ok1 && ok2 {
				n, err := strconv.ParseInt(a, base, bits)
				if err != nil {
					return ret(c.st, &IntV{linC(n)}, newErr("parse"))
				}
				return ret(c.st, &IntV{linC(n)}, nilIface)
			}
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["strconv.ParseUint"] = func(e *Engine, c *callCtx) []*Outcome {
		if a, ok := cstr(c.st, c.args[0]); ok {
			base, ok1 := cint(c.st, c.args[1])
			bits, ok2 := cint(c.st, c.args[2])
			if ok1 && ok2 {
				n, err := strconv.ParseUint(a, base, bits)
				v := &IntV{linB(new(big.Int).SetUint64(n))}
				if err != nil {
					return ret(c.st, v, newErr("parse"))
				}
				return ret(c.st, v, nilIface)
			}
		}
		outs := e.pureCall(c.st, c.name, c.sig, c.args)
		if bits, ok := cint(c.st, c.args[2]); ok && bits > 0 && bits < 64 {
			for _, o := range outs {
				if v, ok := o.ret[0].(*IntV); ok {
					o.st.addFact(linSub(linB(new(big.Int).Sub(pow2(uint(bits)), bigOne)), v.L))
				}
			}
		}
		return outs
	}

	initReflect(I)
	initTime(I)

	// sort
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	sortStrings := func(e *Engine, c *callCtx) []*Outcome {
		v := c.args[0]
		if i, ok := v.(*IfaceV); ok {
			v = i.V
		}
		x, ok := v.(*SliceV)
		if !ok {
			return ret(c.st)
		}
		if cs, ok := e.constStrs(c.st, x); ok {
			sort.Strings(cs)
			if x.Arr != 0 {
				o := c.st.obj(x.Arr)
				no := *o
				var el []Val
				for _, y := range cs {
					el = append(el, strC(y))
				}
				if len(el) > 0 {
					e.writeSeq(c.st, &no, x.Off, Seq{{K: pElems, Elems: el, Len: linC(int64(len(el)))}})
				}
				c.st.setObj(&no)
			}
			return ret(c.st)
		}
		e.havocVal(c.st, x, 0)
		return ret(c.st)
	}
	I["sort.Sort"] = func(e *Engine, c *callCtx) []*Outcome {
		if o := e.sortIface(c); o != nil {
			return o
		}
		return sortStrings(e, c)
	}
	I["sort.Stable"] = I["sort.Sort"]
	I["sort.Strings"] = sortStrings

	// configuration file
	I["(io/fs.FileInfo).Sys"] = func(e *Engine, c *callCtx) []*Outcome {
		// on Linux every FileInfo of the os package carries a *syscall.Stat_t
		p := e.prog.ImportedPackage("syscall")
		if p == nil || p.Type("Stat_t") == nil {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		t := types.NewPointer(p.Type("Stat_t").Type())
		v := e.sym(t, "sys("+argsKey(c.st, c.args)+")").(*PtrV)
		v.MayNil = ""
		return ret(c.st, &IfaceV{T: t, V: v})
	}
	I["os.ReadFile"] = func(e *Engine, c *callCtx) []*Outcome {
		if f, ok := cstr(c.st, c.args[0]); ok {
			if d, ok := e.files[f]; ok {
				o := c.st.newObj('a', types.Typ[types.Uint8], "file:"+f)
				n := linC(int64(len(d)))
				o.S = Seq{{K: pConst, Data: d, Len: n}}
				sl := &SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'}
				c.st.addEvent(&Event{Kind: "call", Name: c.name, Args: c.args, Res: []Val{sl, nilIface}, Pos: c.in.Pos(), In: c.in.Parent()})
				return ret(c.st, sl, nilIface)
			}
		}
		f := c.st.clone()
		a := e.effectCall(c.st, c.in, c.name, c.sig, c.args, false)
		_ = f
		return a
	}
	I["encoding/json.Unmarshal"] = jsonUnmarshal
	for _, n := range []string{"os.Getenv", "os.LookupEnv"} {
		I[n] = func(e *Engine, c *callCtx) []*Outcome {
			outs := e.pureCall(c.st, c.name, c.sig, c.args)
			for _, o := range outs {
				o.st.addEvent(&Event{Kind: "call", Name: c.name, Args: c.args, Res: o.ret, Pos: c.in.Pos(), In: c.in.Parent()})
			}
			return outs
		}
	}

	// the text of an address depends on what it holds
	I["(*net.UDPAddr).String"] = func(e *Engine, c *callCtx) []*Outcome {
		p, ok := c.args[0].(*PtrV)
		if !ok || p.Obj == 0 && p.Ext == "" {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		if recv := c.sig.Recv(); recv != nil {
			if pt, ok := recv.Type().Underlying().(*types.Pointer); ok {
				v := e.expand(e.load(c.st, p, pt.Elem()))
				var r []*Outcome
				if p.MayNil != "" {
					b := boolOpaque("nilptr:" + p.MayNil)
					switch c.st.evalBool(b) {
					case 1:
						return ret(c.st, strC("<nil>"))
					case 0:
						n := c.st.clone()
						n.assume(b, true)
						r = ret(n, strC("<nil>"))
						c.st.assume(b, false)
					}
				}
				return append(r, e.pureCall(c.st, c.name, c.sig, []Val{v})...)
			}
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}

	// path/filepath
	I["path/filepath.Clean"] = pathIntrinsic
	I["path.Clean"] = pathIntrinsic
	I["path/filepath.Join"] = pathJoin
	I["path.Join"] = pathJoin
	I["(io/fs.FileInfo).IsDir"] = func(e *Engine, c *callCtx) []*Outcome {
		// by its documentation an abbreviation of Mode().IsDir()
		m, ok := e.fileMode(c.st, c.args[0]).(*IntV)
		if !ok {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		f, ok := c.st.fieldGet(m.L, 32, 0, 1)
		if !ok {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		return ret(c.st, boolNot(boolEQ(f)))
	}
	I["(os.FileInfo).IsDir"] = I["(io/fs.FileInfo).IsDir"]
	same := func(e *Engine, c *callCtx) []*Outcome { return ret(c.st, c.args[0]) }
	I["path/filepath.FromSlash"] = same // the separator is a slash here
	I["path/filepath.ToSlash"] = same
	I["path/filepath.Base"] = pathIntrinsic
	I["path.Base"] = pathIntrinsic

	// reads: count between 0 and len
	for _, n := range []string{"(*os.File).Read", "(*os.File).ReadAt", "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "(*net.UDPConn).WriteTo", "(*net.UDPConn).Write", "(*net.UDPConn).WriteToUDP", "(*net.UDPConn).ReadFromUDP", "(*net.UDPConn).ReadFrom", "(*net.UDPConn).Read", "(net.PacketConn).WriteTo", "(net.PacketConn).ReadFrom", "(*net.conn).Read", "(*net.conn).Write", "io.ReadFull", "(*net.UDPConn).ReadFromUDPAddrPort"} {
		n := n
		reads := strings.Contains(n, "Read")
		I[n] = func(e *Engine, c *callCtx) []*Outcome {
			var bl *Lin
			for _, a := range c.args {
				if x, ok := a.(*SliceV); ok {
					bl = x.Len
					if reads {
						e.havocVal(c.st, x, 0)
					}
				}
			}
			outs := e.effectCall(c.st, c.in, c.name, c.sig, c.args, false)
			for _, o := range outs {
				if v, ok := o.ret[0].(*IntV); ok && bl != nil {
					o.st.addFact(v.L)
					o.st.addFact(linSub(bl, v.L))
				}
			}
			return outs
		}
	}
	for _, n := range []string{"(*github.com/jroimartin/gocui.Gui).Update"} {
		I[n] = func(e *Engine, c *callCtx) []*Outcome {
			c.st.addEvent(&Event{Kind: "update", Name: c.name, Args: c.args, Pos: c.in.Pos(), In: c.in.Parent()})
			return ret(c.st)
		}
	}
	I["time.Sleep"] = func(e *Engine, c *callCtx) []*Outcome {
		c.st.addEvent(&Event{Kind: "call", Name: c.name, Args: c.args, Pos: c.in.Pos(), In: c.in.Parent()})
		return ret(c.st)
	}
}

func (e *Engine) trimmed(c *callCtx) []*Outcome {
	r := e.pureCall(c.st, c.name, c.sig, c.args)
	if v, ok := r[0].ret[0].(*StrV); ok {
		if q, ok := e.contents(c.st, c.args[0]); ok {
			c.st.addFact(linSub(seqLen(q), seqLen(v.S)))
		}
	}
	return r
}

func (e *Engine) appendSeq(s *State, a *SliceV, et types.Type, add Seq) Val {
	n := seqLen(add)
	total := s.norm(linAdd(a.Len, n))
	if a.Arr != 0 && s.proveGE(linSub(a.Cap, total)) {
		no := *s.obj(a.Arr)
		e.writeSeq(s, &no, s.norm(linAdd(a.Off, a.Len)), add)
		s.setObj(&no)
		r := *a
		r.Len = total
		r.Nil = 'n'
		return &r
	}
	old, ok := s.sliceSeq(a)
	if !ok {
		old = unkSeq(a.Len)
	}
	o := s.newObj('a', et, "")
	cp := freshAtom("cap", bigZero, pow2(42))
	s.addFact(linSub(linA(cp), total))
	o.S = s.normSeq(append(append(append(Seq{}, old...), add...), Piece{K: pUnk, Len: linSub(linA(cp), total), Id: e.nextUnkId()}))
	return &SliceV{Arr: o.id, Off: linC(0), Len: total, Cap: linA(cp), Nil: 'n'}
}

// ------------------------------------------------------------------- paths

func pathIntrinsic(e *Engine, c *callCtx) []*Outcome {
	if a, ok := cstr(c.st, c.args[0]); ok {
		if strings.HasSuffix(c.name, ".Clean") {
			return ret(c.st, strC(filepath.Clean(a)))
		}
		return ret(c.st, strC(filepath.Base(a)))
	}
	x, ok := c.args[0].(*StrV)
	if !ok {
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	k := mkSrc(c.name[strings.LastIndexByte(c.name, '.')+1:]+"("+c.st.normSeq(x.S).key()+")", nil)
	k.op, k.args = "path:"+c.name[strings.LastIndexByte(c.name, '.')+1:], []Val{&StrV{c.st.normSeq(x.S)}}
	c.st.addFact(linAddC(k.Len, -1))
	return ret(c.st, strSrc(k))
}

func pathJoin(e *Engine, c *callCtx) []*Outcome {
	el, ok := e.seqElems(c.st, c.args[0], types.Typ[types.String])
	if !ok {
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	if cs, ok := e.constStrs(c.st, c.args[0]); ok {
		return ret(c.st, strC(filepath.Join(cs...)))
	}
	key := "Join("
	var as []Val
	for _, x := range el {
		sv, ok := x.(*StrV)
		if !ok {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		key += c.st.normSeq(sv.S).key() + ";"
		as = append(as, &StrV{c.st.normSeq(sv.S)})
	}
	k := mkSrc(key+")", nil)
	k.op, k.args = "path:Join", as
	return ret(c.st, strSrc(k))
}

// -------------------------------------------------------------------- sort

// sortSlice: sort.Slice with an interpreted comparison. Insertion sort on the
// abstract elements (any comparison sort yields the same order up to ties).
func sortSlice(e *Engine, c *callCtx) []*Outcome {
	iv, ok := c.args[0].(*IfaceV)
	less, ok2 := c.args[1].(*FuncV)
	if !ok || !ok2 || less.Fn == nil {
		return ret(c.st)
	}
	x, ok := iv.V.(*SliceV)
	if !ok {
		return ret(c.st)
	}
	et := iv.T.Underlying().(*types.Slice).Elem()
	n, isC := c.st.norm(x.Len).constInt()
	if !isC || n > 8 {
		e.havocVal(c.st, x, 0)
		return ret(c.st)
	}
	type cfg struct {
		s    *State
		i, j int
	}
	var done []*Outcome
	work := []cfg{{c.st, 1, 1}}
	at := func(s *State, i int) Val {
		return e.elem(s, s.obj(x.Arr).arr(), linAddC(x.Off, int64(i)), et)
	}
	put := func(s *State, i int, v Val) {
		no := *s.obj(x.Arr)
		e.writeSeq(s, &no, linAddC(x.Off, int64(i)), elemSeq(v, et))
		s.setObj(&no)
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.i >= n {
			done = append(done, ret(w.s)...)
			continue
		}
		if w.j == 0 {
			work = append(work, cfg{w.s, w.i + 1, w.i + 1})
			continue
		}
		for _, o := range e.callFn(w.s, c.in, less.Fn, []Val{&IntV{linC(int64(w.j))}, &IntV{linC(int64(w.j - 1))}}, less.Bind, less.Fn.Signature) {
			if o.exit != "" || o.st.dead {
				continue
			}
			b, ok := o.ret[0].(*BoolV)
			if !ok {
				b = boolOpaque(freshKey("less"))
			}
			t, f := o.st, o.st.clone()
			t.assume(b, true)
			f.assume(b, false)
			if !t.dead {
				p, q := at(t, w.j), at(t, w.j-1)
				put(t, w.j, q)
				put(t, w.j-1, p)
				work = append(work, cfg{t, w.i, w.j - 1})
			}
			if !f.dead {
				work = append(work, cfg{f, w.i + 1, w.i + 1})
			}
		}
	}
	return done
}

// sortIface sorts through the methods of a type of this repository, by
// insertion; nil when the length is not a small known number.
func (e *Engine) sortIface(c *callCtx) []*Outcome {
	iv, ok := c.args[0].(*IfaceV)
	if !ok || iv.T == nil {
		return nil
	}
	m := map[string]*ssa.Function{}
	for _, n := range []string{"Len", "Less", "Swap"} {
		f := e.prog.LookupMethod(iv.T, nil, n)
		if f == nil || !e.isRepo(f) && f.Synthetic == "" {
			return nil
		}
		m[n] = f
	}
	call := func(s *State, n string, a ...int) []*Outcome {
		args := []Val{iv.V}
		for _, x := range a {
			args = append(args, &IntV{linC(int64(x))})
		}
		var out []*Outcome
		for _, o := range e.callFn(s, c.in, m[n], args, nil, m[n].Signature) {
			if o.exit == "" && !o.st.dead {
				out = append(out, o)
			}
		}
		return out
	}
	type cfg struct {
		s       *State
		i, j, n int
	}
	var done []*Outcome
	var work []cfg
	for _, o := range call(c.st.clone(), "Len") {
		n, ok := cint(o.st, o.ret[0])
		if !ok || n > 8 {
			return nil
		}
		work = append(work, cfg{o.st, 1, 1, n})
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		if w.i >= w.n {
			done = append(done, ret(w.s)...)
			continue
		}
		if w.j == 0 {
			work = append(work, cfg{w.s, w.i + 1, w.i + 1, w.n})
			continue
		}
		for _, o := range call(w.s, "Less", w.j, w.j-1) {
			b, ok := o.ret[0].(*BoolV)
			if !ok {
				b = boolOpaque(freshKey("less"))
			}
			t, f := o.st, o.st.clone()
			t.assume(b, true)
			f.assume(b, false)
			if !t.dead {
				for _, x := range call(t, "Swap", w.j, w.j-1) {
					work = append(work, cfg{x.st, w.i, w.j - 1, w.n})
				}
			}
			if !f.dead {
				work = append(work, cfg{f, w.i + 1, w.i + 1, w.n})
			}
		}
	}
	return done
}

// -------------------------------------------------------------------- JSON

func jsonUnmarshal(e *Engine, c *callCtx) []*Outcome {
	s := c.st
	q, ok := e.contents(s, c.args[0])
	iv, ok2 := c.args[1].(*IfaceV)
	if ok && ok2 {
		if d, isC := q.constStr(); isC {
			p, isP := iv.V.(*PtrV)
			if isP {
				var v interface{}
				if err := json.Unmarshal([]byte(d), &v); err != nil {
					return ret(s, newErr("json"))
				}
				if e.jsonSub != nil {
					v = e.jsonSub(v)
				}
				t := iv.T.Underlying().(*types.Pointer).Elem()
				if x, ok := e.jsonInto(s, v, t, e.load(s, p, t), 0); ok {
					e.store(s, p, x, t)
					return ret(s, nilIface)
				}
			}
		}
	}
	return e.effectCall(s, c.in, c.name, c.sig, c.args, true)
}

// jsonInto decodes a JSON value into a variable of type t holding old.
func (e *Engine) jsonInto(s *State, v interface{}, t types.Type, old Val, depth int) (Val, bool) {
	if depth > 10 {
		return nil, false
	}
	if v == nil {
		return old, true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() > 0 {
			return nil, false
		}
		return e.jsonVal(s, v), true
	case *types.Basic:
		switch x := v.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				if iv, ok := e.jsonVal(s, x).(*IfaceV); ok && types.Identical(iv.T, types.Typ[types.String]) {
					return iv.V, true
				}
			}
			if u.Info()&types.IsNumeric != 0 && strings.HasPrefix(x, "\x01num:") {
				if u.Info()&types.IsFloat != 0 {
					return e.jsonVal(s, x).(*IfaceV).V, true
				}
				return &IntV{linA(jsonNum(x[5:]))}, true
			}
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				return boolC(x), true
			}
		case float64:
			if u.Info()&types.IsFloat != 0 {
				return e.jsonVal(s, x).(*IfaceV).V, true
			}
			f := new(big.Float).SetFloat64(x)
			if u.Info()&types.IsInteger != 0 && f.IsInt() {
				i, _ := f.Int(nil)
				return &IntV{linB(i)}, true
			}
		}
	case *types.Pointer:
		x, ok := e.jsonInto(s, v, u.Elem(), zeroVal(u.Elem()), depth+1)
		if !ok {
			return nil, false
		}
		o := s.newObj('v', u.Elem(), "json")
		o.V = x
		s.setObj(o)
		return &PtrV{Obj: o.id}, true
	case *types.Map:
		m, ok := v.(map[string]interface{})
		if k, isB := u.Key().Underlying().(*types.Basic); !ok || !isB || k.Info()&types.IsString == 0 {
			return nil, false
		}
		o := s.newObj('m', t, "json")
		o.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, name: fmt.Sprintf("json%d", o.id), T: u}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x, ok := e.jsonInto(s, m[k], u.Elem(), zeroVal(u.Elem()), depth+1)
			if !ok {
				return nil, false
			}
			o.M.set(fmt.Sprintf("%q", k), MapEnt{strC(k), x})
		}
		return &MapV{Obj: o.id}, true
	case *types.Slice:
		l, ok := v.([]interface{})
		if !ok {
			return nil, false
		}
		o := s.newObj('a', u.Elem(), "json")
		var el []Val
		for _, y := range l {
			x, ok := e.jsonInto(s, y, u.Elem(), zeroVal(u.Elem()), depth+1)
			if !ok {
				return nil, false
			}
			el = append(el, x)
		}
		n := linC(int64(len(el)))
		if len(el) > 0 {
			o.S = Seq{{K: pElems, Elems: el, Len: n}}
		}
		return &SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'}, true
	case *types.Struct:
		m, ok := v.(map[string]interface{})
		sv, ok2 := e.expand(old).(*StructV)
		if !ok || !ok2 {
			return nil, false
		}
		f := append([]Val(nil), sv.F...)
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			at := -1
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					continue
				}
				n := u.Field(i).Name()
				if tag := reflect.StructTag(u.Tag(i)).Get("json"); tag != "" {
					if tag == "-" {
						continue
					}
					if j := strings.IndexByte(tag, ','); j >= 0 {
						tag = tag[:j]
					}
					if tag != "" {
						n = tag
					}
				}
				if n == k {
					at = i
					break
				}
				if at < 0 && strings.EqualFold(n, k) {
					at = i
				}
			}
			if at < 0 {
				continue
			}
			x, ok := e.jsonInto(s, m[k], u.Field(at).Type(), f[at], depth+1)
			if !ok {
				return nil, false
			}
			f[at] = x
		}
		return &StructV{F: f}, true
	}
	return nil, false
}

func (e *Engine) jsonMap(s *State, m map[string]interface{}, mt *types.Map) Val {
	o := s.newObj('m', mt, "json")
	o.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, name: fmt.Sprintf("json%d", o.id), T: mt}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o.M.set(fmt.Sprintf("%q", k), MapEnt{strC(k), e.jsonVal(s, m[k])})
	}
	return &MapV{Obj: o.id}
}

// jsonNum: an unknown number of the configuration, "BITS:KEY".
func jsonNum(k string) *Atom {
	bits := 30
	fmt.Sscanf(k, "%d:", &bits)
	return mkAtom("json:"+k[strings.IndexByte(k, ':')+1:], bigZero, new(big.Int).Sub(pow2(uint(bits)), bigOne))
}

var anyT = types.Universe.Lookup("any").Type()
var jsonMapT = types.NewMap(types.Typ[types.String], anyT)

func (e *Engine) jsonVal(s *State, v interface{}) Val {
	switch x := v.(type) {
	case nil:
		return nilIface
	case string:
		if strings.HasPrefix(x, "\x01sym:") {
			return &IfaceV{T: types.Typ[types.String], V: strSrc(mkSrc("json:"+x[5:], nil))}
		}
		if strings.HasPrefix(x, "\x01num:") {
			return &IfaceV{T: types.Typ[types.Float64], V: &FloatV{L: linA(jsonNum(x[5:]))}}
		}
		return &IfaceV{T: types.Typ[types.String], V: strC(x)}
	case bool:
		return &IfaceV{T: types.Typ[types.Bool], V: boolC(x)}
	case float64:
		f := new(big.Float).SetFloat64(x)
		if f.IsInt() {
			i, _ := f.Int(nil)
			return &IfaceV{T: types.Typ[types.Float64], V: &FloatV{L: linB(i)}}
		}
		return &IfaceV{T: types.Typ[types.Float64], V: &FloatV{Key: fmt.Sprint(x)}}
	case []interface{}:
		o := s.newObj('a', anyT, "json")
		var el []Val
		for _, y := range x {
			el = append(el, e.jsonVal(s, y))
		}
		n := linC(int64(len(el)))
		if len(el) > 0 {
			o.S = Seq{{K: pElems, Elems: el, Len: n}}
		}
		return &IfaceV{T: types.NewSlice(anyT), V: &SliceV{Arr: o.id, Off: linC(0), Len: n, Cap: n, Nil: 'n'}}
	case map[string]interface{}:
		return &IfaceV{T: jsonMapT, V: e.jsonMap(s, x, jsonMapT)}
	}
	return nilIface
}

// ----------------------------------------------------------------- reflect

func initReflect(I map[string]intrinsic) {
	bad := func(e *Engine, c *callCtx, msg string) []*Outcome {
		e.oblige(c.st, c.in, "reflect", false, msg)
		return nil
	}
	good := func(e *Engine, c *callCtx) { e.oblige(c.st, c.in, "reflect", true, "") }
	I["reflect.ValueOf"] = func(e *Engine, c *callCtx) []*Outcome {
		i, ok := c.args[0].(*IfaceV)
		if !ok || i.T == nil {
			return ret(c.st, &RefV{})
		}
		return ret(c.st, &RefV{V: i.V, T: i.T})
	}
	rv := func(c *callCtx) *RefV {
		r, _ := c.args[0].(*RefV)
		return r
	}
	I["(reflect.Value).Elem"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r == nil || r.T == nil {
			return bad(e, c, "Elem of an unknown value")
		}
		switch u := r.T.Underlying().(type) {
		case *types.Pointer:
			p, ok := r.V.(*PtrV)
			if !ok {
				return bad(e, c, "Elem of an unknown pointer")
			}
			if p.Obj == 0 && p.Ext == "" {
				return ret(c.st, &RefV{})
			}
			good(e, c)
			return ret(c.st, &RefV{V: e.load(c.st, p, u.Elem()), T: u.Elem(), Addr: p})
		case *types.Interface:
			if i, ok := r.V.(*IfaceV); ok && i.T != nil {
				return ret(c.st, &RefV{V: i.V, T: i.T})
			}
		}
		return bad(e, c, "Elem of a "+r.T.String())
	}
	I["reflect.Indirect"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r != nil && r.T != nil {
			if _, ok := r.T.Underlying().(*types.Pointer); ok {
				return I["(reflect.Value).Elem"](e, c)
			}
		}
		return ret(c.st, r)
	}
	field := func(e *Engine, c *callCtx, r *RefV, i int) []*Outcome {
		st := r.T.Underlying().(*types.Struct)
		v := e.expand(r.V)
		sv, ok := v.(*StructV)
		var fv Val
		if ok {
			fv = e.expand(sv.F[i])
		} else {
			fv = e.fresh(st.Field(i).Type())
		}
		return ret(c.st, &RefV{V: fv, T: st.Field(i).Type()})
	}
	I["(reflect.Value).FieldByName"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		n, ok := cstr(c.st, c.args[1])
		if r == nil || r.T == nil || !ok {
			return bad(e, c, "FieldByName on an unknown value")
		}
		st, isS := r.T.Underlying().(*types.Struct)
		if !isS {
			return bad(e, c, "FieldByName on a "+r.T.String())
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				good(e, c)
				return field(e, c, r, i)
			}
		}
		return ret(c.st, &RefV{}) // the zero Value: using it panics
	}
	I["(reflect.Value).Field"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		n, ok := cint(c.st, c.args[1])
		if r == nil || r.T == nil || !ok {
			return bad(e, c, "Field on an unknown value")
		}
		st, isS := r.T.Underlying().(*types.Struct)
		if !isS || n < 0 || n >= st.NumFields() {
			return bad(e, c, "Field out of range")
		}
		good(e, c)
		return field(e, c, r, n)
	}
	num := func(signed bool) intrinsic {
		return func(e *Engine, c *callCtx) []*Outcome {
			r := rv(c)
			if r == nil || r.T == nil {
				return bad(e, c, "reading a missing field")
			}
			b := basicInt(r.T)
			if b == nil || (b.Info()&types.IsUnsigned == 0) != signed {
				return bad(e, c, "reading a "+r.T.String()+" as an integer")
			}
			good(e, c)
			return ret(c.st, r.V)
		}
	}
	I["(reflect.Value).Uint"] = num(false)
	I["(reflect.Value).Int"] = num(true)
	I["(reflect.Value).String"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r != nil && r.T != nil {
			if _, ok := r.V.(*StrV); ok {
				good(e, c)
				return ret(c.st, r.V)
			}
		}
		// String never panics; it yields "<T Value>" for other kinds
		return ret(c.st, strSrc(freshSrc("refstr", nil)))
	}
	I["(reflect.Value).Bytes"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r == nil || r.T == nil {
			return bad(e, c, "reading a missing field")
		}
		if s, ok := r.T.Underlying().(*types.Slice); !ok || !isByte(s.Elem()) {
			return bad(e, c, "Bytes of a "+r.T.String())
		}
		good(e, c)
		return ret(c.st, r.V)
	}
	I["(reflect.Value).Bool"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r != nil {
			if _, ok := r.V.(*BoolV); ok {
				good(e, c)
				return ret(c.st, r.V)
			}
		}
		return bad(e, c, "Bool of another kind")
	}
	I["(reflect.Value).Len"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r != nil {
			switch x := r.V.(type) {
			case *SliceV:
				good(e, c)
				return ret(c.st, &IntV{c.st.norm(x.Len)})
			case *StrV:
				good(e, c)
				return ret(c.st, &IntV{c.st.norm(seqLen(x.S))})
			case *ArrV:
				good(e, c)
				return ret(c.st, &IntV{c.st.norm(seqLen(x.S))})
			}
		}
		return bad(e, c, "Len of another kind")
	}
	I["(reflect.Value).Index"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		ix, ok := c.args[1].(*IntV)
		if r == nil || !ok {
			return bad(e, c, "Index of an unknown value")
		}
		x, ok := r.V.(*SliceV)
		if !ok {
			return bad(e, c, "Index of another kind")
		}
		if !e.inBounds(c.st, c.in, ix.L, x.Len) {
			return nil
		}
		et := r.T.Underlying().(*types.Slice).Elem()
		v := e.elem(c.st, c.st.obj(x.Arr).arr(), c.st.norm(linAdd(x.Off, ix.L)), et)
		return ret(c.st, &RefV{V: e.expand(v), T: et})
	}
	I["(reflect.Value).Interface"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r == nil || r.T == nil {
			return bad(e, c, "Interface of a missing field")
		}
		good(e, c)
		if i, ok := r.V.(*IfaceV); ok {
			return ret(c.st, i)
		}
		return ret(c.st, &IfaceV{T: r.T, V: r.V})
	}
	I["(reflect.Value).IsValid"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		return ret(c.st, boolC(r != nil && r.T != nil))
	}
	I["(reflect.Value).NumField"] = func(e *Engine, c *callCtx) []*Outcome {
		r := rv(c)
		if r != nil && r.T != nil {
			if st, ok := r.T.Underlying().(*types.Struct); ok {
				return ret(c.st, &IntV{linC(int64(st.NumFields()))})
			}
		}
		return bad(e, c, "NumField of another kind")
	}
}

// -------------------------------------------------------------------- time

func initTime(I map[string]intrinsic) {
	tv := func(c *callCtx, i int) *TimeV {
		if p, ok := c.args[i].(*TimeV); ok {
			return p
		}
		return nil
	}
	ct := func(t time.Time) *TimeV {
		return &TimeV{Sec: linC(t.Unix()), Nsec: linC(int64(t.Nanosecond())), UTC: t.Location() == time.UTC}
	}
	I["time.Now"] = func(e *Engine, c *callCtx) []*Outcome {
		k := freshKey("now")
		return ret(c.st, &TimeV{Sec: linA(mkAtom(k+".sec", minTimeSec, maxTimeSec)), Nsec: linA(mkAtom(k+".nsec", bigZero, big.NewInt(999999999)))})
	}
	I["time.Unix"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := c.args[0].(*IntV)
		b, ok2 := c.args[1].(*IntV)
		if ok && ok2 && c.st.proveGE(b.L) && c.st.proveGE(linSub(linC(999999999), b.L)) {
			return ret(c.st, &TimeV{Sec: c.st.norm(a.L), Nsec: c.st.norm(b.L)})
		}
		if ok && ok2 {
			k := "unixnorm(" + argsKey(c.st, c.args) + ")"
			t := &TimeV{Sec: linA(mkAtom(k+".sec", minTimeSec, maxTimeSec)), Nsec: linA(mkAtom(k+".nsec", bigZero, big.NewInt(999999999)))}
			return ret(c.st, t)
		}
		return ret(c.st, e.fresh(c.sig.Results().At(0).Type()))
	}
	I["time.Parse"] = func(e *Engine, c *callCtx) []*Outcome {
		a, ok := cstr(c.st, c.args[0])
		b, ok2 := cstr(c.st, c.args[1])
		if ok && ok2 {
			t, err := time.Parse(a, b)
			if err != nil {
				return ret(c.st, zeroVal(c.sig.Results().At(0).Type()), newErr("time.Parse"))
			}
			return ret(c.st, ct(t), nilIface)
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["time.Date"] = func(e *Engine, c *callCtx) []*Outcome {
		var n [7]int
		for i := 0; i < 7; i++ {
			v, ok := cint(c.st, c.args[i])
			if !ok {
				return e.pureCall(c.st, c.name, c.sig, c.args)
			}
			n[i] = v
		}
		// UTC location only: anything else is unknown
		if p, ok := c.args[7].(*PtrV); ok && p.Obj != 0 {
			if o := c.st.obj(p.Obj); o != nil && strings.Contains(o.Label, "time.UTC") {
				return ret(c.st, ct(time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC)))
			}
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["(time.Time).Unix"] = func(e *Engine, c *callCtx) []*Outcome {
		if t := tv(c, 0); t != nil {
			return ret(c.st, &IntV{c.st.norm(t.Sec)})
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["(time.Time).Nanosecond"] = func(e *Engine, c *callCtx) []*Outcome {
		if t := tv(c, 0); t != nil {
			return ret(c.st, &IntV{c.st.norm(t.Nsec)})
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	same := func(utc bool) intrinsic {
		return func(e *Engine, c *callCtx) []*Outcome {
			if t := tv(c, 0); t != nil {
				return ret(c.st, &TimeV{Sec: t.Sec, Nsec: t.Nsec, UTC: utc})
			}
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
	}
	cmp := func(gt bool) intrinsic { // After / Before
		return func(e *Engine, c *callCtx) []*Outcome {
			a, b := tv(c, 0), tv(c, 1)
			if a == nil || b == nil {
				return e.pureCall(c.st, c.name, c.sig, c.args)
			}
			if !gt {
				a, b = b, a
			}
			d, n := linSub(a.Sec, b.Sec), linSub(a.Nsec, b.Nsec)
			var outs []*Outcome
			add := func(v bool, f func(s *State)) {
				s := c.st.clone()
				f(s)
				if !s.dead {
					outs = append(outs, ret(s, boolC(v))...)
				}
			}
			add(true, func(s *State) { s.assumeGE(linAddC(d, -1)) })
			add(false, func(s *State) { s.assumeGE(linAddC(linNeg(d), -1)) })
			add(true, func(s *State) { s.assumeEQ(d); s.assumeGE(linAddC(n, -1)) })
			add(false, func(s *State) { s.assumeEQ(d); s.assumeGE(linNeg(n)) })
			return outs
		}
	}
	I["(time.Time).After"] = cmp(true)
	I["(time.Time).Before"] = cmp(false)
	I["(time.Time).In"] = func(e *Engine, c *callCtx) []*Outcome {
		t := tv(c, 0)
		if t == nil {
			return e.pureCall(c.st, c.name, c.sig, c.args)
		}
		utc := false
		if p, ok := c.args[1].(*PtrV); ok {
			utc = strings.Contains(valKey(p), "time.UTC")
			if o := c.st.obj(p.Obj); o != nil && strings.Contains(o.Label, "time.UTC") {
				utc = true
			}
		}
		return ret(c.st, &TimeV{Sec: t.Sec, Nsec: t.Nsec, UTC: utc})
	}
	I["(time.Time).UTC"] = same(true)
	I["(time.Time).Local"] = same(false)
	I["(time.Time).Format"] = func(e *Engine, c *callCtx) []*Outcome {
		if t := tv(c, 0); t != nil {
			z := "local"
			if t.UTC {
				z = "utc"
			}
			lay, _ := cstr(c.st, c.args[1])
			k := mkSrc(fmt.Sprintf("format(%s,%s,%s,%q)", c.st.norm(t.Sec).key(), c.st.norm(t.Nsec).key(), z, lay), nil)
			k.op, k.args, k.path = "format", []Val{&TimeV{Sec: c.st.norm(t.Sec), Nsec: c.st.norm(t.Nsec), UTC: t.UTC}}, lay
			return ret(c.st, strSrc(k))
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["(time.Time).IsZero"] = func(e *Engine, c *callCtx) []*Outcome {
		if t := tv(c, 0); t != nil {
			var outs []*Outcome
			for _, q := range e.equal(c.st, t, zeroTime(), nil) {
				outs = append(outs, ret(q.s, q.b)...)
			}
			return outs
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
	I["(time.Time).Equal"] = func(e *Engine, c *callCtx) []*Outcome {
		a, b := tv(c, 0), tv(c, 1)
		if a != nil && b != nil {
			var outs []*Outcome
			for _, q := range e.equal(c.st, a, b, nil) {
				outs = append(outs, ret(q.s, q.b)...)
			}
			return outs
		}
		return e.pureCall(c.st, c.name, c.sig, c.args)
	}
}

func zeroTime() *TimeV { return &TimeV{Sec: linC(zeroTimeSec), Nsec: linC(0), UTC: true} }

// fileMode: the mode a file information holds.
func (e *Engine) fileMode(s *State, info Val) Val {
	p := e.prog.ImportedPackage("io/fs")
	if p == nil || p.Type("FileMode") == nil {
		return nil
	}
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", p.Type("FileMode").Type())), false)
	return e.pureCall(s, "(io/fs.FileInfo).Mode", sig, []Val{info})[0].ret[0]
}

// initAtomic: operations of sync/atomic on integers, by functions and methods.
func initAtomic(I map[string]intrinsic) {
	for _, k := range []struct {
		name string
		t    types.BasicKind
	}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}} {
		t := types.Typ[k.t]
		for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			op := op
			// arg: where the integer is
			do := func(e *Engine, c *callCtx, p *PtrV) []*Outcome {
				watched := ""
				if w := e.watch[p.Obj]; w != "" {
					watched = w
					defer func(old map[int]string) { e.watch = old }(e.watch)
					e.watch = nil
				}
				s := c.st
				if watched != "" {
					s.addEvent(&Event{Kind: "atomic", Name: watched, Args: []Val{strC(op)}, In: c.in.Parent(), Pos: c.in.Pos()})
				}
				old, ok := e.load(s, p, t).(*IntV)
				if !ok {
					old = e.fresh(t).(*IntV)
				}
				switch op {
				case "Load":
					return ret(s, old)
				case "Store":
					e.store(s, p, c.args[1], t)
					return ret(s)
				case "Swap":
					e.store(s, p, c.args[1], t)
					return ret(s, old)
				case "Add":
					d, ok := c.args[1].(*IntV)
					if !ok {
						d = e.fresh(t).(*IntV)
					}
					var outs []*Outcome
					for _, w := range e.wrap(s, linAdd(old.L, d.L), t) {
						e.store(w.s, p, &IntV{w.l}, t)
						outs = append(outs, ret(w.s, &IntV{w.l})...)
					}
					return outs
				}
				want, _ := c.args[1].(*IntV)
				if want == nil {
					want = e.fresh(t).(*IntV)
				}
				no := s.clone()
				s.assumeEQ(linSub(old.L, want.L))
				no.assumeNE(linSub(old.L, want.L))
				var outs []*Outcome
				if !s.dead {
					e.store(s, p, c.args[2], t)
					outs = append(outs, ret(s, boolC(true))...)
				}
				if !no.dead {
					outs = append(outs, ret(no, boolC(false))...)
				}
				return outs
			}
			I["sync/atomic."+op+k.name] = func(e *Engine, c *callCtx) []*Outcome {
				p, ok := c.args[0].(*PtrV)
				if !ok {
					return e.effectCall(c.st, c.in, c.name, c.sig, c.args, true)
				}
				return do(e, c, p)
			}
			I["(*sync/atomic."+k.name+")."+op] = func(e *Engine, c *callCtx) []*Outcome {
				p, ok := c.args[0].(*PtrV)
				if !ok || c.sig.Recv() == nil {
					return e.effectCall(c.st, c.in, c.name, c.sig, c.args, true)
				}
				q := *p
				if pt, ok := c.sig.Recv().Type().Underlying().(*types.Pointer); ok {
					if i := fieldIdx(pt.Elem(), "v"); i >= 0 {
						q.Path = append(append([]Sel{}, p.Path...), Sel{F: i})
					}
				}
				return do(e, c, &q)
			}
		}
	}
}
