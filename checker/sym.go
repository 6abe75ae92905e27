package main

// Symbolic and zero values by type.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

var (
	// time.Time's range of seconds that the analysis considers: every year
	// a time.Time can represent without overflow of its Unix form.
	minTimeSec = new(big.Int).Neg(pow2(62))
	maxTimeSec = pow2(62)
)

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func intBits(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func intRange(b *types.Basic) (lo, hi *big.Int) {
	w, s := intBits(b)
	if s {
		return new(big.Int).Neg(pow2(uint(w - 1))), new(big.Int).Sub(pow2(uint(w-1)), bigOne)
	}
	return bigZero, new(big.Int).Sub(pow2(uint(w)), bigOne)
}

func basicInt(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, ok := t.Underlying().(*types.Basic)
	if ok && b.Info()&types.IsInteger != 0 {
		return b
	}
	return nil
}

const zeroTimeSec = -62135596800

func (st *State) zero(t types.Type) Val { return zeroVal(t) }

func zeroVal(t types.Type) Val {
	if isTime(t) {
		return &TimeV{Sec: linC(zeroTimeSec), Nsec: linC(0), UTC: true}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return &IntV{linC(0)}
		case u.Info()&types.IsString != 0:
			return &StrV{}
		case u.Info()&types.IsBoolean != 0:
			return boolC(false)
		case u.Info()&types.IsFloat != 0:
			return &FloatV{L: linC(0)}
		case u.Kind() == types.UntypedNil:
			return nilIface
		case u.Kind() == types.UnsafePointer:
			return &PtrV{}
		}
		return &OpaqueV{T: t, Key: "zero"}
	case *types.Pointer:
		return &PtrV{}
	case *types.Slice:
		return nilSlice()
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if isByte(u.Elem()) || u.Len() > 64 {
			return &ArrV{S: Seq{{K: pZero, Len: linC(u.Len())}}, N: u.Len()}
		}
		var el []Val
		for i := int64(0); i < u.Len(); i++ {
			el = append(el, zeroVal(u.Elem()))
		}
		return &ArrV{S: Seq{{K: pElems, Elems: el, Len: linC(u.Len())}}, N: u.Len()}
	case *types.Interface:
		return nilIface
	case *types.Map:
		return &MapV{}
	case *types.Chan:
		return &ChanV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.E = append(s.E, zeroVal(u.At(i).Type()))
		}
		return s
	}
	return &OpaqueV{T: t, Key: "zero"}
}

func nilSlice() *SliceV {
	return &SliceV{Off: linC(0), Len: linC(0), Cap: linC(0), Nil: 'y'}
}

// symObj: the (lazily created) object of the initial state called key.
func (e *Engine) symObj(key string, k byte, t types.Type) *Obj {
	if id, ok := e.symObjs[key]; ok {
		return e.base[id]
	}
	e.nextObj++
	o := &Obj{id: e.nextObj, K: k, T: t, Label: key}
	e.symObjs[key] = o.id
	e.base[o.id] = o
	return o
}

// sym: the unknown value of type t called key. Everything reachable from it
// is named after key.
func (e *Engine) sym(t types.Type, key string) Val {
	if isTime(t) {
		return &TimeV{Sec: linA(mkAtom(key+".sec", minTimeSec, maxTimeSec)), Nsec: linA(mkAtom(key+".nsec", bigZero, big.NewInt(999999999)))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := intRange(u)
			return &IntV{linA(mkAtom(key, lo, hi))}
		case u.Info()&types.IsString != 0:
			return strSrc(mkSrc(key, nil))
		case u.Info()&types.IsBoolean != 0:
			return boolOpaque("sym:" + key)
		case u.Info()&types.IsFloat != 0:
			return &FloatV{Key: key}
		}
		return &OpaqueV{T: t, Key: key}
	case *types.Pointer:
		o := e.symObj(key+"*", 'v', u.Elem())
		if o.V == nil {
			o.V = &UnkV{T: u.Elem(), Key: key + "*"}
		}
		return &PtrV{Obj: o.id, MayNil: key}
	case *types.Slice:
		return e.symSlice(u.Elem(), key)
	case *types.Struct:
		s := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, e.sym(u.Field(i).Type(), key+"."+u.Field(i).Name()))
		}
		return s
	case *types.Array:
		return &ArrV{S: Seq{{K: pSrc, Src: e.arrSrc(u.Elem(), key), Off: linC(0), Len: linC(u.Len())}}, N: u.Len()}
	case *types.Interface:
		return &IfaceV{Sym: key, MayNil: true}
	case *types.Map:
		o := e.symObj(key+"{}", 'm', t)
		if o.M == nil {
			o.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, open: true, name: key, T: u}
		}
		return &MapV{Obj: o.id}
	case *types.Chan:
		return &ChanV{Id: key}
	case *types.Signature:
		return &FuncV{Ext: key}
	case *types.Tuple:
		s := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			s.E = append(s.E, e.sym(u.At(i).Type(), fmt.Sprintf("%s#%d", key, i)))
		}
		return s
	}
	return &OpaqueV{T: t, Key: key}
}

func (e *Engine) arrSrc(elem types.Type, key string) *Src {
	if isByte(elem) {
		return mkSrc(key, nil)
	}
	return mkSrc(key, elem)
}

// symSlice: an unknown slice whose capacity equals its length.
func (e *Engine) symSlice(elem types.Type, key string) *SliceV {
	o := e.symObj(key+"[]", 'a', elem)
	src := e.arrSrc(elem, key)
	if o.S == nil {
		o.S = Seq{{K: pSrc, Src: src, Off: linC(0), Len: src.Len}}
	}
	return &SliceV{Arr: o.id, Off: linC(0), Len: src.Len, Cap: src.Len, Nil: '?', NilKey: key}
}

var freshN int

func (e *Engine) fresh(t types.Type) Val {
	freshN++
	return e.sym(t, fmt.Sprintf("u%d", freshN))
}

func freshKey(h string) string {
	freshN++
	return fmt.Sprintf("%s~%d", h, freshN)
}

// freshLike: any value of the type of x.
func (e *Engine) freshLike(st *State, x Val, t types.Type, nonnil bool) Val {
	if t == nil {
		switch v := x.(type) {
		case *IntV:
			return &IntV{linA(freshAtom("h", new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(64), bigOne)))}
		case *StrV:
			return strSrc(freshSrc("h", nil))
		case *BoolV:
			return boolOpaque(freshKey("h"))
		case *IfaceV:
			return &IfaceV{Sym: freshKey("h"), MayNil: !nonnil}
		case *PtrV:
			if v.Obj != 0 {
				if o := st.obj(v.Obj); o != nil && len(v.Path) == 0 && o.T != nil {
					p := e.fresh(types.NewPointer(o.T)).(*PtrV)
					if nonnil {
						p.MayNil = ""
					}
					return p
				}
			}
			return &PtrV{Ext: freshKey("h")}
		case *SliceV:
			if o := st.obj(v.Arr); o != nil {
				et := elemTypeOf(o)
				if et != nil {
					return e.fresh(types.NewSlice(et))
				}
			}
			return e.fresh(types.NewSlice(types.Typ[types.Uint8]))
		}
		return &OpaqueV{Key: freshKey("h")}
	}
	v := e.fresh(t)
	switch p := v.(type) {
	case *PtrV:
		if nonnil {
			p.MayNil = ""
		}
	case *IfaceV:
		if nonnil {
			p.MayNil = false
		}
	}
	return v
}

func elemTypeOf(o *Obj) types.Type {
	if o.K == 'a' {
		return o.T
	}
	if o.T != nil {
		if a, ok := o.T.Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

// expand turns a lazily named unknown into one level of structure.
func (e *Engine) expand(v Val) Val {
	if u, ok := v.(*UnkV); ok {
		return e.sym(u.T, u.Key)
	}
	return v
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolC(constant.BoolVal(c.Value))
	case constant.String:
		return strC(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			i, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
			return &FloatV{L: linB(i)}
		}
		i, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return &IntV{linB(i)}
	case constant.Float:
		if iv := constant.ToInt(c.Value); iv.Kind() == constant.Int {
			i, _ := new(big.Int).SetString(iv.ExactString(), 10)
			if basicInt(c.Type()) != nil {
				return &IntV{linB(i)}
			}
			return &FloatV{L: linB(i)}
		}
		return &FloatV{Key: c.Value.ExactString()}
	}
	return &OpaqueV{T: c.Type(), Key: c.Value.ExactString()}
}

func (e *Engine) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return &PtrV{Obj: e.global(x)}
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{B: x}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	e.imprec["value without definition: "+v.Name()+" in "+v.Parent().String()] = true
	return e.fresh(v.Type())
}

// global: the object of a package variable. Variables of packages whose
// initialisation is not interpreted are unknown.
func (e *Engine) global(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	e.nextObj++
	o := &Obj{id: e.nextObj, K: 'v', T: t, Label: g.String()}
	if e.repoPkgs[g.Pkg] {
		o.V = zeroVal(t)
	} else {
		o.V = e.sym(t, "ext:"+g.String())
		if i, ok := o.V.(*IfaceV); ok {
			i.MayNil = false // package level error values and the like
		}
	}
	e.base[o.id] = o
	e.globals[g] = o.id
	return o.id
}
