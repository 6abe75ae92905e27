package main

// What the checks know about the five frame types and the parts in them.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frameT struct {
	name   string // protocol name
	pkg    string
	typ    string // pkg.Type
	enc    string
	dec    string
	prints []string
}

var frameTypes = []frameT{
	{"beacon", "beacon", "beacon.Beacon", "beacon.Beacon.Encode", "beacon.Beacon.Decode", []string{"beacon.Beacon.Print", "beacon.Beacon.ShortPrint"}},
	{"request", "request", "request.Request", "request.Request.Encode", "request.Request.Decode", []string{"request.Request.Print", "request.Request.ShortPrint"}},
	{"metadata", "metadata", "metadata.MetaData", "metadata.MetaData.Encode", "metadata.MetaData.Decode", []string{"metadata.MetaData.Print", "metadata.MetaData.ShortPrint"}},
	{"data", "data", "data.Data", "data.Data.Encode", "data.Data.Decode", []string{"data.Data.Print", "data.Data.ShortPrint"}},
	{"status", "status", "status.Status", "status.Status.Encode", "status.Status.Decode", []string{"status.Status.Print", "status.Status.ShortPrint"}},
	{"dirent", "dirent", "dirent.DirEnt", "dirent.DirEnt.Encode", "dirent.DirEnt.Decode", []string{"dirent.DirEnt.Print", "dirent.DirEnt.ShortPrint"}},
	{"timestamp", "timestamp", "timestamp.Timestamp", "timestamp.Timestamp.Put", "timestamp.Timestamp.Get", []string{"timestamp.Timestamp.Print", "timestamp.Timestamp.Secs"}},
}

// alloc: a fresh object of a type holding v.
func (c *Ctx) alloc(st *State, t types.Type, v Val, label string) *PtrV {
	o := st.newObj('v', t, label)
	o.V = v
	st.setObj(o)
	return &PtrV{Obj: o.id}
}

// symAlloc: an object of the named repository type with unknown contents.
func (c *Ctx) symAlloc(st *State, typ, key string) *PtrV {
	t := c.e.typ(typ)
	if t == nil {
		c.fail("anchor", typ, "", "type "+typ+" not found")
		return &PtrV{}
	}
	return c.alloc(st, t, c.e.sym(t, key), key)
}

func symBytes(e *Engine, key string) *SliceV {
	return e.symSlice(types.Typ[types.Uint8], key)
}

// rxBytes: received bytes at the front of a larger receive buffer, the rest of
// which is not part of the frame.
func rxBytes(e *Engine, key string) *SliceV {
	b := types.Typ[types.Uint8]
	src := mkSrc(key, nil)
	rest := mkSrc(key+".beyond", nil)
	o := e.symObj(key+"[]", 'a', b)
	o.S = Seq{{K: pSrc, Src: src, Off: linC(0), Len: src.Len}, {K: pSrc, Src: rest, Off: linC(0), Len: rest.Len}}
	e.recvLen[o.id] = src.Len
	return &SliceV{Arr: o.id, Off: linC(0), Len: src.Len, Cap: linAdd(src.Len, rest.Len), Nil: '?', NilKey: key}
}

// recv: the receiver argument for f, given a pointer to the object.
func (c *Ctx) recv(st *State, f *ssa.Function, p *PtrV) Val {
	if f == nil {
		return p
	}
	if len(f.Params) > 0 {
		if _, isP := f.Params[0].Type().Underlying().(*types.Pointer); isP {
			return p
		}
		return c.e.load(st, p, f.Params[0].Type())
	}
	return p
}

// field reads a named field of the struct object behind p.
func (c *Ctx) field(st *State, p *PtrV, name string) Val {
	o := st.obj(p.Obj)
	if o == nil {
		return nil
	}
	return fieldOf(c.e.expand(o.V), o.T, name)
}

func fieldOf(v Val, t types.Type, name string) Val {
	s, ok := t.Underlying().(*types.Struct)
	sv, ok2 := eng.expand(v).(*StructV)
	if !ok || !ok2 {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return eng.expand(sv.F[i])
		}
	}
	if i := stampField(t, name); i >= 0 {
		return eng.expand(sv.F[i])
	}
	return nil
}

// stampFields: the private fields of a timestamp by what they are for, should
// they have other names.
var stampFields map[string]int

func stampField(t types.Type, name string) int {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Name() != "Timestamp" || !strings.HasSuffix(n.Obj().Pkg().Path(), "/timestamp") {
		return -1
	}
	if stampFields == nil {
		stampFields = map[string]int{}
		s := n.Underlying().(*types.Struct)
		from := func(fn string) int {
			f := eng.fn("timestamp.Timestamp." + fn)
			if f == nil {
				return -1
			}
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || len(rt.Results) != 1 {
					continue
				}
				switch x := rt.Results[0].(type) {
				case *ssa.Field:
					return x.Field
				case *ssa.UnOp:
					if a, ok := x.X.(*ssa.FieldAddr); ok {
						return a.Field
					}
				}
			}
			return -1
		}
		set := func(r string, i int) {
			if _, ok := stampFields[r]; !ok && i >= 0 {
				stampFields[r] = i
			}
		}
		set("secs", from("Secs"))
		set("local", from("Print"))
		for i := 0; i < s.NumFields(); i++ {
			switch b, _ := s.Field(i).Type().Underlying().(*types.Basic); {
			case b == nil:
			case b.Kind() == types.Uint8:
				set("header", i)
			case b.Info()&types.IsInteger != 0 && i != stampFields["secs"]:
				set("nsecs", i)
			case b.Kind() == types.String && i != stampFields["local"]:
				set("ttype", i)
			}
		}
	}
	if i, ok := stampFields[name]; ok {
		return i
	}
	return -1
}

func fieldIdx(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return stampField(t, name)
}

func (c *Ctx) method(st *State, scn, name string, p *PtrV, args ...Val) []*Outcome {
	f := c.e.fn(name)
	return c.run(scn, st, name, append([]Val{c.recv(st, f, p)}, args...)...)
}
