package main

// Flag strings: texts of the form name=option,name=option.

import (
	"fmt"
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// part of a text: a constant, or a value
type partT struct {
	s string
	v ssa.Value
}

// flagStringsOf finds the texts used as flag strings and checks them.
func (a *nameA) flagStringsOf() {
	// where flag strings are taken apart: strings.Split(x, ",") whose parts are
	// split at "=", or given to a function of the package of tables
	type sink struct {
		v     ssa.Value
		in    ssa.Instruction
		table byte
	}
	var sinks []sink
	a.instructions(func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		f := ci.Common().StaticCallee()
		switch sarflagsFn(f) {
		case "AddFlag", "FlagValue", "ReplaceFlag":
			sinks = append(sinks, sink{argAt(ci, 0), in, 'F'})
		case "AddFlagD", "ReplaceFlagD":
			sinks = append(sinks, sink{argAt(ci, 0), in, 'D'})
		}
		if f == nil || f.Pkg == nil || !a.c.e.isRepo(f) || f.Name() != "New" || f.Signature.Recv() == nil || f.Signature.Params().Len() == 0 || !isStr(f.Signature.Params().At(0).Type()) {
			return
		}
		switch strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/") {
		case "beacon", "request", "metadata", "data", "status":
			sinks = append(sinks, sink{argAt(ci, 1), in, 'F'})
		case "dirent":
			sinks = append(sinks, sink{argAt(ci, 1), in, 'D'})
		}
	})
	for _, s := range sinks {
		for _, t := range a.templates(s.v, map[ssa.Value]bool{}) {
			a.flagText(s.in, s.table, t)
		}
	}
}

// templates: the forms a text can have.
func (a *nameA) templates(v ssa.Value, busy map[ssa.Value]bool) [][]partT {
	hole := [][]partT{{{v: v}}}
	if v == nil || busy[v] {
		return hole
	}
	busy[v] = true
	defer delete(busy, v)
	union := func(vs []ssa.Value) [][]partT {
		var r [][]partT
		for _, x := range vs {
			r = append(r, a.templates(x, busy)...)
			if len(r) > 400 {
				return hole
			}
		}
		if len(r) == 0 {
			return hole
		}
		return r
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return [][]partT{{{s: constant.StringVal(x.Value)}}}
		}
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return hole
		}
		ls, rs := a.templates(x.X, busy), a.templates(x.Y, busy)
		if len(ls)*len(rs) > 400 {
			ls = [][]partT{{{v: x.X}}}
		}
		var r [][]partT
		for _, l := range ls {
			for _, q := range rs {
				r = append(r, append(append([]partT{}, l...), q...))
			}
		}
		return r
	case *ssa.Phi:
		return union(x.Edges)
	case *ssa.ChangeType:
		return a.templates(x.X, busy)
	case *ssa.Parameter:
		f, i := x.Parent(), paramIdx(x)
		if a.escapes[f] || len(a.calls[f]) == 0 {
			return hole
		}
		var vs []ssa.Value
		for _, ci := range a.calls[f] {
			if w := argAt(ci, i); w != nil {
				vs = append(vs, w)
			}
		}
		return union(vs)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return hole
		}
		if k := placeOf(x.X); k != "" && !strings.HasSuffix(k, "[]") && a.fieldRole(k) == nil && len(a.stores[k]) > 0 {
			return union(a.stores[k])
		}
	case *ssa.Call:
		if callName(x) == "fmt.Sprintf" {
			return a.sprintf(x, busy)
		}
		f := x.Call.StaticCallee()
		if f == nil || a.external(f) || sarflagsFn(f) != "" || f.Signature.Results().Len() != 1 {
			return hole
		}
		var vs []ssa.Value
		for _, b := range f.Blocks {
			if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				vs = append(vs, rt.Results[0])
			}
		}
		return union(vs)
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			f := call.Call.StaticCallee()
			if f == nil || a.external(f) || sarflagsFn(f) != "" {
				return hole
			}
			var vs []ssa.Value
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && x.Index < len(rt.Results) {
					vs = append(vs, rt.Results[x.Index])
				}
			}
			return union(vs)
		}
	}
	return hole
}

// sprintf: a constant format with %s and %v holes.
func (a *nameA) sprintf(x *ssa.Call, busy map[ssa.Value]bool) [][]partT {
	hole := [][]partT{{{v: x}}}
	k, ok := x.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return hole
	}
	var args []ssa.Value
	if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			at := map[int64]ssa.Value{}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				n, _ := constant.Int64Val(i.Value)
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok {
						w := s.Val
						if mi, ok := w.(*ssa.MakeInterface); ok {
							w = mi.X
						}
						at[n] = w
					}
				}
			}
			for i := int64(0); i < int64(len(at)); i++ {
				args = append(args, at[i])
			}
		}
	}
	var cur []partT
	f := constant.StringVal(k.Value)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			cur = append(cur, partT{s: string(f[i])})
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			cur = append(cur, partT{s: "%"})
			continue
		}
		if i >= len(f) || f[i] != 's' && f[i] != 'v' && f[i] != 'd' || len(args) == 0 || args[0] == nil {
			return hole
		}
		cur = append(cur, partT{v: args[0]})
		args = args[1:]
	}
	return [][]partT{cur}
}

// flagText decides one form of a flag string.
func (a *nameA) flagText(in ssa.Instruction, table byte, t []partT) {
	// tokens: parts between commas
	var tok []partT
	names := a.flagNames(table)
	con := where(in)
	flush := func() {
		defer func() { tok = nil }()
		name, rest := "", []partT(nil)
		eq := false
		for _, p := range tok {
			if eq {
				rest = append(rest, p)
				continue
			}
			if p.v != nil {
				return // the name is not a constant
			}
			i := strings.IndexByte(p.s, '=')
			if i < 0 {
				name += p.s
				continue
			}
			name += p.s[:i]
			eq = true
			if p.s[i+1:] != "" {
				rest = append(rest, partT{s: p.s[i+1:]})
			}
		}
		name = strings.TrimSpace(name)
		if name == "" && !eq {
			return
		}
		if !eq {
			a.check("flag string", con+"/"+name, a.flagNames('T')[name] && table == 'F', in, "the flag string of %s has %q, which is neither a flag with an option nor a timestamp type", con, name)
			return
		}
		a.check("flag string", con+"/"+name, names[name], in, "the flag string of %s has the flag %q, which the tables do not define", con, name)
		if !names[name] {
			return
		}
		ok := a.options(table, name).vals
		good := func(o string) bool {
			if name == "reqtstamp" && a.flagNames('T')[o] {
				return true
			}
			_, y := ok[o]
			return y && o != ""
		}
		// the option: constants, or one value
		if len(rest) == 1 && rest[0].v != nil {
			v := a.of(rest[0].v)
			for _, o := range v.list() {
				if o == "" && v.table {
					continue
				}
				a.check("flag string", con+"/"+name+"="+o, good(o), in, "the flag string of %s can have the option %q, which the flag %s does not have", con, o, name)
			}
			return
		}
		txt := ""
		for _, p := range rest {
			if p.v != nil {
				return
			}
			txt += p.s
		}
		txt = strings.TrimSpace(txt)
		a.check("flag string", con+"/"+name+"="+txt, good(txt), in, "the flag string of %s has the option %q, which the flag %s does not have", con, txt, name)
	}
	for i, p := range t {
		if p.v != nil {
			tok = append(tok, p)
			continue
		}
		ps := strings.Split(p.s, ",")
		for j, s := range ps {
			if j > 0 {
				flush()
			}
			if s != "" {
				tok = append(tok, partT{s: s})
			}
		}
		_ = i
	}
	flush()
	_ = fmt.Sprint
}
