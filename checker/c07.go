package main

// C07: every flag, option and type name the program uses is defined.
//
// A flow-insensitive analysis of strings over the SSA form of the program: for
// a text it collects the constants and the table reads it can come from,
// through variables, parameters, results, fields, globals, elements and
// concatenations. Texts whose origin is not of the program (the operator, the
// network, files) are of unknown origin and nothing is decided about them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C07"] = &checkDef{run: checkC07, min: 300,
		rule: "Backward closure of every text over the SSA form of the program (variables, parameters at every call site, results, fields, globals, elements, concatenations): each constant that reaches a flag table accessor, a flag string, a stored default, a timestamp or checksum type is defined in saratoga.json for the flag it is used with, and every constant compared with a text that only the tables and constants of the program produce is one of those."}
}

// texts: the strings a value can be
type texts struct {
	vals    map[string]token.Pos
	unknown bool // or anything else
	table   bool // some come from a table
	part    bool // some are names in a flag string, so also timestamp types
}

func newTexts() *texts { return &texts{vals: map[string]token.Pos{}} }

func (t *texts) add(o *texts) {
	for k, p := range o.vals {
		if t.vals[k] == token.NoPos {
			t.vals[k] = p
		}
	}
	t.unknown = t.unknown || o.unknown
	t.table = t.table || o.table
	t.part = t.part || o.part
}

func (t *texts) list() []string { return sortedKeys(t.vals) }

// written: a text set down in the program, not only read from a table.
const written = token.Pos(1)

func (t *texts) consts() []string {
	var r []string
	for _, k := range t.list() {
		if t.vals[k] == written {
			r = append(r, k)
		}
	}
	return r
}

type nameA struct {
	c        *Ctx
	fns      []*ssa.Function
	calls    map[*ssa.Function][]ssa.CallInstruction
	escapes  map[*ssa.Function]bool // used other than by being called
	stores   map[string][]ssa.Value // field or global or array -> what is stored
	storedAt map[string][]ssa.Instruction
	taken    map[string]bool // its address goes elsewhere
	busy     map[ssa.Value]bool
	depth    int
	n        map[string]int
	flagFns  map[*ssa.Function]map[int]bool // parameters that are flag strings
	nameFns  map[*ssa.Function][]accessor
	reported map[string]bool
}

// accessor: parameter f of a function names a flag and parameter o one of its
// options (-1: none) in a table.
type accessor struct {
	f, o  int
	table byte // F, D, T
	flag  string
}

const modFlags = modPath + "/sarflags"

func newNameA(c *Ctx) *nameA {
	a := &nameA{c: c, calls: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}, stores: map[string][]ssa.Value{}, storedAt: map[string][]ssa.Instruction{}, taken: map[string]bool{}, busy: map[ssa.Value]bool{}, n: map[string]int{}, flagFns: map[*ssa.Function]map[int]bool{}, nameFns: map[*ssa.Function][]accessor{}, reported: map[string]bool{}}
	for _, p := range c.repoPackages() {
		a.fns = append(a.fns, funcsOf(c.e.prog, p)...)
		if f := p.Func("init"); f != nil && len(f.Blocks) > 0 && !inFns(a.fns, f) {
			a.fns = append(a.fns, f)
		}
	}
	for _, f := range a.fns {
		c.e.funcsSeen[f.String()] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a.scan(in)
			}
		}
	}
	return a
}

func inFns(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}

func (a *nameA) scan(in ssa.Instruction) {
	callee := (*ssa.Function)(nil)
	if ci, ok := in.(ssa.CallInstruction); ok {
		if f := ci.Common().StaticCallee(); f != nil {
			a.calls[f] = append(a.calls[f], ci)
			callee = f
		}
	}
	skipped := false
	for _, op := range in.Operands(nil) {
		f, ok := (*op).(*ssa.Function)
		if !ok {
			continue
		}
		if f == callee && !skipped {
			skipped = true
			continue
		}
		if _, ok := in.(*ssa.MakeClosure); ok {
			if a.onlyCalled(in.(*ssa.MakeClosure)) {
				continue
			}
		}
		a.escapes[f] = true
	}
	switch x := in.(type) {
	case *ssa.Store:
		if k := placeOf(x.Addr); k != "" {
			a.stores[k] = append(a.stores[k], x.Val)
			a.storedAt[k] = append(a.storedAt[k], x)
		}
	case *ssa.MapUpdate:
		if k := placeOf(x.Map); k != "" {
			a.stores[k+"[]"] = append(a.stores[k+"[]"], x.Value)
			a.stores[k+"[key]"] = append(a.stores[k+"[key]"], x.Key)
		}
	}
}

// onlyCalled: a closure that is called, deferred or started where it is made.
func (a *nameA) onlyCalled(m *ssa.MakeClosure) bool {
	for _, r := range *m.Referrers() {
		ci, ok := r.(ssa.CallInstruction)
		if !ok || ci.Common().Value != ssa.Value(m) {
			return false
		}
	}
	return true
}

// placeOf names the variable, field or element an address or container stands
// for, the same for all objects of a type.
func placeOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return "g:" + x.String()
	case *ssa.FieldAddr:
		return fieldPlace(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		return fieldPlace(x.X.Type(), x.Field)
	case *ssa.Alloc:
		return fmt.Sprintf("l:%s:%s", x.Parent(), x.Name())
	case *ssa.MakeMap:
		// the map a variable is made of
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(x) {
				return placeOf(s.Addr)
			}
		}
		return fmt.Sprintf("m:%s:%s", x.Parent(), x.Name())
	case *ssa.IndexAddr:
		if k := placeOf(x.X); k != "" {
			return k + "[]"
		}
	case *ssa.Index:
		if k := placeOf(x.X); k != "" {
			return k + "[]"
		}
	case *ssa.Slice:
		return placeOf(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return placeOf(x.X)
		}
	case *ssa.MakeSlice:
		return fmt.Sprintf("s:%s:%s", x.Parent(), x.Name())
	}
	return ""
}

func fieldPlace(t types.Type, i int) string {
	n := t.String()
	if s, ok := t.Underlying().(*types.Struct); ok {
		return "f:" + n + "." + s.Field(i).Name()
	}
	return ""
}

func (a *nameA) external(f *ssa.Function) bool { return !a.c.e.isRepo(f) }

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// of collects what a text can be.
func (a *nameA) of(v ssa.Value) *texts {
	r := newTexts()
	if a.busy[v] || a.depth > 30 {
		r.unknown = true
		return r
	}
	a.busy[v] = true
	a.depth++
	a.collect(v, r, map[ssa.Value]bool{}, map[string]bool{})
	a.depth--
	delete(a.busy, v)
	return r
}

func (a *nameA) collect(v ssa.Value, r *texts, seen map[ssa.Value]bool, places map[string]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if role := a.partRole(v); role != nil {
		r.add(role)
		return
	}
	go1 := func(x ssa.Value) { a.collect(x, r, seen, places) }
	place := func(k string) {
		if k == "" {
			r.unknown = true
			return
		}
		if places[k] {
			return
		}
		places[k] = true
		if role := a.fieldRole(k); role != nil {
			r.add(role)
			return
		}
		vs := a.stores[k]
		if len(vs) == 0 {
			r.unknown = true
		}
		for _, x := range vs {
			go1(x)
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			r.vals[constant.StringVal(x.Value)] = written
		} else {
			r.unknown = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			go1(e)
		}
	case *ssa.ChangeType:
		go1(x.X)
	case *ssa.MakeInterface:
		go1(x.X)
	case *ssa.TypeAssert:
		r.unknown = true
	case *ssa.Parameter:
		f := x.Parent()
		idx := paramIdx(x)
		if a.escapes[f] || idx < 0 || len(a.calls[f]) == 0 {
			r.unknown = true
			return
		}
		for _, ci := range a.calls[f] {
			if args := ci.Common().Args; idx < len(args) {
				go1(args[idx])
			}
		}
	case *ssa.FreeVar:
		a.freeVar(x, go1, r)
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Call:
			a.result(y, x.Index, r, go1)
		case *ssa.Lookup:
			go1(y)
		case *ssa.Next:
			a.next(y, x.Index, r, place)
		default:
			r.unknown = true
		}
	case *ssa.Call:
		a.result(x, 0, r, go1)
	case *ssa.Lookup:
		if role := a.mapRole(x.X, x.Index); role != nil {
			r.add(role)
			return
		}
		if k := placeOf(x.X); k != "" && !a.taken[k] && len(a.stores[k+"[]"]) > 0 {
			place(k + "[]")
			return
		}
		r.unknown = true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			r.unknown = true
			return
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if a.element(ia.X, ia.Index, ia, r, go1, place) {
				return
			}
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			a.freeVar(fv, func(w ssa.Value) {
				if k := placeOf(w); k != "" {
					place(k)
				} else {
					r.unknown = true
				}
			}, r)
			return
		}
		place(placeOf(x.X))
	case *ssa.Field:
		place(placeOf(x))
	case *ssa.Index:
		if !a.element(x.X, x.Index, x, r, go1, place) {
			place(placeOf(x))
		}
	default:
		r.unknown = true
	}
}

func paramIdx(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func (a *nameA) freeVar(x *ssa.FreeVar, go1 func(ssa.Value), r *texts) {
	f := x.Parent()
	idx := -1
	for i, q := range f.FreeVars {
		if q == x {
			idx = i
		}
	}
	found := false
	if p := f.Parent(); p != nil {
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(f) && idx >= 0 && idx < len(m.Bindings) {
					found = true
					go1(m.Bindings[idx])
				}
			}
		}
	}
	if !found {
		r.unknown = true
	}
}

// element: an element of a list of texts.
func (a *nameA) element(list, idx ssa.Value, at ssa.Value, r *texts, go1 func(ssa.Value), place func(string)) bool {
	if role := a.listRole(list); role != nil {
		r.add(role)
		return true
	}
	switch l := list.(type) {
	case *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract:
		_ = l
		r.unknown = true
		// the elements of lists given at the call sites
		if p, ok := l.(*ssa.Parameter); ok && !a.escapes[p.Parent()] && len(a.calls[p.Parent()]) > 0 {
			un := r.unknown
			r.unknown = false
			for _, ci := range a.calls[p.Parent()] {
				i := paramIdx(p)
				if i < 0 || i >= len(ci.Common().Args) {
					continue
				}
				arg := ci.Common().Args[i]
				if role := a.listRole(arg); role != nil {
					r.add(role)
					continue
				}
				if k := placeOf(arg); k != "" && len(a.stores[k+"[]"]) > 0 {
					place(k + "[]")
					continue
				}
				if k, ok := arg.(*ssa.Const); ok && k.IsNil() {
					continue
				}
				r.unknown = un
			}
		}
		return true
	}
	return false
}

// ----------------------------------------------------------------- the tables

func (a *nameA) options(table byte, flag string) *texts {
	t := newTexts()
	t.table = true
	var m map[string]int
	switch table {
	case 'F':
		m = a.c.tables.Flags[flag].Options
	case 'D':
		m = a.c.tables.Dirent[flag].Options
	case 'T':
		m = a.c.tables.Timestamp.Options
	}
	for k := range m {
		t.vals[k] = token.NoPos
	}
	t.vals[""] = token.NoPos
	return t
}

func (a *nameA) flagNames(table byte) map[string]bool {
	r := map[string]bool{}
	switch table {
	case 'F':
		for k := range a.c.tables.Flags {
			r[k] = true
		}
	case 'D':
		for k := range a.c.tables.Dirent {
			r[k] = true
		}
	case 'T':
		for k := range a.c.tables.Timestamp.Options {
			r[k] = true
		}
	}
	return r
}

// flagTables: which global is which table.
func (a *nameA) flagTable(v ssa.Value) byte {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == modFlags {
			switch g.Name() {
			case "Flags":
				return 'F'
			case "DirentFlags":
				return 'D'
			case "Frameflags":
				return 'R'
			}
		}
	}
	return 0
}

// accessors of the package of flag tables
var flagAccess = map[string]accessor{
	"Set": {f: 1, o: 2, table: 'F'}, "Get": {f: 1, o: -1, table: 'F'}, "GetStr": {f: 1, o: -1, table: 'F'}, "Test": {f: 1, o: 3, table: 'F'},
	"Name": {f: 1, o: -1, table: 'F'}, "Good": {f: 0, o: -1, table: 'F'}, "Valid": {f: 0, o: 1, table: 'F'}, "Value": {f: 0, o: 1, table: 'F'},
	"AddFlag": {f: 1, o: 2, table: 'F'}, "FlagValue": {f: 1, o: -1, table: 'F'}, "ReplaceFlag": {f: 1, o: 2, table: 'F'},
	"SetD": {f: 1, o: 2, table: 'D'}, "GetD": {f: 1, o: -1, table: 'D'}, "GetDStr": {f: 1, o: -1, table: 'D'}, "TestD": {f: 1, o: 2, table: 'D'},
	"NameD": {f: 1, o: -1, table: 'D'}, "GoodD": {f: 0, o: -1, table: 'D'}, "ValidD": {f: 0, o: 1, table: 'D'}, "AddFlagD": {f: 1, o: 2, table: 'D'}, "ReplaceFlagD": {f: 1, o: 2, table: 'D'},
	"SetT": {f: -1, o: 1, table: 'T'}, "GoodT": {f: -1, o: 0, table: 'T'},
	"Values": {f: 0, o: -1, table: 'R'}, "Fields": {f: 0, o: -1, table: 'R'}, "Setglobal": {f: 0, o: -1, table: 'R'},
}

// what accessors return: the options of the flag named by a parameter
var flagReads = map[string]accessor{
	"GetStr": {f: 1, table: 'F'}, "Name": {f: 1, table: 'F'}, "GetDStr": {f: 1, table: 'D'}, "NameD": {f: 1, table: 'D'}, "FlagValue": {f: 1, table: 'F'},
	"GetTStr": {f: -1, table: 'T'}, "NameT": {f: -1, table: 'T'},
}

func sarflagsFn(f *ssa.Function) string {
	if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == modFlags && f.Signature.Recv() == nil && f.Parent() == nil {
		return f.Name()
	}
	return ""
}

func argAt(ci ssa.CallInstruction, i int) ssa.Value {
	if as := ci.Common().Args; i >= 0 && i < len(as) {
		return as[i]
	}
	return nil
}

// result: what a call returns.
func (a *nameA) result(call *ssa.Call, i int, r *texts, go1 func(ssa.Value)) {
	f := call.Call.StaticCallee()
	if f == nil {
		r.unknown = true
		return
	}
	if n := sarflagsFn(f); n != "" {
		if ac, ok := flagReads[n]; ok {
			if ac.table == 'T' {
				r.add(a.options('T', ""))
				return
			}
			fl := a.of(argAt(call, ac.f))
			if fl.unknown {
				r.unknown = true
			}
			for _, k := range fl.list() {
				r.add(a.options(ac.table, k))
			}
			return
		}
	}
	switch callName(call) {
	case "strings.TrimSpace", "strings.Clone", "strings.Replace", "strings.ReplaceAll", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower":
		a.transformed(call, r)
		return
	}
	if a.external(f) || len(f.Blocks) == 0 {
		r.unknown = true
		return
	}
	for _, b := range f.Blocks {
		if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(rt.Results) {
			go1(rt.Results[i])
		}
	}
}

// transformed: a text made of another.
func (a *nameA) transformed(call *ssa.Call, r *texts) {
	args := call.Call.Args
	var ks []string
	for i, v := range args[1:] {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			ks = append(ks, constant.StringVal(k.Value))
		} else if i < 2 && isStr(v.Type()) {
			r.unknown = true
			return
		}
	}
	t := a.of(args[0])
	r.unknown = r.unknown || t.unknown
	r.table = r.table || t.table
	r.part = r.part || t.part
	for s, p := range t.vals {
		switch callName(call) {
		case "strings.TrimSpace":
			s = strings.TrimSpace(s)
		case "strings.Replace", "strings.ReplaceAll":
			s = strings.ReplaceAll(s, ks[0], ks[1])
		case "strings.Trim":
			s = strings.Trim(s, ks[0])
		case "strings.TrimRight":
			s = strings.TrimRight(s, ks[0])
		case "strings.TrimLeft":
			s = strings.TrimLeft(s, ks[0])
		case "strings.TrimPrefix":
			s = strings.TrimPrefix(s, ks[0])
		case "strings.TrimSuffix":
			s = strings.TrimSuffix(s, ks[0])
		case "strings.ToLower":
			s = strings.ToLower(s)
		}
		if r.vals[s] == token.NoPos {
			r.vals[s] = p
		}
	}
}

// fieldRole: what fields of the settings hold.
func (a *nameA) fieldRole(k string) *texts {
	switch k {
	case "f:" + modFlags + ".Cliflags.Timestamp":
		t := a.options('T', "")
		return t
	}
	return nil
}

func (a *nameA) isDefaults(v ssa.Value) bool {
	return placeOf(v) == "f:"+modFlags+".Cliflags.Global"
}

// mapRole: an entry of a table of the program.
func (a *nameA) mapRole(m, k ssa.Value) *texts {
	if a.isDefaults(m) {
		r := newTexts()
		ks := a.of(k)
		if ks.unknown {
			r.unknown = true
			return r
		}
		for _, x := range ks.list() {
			r.add(a.options('F', x))
		}
		return r
	}
	return nil
}

// next: the keys or values a loop over a map yields.
func (a *nameA) next(n *ssa.Next, i int, r *texts, place func(string)) {
	rg, ok := n.Iter.(*ssa.Range)
	if !ok || n.IsString {
		r.unknown = true
		return
	}
	if i == 1 {
		if a.isDefaults(rg.X) {
			for _, f := range defaultFlags {
				r.vals[f] = token.NoPos
			}
			r.table = true
			return
		}
		if t := a.flagTable(rg.X); t == 'F' || t == 'D' {
			for f := range a.flagNames(t) {
				r.vals[f] = token.NoPos
			}
			r.table = true
			return
		}
		if t, fl := a.optionsOf(rg.X); t != 0 {
			for _, f := range fl.list() {
				r.add(a.options(t, f))
			}
			r.unknown = r.unknown || fl.unknown
			return
		}
		if k := placeOf(rg.X); k != "" && len(a.stores[k+"[key]"]) > 0 {
			place(k + "[key]")
			return
		}
	}
	r.unknown = true
}

// optionsOf: the map is the options of a flag.
func (a *nameA) optionsOf(v ssa.Value) (byte, *texts) {
	var base ssa.Value
	switch x := v.(type) {
	case *ssa.Field:
		if fieldName(x.X.Type(), x.Field) == "Options" {
			base = x.X
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field) == "Options" {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						base = s.Val
					}
				}
			}
		}
	}
	if e, ok := base.(*ssa.Extract); ok && e.Index == 0 {
		base = e.Tuple
	}
	if l, ok := base.(*ssa.Lookup); ok {
		if t := a.flagTable(l.X); t == 'F' || t == 'D' {
			return t, a.of(l.Index)
		}
	}
	return 0, nil
}

func fieldName(t types.Type, i int) string {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return ""
}

// listRole: the elements of a list of names.
func (a *nameA) listRole(l ssa.Value) *texts {
	if lk, ok := l.(*ssa.Lookup); ok && a.flagTable(lk.X) == 'R' {
		return a.frameNames(lk.Index)
	}
	call, ok := l.(*ssa.Call)
	if !ok {
		return nil
	}
	switch n := sarflagsFn(call.Call.StaticCallee()); n {
	case "Values", "Fields":
		return a.frameNames(argAt(call, 0))
	case "FlagD":
		r := newTexts()
		r.table = true
		for f := range a.flagNames('D') {
			r.vals[f] = token.NoPos
		}
		return r
	case "FrameT":
		return a.options('T', "")
	}
	return nil
}

func (a *nameA) frameNames(v ssa.Value) *texts {
	r := newTexts()
	r.table = true
	fr := a.of(v)
	r.unknown = fr.unknown
	for _, f := range fr.list() {
		for _, n := range a.c.tables.Frameflags[f] {
			r.vals[n] = token.NoPos
		}
	}
	return r
}

// ------------------------------------------------------- parts of flag strings

// splitOf: the value is the list of the name and the option of one flag of a
// flag string; the call that makes it.
func splitOf(v ssa.Value) *ssa.Call { return splitOf1(v, map[ssa.Value]bool{}) }

func splitOf1(v ssa.Value, seen map[ssa.Value]bool) *ssa.Call {
	if _, ok := v.(*ssa.Phi); ok {
		if seen[v] {
			return nil
		}
		seen[v] = true
	}
	switch x := v.(type) {
	case *ssa.Call:
		switch callName(x) {
		case "strings.Split", "strings.SplitN", "strings.Cut":
			if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "=" {
				return x
			}
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return splitOf1(x.Call.Args[0], seen)
		}
	case *ssa.Slice:
		return splitOf1(x.X, seen)
	case *ssa.Phi:
		var r *ssa.Call
		for _, e := range x.Edges {
			c := splitOf1(e, seen)
			if c == nil && seen[e] {
				if _, ok := e.(*ssa.Phi); ok {
					continue
				}
			}
			if c == nil || r != nil && c != r {
				return nil
			}
			r = c
		}
		return r
	}
	return nil
}

func splitParts(v ssa.Value) bool { return splitOf(v) != nil }

// partOf: the value is the name (0) or the option (1) of a flag of a flag
// string, and the call that took it apart.
func partOf(v ssa.Value) (*ssa.Call, int64) {
	var list, idx ssa.Value
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && callName(c) == "strings.Cut" && splitOf(c) == c && x.Index < 2 {
			return c, int64(x.Index)
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			list, idx = ia.X, ia.Index
		}
	}
	k, ok := idx.(*ssa.Const)
	if !ok {
		return nil, 0
	}
	n, _ := constant.Int64Val(k.Value)
	if c := splitOf(list); c != nil && callName(c) != "strings.Cut" {
		return c, n
	}
	return nil, 0
}

// partRole: what the name or the option of a flag can be.
func (a *nameA) partRole(v ssa.Value) *texts {
	list, n := partOf(v)
	if list == nil || n > 1 {
		return nil
	}
	in := v.(ssa.Instruction)
	r := newTexts()
	r.table = true
	if names := a.under(list, n, in.Block()); len(names) > 0 {
		for _, f := range names {
			r.vals[f] = token.NoPos
		}
		return r
	}
	ts := a.tablesUsed(in.Parent())
	if n == 0 {
		for _, t := range ts {
			for f := range a.flagNames(t) {
				r.vals[f] = token.NoPos
			}
		}
		r.part = true
		r.vals[""] = token.NoPos
		return r
	}
	names := a.under(list, 0, in.Block())
	if len(names) == 0 {
		r.unknown = true
		return r
	}
	for _, f := range names {
		for _, t := range ts {
			r.add(a.options(t, f))
		}
		if f == "reqtstamp" {
			r.add(a.options('T', ""))
		}
	}
	return r
}

// tablesUsed: the tables a function works with.
func (a *nameA) tablesUsed(f *ssa.Function) []byte {
	has := map[byte]bool{}
	for _, b := range outermost(f).Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if ac, ok := flagAccess[sarflagsFn(ci.Common().StaticCallee())]; ok {
					has[ac.table] = true
				}
			}
		}
	}
	switch {
	case has['D'] && !has['F']:
		return []byte{'D'}
	case has['F'] && !has['D']:
		return []byte{'F'}
	}
	return []byte{'F', 'D'}
}

// under: what part n of a flag is known to be in a block: all ways into the
// block, or into a block that dominates it, come from comparisons with them.
func (a *nameA) under(list *ssa.Call, n int64, b *ssa.BasicBlock) []string {
	for d := b; d != nil; d = d.Idom() {
		var names []string
		all := len(d.Preds) > 0
		for _, p := range d.Preds {
			s, ok := a.comparedWith(list, n, p, d)
			if !ok {
				all = false
				break
			}
			names = append(names, s)
		}
		if all {
			return names
		}
	}
	return nil
}

func (a *nameA) comparedWith(list *ssa.Call, n int64, p, d *ssa.BasicBlock) (string, bool) {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return "", false
	}
	op, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return "", false
	}
	if op.Op == token.EQL && p.Succs[0] != d || op.Op == token.NEQ && p.Succs[1] != d || op.Op != token.EQL && op.Op != token.NEQ {
		return "", false
	}
	for _, xy := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
		k, ok := xy[1].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			continue
		}
		if l, i := partOf(xy[0]); l == list && i == n {
			return constant.StringVal(k.Value), true
		}
	}
	return "", false
}

// ---------------------------------------------------------------- the checks

func (a *nameA) pos(in ssa.Instruction) string {
	f := in.Parent()
	p := in.Pos()
	if !p.IsValid() {
		p = f.Pos()
	}
	q := a.c.e.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (a *nameA) check(rule, con string, ok bool, in ssa.Instruction, format string, args ...interface{}) {
	a.n[rule]++
	a.c.oblig++
	a.c.rules[rule]++
	if !ok {
		if i := strings.LastIndexByte(con, '/'); i >= 0 {
			con = pkgOf(in) + con[i:]
		}
		a.c.fail(rule, con, a.pos(in), fmt.Sprintf(format, args...))
	}
}

func where(in ssa.Instruction) string { return shortName(outermost(in.Parent()).String()) }

// pkgOf names the package of an instruction; what a violation is identified by.
func pkgOf(in ssa.Instruction) string {
	if p := outermost(in.Parent()).Pkg; p != nil {
		return p.Pkg.Name()
	}
	return where(in)
}

// own: a parameter of an accessor; the calls of the accessor are decided.
func (a *nameA) own(v ssa.Value) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	ac, ok := flagAccess[sarflagsFn(p.Parent())]
	return ok && (paramIdx(p) == ac.f || paramIdx(p) == ac.o)
}

// accessorCall decides one call of an accessor (or of a function that hands
// its parameters to one).
func (a *nameA) accessorCall(ci ssa.CallInstruction, ac accessor, depth int) {
	var fv, ov ssa.Value
	if ac.f >= 0 {
		fv = argAt(ci, ac.f)
	}
	if ac.o >= 0 {
		ov = argAt(ci, ac.o)
	}
	a.use(ci, ac, fv, ov, depth)
}

func (a *nameA) use(ci ssa.CallInstruction, ac accessor, fv, ov ssa.Value, depth int) {
	con := where(ci)
	if a.own(fv) && (ov == nil || a.own(ov)) {
		return
	}
	fp, _ := fv.(*ssa.Parameter)
	op, _ := ov.(*ssa.Parameter)
	// both are parameters: decided where the function is called
	if fp != nil && op != nil && depth < 6 && !a.escapes[fp.Parent()] && len(a.calls[fp.Parent()]) > 0 {
		for _, up := range a.calls[fp.Parent()] {
			n := ac
			n.f, n.o = paramIdx(fp), paramIdx(op)
			a.accessorCall(up, n, depth+1)
		}
		return
	}
	var flags *texts
	switch {
	case ac.f < 0 && ac.flag != "":
		flags = newTexts()
		flags.vals[ac.flag] = written
	case ac.f >= 0:
		flags = a.of(fv)
		known := a.flagNames(ac.table)
		if ac.table == 'R' {
			known = map[string]bool{}
			for k := range a.c.tables.Frameflags {
				known[k] = true
			}
		}
		for _, f := range flags.consts() {
			if f == "" && flags.table {
				continue
			}
			a.check("flag", con+"/"+f, known[f], ci, "%s uses the flag %q, which the tables do not define", con, f)
		}
	}
	if ov == nil {
		return
	}
	opts := a.of(ov)
	if ac.table == 'T' {
		for _, o := range opts.consts() {
			if o == "" && opts.table {
				continue
			}
			a.check("type", con+"/"+o, a.flagNames('T')[o], ci, "%s uses the timestamp type %q, which is not defined", con, o)
		}
		return
	}
	if flags == nil || flags.unknown && len(flags.vals) == 0 {
		return
	}
	// the flag and its option may come from one part of a flag string
	if samePart(fv, ov) {
		return
	}
	for _, o := range opts.list() {
		if o == "" && opts.table {
			continue
		}
		good := flags.unknown
		for _, f := range flags.list() {
			if _, ok := a.options(ac.table, f).vals[o]; ok || !a.flagNames(ac.table)[f] {
				good = true
			}
		}
		a.check("option", con+"/"+strings.Join(flags.list(), "|")+"="+o, good, ci, "%s uses the option %q, which the flag %s does not have", con, o, strings.Join(flags.list(), " or "))
	}
}

// samePart: the name and the option of one flag.
func samePart(x, y ssa.Value) bool {
	l, i := partOf(x)
	m, k := partOf(y)
	return l != nil && l == m && i == 0 && k == 1
}

func (a *nameA) instructions(f func(in ssa.Instruction)) {
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f(in)
			}
		}
	}
}

func checkC07(c *Ctx) {
	a := newNameA(c)
	a.instructions(func(in ssa.Instruction) {
		switch x := in.(type) {
		case ssa.CallInstruction:
			a.callSite(x)
		case *ssa.BinOp:
			a.compare(x)
		case *ssa.Lookup:
			a.lookup(x)
		case *ssa.MapUpdate:
			if a.isDefaults(x.Map) {
				a.defaults(x)
			}
		case *ssa.Store:
			a.fieldStore(x)
		}
	})
	a.flagStringsOf()
	a.typeLists()
	var ks []string
	for k, n := range a.n {
		ks = append(ks, fmt.Sprintf("%d %s", n, k))
	}
	sort.Strings(ks)
	c.notes = append(c.notes, fmt.Sprintf("%d functions; uses decided: %s.", len(a.fns), strings.Join(ks, ", ")))
	c.ok("coverage", "uses", a.n["flag"] > 60 && a.n["option"] > 20 && a.n["compared"] > 50, "fewer uses of names were found than the program has (%v)", a.n)
}

func (a *nameA) callSite(ci ssa.CallInstruction) {
	f := ci.Common().StaticCallee()
	if f == nil {
		return
	}
	if ac, ok := flagAccess[sarflagsFn(f)]; ok {
		a.accessorCall(ci, ac, 0)
		return
	}
	// timestamp and checksum types
	if f.Pkg == nil {
		return
	}
	switch f.Pkg.Pkg.Path() {
	case modPath + "/timestamp":
		if f.Signature.Recv() != nil && (f.Name() == "New" || f.Name() == "Now") {
			a.stampType(ci, argAt(ci, 1))
		}
	case modPath + "/fileio":
		if f.Name() == "Checksum" && f.Signature.Recv() == nil {
			for i, p := range f.Params {
				if isStr(p.Type()) && strings.Contains(strings.ToLower(p.Name()), "sum") {
					a.use(ci, accessor{f: -1, o: i, table: 'F', flag: "csumtype"}, nil, argAt(ci, i), 0)
				}
			}
		}
	}
}

// fieldStore: fields that hold a timestamp type or the option of a flag.
func (a *nameA) fieldStore(x *ssa.Store) {
	fa, ok := x.Addr.(*ssa.FieldAddr)
	if !ok || !isStr(x.Val.Type()) {
		return
	}
	n := strings.ToLower(fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field))
	switch {
	case n == "ttype" && strings.HasSuffix(placeOf(fa), "timestamp.Timestamp.ttype"):
		a.stampType(x, x.Val)
	case n == "ttype":
		for _, o := range a.of(x.Val).consts() {
			a.check("transfer type", where(x)+"/"+o, a.transferTypes()[o] || o == "", x, "%s makes a transfer of the type %q, which is neither a request type nor a command", where(x), o)
		}
	case n == "timetype" || placeOf(fa) == "f:"+modFlags+".Cliflags.Timestamp":
		a.stampType(x, x.Val)
	case a.flagNames('F')[n]:
		for _, o := range a.of(x.Val).consts() {
			if o == "" {
				continue
			}
			_, ok := a.options('F', n).vals[o]
			a.check("option", where(x)+"/"+n+"="+o, ok, x, "%s stores the option %q, which the flag %s does not have", where(x), o, n)
		}
	}
}

// transferTypes: the request types and the commands named after a transfer.
func (a *nameA) transferTypes() map[string]bool {
	r := map[string]bool{}
	for o := range a.c.tables.Flags["reqtype"].Options {
		r[o] = true
	}
	for o := range a.c.tables.Commands {
		r[o] = true
	}
	return r
}

// typeLists: lists of transfer types.
func (a *nameA) typeLists() {
	for _, k := range sortedKeys(a.stores) {
		if !strings.HasSuffix(k, "[]") {
			continue
		}
		t := newTexts()
		var at ssa.Instruction
		for _, v := range a.stores[k] {
			if !isStr(v.Type()) {
				continue
			}
			t.add(a.of(v))
			for _, r := range a.storedAt[k] {
				at = r
			}
		}
		n := 0
		for _, o := range t.consts() {
			if _, ok := a.c.tables.Flags["reqtype"].Options[o]; ok {
				n++
			}
		}
		if n < 4 || at == nil || len(t.consts()) > 2*n {
			continue
		}
		for _, o := range t.consts() {
			a.check("transfer type", where(at)+"/"+o, a.transferTypes()[o], at, "a list of transfer types has %q, which is neither a request type nor a command", o)
		}
	}
}

func (a *nameA) stampType(in ssa.Instruction, v ssa.Value) {
	if v == nil || !isStr(v.Type()) {
		return
	}
	t := a.of(v)
	for _, o := range t.consts() {
		if o == "" && t.table {
			continue
		}
		a.check("type", where(in)+"/"+o, a.flagNames('T')[o], in, "%s uses the timestamp type %q, which is not defined", where(in), o)
	}
}

// defaults: what is stored in the operator's default flags.
func (a *nameA) defaults(x *ssa.MapUpdate) {
	ks, vs := a.of(x.Key), a.of(x.Value)
	for _, k := range ks.list() {
		a.check("flag", where(x)+"/"+k, a.flagNames('F')[k], x, "%s stores a default of the flag %q, which the tables do not define", where(x), k)
		for _, v := range vs.list() {
			if v == "" && vs.table || len(ks.vals) > 1 {
				continue
			}
			_, ok := a.options('F', k).vals[v]
			a.check("option", where(x)+"/"+k+"="+v, ok && v != "", x, "%s stores the default %q, which the flag %s does not have", where(x), v, k)
		}
	}
}

// lookup: constants the tables are asked for.
func (a *nameA) lookup(x *ssa.Lookup) {
	if a.own(x.Index) {
		return
	}
	if t := a.flagTable(x.X); t == 'F' || t == 'D' {
		ks := a.of(x.Index)
		for _, k := range ks.consts() {
			if k != "" {
				a.check("flag", where(x)+"/"+k, a.flagNames(t)[k], x, "%s looks up the flag %q, which the tables do not define", where(x), k)
			}
		}
		return
	}
	if a.isDefaults(x.X) {
		for _, k := range a.of(x.Index).consts() {
			a.check("flag", where(x)+"/"+k, inList(k, defaultFlags), x, "%s reads the default of the flag %q, which there is none of", where(x), k)
		}
		return
	}
	if t, fl := a.optionsOf(x.X); t != 0 {
		for _, k := range a.of(x.Index).consts() {
			good := fl.unknown || k == ""
			for _, f := range fl.list() {
				_, ok := a.options(t, f).vals[k]
				good = good || ok
			}
			a.check("option", where(x)+"/"+k, good, x, "%s looks up the option %q, which the flag %s does not have", where(x), k, strings.Join(fl.list(), " or "))
		}
	}
}

// compare: a constant compared with a text of the tables can be produced.
func (a *nameA) compare(x *ssa.BinOp) {
	if x.Op != token.EQL && x.Op != token.NEQ || !isStr(x.X.Type()) {
		return
	}
	for _, xy := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		k, ok := xy[1].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			continue
		}
		s := constant.StringVal(k.Value)
		if s == "" {
			continue
		}
		t := a.of(xy[0])
		if t.unknown {
			continue
		}
		if !t.table {
			// only constants: transfer types?
			n, tt := 0, a.transferTypes()
			for _, o := range t.consts() {
				if _, ok := a.c.tables.Flags["reqtype"].Options[o]; ok {
					n++
				}
			}
			if n >= 4 && 2*n > len(t.consts()) {
				a.check("transfer type", where(x)+"/"+s, tt[s] || t.vals[s] == written, x, "%s compares a transfer type with %q, which is neither a request type nor a command", where(x), s)
			}
			continue
		}
		_, can := t.vals[s]
		can = can || t.part && a.flagNames('T')[s]
		vals := t.list()
		if len(vals) > 12 {
			vals = append(vals[:12:12], "...")
		}
		a.check("compared", where(x)+"/"+s, can, x, "%s compares with %q a text that is one of %s", where(x), s, strings.Join(vals, " "))
	}
}
