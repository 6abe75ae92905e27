package main

// Interprocedural lock analysis over the SSA form: every function is analysed
// for every set of locks it can be entered with, together with what its
// parameters refer to. Used by C13, C14 and C22.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const startupLock = "*startup*"

const (
	refD  = 1 << 0  // points into table i (shifted by 2*i)
	refC  = 1 << 1  // local memory holding references into table i
	fresh = 1 << 60 // memory allocated here and not yet shared
)

type lval struct {
	bits uint64
	lock string // pointer to this mutex
	fn   *ssa.Function
	bind []lval
}

func (v lval) key() string {
	s := fmt.Sprintf("%x/%s", v.bits, v.lock)
	if v.fn != nil {
		s += "/" + v.fn.String() + "("
		for _, b := range v.bind {
			s += b.key() + ";"
		}
		s += ")"
	}
	return s
}

func (v lval) join(w lval, first bool) lval {
	if first {
		return w
	}
	r := v
	f := v.bits & w.bits & fresh
	r.bits = (v.bits|w.bits)&^fresh | f
	if v.lock != w.lock {
		r.lock = ""
	}
	if v.fn != w.fn {
		r.fn, r.bind = nil, nil
	}
	return r
}

type lstate struct {
	held   map[string]byte // 'W' or 'R'
	defers []int
}

func heldKey(h map[string]byte) string {
	var k []string
	for x, m := range h {
		k = append(k, x+string(m))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}
func (s *lstate) key() string { return heldKey(s.held) + "|" + fmt.Sprint(s.defers) }
func (s *lstate) clone() *lstate {
	h := map[string]byte{}
	for k, v := range s.held {
		h[k] = v
	}
	return &lstate{h, append([]int(nil), s.defers...)}
}

type lsum struct {
	exits map[string]map[string]byte
	res   []lval
	has   bool
	wr    map[int]bool // tables this function or its callees write
}

func (s *lsum) key() string {
	var k []string
	for x := range s.exits {
		k = append(k, x)
	}
	sort.Strings(k)
	r := strings.Join(k, "!")
	for _, v := range s.res {
		r += v.key()
	}
	for t := range s.wr {
		r += fmt.Sprint("w", t) // order irrelevant: at most one changes per pass
	}
	return fmt.Sprint(len(r), "#", len(s.wr), "#", strings.Join(k, "!"), len(s.res))
}

type laccess struct {
	table int
	path  string
	write bool
	held  map[string]byte
	pos   token.Pos
	fn    *ssa.Function
}

type ltable struct {
	want   string
	name   string
	g      *ssa.Global
	entry  types.Type // entries reached by pointer (accesses judged per field)
	perFld bool
}

type lockAn struct {
	c        *Ctx
	tables   []*ltable
	memo     map[string]*lsum
	active   map[string]bool
	done     map[string]bool
	changed  bool
	acc      map[string]*laccess
	faults   map[string]*Finding
	edges    map[string]string // "a->b" -> where
	locks    map[string]int    // lock -> acquisitions
	rootEx   map[string]bool
	addrT    []*ssa.Function
	funcs    map[*ssa.Function]bool
	contexts int
	ops      int
	acq      map[*ssa.Function]map[string]bool // locks taken by the function itself
	waits    map[string]lwait
	wstores  map[*ssa.Global]map[*ssa.Function]bool // stores outside start-up, per global
	pending  []func()
	stack    []string
	writes   []map[int]bool
}

func shift(t int, b uint64) uint64 { return b << uint(2*t) }

func (a *lockAn) fault(rule, construct string, pos token.Pos, msg string) {
	k := rule + "|" + construct
	if a.faults[k] == nil {
		a.faults[k] = &Finding{Rule: rule, Construct: construct, Pos: a.c.e.pos(pos), Msg: msg}
	}
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// ------------------------------------------------------------------- roots

func (a *lockAn) roots() []*ssa.Function {
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			all = append(all, f)
		}
	}
	taken := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visited := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if visited[f] {
			return
		}
		visited[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for i, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok {
						if ci, isCall := in.(ssa.CallInstruction); isCall && i == 0 && ci.Common().StaticCallee() == g {
							continue
						}
						if _, mc := in.(*ssa.MakeClosure); mc {
							continue
						}
						if a.c.e.isRepo(g) {
							taken[g] = true
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for p := range a.c.e.repoPkgs {
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := a.c.e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := a.c.e.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							visit(f)
						}
					}
				}
			}
		}
	}
	for f := range visited {
		if f.Parent() != nil || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		exported := f.Object() != nil && f.Object().Exported() || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			exported = true
		}
		if exported || taken[f] {
			add(f)
		}
	}
	for f := range taken {
		a.addrT = append(a.addrT, f)
		add(f)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	sort.Slice(a.addrT, func(i, j int) bool { return a.addrT[i].String() < a.addrT[j].String() })
	return all
}

func (a *lockAn) run() {
	roots := a.roots()
	for pass := 0; pass < 12; pass++ {
		a.changed = false
		a.done = map[string]bool{}
		for _, f := range roots {
			held := map[string]byte{}
			if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Signature.Recv() == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
				held[startupLock] = 'W'
			}
			a.root(f, held, make([]lval, len(f.Params)), nil)
		}
		for len(a.pending) > 0 {
			p := a.pending
			a.pending = nil
			for _, g := range p {
				g()
			}
		}
		if !a.changed {
			return
		}
	}
	a.fault("undecided", "lock analysis", 0, "the analysis does not converge")
}

// root: an operation started with no lock held must end with none held.
func (a *lockAn) root(f *ssa.Function, held map[string]byte, pv, fv []lval) *lsum {
	s := a.analyse(f, held, pv, fv)
	for _, h := range s.exits {
		for l := range h {
			if l != startupLock && held[l] == 0 {
				a.fault("released", shortFn(f)+"/"+l, f.Pos(), "can return with "+l+" still held")
			}
		}
	}
	a.rootEx[f.String()] = true
	return s
}

// ------------------------------------------------------------- one function

func (a *lockAn) analyse(f *ssa.Function, held map[string]byte, pv, fv []lval) *lsum {
	k := f.String() + "@" + fmt.Sprint(f.Pos()) + "|" + heldKey(held)
	for _, p := range pv {
		k += "," + p.key()
	}
	k += "|"
	for _, p := range fv {
		k += "," + p.key()
	}
	s := a.memo[k]
	if s == nil {
		s = &lsum{exits: map[string]map[string]byte{}, wr: map[int]bool{}}
		a.memo[k] = s
		a.contexts++
		a.changed = true
	}
	if a.active[k] || a.done[k] {
		return s
	}
	a.active[k] = true
	a.funcs[f] = true
	before := s.key()
	(&lfun{a: a, f: f, s: s, pv: pv, fv: fv, env: map[ssa.Value]lval{}, set: map[ssa.Value]bool{}, cont: map[ssa.Value]uint64{}}).run(held)
	delete(a.active, k)
	a.done[k] = true
	if s.key() != before {
		a.changed = true
	}
	return s
}

type lfun struct {
	a      *lockAn
	f      *ssa.Function
	s      *lsum
	pv, fv []lval
	env    map[ssa.Value]lval
	set    map[ssa.Value]bool
	cont   map[ssa.Value]uint64 // references stored into local memory
	grew   bool
	defs   []*ssa.Defer
}

func (f *lfun) run(held map[string]byte) {
	for _, b := range f.f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				f.defs = append(f.defs, d)
			}
		}
	}
	for i := 0; i < 20; i++ {
		f.grew = false
		f.flow(held)
		if !f.grew {
			return
		}
	}
}

func (f *lfun) put(v ssa.Value, x lval) {
	old := f.env[v]
	n := old.join(x, !f.set[v])
	if !f.set[v] || n.key() != old.key() {
		f.set[v] = true
		f.env[v] = n
		f.grew = true
	}
}

func (f *lfun) get(v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.f.Params {
			if p == x && i < len(f.pv) {
				return f.pv[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.f.FreeVars {
			if p == x && i < len(f.fv) {
				return f.fv[i]
			}
		}
	case *ssa.Function:
		return lval{fn: x}
	case *ssa.Global:
		return lval{lock: lockName(x)}
	case *ssa.Const:
		return lval{bits: fresh}
	}
	return f.env[v]
}

func lockName(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		return strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/") + "." + g.Name()
	}
	return ""
}

func (f *lfun) flow(held map[string]byte) {
	in := map[*ssa.BasicBlock]map[string]*lstate{}
	start := &lstate{held: held}
	in[f.f.Blocks[0]] = map[string]*lstate{start.key(): start}
	work := []*ssa.BasicBlock{f.f.Blocks[0]}
	steps := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if steps++; steps > 5000 {
			f.a.fault("undecided", shortFn(f.f), f.f.Pos(), "too many lock states")
			return
		}
		var cur []*lstate
		var keys []string
		for k := range in[b] {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			cur = append(cur, in[b][k].clone())
		}
		dead := false
		for _, x := range b.Instrs {
			cur = f.instr(x, cur)
			if len(cur) == 0 {
				dead = true
				break
			}
		}
		if dead {
			continue
		}
		for _, s := range b.Succs {
			if in[s] == nil {
				in[s] = map[string]*lstate{}
			}
			grown := false
			for _, st := range cur {
				if len(in[s]) > 64 {
					f.a.fault("undecided", shortFn(f.f), f.f.Pos(), "too many lock states")
					return
				}
				if in[s][st.key()] == nil {
					in[s][st.key()] = st.clone()
					grown = true
				}
			}
			if grown {
				work = append(work, s)
			}
		}
	}
}

func dedup(l []*lstate) []*lstate {
	m := map[string]bool{}
	var r []*lstate
	for _, s := range l {
		if k := s.key(); !m[k] {
			m[k] = true
			r = append(r, s)
		}
	}
	return r
}

// pathOf: field names from the table variable or a pointer to an address.
func pathOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		p := pathOf(x.X)
		if p == "*" {
			p = ""
		}
		return join(p, t.Field(x.Field).Name())
	case *ssa.Field:
		t := x.X.Type().Underlying().(*types.Struct)
		p := pathOf(x.X)
		if p == "*" {
			p = ""
		}
		return join(p, t.Field(x.Field).Name())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if _, ok := x.X.(*ssa.Global); ok {
				return "*"
			}
			return pathOf(x.X)
		}
	case *ssa.IndexAddr:
		return pathOf(x.X)
	case *ssa.Slice:
		return pathOf(x.X)
	case *ssa.ChangeType:
		return pathOf(x.X)
	case *ssa.Range:
		return pathOf(x.X)
	case *ssa.Phi:
		p := ""
		for i, e := range x.Edges {
			if _, ok := e.(*ssa.Phi); ok {
				return "*"
			}
			q := pathOf(e)
			if i > 0 && q != p {
				return "*"
			}
			p = q
		}
		return p
	}
	return "*"
}
func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + "." + b
}

func (f *lfun) access(bits uint64, mask uint64, path string, write bool, pos token.Pos, in ssa.Instruction, cur []*lstate) {
	for t := range f.a.tables {
		if bits&shift(t, mask) == 0 {
			continue
		}
		f.a.record(t, path, write, pos, in, f.f, cur)
		if write {
			f.s.wr[t] = true
		}
	}
}

func (a *lockAn) record(t int, path string, write bool, pos token.Pos, in ssa.Instruction, fn *ssa.Function, cur []*lstate) {
	for _, s := range cur {
		k := fmt.Sprintf("%d|%s|%v|%p|%s", t, path, write, in, heldKey(s.held))
		if a.acc[k] == nil {
			h := map[string]byte{}
			for x, m := range s.held {
				h[x] = m
			}
			if !pos.IsValid() {
				pos = fn.Pos()
			}
			a.acc[k] = &laccess{t, path, write, h, pos, fn}
		}
	}
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Tuple, *types.Struct, *types.Array:
		return true
	}
	return false
}

// tableMem: is memory of this type part of table t?
func (a *lockAn) tableMem(t int, ty types.Type) bool {
	tb := a.tables[t]
	switch x := ty.Underlying().(type) {
	case *types.Pointer:
		return namedIn(x.Elem(), tb)
	case *types.Slice:
		return !isBasicElem(x.Elem())
	case *types.Map:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if a.tableMem(t, x.Field(i).Type()) {
				return true
			}
		}
	case *types.Interface:
		return true
	}
	return false
}
func isBasicElem(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }
func namedIn(t types.Type, tb *ltable) bool {
	g := tb.g.Type().(*types.Pointer).Elem()
	if p, ok := g.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
		return true
	}
	if s, ok := g.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), t) {
		return true
	}
	return false
}

const allD = 0x5555555555555 // every refD bit
const allC = allD << 1

// fromMem: what a value loaded from memory with these bits refers to.
func (f *lfun) fromMem(bits uint64, t types.Type) uint64 {
	var r uint64
	for i := range f.a.tables {
		d, c := bits&shift(i, refD) != 0, bits&shift(i, refC) != 0
		if (d || c) && f.a.tableMem(i, t) {
			if _, ok := t.Underlying().(*types.Struct); ok {
				r |= shift(i, refC)
			} else {
				r |= shift(i, refD)
			}
			if c {
				r |= shift(i, refC)
			}
		}
	}
	return r
}

// rootOf: the local allocation an address belongs to, nil otherwise.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return x
		case *ssa.MakeSlice:
			return x
		case *ssa.MakeMap:
			return x
		default:
			return nil
		}
	}
}

func isMutex(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

func (f *lfun) instr(in ssa.Instruction, cur []*lstate) []*lstate {
	a := f.a
	switch x := in.(type) {
	case *ssa.Alloc:
		l := ""
		if isMutex(x.Type()) {
			l = "local:" + a.c.e.pos(x.Pos())
		}
		f.put(x, lval{bits: fresh | f.cont[x], lock: l})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		f.put(v, lval{bits: fresh | f.cont[v]})
	case *ssa.FieldAddr:
		b := f.get(x.X)
		l := ""
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		fld := st.Underlying().(*types.Struct).Field(x.Field)
		if b.lock != "" {
			l = b.lock + "." + fld.Name()
		} else if isMutex(fld.Type()) {
			l = strings.TrimPrefix(st.String(), modPath+"/") + "." + fld.Name()
		}
		f.put(x, lval{bits: b.bits, lock: l})
	case *ssa.IndexAddr:
		b := f.get(x.X)
		f.put(x, lval{bits: b.bits, lock: b.lock})
	case *ssa.Slice:
		f.put(x, lval{bits: f.get(x.X).bits})
	case *ssa.Field:
		b := f.get(x.X).bits
		f.put(x, lval{bits: f.fromMem(b, x.Type())})
	case *ssa.Index:
		f.put(x, lval{bits: f.fromMem(f.get(x.X).bits, x.Type())})
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, ok := e.(*ssa.Const); !ok && !f.set[e] {
				switch e.(type) {
				case *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
				default:
					continue
				}
			}
			f.put(x, f.get(e))
		}
	case *ssa.ChangeType:
		f.put(x, f.get(x.X))
	case *ssa.Convert:
		f.put(x, f.get(x.X))
	case *ssa.MultiConvert:
		f.put(x, f.get(x.X))
	case *ssa.ChangeInterface:
		f.put(x, f.get(x.X))
	case *ssa.MakeInterface:
		f.put(x, f.get(x.X))
	case *ssa.TypeAssert:
		v := f.get(x.X)
		f.put(x, v)
	case *ssa.SliceToArrayPointer:
		f.put(x, f.get(x.X))
	case *ssa.Extract:
		v := f.get(x.Tuple)
		if c, ok := x.Tuple.(*ssa.Call); ok {
			v = lval{}
			if r := f.callRes(c); x.Index < len(r) {
				v = r[x.Index]
			}
		} else if !pointerLike(x.Type()) {
			v = lval{}
		}
		f.put(x, v)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		v := lval{fn: fn}
		for _, b := range x.Bindings {
			bv := f.get(b)
			v.bind = append(v.bind, bv)
			v.bits |= bv.bits &^ fresh
			if r := rootOf(b); r != nil {
				_ = r
			}
		}
		// references carried by a closure are held, not pointed to
		v.bits = (v.bits & allC) | (v.bits&allD)<<1
		f.put(x, v)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				for t, tb := range a.tables {
					if tb.g == g {
						a.record(t, "", false, x.Pos(), in, f.f, cur)
						var b uint64
						if pointerLike(x.Type()) {
							b = shift(t, refD)
						}
						f.put(x, lval{bits: b})
						return cur
					}
				}
				l := ""
				if isMutex(x.Type()) {
					l = lockName(g)
				}
				f.put(x, lval{lock: l})
				return cur
			}
			av := f.get(x.X)
			f.access(av.bits, refD, pathOf(x.X), false, x.Pos(), in, cur)
			f.entryAccess(x.X, av, false, x.Pos(), in, cur)
			r := lval{bits: f.fromMem(av.bits, x.Type())}
			if al, ok := x.X.(*ssa.Alloc); ok && !f.set[al] {
				r.bits |= 0
			}
			if rt := rootOf(x.X); rt != nil {
				r.bits |= f.fromMem(f.cont[rt], x.Type())
			}
			if isMutex(x.Type()) {
				r.lock = av.lock
				if r.lock != "" && isPtr(x.Type()) {
					r.lock += "*"
				}
			}
			// a variable captured or spilled to memory: what was last stored
			if al, ok := x.X.(*ssa.Alloc); ok {
				if v, ok := f.onlyStore(al); ok {
					r = v
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if v := f.get(fv); v.fn != nil {
					r.fn, r.bind = v.fn, v.bind
				}
			}
			f.put(x, r)
		case token.ARROW:
			f.put(x, lval{})
		}
	case *ssa.Store:
		v := f.get(x.Val)
		if g, ok := x.Addr.(*ssa.Global); ok {
			for t, tb := range a.tables {
				if tb.g == g {
					a.record(t, "", true, x.Pos(), in, f.f, cur)
					f.s.wr[t] = true
				}
			}
			for _, s := range cur {
				if s.held[startupLock] == 0 {
					if a.wstores[g] == nil {
						a.wstores[g] = map[*ssa.Function]bool{}
					}
					a.wstores[g][f.f] = true
				}
			}
			f.escape(v, x.Val.Type(), g, x.Pos(), cur)
			return cur
		}
		av := f.get(x.Addr)
		f.access(av.bits, refD, pathOf(x.Addr), true, x.Pos(), in, cur)
		f.entryAccess(x.Addr, av, true, x.Pos(), in, cur)
		if al, ok := x.Addr.(*ssa.Alloc); ok && v.bits&(allC|allD) != 0 && replaced(al, x) {
			v.bits = 0 // a copy whose references are all replaced
		}
		if r := rootOf(x.Addr); r != nil {
			n := f.cont[r] | (v.bits & allC) | (v.bits&allD)<<1
			if n != f.cont[r] {
				f.cont[r] = n
				f.grew = true
				o := f.env[r]
				o.bits |= n
				f.env[r] = o
			}
		} else if av.bits&(allD) == 0 {
			f.escape(v, x.Val.Type(), nil, x.Pos(), cur)
		}
	case *ssa.Lookup:
		f.access(f.get(x.X).bits, refD, pathOf(x.X), false, x.Pos(), in, cur)
		f.put(x, lval{bits: f.fromMem(f.get(x.X).bits, x.Type())})
	case *ssa.MapUpdate:
		f.access(f.get(x.Map).bits, refD, pathOf(x.Map), true, x.Pos(), in, cur)
	case *ssa.Range:
		v := f.get(x.X)
		f.access(v.bits, refD, pathOf(x.X), false, x.Pos(), in, cur)
		f.put(x, v)
	case *ssa.Next:
		v := f.get(x.Iter)
		f.access(v.bits, refD, pathOf(x.Iter), false, x.Pos(), in, cur)
		f.put(x, lval{})
	case *ssa.Go:
		a.ops++
		f.spawn(x.Common(), cur)
		for _, s := range cur {
			delete(s.held, startupLock)
		}
		cur = dedup(cur)
	case *ssa.Defer:
		for i, d := range f.defs {
			if d == x {
				for _, s := range cur {
					if len(s.defers) > 8 {
						continue
					}
					s.defers = append(s.defers, i)
				}
			}
		}
	case *ssa.RunDefers:
		var out []*lstate
		for _, s := range cur {
			part := []*lstate{s}
			ds := s.defers
			s.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				part = f.call(f.defs[ds[i]], f.defs[ds[i]].Common(), nil, part)
			}
			out = append(out, part...)
		}
		return dedup(out)
	case *ssa.Return:
		for _, s := range cur {
			f.s.exits[heldKey(s.held)] = s.clone().held
		}
		for i, r := range x.Results {
			v := f.get(r)
			if i >= len(f.s.res) {
				f.s.res = append(f.s.res, lval{})
				f.s.res[i] = v
			} else {
				f.s.res[i] = f.s.res[i].join(v, !f.s.has)
			}
		}
		f.s.has = true
		return nil
	case *ssa.Panic:
		return nil
	case *ssa.Select:
		if x.Blocking && len(x.States) == 1 {
			f.wait("a channel", x.Pos(), cur)
		}
	case *ssa.Send:
		f.wait("a send", x.Pos(), cur)
		f.escape(f.get(x.X), x.X.Type(), nil, x.Pos(), cur)
	case *ssa.Call:
		return f.call(x, x.Common(), x, cur)
	}
	return cur
}

// wait records the locks held where an activity waits for another.
func (f *lfun) wait(what string, pos token.Pos, cur []*lstate) {
	for _, s := range cur {
		for l := range s.held {
			if l != startupLock {
				k := f.a.c.e.pos(pos) + "/" + l
				f.a.waits[k] = lwait{what, l, pos, f.f}
			}
		}
	}
}

type lwait struct {
	what, lock string
	pos        token.Pos
	fn         *ssa.Function
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// onlyStore: the single value ever stored in a local variable.
func (f *lfun) onlyStore(al *ssa.Alloc) (lval, bool) {
	var v ssa.Value
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			if v != nil {
				return lval{}, false
			}
			v = s.Val
		}
	}
	if v == nil {
		return lval{}, false
	}
	return f.get(v), true
}

// holdsRef: a value of the type can refer to memory that can change.
func holdsRef(t types.Type, d int) bool {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if d > 8 || holdsRef(x.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRef(x.Elem(), d+1)
	}
	return true
}

// replaced: a structure stored in a variable of which every field that can
// hold a reference is set anew before anything else uses the variable.
func replaced(al *ssa.Alloc, x *ssa.Store) bool {
	st, ok := x.Val.Type().Underlying().(*types.Struct)
	if !ok || st.NumFields() > 60 {
		return false
	}
	var want uint64
	for i := 0; i < st.NumFields(); i++ {
		if holdsRef(st.Field(i).Type(), 0) {
			want |= 1 << i
		}
	}
	if want == 0 {
		return false
	}
	type pos struct {
		b    *ssa.BasicBlock
		mask uint64
	}
	seen := map[pos]bool{}
	var walk func(b *ssa.BasicBlock, i int, mask uint64) bool
	walk = func(b *ssa.BasicBlock, i int, mask uint64) bool {
		for ; i < len(b.Instrs); i++ {
			if mask == want {
				return true
			}
			in := b.Instrs[i]
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == al {
					mask |= want & (1 << fa.Field)
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				switch o := (*op).(type) {
				case *ssa.Alloc:
					if fa, ok := in.(*ssa.FieldAddr); o == al && !ok {
						return false
					} else if o == al && want&(1<<fa.Field) != 0 {
						for _, r := range *fa.Referrers() {
							if s, ok := r.(*ssa.Store); !ok || s.Addr != fa {
								return false
							}
						}
					}
				}
			}
		}
		for _, n := range b.Succs {
			if p := (pos{n, mask}); !seen[p] {
				seen[p] = true
				if !walk(n, 0, mask) {
					return false
				}
			}
		}
		return true
	}
	for i, in := range x.Block().Instrs {
		if in == x {
			return walk(x.Block(), i+1, 0)
		}
	}
	return false
}

// escape: a reference into a table put where it outlives the lock.
func (f *lfun) escape(v lval, t types.Type, g *ssa.Global, pos token.Pos, cur []*lstate) {
	for i, tb := range f.a.tables {
		if v.bits&shift(i, refD|refC) == 0 || tb.g == g {
			continue
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer, *types.Interface:
		default:
			continue
		}
		start := true
		for _, s := range cur {
			if s.held[startupLock] == 0 {
				start = false
			}
		}
		if !start {
			f.a.fault("escape", shortFn(f.f)+"/"+tb.name, pos, "a reference into "+tb.name+" is stored where it outlives the lock")
		}
	}
}

// entryAccess: field accesses of shared entries that a table holds by pointer.
func (f *lfun) entryAccess(addr ssa.Value, av lval, write bool, pos token.Pos, in ssa.Instruction, cur []*lstate) {
	for t, tb := range f.a.tables {
		if tb.entry == nil {
			continue
		}
		path, base := "", addr
		for {
			if fa, ok := base.(*ssa.FieldAddr); ok {
				et := fa.X.Type().Underlying().(*types.Pointer).Elem()
				path = join(et.Underlying().(*types.Struct).Field(fa.Field).Name(), path)
				base = fa.X
				if types.Identical(et, tb.entry) {
					break
				}
				continue
			}
			break
		}
		p, ok := base.Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(p.Elem(), tb.entry) {
			continue
		}
		if f.get(base).bits&fresh != 0 {
			continue
		}
		path = strings.TrimSuffix(strings.Split(path, ".")[0], ".")
		if path == "" {
			path = "*"
		}
		f.a.record(t, "entry:"+path, write, pos, in, f.f, cur)
	}
}

// ------------------------------------------------------------------- calls

func (f *lfun) callRes(c *ssa.Call) []lval {
	v := f.env[c]
	return v.bind
}

func (f *lfun) args(c *ssa.CallCommon) []lval {
	var r []lval
	if c.IsInvoke() {
		r = append(r, f.get(c.Value))
	}
	for _, x := range c.Args {
		r = append(r, f.get(x))
	}
	return r
}

// targets: repository functions a call may reach, with their free variables.
func (f *lfun) targets(c *ssa.CallCommon) (fns []*ssa.Function, binds [][]lval, ext string) {
	if c.IsInvoke() {
		v := f.get(c.Value)
		if v.lock != "" {
			return nil, nil, "(sync.Locker)." + c.Method.Name()
		}
		for p := range f.a.c.e.repoPkgs {
			for _, m := range p.Members {
				t, ok := m.(*ssa.Type)
				if !ok || types.IsInterface(t.Type()) {
					continue
				}
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					if types.Implements(ty, c.Value.Type().Underlying().(*types.Interface)) {
						if g := f.a.c.e.prog.LookupMethod(ty, c.Method.Pkg(), c.Method.Name()); g != nil && len(g.Blocks) > 0 {
							fns = append(fns, g)
							binds = append(binds, nil)
						}
						break
					}
				}
			}
		}
		return fns, binds, c.Method.FullName()
	}
	if g := c.StaticCallee(); g != nil {
		if o := g.Origin(); o != nil && !f.a.c.e.isRepo(g) {
			return nil, nil, o.String()
		}
		if len(g.Blocks) > 0 && f.a.c.e.isRepo(g) {
			v := f.get(c.Value)
			return []*ssa.Function{g}, [][]lval{v.bind}, ""
		}
		return nil, nil, g.String()
	}
	if v := f.get(c.Value); v.fn != nil {
		if f.a.c.e.isRepo(v.fn) {
			return []*ssa.Function{v.fn}, [][]lval{v.bind}, ""
		}
		// method value of a mutex: bound receiver
		return nil, nil, v.fn.String()
	}
	sig := c.Signature()
	for _, g := range f.a.addrT {
		if types.Identical(g.Signature, sig) && len(g.Blocks) > 0 {
			fns = append(fns, g)
			binds = append(binds, nil)
		}
	}
	return fns, binds, "dynamic call"
}

var syncCallers = []string{"sort.", "slices.", "strings.", "bytes.", "(*sync.Once).Do", "maps.", "path/filepath.Walk", "sync.Once"}

func (f *lfun) spawn(c *ssa.CallCommon, cur []*lstate) {
	fns, binds, _ := f.targets(c)
	for i, g := range fns {
		f.a.root(g, map[string]byte{}, f.args(c), binds[i])
	}
	if len(fns) == 0 {
		f.closuresAsync(c)
	}
}

func (f *lfun) closuresAsync(c *ssa.CallCommon) {
	for _, v := range f.args(c) {
		if v.fn != nil && len(v.fn.Blocks) > 0 && f.a.c.e.isRepo(v.fn) {
			f.a.root(v.fn, map[string]byte{}, make([]lval, len(v.fn.Params)), v.bind)
		}
	}
}

func (f *lfun) lockOp(name string, v lval, in ssa.Instruction, pos token.Pos, cur []*lstate) ([]*lstate, bool) {
	i := strings.LastIndexByte(name, '.')
	if i < 0 || !strings.Contains(name[:i], "sync.") {
		return nil, false
	}
	if !strings.Contains(name, "sync.Mutex") && !strings.Contains(name, "sync.RWMutex") && !strings.Contains(name, "sync.Locker") {
		return nil, false
	}
	op := strings.TrimSuffix(name[i+1:], "$bound")
	l := v.lock
	if l == "" {
		f.a.fault("undecided", shortFn(f.f), pos, "which lock is operated on is not decided")
		return cur, true
	}
	f.a.ops++
	for _, s := range cur {
		switch op {
		case "Lock", "RLock":
			m := byte('W')
			if op == "RLock" {
				m = 'R'
			}
			if s.held[l] != 0 {
				f.a.fault("relock", shortFn(f.f)+"/"+l, pos, l+" is taken while already held")
			}
			for h := range s.held {
				if h != startupLock && h != l {
					k := h + " -> " + l
					if f.a.edges[k] == "" {
						f.a.edges[k] = f.a.c.e.pos(pos) + " in " + shortFn(f.f)
					}
				}
			}
			f.a.locks[l]++
			if f.a.acq[f.f] == nil {
				f.a.acq[f.f] = map[string]bool{}
			}
			f.a.acq[f.f][l] = true
			s.held[l] = m
		case "Unlock", "RUnlock":
			m := byte('W')
			if op == "RUnlock" {
				m = 'R'
			}
			if s.held[l] != m {
				f.a.fault("unheld", shortFn(f.f)+"/"+l, pos, l+" is released although it is not held that way on some path")
			}
			delete(s.held, l)
		default:
			f.a.fault("undecided", shortFn(f.f)+"/"+op, pos, "lock operation "+op+" is not analysed")
		}
	}
	return dedup(cur), true
}

func (f *lfun) call(in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call, cur []*lstate) []*lstate {
	a := f.a
	pos := in.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		f.builtin(b.Name(), c, res, in, cur)
		return cur
	}
	fns, binds, ext := f.targets(c)
	if ext != "" {
		var v lval
		if c.IsInvoke() {
			v = f.get(c.Value)
		} else if fv := f.get(c.Value); fv.fn != nil && len(fv.bind) > 0 {
			v = fv.bind[0]
		} else if len(c.Args) > 0 {
			v = f.get(c.Args[0])
		}
		if out, ok := f.lockOp(ext, v, in, pos, cur); ok {
			return out
		}
	}
	if len(fns) == 0 {
		switch {
		case ext == "os.Exit", strings.HasPrefix(ext, "log.Fatal"), strings.HasPrefix(ext, "log.Panic"), ext == "runtime.Goexit":
			return nil
		}
		var bits uint64
		sync := false
		for _, p := range syncCallers {
			if strings.HasPrefix(ext, p) {
				sync = true
			}
		}
		for i, v := range f.args(c) {
			if v.fn != nil {
				if sync && len(v.fn.Blocks) > 0 && a.c.e.isRepo(v.fn) {
					for _, s := range cur {
						a.analyse(v.fn, s.held, make([]lval, len(v.fn.Params)), v.bind)
					}
				}
				continue
			}
			bits |= v.bits
			_ = i
		}
		if !sync {
			f.closuresAsync(c)
		}
		if bits&(allD|allC) != 0 {
			f.access(bits, refD|refC, "*", false, pos, in, cur)
			for _, w := range []string{"sort.", "slices.Sort", "slices.Reverse", "maps.Copy", "maps.DeleteFunc", "slices.Delete"} {
				if strings.HasPrefix(ext, w) {
					f.access(bits, refD|refC, "*", true, pos, in, cur)
				}
			}
		}
		if res != nil {
			r := lval{}
			if strings.HasPrefix(ext, "slices.") || strings.HasPrefix(ext, "maps.") {
				r.bits = bits & (allD | allC)
				if strings.HasSuffix(ext, "Clone") {
					r.bits = (bits & allC) | (bits&allD)<<1
					if e, ok := c.Signature().Results().At(0).Type().Underlying().(*types.Slice); ok && !pointerLike(e.Elem()) {
						r.bits = 0
					}
					if _, ok := c.Signature().Results().At(0).Type().Underlying().(*types.Map); ok {
						r.bits = 0
					}
				}
			}
			n := 1
			if t, ok := res.Type().(*types.Tuple); ok {
				n = t.Len()
			}
			for i := 0; i < n; i++ {
				r.bind = append(r.bind, lval{bits: r.bits})
			}
			f.put(res, r)
		}
		return cur
	}
	var out []*lstate
	args := f.args(c)
	var rs []lval
	first := true
	for i, g := range fns {
		ga := args
		if len(ga) > len(g.Params) {
			ga = ga[len(ga)-len(g.Params):]
		}
		for _, s := range cur {
			sum := a.analyse(g, s.held, ga, binds[i])
			for t := range sum.wr {
				f.s.wr[t] = true
			}
			for _, h := range sum.exits {
				n := s.clone()
				n.held = map[string]byte{}
				for k, m := range h {
					n.held[k] = m
				}
				out = append(out, n)
			}
			for j, v := range sum.res {
				for t, tb := range a.tables {
					if tb.entry != nil && sum.wr[t] {
						v.bits &^= fresh
					}
				}
				if j >= len(rs) {
					rs = append(rs, v)
				} else {
					rs[j] = rs[j].join(v, first)
				}
			}
			if len(sum.res) > 0 {
				first = false
			}
		}
	}
	if res != nil {
		r := lval{bind: rs}
		if len(rs) == 1 {
			r = rs[0]
			if r.fn == nil {
				r.bind = rs
			}
		}
		f.put(res, r)
	}
	return dedup(out)
}

func (f *lfun) builtin(name string, c *ssa.CallCommon, res *ssa.Call, in ssa.Instruction, cur []*lstate) {
	arg := func(i int) lval {
		if i < len(c.Args) {
			return f.get(c.Args[i])
		}
		return lval{}
	}
	pos := in.Pos()
	switch name {
	case "len", "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			f.access(arg(0).bits, refD, pathOf(c.Args[0]), false, pos, in, cur)
		}
		if res != nil {
			f.put(res, lval{})
		}
	case "append":
		x, y := arg(0), arg(1)
		f.access(x.bits, refD, pathOf(c.Args[0]), true, pos, in, cur)
		if len(c.Args) > 1 {
			f.access(y.bits, refD, pathOf(c.Args[1]), false, pos, in, cur)
		}
		r := lval{bits: x.bits &^ fresh}
		if len(c.Args) > 1 {
			if s, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
				r.bits |= y.bits & allC
				for i := range f.a.tables {
					if y.bits&shift(i, refD) != 0 && f.a.tableMem(i, s.Elem()) {
						r.bits |= shift(i, refC)
					}
				}
			}
		}
		if res != nil {
			f.put(res, r)
		}
	case "copy":
		f.access(arg(0).bits, refD, pathOf(c.Args[0]), true, pos, in, cur)
		f.access(arg(1).bits, refD, pathOf(c.Args[1]), false, pos, in, cur)
		if res != nil {
			f.put(res, lval{})
		}
	case "delete", "clear":
		f.access(arg(0).bits, refD, pathOf(c.Args[0]), true, pos, in, cur)
	default:
		if res != nil {
			f.put(res, lval{})
		}
	}
}
