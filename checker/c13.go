package main

// C13: shared tables under their lock. C14: lock discipline.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = &checkDef{run: checkC13, min: 60,
		rule: "Interprocedural must-hold analysis over the SSA form: every function in every set of locks it can be entered with, closures, goroutines, deferred calls and handlers included. Every read or write of a table, of memory reached from it, or of a field of a shared entry that changes after registration, outside start-up, must hold the one lock that guards the table, in write mode for writes; no reference into a table may be stored, returned or captured so that it is used without it."}
	checks["C14"] = &checkDef{run: checkC14, min: 40,
		rule: "Interprocedural lock state analysis over the SSA form: on every path through every operation (exported function, handler, goroutine, callback) the locks held are tracked through calls and deferred calls; taking a held lock, releasing one not held, returning with one held, and two locks taken in both orders are reported."}
}

// sharedTables: the tables of the property, found by name or else by type.
func (c *Ctx) sharedTables() []*ltable {
	e := c.e
	find := func(name, pkg string, ok func(t types.Type) bool) *ssa.Global {
		if g := e.globalVar(name); g != nil && ok(g.Type().(*types.Pointer).Elem()) {
			return g
		}
		p := e.pkgs[modPath+"/"+pkg]
		if p == nil {
			return nil
		}
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if g, o := p.Members[n].(*ssa.Global); o && ok(g.Type().(*types.Pointer).Elem()) {
				return g
			}
		}
		return nil
	}
	named := func(t types.Type, pkg, name string) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+pkg && n.Obj().Name() == name
	}
	elem := func(t types.Type) types.Type {
		if s, ok := t.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
		if m, ok := t.Underlying().(*types.Map); ok {
			return m.Elem()
		}
		return types.Typ[types.Invalid]
	}
	deref := func(t types.Type) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
		return t
	}
	var r []*ltable
	add := func(name string, g *ssa.Global, entry types.Type, per bool) {
		if g == nil && name == "sarwin.sessionid" {
			return // part of something else; what it is guarded by is decided by C22
		}
		if g == nil {
			c.fail("anchor", name, "", "the table "+name+" was not found")
			return
		}
		r = append(r, &ltable{want: name, name: strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath+"/") + "." + g.Name(), g: g, entry: entry, perFld: per})
	}
	add("beacon.Peers", find("beacon.Peers", "beacon", func(t types.Type) bool { return named(deref(elem(t)), "beacon", "Peer") }), e.typ("beacon.Peer"), false)
	add("sarwin.Transfers", find("sarwin.Transfers", "sarwin", func(t types.Type) bool { return named(deref(elem(t)), "sarwin", "Transfer") }), e.typ("sarwin.Transfer"), false)
	add("trans.Transfers", find("trans.Transfers", "trans", func(t types.Type) bool { return named(deref(elem(t)), "trans", "Transfer") }), e.typ("trans.Transfer"), false)
	add("sarwin.sessionid", find("sarwin.sessionid", "sarwin", func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint32
	}), nil, false)
	add("sarflags.Cliflag", find("sarflags.Cliflag", "sarflags", func(t types.Type) bool { return named(deref(t), "sarflags", "Cliflags") }), nil, true)
	for _, t := range r {
		// entries held by value live in the table itself
		el := elem(t.g.Type().(*types.Pointer).Elem())
		if _, ok := el.Underlying().(*types.Pointer); !ok {
			t.entry = nil
		}
	}
	return r
}

func (c *Ctx) lockAnalysis() *lockAn {
	a := &lockAn{c: c, tables: c.sharedTables(), memo: map[string]*lsum{}, active: map[string]bool{}, acc: map[string]*laccess{},
		faults: map[string]*Finding{}, edges: map[string]string{}, locks: map[string]int{}, rootEx: map[string]bool{},
		funcs: map[*ssa.Function]bool{}, acq: map[*ssa.Function]map[string]bool{}, waits: map[string]lwait{}, wstores: map[*ssa.Global]map[*ssa.Function]bool{}}
	a.run()
	for f := range a.funcs {
		c.e.funcsSeen[f.String()] = true
	}
	c.notes = append(c.notes, fmt.Sprintf("%d function contexts, %d operations analysed as roots, %d accesses to tables, %d locks.", a.contexts, len(a.rootEx), len(a.acc), len(a.locks)))
	return a
}

func overlap(a, b string) bool {
	if a == "*" || b == "*" {
		return true
	}
	return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".")
}

func checkC13(c *Ctx) {
	a := c.lockAnalysis()
	for _, f := range a.faults {
		if f.Rule == "escape" || f.Rule == "undecided" {
			c.fail(f.Rule, f.Construct, f.Pos, f.Msg)
		}
	}
	var keys []string
	for k := range a.acc {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	type tinfo struct {
		acc     []*laccess
		written func(string) bool
		count   map[string]int
		n       int
	}
	infos := make([]tinfo, len(a.tables))
	for t, tb := range a.tables {
		var acc []*laccess
		for _, k := range keys {
			if x := a.acc[k]; x.table == t && x.held[startupLock] == 0 {
				acc = append(acc, x)
			}
		}
		// what changes after start-up
		written := func(p string) bool {
			for _, x := range acc {
				if !x.write {
					continue
				}
				e1, e2 := strings.HasPrefix(p, "entry:"), strings.HasPrefix(x.path, "entry:")
				if e1 != e2 {
					continue
				}
				if e1 {
					if overlap(p[6:], x.path[6:]) {
						return true
					}
					continue
				}
				if !tb.perFld || overlapTop(p, x.path) {
					return true
				}
			}
			return false
		}
		// reading the variable of a table that is only filled in at start-up
		count := map[string]int{}
		n := 0
		for _, x := range acc {
			if !written(x.path) {
				continue
			}
			n++
			for l := range x.held {
				if !strings.HasPrefix(l, "local:") {
					count[l]++
				}
			}
		}
		infos[t] = tinfo{acc, written, count, n}
	}
	// the lock of a table is the one held most; a lock that is needed for
	// another table is only chosen where no other will do
	best := func(m map[string]int) []string {
		var r []string
		for l, k := range m {
			if len(r) > 0 && k < m[r[0]] {
				continue
			}
			if len(r) > 0 && k > m[r[0]] {
				r = nil
			}
			r = append(r, l)
		}
		sort.Strings(r)
		return r
	}
	taken := map[string]bool{}
	for _, in := range infos {
		if b := best(in.count); len(b) == 1 {
			taken[b[0]] = true
		}
	}
	for t, tb := range a.tables {
		acc, written, count, n := infos[t].acc, infos[t].written, infos[t].count, infos[t].n
		guard := ""
		for _, l := range best(count) {
			if guard == "" || taken[guard] && !taken[l] {
				guard = l
			}
		}
		if n > 0 {
			c.ok("guarded", tb.name, guard != "", "no lock is held at any access")
		}
		c.notes = append(c.notes, fmt.Sprintf("%s: %d accesses, guarded by %s.", tb.name, n, guard))
		for _, x := range acc {
			what := "read"
			if x.write {
				what = "written"
			}
			con := shortFn(x.fn) + "/" + tb.name
			if !written(x.path) {
				c.ok("constant", con, true, "")
				continue
			}
			m := x.held[guard]
			if guard == "" {
				m = 0
			}
			if m == 0 || x.write && m != 'W' {
				c.oblig++
				c.rules["guarded"]++
				p := ""
				if x.path != "" && x.path != "*" {
					p = " (" + x.path + ")"
				}
				c.fail("guarded", con, c.e.pos(x.pos), fmt.Sprintf("%s%s is %s without holding %s", tb.name, p, what, guard))
				continue
			}
			c.ok("guarded", con, true, "")
		}
	}
	// a reference handed out of an operation
	for k, s := range a.memo {
		name := k[:strings.Index(k, "@")]
		if !a.rootEx[name] {
			continue
		}
		for _, v := range s.res {
			for t, tb := range a.tables {
				if tb.perFld {
					continue
				}
				c.ok("handed-out", strings.ReplaceAll(name, modPath+"/", "")+"/"+tb.name, v.bits&shift(t, refD) == 0, "returns a reference into %s", tb.name)
			}
		}
	}
}

// overlapTop compares field paths of the settings; "" is the variable itself.
func overlapTop(a, b string) bool {
	if a == "" || b == "" {
		return a == b
	}
	return overlap(a, b)
}

func checkC14(c *Ctx) {
	a := c.lockAnalysis()
	var ks []string
	for k := range a.faults {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := a.faults[k]
		if f.Rule != "escape" {
			c.fail(f.Rule, f.Construct, f.Pos, f.Msg)
		}
	}
	c.oblig += a.ops
	c.rules["lock-operation"] += a.ops
	for r := range a.rootEx {
		c.ok("released", strings.ReplaceAll(r, modPath+"/", ""), true, "")
	}
	c.ok("locks", "repository", len(a.locks) > 0, "no lock operation was found")
	// lock order
	next := map[string][]string{}
	var es []string
	for e := range a.edges {
		es = append(es, e)
	}
	sort.Strings(es)
	for _, e := range es {
		p := strings.SplitN(e, " -> ", 2)
		next[p[0]] = append(next[p[0]], p[1])
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var dfs func(x string) bool
		dfs = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range next[x] {
				if dfs(y) {
					return true
				}
			}
			return false
		}
		return dfs(from)
	}
	for _, e := range es {
		p := strings.SplitN(e, " -> ", 2)
		c.oblig++
		c.rules["order"]++
		if reach(p[1], p[0]) {
			c.fail("order", e, a.edges[e], "these two locks are also taken in the opposite order (one order at "+a.edges[e]+")")
		}
	}
	c.notes = append(c.notes, "Lock order: "+strings.Join(es, "; ")+".")
}
