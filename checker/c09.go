package main

// C09: copies are complete and do not alias.

import (
	"fmt"
	"go/types"
)

func init() {
	checks["C09"] = &checkDef{run: checkC09, min: 60,
		rule: "Abstract interpretation of every value, copy and snapshot operation on an object whose fields are all unknown: every field of the result, nested ones and unexported ones included, is proved equal to the original's, the packet's address to the address given. Frames built from the caller's or the network's bytes are checked not to refer to the array they came from, snapshots not to refer to the original's maps."}
}

// deepSame: every field equal; the path of the first difference otherwise.
func (c *Ctx) deepSame(st *State, a, b Val, t types.Type, path string) string {
	a, b = c.e.expand(a), c.e.expand(b)
	if s, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		x, o1 := a.(*StructV)
		y, o2 := b.(*StructV)
		if !o1 || !o2 || len(x.F) != len(y.F) || len(x.F) != s.NumFields() {
			return path
		}
		for i := range x.F {
			if d := c.deepSame(st, x.F[i], y.F[i], s.Field(i).Type(), path+"."+s.Field(i).Name()); d != "" {
				return d
			}
		}
		return ""
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		x, o1 := a.(*MapV)
		y, o2 := b.(*MapV)
		if !o1 || !o2 || x.Obj == 0 || y.Obj == 0 {
			return path
		}
		p, q := st.obj(x.Obj), st.obj(y.Obj)
		if p == nil || q == nil || p.M == nil || q.M == nil || p.M.open || q.M.open || len(p.M.ent) != len(q.M.ent) {
			return path
		}
		for k, e := range p.M.ent {
			f, ok := q.M.ent[k]
			if !ok {
				return path + "[" + k + "]"
			}
			if d := c.deepSame(st, e.v, f.v, m.Elem(), path+"["+k+"]"); d != "" {
				return d
			}
		}
		return ""
	}
	if valKey(a) == valKey(b) || c.same(st, a, b, t) || st.valEqual(a, b) {
		return ""
	}
	return path
}

// arrays lists the backing arrays and maps a value refers to, with the path.
func (c *Ctx) arrays(st *State, v Val, t types.Type, path string, f func(id int, path string)) {
	v = c.e.expand(v)
	switch x := v.(type) {
	case *StructV:
		s, _ := t.Underlying().(*types.Struct)
		for i := range x.F {
			if s != nil && i < s.NumFields() {
				c.arrays(st, x.F[i], s.Field(i).Type(), path+"."+s.Field(i).Name(), f)
			}
		}
	case *SliceV:
		if x.Arr != 0 && !st.proveEQ(x.Cap, linC(0)) {
			f(x.Arr, path)
		}
	case *MapV:
		if x.Obj != 0 {
			f(x.Obj, path)
		}
	}
}

func checkC09(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	for _, f := range frameTypes[:5] {
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, "frame")
		t := c.e.typ(f.typ)
		fn := c.e.fn(f.typ + ".Val")
		if t == nil || fn == nil {
			c.fail("anchor", f.typ+".Val", "", "not found")
			continue
		}
		at := fn.Params[1].Type().Underlying().(*types.Pointer).Elem()
		ap := c.alloc(st, at, c.e.sym(at, "peer"), "peer")
		orig, addr := c.e.load(st, p, t), c.e.load(st, ap, at)
		outs := c.method(st, f.typ+".Val", f.typ+".Val", p, ap)
		n := 0
		for _, o := range outs {
			if !c.ok("returns", f.typ+".Val", o.exit == "" && len(o.ret) == 1, "does not return") {
				continue
			}
			n++
			pt := fn.Signature.Results().At(0).Type()
			info, got := fieldOf(o.ret[0], pt, "Info"), fieldOf(o.ret[0], pt, "Addr")
			if info == nil || got == nil {
				c.fail("anchor", f.typ+".Val", "", "the packet has no Addr and Info")
				continue
			}
			c.complete(o.st, f.typ+".Val", orig, info, t)
			d := c.deepSame(o.st, addr, got, at, "Addr")
			c.ok("address", f.typ+".Val", d == "", "the address handed on differs from the one given at %s", d)
			c.ok("unchanged", f.typ+".Val", len(changed(st, o.st)) == 0, "changes %v", changed(st, o.st))
		}
		c.ok("returns", f.typ+".Val", n > 0, "never returns")
	}
	// same-type copies
	for _, k := range []struct{ typ, fn string }{{"status.Status", "Values"}, {"dirent.DirEnt", "Copy"}, {"dirent.DirEnt", "Value"}} {
		st := c.st0.clone()
		p := c.symAlloc(st, k.typ, "orig")
		t := c.e.typ(k.typ)
		if t == nil {
			continue
		}
		orig := c.e.load(st, p, t)
		name := k.typ + "." + k.fn
		n := 0
		for _, o := range c.method(st, name, name, p) {
			if !c.ok("returns", name, o.exit == "" && len(o.ret) > 0, "does not return") {
				continue
			}
			n++
			r := o.ret[0]
			if rp, ok := r.(*PtrV); ok {
				c.ok("alias", name, rp.Obj != p.Obj, "the copy is the original")
				r = c.e.load(o.st, rp, t)
			}
			c.complete(o.st, name, orig, r, t)
			c.ok("unchanged", name, len(changed(st, o.st)) == 0, "changes %v", changed(st, o.st))
		}
		c.ok("returns", name, n > 0, "never returns")
	}
	c.snapshot()
	c.noAlias()
}

func (c *Ctx) complete(st *State, name string, a, b Val, t types.Type) {
	s := t.Underlying().(*types.Struct)
	x, y := c.e.expand(a).(*StructV), c.e.expand(b).(*StructV)
	for i := range x.F {
		d := c.deepSame(st, x.F[i], y.F[i], s.Field(i).Type(), s.Field(i).Name())
		c.ok("complete", name+"."+s.Field(i).Name(), d == "", "%s is not delivered unchanged", d)
	}
}

// snapshot: the configuration copy.
func (c *Ctx) snapshot() {
	name := "sarflags.Cliflags.CopyCliflags"
	t := c.e.typ("sarflags.Cliflags")
	gi := fieldIdx(t, "Global")
	if t == nil || gi < 0 {
		c.fail("anchor", name, "", "sarflags.Cliflags.Global not found")
		return
	}
	for _, keys := range [][]string{{"descriptor"}, {"a", "b"}, sortedKeys(c.tables.Flags)} {
		for _, rev := range []bool{false, true} {
			c.e.mapRev = rev
			st := c.st0.clone()
			m := st.newObj('m', t.Underlying().(*types.Struct).Field(gi).Type(), "Global")
			m.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, T: m.T.Underlying().(*types.Map)}
			for _, k := range keys {
				kk, _ := mapKey(st, strC(k))
				m.M.set(kk, MapEnt{k: strC(k), v: c.e.sym(types.Typ[types.String], "global."+k)})
			}
			st.setObj(m)
			p := c.symAlloc(st, "sarflags.Cliflags", "conf")
			c.setField(st, p, "Global", &MapV{Obj: m.id})
			orig := c.e.load(st, p, t)
			n := 0
			for _, o := range c.method(st, fmt.Sprintf("%s %d keys", name, len(keys)), name, p) {
				if !c.ok("returns", name, o.exit == "" && len(o.ret) == 2, "does not return") || isErr(o.st, o.ret[1]) {
					continue
				}
				n++
				rp, ok := o.ret[0].(*PtrV)
				if !c.ok("alias", name, ok && rp.Obj != p.Obj && rp.Obj != 0, "the snapshot is the original") {
					continue
				}
				r := c.e.load(o.st, rp, t)
				c.complete(o.st, name, orig, r, t)
				mine := map[int]string{}
				c.arrays(o.st, orig, t, "", func(id int, p string) { mine[id] = p })
				c.arrays(o.st, r, t, "", func(id int, p string) {
					c.ok("alias", name+p, mine[id] == "", "the snapshot shares %s with the original", p)
				})
				c.ok("unchanged", name, len(changed(st, o.st)) == 0, "changes %v", changed(st, o.st))
			}
			c.ok("returns", name, n > 0, "never succeeds")
		}
	}
	c.e.mapRev = false
}

// noAlias: frames own their bytes.
func (c *Ctx) noAlias() {
	for _, f := range frameTypes[:6] {
		t := c.e.typ(f.typ)
		st := c.st0.clone()
		p := c.symAlloc(st, f.typ, "rx")
		b := symBytes(c.e, "wire")
		for _, o := range c.method(st, f.dec, f.dec, p, b) {
			if o.exit != "" || isErr(o.st, o.ret[0]) {
				continue
			}
			c.arrays(o.st, c.e.load(o.st, p, t), t, "", func(id int, path string) {
				c.ok("own-bytes", f.dec+path, id != b.Arr, "%s refers to the received buffer", path)
			})
		}
	}
	defer c.fileStubs()()
	for _, ct := range ctors {
		t, it := c.e.typ(ct.f.typ), c.e.typ(ct.info)
		flags := "descriptor=d32"
		for _, b := range ct.base {
			flags += "," + b
		}
		for _, m := range []string{"New", "Make"} {
			st, p, info, _ := c.ctorState(ct, "")
			var a Val = strC(flags)
			if m == "Make" {
				a = &IntV{symInt("header", 32)}
			}
			mine := map[int]string{}
			ip := info.(*IfaceV).V.(*PtrV)
			c.arrays(st, c.e.load(st, ip, it), it, "", func(id int, path string) { mine[id] = path })
			name := ct.f.typ + "." + m
			for _, o := range c.method(st, name, name, p, a, info) {
				if o.exit != "" || isErr(o.st, o.ret[0]) {
					continue
				}
				c.arrays(o.st, c.e.load(o.st, p, t), t, "", func(id int, path string) {
					c.ok("own-bytes", name+path, mine[id] == "", "%s refers to the caller's %s", path, mine[id])
				})
			}
		}
	}
}
