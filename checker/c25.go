package main

// C25: operator settings hold legal values, and a command changes its own.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C25"] = &checkDef{run: checkC25, min: 300,
		rule: "Abstract interpretation of the dispatcher and of the activity it starts over each documented choice of each setting, over an unknown number and over an unknown line, with every stored setting unknown: the places of the settings that differ afterwards are those of the setting the command is named for, the value is the one the argument names, is an option of the flag in the tables, and is stored for no other argument. Every store to the settings in the program is in the loading of the configuration, in a copy, or in an analysed command. The flag string of every frame type from the stored defaults is followed to the constructor, one setting varied at a time."}
}

// the settings and what each documented choice of their commands stores
type settingT struct {
	leaves []string
	choice map[string]map[string]string // argument -> place -> value; "" = any legal
	number map[string]string            // words before the number -> place
}

func yesno(k string) map[string]map[string]string {
	return map[string]map[string]string{"yes": {k: "yes"}, "no": {k: "no"}}
}

func onoff(k string) map[string]map[string]string {
	return map[string]map[string]string{"on": {k: "yes"}, "off": {k: "no"}, "capable": {k: "capable"}}
}

func stamp(n string) map[string]string {
	return map[string]string{"Global.reqtstamp": "yes", "Timestamp": n}
}

var settings = map[string]*settingT{
	"checksum": {leaves: []string{"Global.csumtype"}, choice: map[string]map[string]string{
		"off": {"Global.csumtype": "none"}, "none": {"Global.csumtype": "none"}, "crc32": {"Global.csumtype": "crc32"},
		"md5": {"Global.csumtype": "md5"}, "sha1": {"Global.csumtype": "sha1"}}},
	"descriptor": {leaves: []string{"Global.descriptor"}, choice: map[string]map[string]string{
		"auto": {"Global.descriptor": ""}, "d16": {"Global.descriptor": "d16"}, "d32": {"Global.descriptor": "d32"}, "d64": {"Global.descriptor": "d64"}}},
	"freespace": {leaves: []string{"Global.freespace"}, choice: yesno("Global.freespace")},
	"reqtstamp": {leaves: []string{"Global.reqtstamp"}, choice: yesno("Global.reqtstamp")},
	"stream":    {leaves: []string{"Global.stream"}, choice: yesno("Global.stream")},
	"rxwilling": {leaves: []string{"Global.rxwilling"}, choice: onoff("Global.rxwilling")},
	"txwilling": {leaves: []string{"Global.txwilling"}, choice: onoff("Global.txwilling")},
	"timestamp": {leaves: []string{"Global.reqtstamp", "Timestamp"}, choice: map[string]map[string]string{
		"off": {"Global.reqtstamp": "no"}, "32": stamp("posix32"), "64": stamp("posix64"), "32_32": stamp("posix32_32"),
		"64_32": stamp("posix64_32"), "32_y2k": stamp("epoch2000_32"), "local": stamp("localinterp")}},
	"timezone": {leaves: []string{"Timezone"}, choice: map[string]map[string]string{"utc": {"Timezone": "utc"}, "local": {"Timezone": "local"}}},
	"bcount":   {leaves: []string{"Bcount"}, number: map[string]string{"": "Bcount"}},
	"interval": {leaves: []string{"Timeout.Binterval"}, number: map[string]string{"": "Timeout.Binterval"}, choice: map[string]map[string]string{"off": {"Timeout.Binterval": "0"}}},
	"timeout": {leaves: []string{"Timeout.Metadata", "Timeout.Request", "Timeout.Status", "Timeout.Transfer", "Timeout.Datacounter"},
		number: map[string]string{"metadata": "Timeout.Metadata", "request": "Timeout.Request", "status": "Timeout.Status", "transfer": "Timeout.Transfer", "datacounter": "Timeout.Datacounter"}},
}

// leaves: the places of the settings.
func (c *Ctx) settingLeaves(st *State, id int) map[string]Val {
	r := map[string]Val{}
	t := c.e.typ("sarflags.Cliflags")
	var walk func(pre string, t types.Type, v Val)
	walk = func(pre string, t types.Type, v Val) {
		v = c.e.expand(v)
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if sv, ok := v.(*StructV); ok {
				for i := 0; i < u.NumFields(); i++ {
					n := u.Field(i).Name()
					if pre != "" {
						n = pre + "." + n
					}
					walk(n, u.Field(i).Type(), sv.F[i])
				}
				return
			}
		case *types.Map:
			if m, ok := v.(*MapV); ok && m.Obj != 0 {
				mo := st.obj(m.Obj).M
				if mo.open {
					r[pre+".*"] = &OpaqueV{Key: freshKey("open")}
					return
				}
				for k, en := range mo.ent {
					r[pre+"."+strings.Trim(k, "\"")] = en.v
				}
				return
			}
		}
		r[pre] = v
	}
	walk("", t, st.obj(id).V)
	return r
}

// changedLeaves: the places whose value differs, with the new value.
func (c *Ctx) changedLeaves(pre, post *State, id int) map[string]Val {
	a, b := c.settingLeaves(pre, id), c.settingLeaves(post, id)
	r := map[string]Val{}
	for k, v := range b {
		w, ok := a[k]
		if !ok || valKey(v) != valKey(w) && !post.valEqual(v, w) {
			r[k] = v
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			r[k] = nil
		}
	}
	return r
}

func leafNames(m map[string]Val) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// legal: the value is one the tables have for the place.
func (c *Ctx) legal(place, val string) bool {
	switch {
	case place == "Timestamp":
		_, ok := c.tables.Timestamp.Options[val]
		return ok
	case place == "Timezone":
		return val == "utc" || val == "local"
	case strings.HasPrefix(place, "Global."):
		f, ok := c.tables.Flags[strings.TrimPrefix(place, "Global.")]
		if !ok {
			return false
		}
		_, ok = f.Options[val]
		return ok
	}
	return true
}

func inList(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// knownTexts: the constants some text of the path that is no setting is known to be.
func knownTexts(st *State) map[string]bool {
	r := map[string]bool{}
	for src, v := range st.sknown {
		if !strings.HasPrefix(src.key, "set") {
			r[v] = true
		}
	}
	return r
}

// numberRead: the value is the number an argument stands for, as it is.
func numberRead(st *State, v Val) bool {
	iv, ok := v.(*IntV)
	if !ok {
		return false
	}
	l := st.norm(iv.L)
	if len(l.t) != 1 || l.c.Sign() != 0 || l.t[0].c.Cmp(bigOne) != 0 {
		return false
	}
	k := l.t[0].a.key
	return strings.Contains(k, "strconv.Atoi") || strings.Contains(k, "strconv.ParseUint") || strings.Contains(k, "strconv.ParseInt")
}

func checkC25(c *Ctx) {
	c.e.onRec = c.recursion()
	defer func() { c.e.onRec = nil }()
	// what the shipped configuration starts with
	for _, f := range defaultFlags {
		v, ok := c.tables.Raw[f].(string)
		c.ok("start", f, ok && c.legal("Global."+f, v), "the default of %s in the shipped configuration is not one of its options", f)
	}
	words := sortedKeys(settings)
	by := map[string][]string{}
	for _, w := range sortedKeys(c.tables.Commands) {
		st, _ := c.settingsState(0)
		if st == nil {
			return
		}
		for _, p := range c.command("the line "+w, st, strC(w)) {
			if p.cmd != nil {
				k := c.handlerKey(p.cmd)
				if !inList(w, by[k]) {
					by[k] = append(by[k], w)
				}
			}
		}
	}
	// each documented choice stores its value and nothing else changes
	for _, w := range words {
		s := settings[w]
		if !c.ok("command", w, c.tables.Commands[w].Usage != "", "the setting %s has no command", w) {
			continue
		}
		for _, a := range sortedKeys(s.choice) {
			c.stores(w, w+" "+a, s.choice[a])
		}
		for _, a := range sortedKeys(s.number) {
			line, place := w, s.number[a]
			if a != "" {
				line += " " + a
			}
			c.stores(w, line+" 37", map[string]string{place: "37"})
			c.stores(w, line+" 100000", map[string]string{place: "100000"})
			c.stores(w, line+" -1", nil)
			c.stores(w, line+" 1x", nil)
		}
	}
	// any line
	n := 0
	st, id := c.settingsState(1)
	line := c.e.sym(types.Typ[types.String], "line")
	c.wide = func(v *Event) bool {
		for _, w := range by[c.handlerKey(v)] {
			if settings[w] != nil {
				return true
			}
		}
		return false
	}
	for _, p := range c.command("an unknown line", st, line) {
		if p.cmd == nil {
			for _, k := range leafNames(c.changedLeaves(st, p.o.st, id)) {
				c.ok("own", "dispatcher/"+k, false, "a line that starts no command changes %s", k)
			}
			continue
		}
		n++
		h := shortName(p.cmd.Fn.Fn.String())
		ws := by[c.handlerKey(p.cmd)]
		ch := c.changedLeaves(p.pre, p.o.st, id)
		c.oblig++
		for _, k := range leafNames(ch) {
			own := false
			for _, w := range ws {
				if s := settings[w]; s != nil && inList(k, s.leaves) {
					own = true
					c.storedFor(w, h, k, ch[k], p)
				}
			}
			c.ok("own", h+"/"+k, own, "the command %s can change %s", strings.Join(ws, "/"), k)
		}
	}
	c.wide = nil
	c.ok("lines", "any", n > 30, "an unknown line starts only %d commands", n)
	c.settingWriters()
	c.flagStrings()
}

// stores: the line stores exactly these values.
func (c *Ctx) stores(w, line string, want map[string]string) {
	st, id := c.settingsState(0)
	n := 0
	c.wide = func(*Event) bool { return true }
	defer func() { c.wide = nil }()
	for _, p := range c.command("the line "+line, st, strC(line)) {
		if p.o.exit != "" {
			continue
		}
		n++
		post := c.settingLeaves(p.o.st, id)
		for _, k := range sortedKeys(want) {
			v, exp := post[k], want[k]
			got, isConst := constStrOf(p.o.st, v)
			if iv, ok := v.(*IntV); ok {
				l := p.o.st.norm(iv.L)
				if isConst = l.isConst(); isConst {
					got = l.c.String()
				}
			}
			if exp == "" {
				c.ok("stores", line, isConst && c.legal(k, got), "%q leaves %s with %s", line, k, got)
				continue
			}
			if k == "Timeout.Datacounter" && exp == "0" {
				exp = "100"
			}
			c.ok("stores", line, isConst && got == exp, "%q leaves %s with %q instead of %q", line, k, got, exp)
			c.ok("legal", line, !isConst || c.legal(k, got), "%q stores %q, which %s does not have", line, got, k)
		}
		for _, k := range leafNames(c.changedLeaves(st, p.o.st, id)) {
			_, ok := want[k]
			c.ok("own", line+"/"+k, ok, "%q changes %s", line, k)
		}
	}
	c.ok("stores", line+"/path", n > 0, "%q leads nowhere", line)
}

// storedFor: a value stored for an unknown line is legal and is what the
// arguments name.
func (c *Ctx) storedFor(w, h, k string, v Val, p *cmdPath) {
	s := settings[w]
	texts := knownTexts(p.o.st)
	if iv, ok := v.(*IntV); ok {
		l := p.o.st.norm(iv.L)
		if l.isConst() { // a default
			c.ok("legal", h+"/"+k, l.c.Sign() >= 0, "%s can become %s", k, l.c)
		} else {
			c.ok("number", h+"/"+k, numberRead(p.o.st, v), "%s is not the number the operator gave (%s)", k, valKey(v))
			c.ok("legal", h+"/"+k, p.o.st.proveGE(iv.L), "%s can become negative", k)
			for a, place := range s.number {
				if place == k && a != "" {
					c.ok("named", h+"/"+k, texts[a], "%s can change although the argument is not %s", k, a)
				}
			}
		}
		return
	}
	got, ok := constStrOf(p.o.st, v)
	if !c.ok("legal", h+"/"+k, ok && c.legal(k, got), "%s can become %q, which is not one of its options", k, got) {
		return
	}
	named := false
	for a, vals := range s.choice {
		if x, ok := vals[k]; ok && texts[a] && (x == "" || x == got) {
			named = true
		}
	}
	c.ok("named", h+"/"+k, named, "%s can become %s although the arguments do not name it", k, got)
}

// settingWriters: nothing else stores to the settings.
func (c *Ctx) settingWriters() {
	isSetting := func(t types.Type) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/sarflags" && (n.Obj().Name() == "Cliflags" || n.Obj().Name() == "Timeouts")
	}
	// where an address of a place of the settings comes from
	var root func(v ssa.Value, d int) (ssa.Value, string)
	root = func(v ssa.Value, d int) (ssa.Value, string) {
		if d > 8 {
			return nil, ""
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if isSetting(x.X.Type()) {
				r, n := root(x.X, d+1)
				f := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
				if n != "" {
					f = n + "." + f
				}
				if r == nil {
					r = x.X
				}
				return r, f
			}
		case *ssa.UnOp:
			if _, ok := x.X.(*ssa.FieldAddr); ok {
				return root(x.X, d+1)
			}
		}
		return nil, ""
	}
	var known func(f *ssa.Function, d int) bool
	known = func(f *ssa.Function, d int) bool {
		if c.e.funcsSeen[f.String()] || isMethodOf(f, "ReadConfig") || f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Name() == "main" {
			return true
		}
		if f.Name() == "init" && f.Signature.Recv() == nil {
			return true
		}
		cs := c.callersOf(f)
		for _, g := range cs {
			if d > 3 || !known(outermost(g), d+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	n := 0
	for _, p := range c.repoPackages() {
		for _, f := range funcsOf(c.e.prog, p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var at ssa.Value
					var what string
					switch x := in.(type) {
					case *ssa.Store:
						at, what = root(x.Addr, 0)
						if at == nil && isSetting(x.Addr.Type()) {
							at, what = x.Addr, "all"
						}
					case *ssa.MapUpdate:
						at, what = root(x.Map, 0)
					}
					if at == nil || ownObject(at, 0) {
						continue
					}
					n++
					c.ok("writers", fmt.Sprintf("%s/%s", shortName(outermost(f).String()), what), known(f, 0) || known(outermost(f), 0),
						"%s stores to %s and is no analysed command", shortName(f.String()), what)
				}
			}
		}
	}
	c.ok("writers", "all", n > 10, "only %d stores to the settings were found", n)
}

func isMethodOf(f *ssa.Function, name string) bool {
	return f.Name() == name && f.Signature.Recv() != nil
}

// ownObject: an object the function itself made.
func ownObject(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return ownObject(x.X, d+1)
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok { // a local variable: everything stored there is fresh
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && !ownObject(s.Val, d+1) {
					return false
				}
			}
			return true
		}
	case *ssa.MakeMap:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownObject(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// flagStrings: the flag string of every frame type built from stored defaults
// names the settings of that frame and its constructor accepts it.
func (c *Ctx) flagStrings() {
	defer c.fileStubs()()
	for _, ct := range ctors {
		sets := c.flagSets(ct)
		find := func(text string) *flagSet {
			for i := range sets {
				if sets[i].text == text {
					return &sets[i]
				}
			}
			return nil
		}
		frame := c.tables.Frameflags[ct.f.name]
		try := func(what string, vals map[string]string) {
			st, id := c.settingsState(0)
			for f, v := range vals {
				c.setSetting(st, id, f, strC(v))
			}
			con := ct.f.name + " with " + what
			outs := c.run("flags of "+con, st, "sarflags.Setglobal", strC(ct.f.name), c.settingsPtr(st))
			c.ok("flags", con+"/path", len(outs) > 0, "never returns")
			seen := map[string]bool{}
			for _, o := range outs {
				if !c.ok("flags", con, o.exit == "" && len(o.ret) == 1, "ends with %s", o.exit) {
					continue
				}
				txt, ok := constStrOf(o.st, o.ret[0])
				if !c.ok("undecided", con, ok, "the flag string is not known") || seen[txt] {
					continue
				}
				seen[txt] = true
				var fs []flagSet
				good := true
				got := map[string]bool{}
				for _, part := range strings.Split(txt, ",") {
					f := find(part)
					if !c.ok("flags", con+"/"+part, f != nil, "the flag string %q of a %s frame has %q, which is no flag of the frame with a legal option", txt, ct.f.name, part) {
						good = false
						continue
					}
					n := strings.SplitN(part, "=", 2)
					c.ok("flags", con+"/"+part+"/once", !got[n[0]], "the flag %s is given twice", n[0])
					got[n[0]] = true
					c.ok("flags", con+"/"+part+"/value", n[1] == vals[n[0]], "the flag %s is given as %s although the setting is %s", n[0], n[1], vals[n[0]])
					fs = append(fs, *f)
				}
				for f := range vals {
					if inList(f, frame) {
						c.ok("flags", con+"/"+f+"/given", got[f], "the setting %s is not part of the flag string %q of a %s frame", f, txt, ct.f.name)
					}
				}
				if !good {
					continue
				}
				for _, b := range ct.base {
					if f := find(b); f != nil && !got[strings.SplitN(b, "=", 2)[0]] {
						fs = append(fs, *f)
					}
				}
				c.ctorNew(ct, fs, ",")
			}
		}
		def := map[string]string{}
		for _, f := range defaultFlags {
			def[f], _ = c.tables.Raw[f].(string)
		}
		try("the defaults", def)
		for _, f := range defaultFlags {
			if !inList(f, frame) {
				continue
			}
			for _, o := range sortedKeys(c.tables.Flags[f].Options) {
				if o == def[f] {
					continue
				}
				v := map[string]string{}
				for k, x := range def {
					v[k] = x
				}
				v[f] = o
				try(f+"="+o, v)
			}
		}
	}
}

// setSetting gives a stored flag a value.
func (c *Ctx) setSetting(st *State, id int, f string, v Val) {
	t := c.e.typ("sarflags.Cliflags")
	sv := c.e.expand(st.obj(id).V).(*StructV)
	m := c.e.expand(sv.F[fieldIdx(t, "Global")]).(*MapV)
	o := *st.obj(m.Obj)
	o.M = o.M.clone()
	k := fmt.Sprintf("%q", f)
	if _, ok := o.M.ent[k]; !ok {
		o.M.keys = append(o.M.keys, k)
	}
	o.M.ent[k] = MapEnt{k: strC(f), v: v}
	st.setObj(&o)
}

// settingsPtr: the node's settings.
func (c *Ctx) settingsPtr(st *State) Val {
	return st.obj(c.e.global(c.e.globalVar("sarflags.Cliflag"))).V
}
