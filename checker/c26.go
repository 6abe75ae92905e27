package main

// C26: the configuration file is loaded faithfully.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C26"] = &checkDef{run: checkC26, min: 400, crash: true,
		rule: "Abstract interpretation of ReadConfig over configurations in which every setting, timeout, help text, field position, width, option value, field list entry is an unknown value of its own: every place of the settings and tables is compared with the unknown of the key it belongs to. Each default flag is in turn an unknown text: loading fails exactly when it is not an option of the flag. Unreadable and malformed files give an error."}
}

// settings: the place each top level key belongs to.
var settingOf = map[string]string{"v4multicast": "V4Multicast", "v6multicast": "V6Multicast", "udpport": "Port", "timestamp": "Timestamp", "timezone": "Timezone",
	"sardir": "Sardir", "prompt": "Prompt", "ppad": "Ppad", "buffersize": "Buffersize", "bcount": "Bcount"}
var defaultFlags = []string{"csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite", "descriptor"}
var timeoutOf = map[string]string{"metadata": "Metadata", "request": "Request", "status": "Status", "transfer": "Transfer", "binterval": "Binterval", "datacounter": "Datacounter"}

type leafT struct {
	text bool
	bits int
}

// symConfig replaces the leaves of the shipped configuration by unknowns, and
// adds an entry of a made up name to every table.
func symConfig(raw map[string]interface{}, leaves map[string]leafT) map[string]interface{} {
	bitsFor := func(path string) int {
		switch {
		case strings.HasPrefix(path, "timestamps"):
			return 8
		case strings.HasPrefix(path, "direntflags"):
			return 16
		case strings.HasPrefix(path, "flags"):
			return 32
		}
		return 31
	}
	def := map[string]bool{}
	for _, f := range defaultFlags {
		def[f] = true
	}
	var walk func(path string, v interface{}) interface{}
	walk = func(path string, v interface{}) interface{} {
		switch x := v.(type) {
		case string:
			if def[path] {
				return x
			}
			leaves[path] = leafT{text: true}
			return "\x01sym:" + path
		case float64:
			leaves[path] = leafT{bits: bitsFor(path)}
			return fmt.Sprintf("\x01num:%d:%s", bitsFor(path), path)
		case map[string]interface{}:
			r := map[string]interface{}{}
			for k, y := range x {
				r[k] = walk(path+"/"+k, y)
			}
			return r
		case []interface{}:
			var r []interface{}
			for i, y := range x {
				r = append(r, walk(fmt.Sprintf("%s/%d", path, i), y))
			}
			return r
		}
		return v
	}
	r := map[string]interface{}{}
	for k, v := range raw {
		if m, ok := v.(map[string]interface{}); ok {
			n := map[string]interface{}{}
			for kk, vv := range m {
				n[kk] = vv
			}
			switch k {
			case "commands":
				n["zzz"] = map[string]interface{}{"usage": "u", "help": "h"}
			case "flags":
				n["zzz"] = map[string]interface{}{"frametypes": []interface{}{"a", "b"}, "len": 1.0, "msb": 2.0, "options": map[string]interface{}{"y1": 1.0, "y2": 0.0}}
			case "direntflags":
				n["zzz"] = map[string]interface{}{"len": 1.0, "msb": 2.0, "options": map[string]interface{}{"y1": 1.0, "y2": 0.0}}
			case "frameflags":
				n["zzz"] = []interface{}{"a", "b", "c"}
			case "timestamps":
				op := map[string]interface{}{"zzz": 9.0}
				if o, ok := m["options"].(map[string]interface{}); ok {
					for a, b := range o {
						op[a] = b
					}
				}
				n["options"] = op
			}
			v = n
		}
		r[k] = walk(k, v)
	}
	return r
}

// readConfig runs ReadConfig over zeroed settings; prep changes the decoded file.
func (c *Ctx) readConfig(scn string, file string, prep func(map[string]interface{}) interface{}) ([]*Outcome, int) {
	f := c.e.fn("sarflags.Cliflags.ReadConfig")
	if f == nil {
		c.fail("anchor", "sarflags.Cliflags.ReadConfig", "", "ReadConfig not found")
		return nil, 0
	}
	st, err := c.e.boot(false)
	if err != nil {
		c.fail("undecided", "initialisers", "", err.Error())
		return nil, 0
	}
	o := st.newObj('v', c.e.typ("sarflags.Cliflags"), "conf")
	o.V = zeroVal(o.T)
	st.setObj(o)
	c.e.jsonSub = func(v interface{}) interface{} {
		if m, ok := v.(map[string]interface{}); ok && prep != nil {
			return prep(m)
		}
		return v
	}
	defer func() { c.e.jsonSub = nil }()
	old1, old2 := c.e.maxIn, c.e.maxOut
	c.e.maxIn, c.e.maxOut = 400, 2000
	outs := c.runFn(scn, st, f, nil, &PtrV{Obj: o.id}, strC(file))
	c.e.maxIn, c.e.maxOut = old1, old2
	return outs, o.id
}

func checkC26(c *Ctx) {
	c.crash = true
	leaves := map[string]leafT{}
	outs, id := c.readConfig("ReadConfig of an unknown configuration", "saratoga.json", func(m map[string]interface{}) interface{} { return symConfig(m, leaves) })
	nOK := 0
	env := map[string]bool{}
	for _, o := range outs {
		if o.exit != "" || len(o.ret) != 1 {
			c.fail("outcome", "ReadConfig", "", "ReadConfig ends the process: "+o.exit)
			continue
		}
		if sureNil(o.st, o.ret[0]) {
			nOK++
			c.loadedAs(o.st, id, leaves, env)
		} else if !readErr(o) {
			c.fail("outcome", "ReadConfig", fnPos(c.e, c.e.fn("sarflags.Cliflags.ReadConfig")), "a configuration with legal defaults can be refused")
		}
	}
	c.ok("outcome", "ReadConfig", nOK > 0, "no successful outcome")
	c.ok("environment", "Sardir", env["file"] && env["env"], "the transfer directory is not taken from the environment when set and from the file otherwise (cases seen: %v)", env)
	c.notes = append(c.notes, fmt.Sprintf("%d unknown leaves of the configuration.", len(leaves)))
	// default flags
	for _, fl := range defaultFlags {
		fl := fl
		outs, id := c.readConfig("ReadConfig with unknown default "+fl, "saratoga.json", func(m map[string]interface{}) interface{} {
			r := map[string]interface{}{}
			for k, v := range m {
				r[k] = v
			}
			r[fl] = "\x01sym:" + fl
			return r
		})
		seen := map[string]bool{}
		ref := strSrc(mkSrc("json:"+fl, nil))
		bad := false
		for _, o := range outs {
			if len(o.ret) != 1 {
				continue
			}
			if sureNil(o.st, o.ret[0]) {
				g := c.globalFlag(o.st, id, fl)
				var opt string
				if g != nil {
					opt, _ = constStrOf(o.st, g)
				}
				_, legal := c.tables.Flags[fl].Options[opt]
				c.ok("legal", fl, g != nil && legal, "the configuration is accepted with the default flag %s holding %s, which need not be an option of the flag", fl, valKey(g))
				s, same := constStrOf(o.st, ref)
				c.ok("default", fl, same && s == opt || !same && g != nil && o.st.valEqual(g, ref), "the default flag %s holds %s, not the value in the file", fl, valKey(g))
				seen[opt] = true
				continue
			}
			if readErr(o) {
				continue
			}
			bad = true
			// a refusal: not one of the options
			if s, ok := constStrOf(o.st, ref); ok {
				_, legal := c.tables.Flags[fl].Options[s]
				c.ok("refusal", fl+"="+s, !legal, "the legal default %s=%s is refused", fl, s)
			}
			c.ok("reported", fl, isErr(o.st, o.ret[0]), "an illegal default does not give an error")
		}
		for _, opt := range sortedKeys(c.tables.Flags[fl].Options) {
			c.ok("accepted", fl+"="+opt, seen[opt], "the configuration is not accepted with the default flag %s=%s", fl, opt)
		}
		c.ok("refused", fl, bad, "no value of the default flag %s is refused", fl)
	}
	// malformed and unreadable files
	c.e.files["bad.json"] = "{\"udpport\": 7542, "
	defer delete(c.e.files, "bad.json")
	// values of the wrong type: the panic of a type assertion has to be
	// recovered, and turned into an error
	rc := c.e.fn("sarflags.Cliflags.ReadConfig")
	recovers := rc != nil && c.recovers(rc)
	within := map[string]bool{}
	if rc != nil {
		within[rc.String()] = true
		for f := range c.e.under(rc) {
			within[f.String()] = true
		}
	}
	c.caught = func(s *Site) bool { return recovers && s.Kind == "assert" && within[s.Fn] }
	defer func() { c.caught = nil }()
	for _, f := range []string{"bad.json", "unknown.json"} {
		outs, _ := c.readConfig("ReadConfig of "+f, f, nil)
		n := 0
		for _, o := range outs {
			if f == "unknown.json" && !readErr(o) {
				continue // contents not known
			}
			n++
			c.ok("malformed", f, o.exit == "" && len(o.ret) == 1 && isErr(o.st, o.ret[0]), "a file that cannot be read, or is not JSON, is not reported as an error")
		}
		c.ok("malformed", f+"/outcome", n > 0, "no outcome")
	}
}

// recovers: the function defers, before anything that can panic, a closure
// that recovers and sets the error result.
func (c *Ctx) recovers(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || f.Recover == nil {
		return false
	}
	// the error results: the cells loaded by the block run after recovering
	cells := map[ssa.Value]bool{}
	for _, in := range f.Recover.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && types.Identical(u.Type(), types.Universe.Lookup("error").Type()) {
			cells[u.X] = true
		}
	}
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.TypeAssert, *ssa.Call, *ssa.Panic:
			return false
		case *ssa.Defer:
			mc, ok := x.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g := mc.Fn.(*ssa.Function)
			st := c.st0.clone()
			cell := -1
			var bind []Val
			for i, b := range mc.Bindings {
				et := b.Type()
				if p, ok := et.(*types.Pointer); ok {
					et = p.Elem()
				}
				p := c.alloc(st, et, c.e.sym(et, fmt.Sprintf("bind%d", i)), "bind")
				if cells[b] {
					cell = p.Obj
				}
				bind = append(bind, p)
			}
			if cell < 0 {
				continue
			}
			c.e.recovered = &IfaceV{Sym: "panic"}
			old := c.crash
			c.crash = false
			outs := c.runFn("recovering from a panic in "+shortName(f.String()), st, g, bind)
			c.crash = old
			c.e.recovered = nil
			good := len(outs) > 0
			for _, o := range outs {
				good = good && o.exit == "" && isErr(o.st, o.st.obj(cell).V)
			}
			if good {
				return true
			}
		}
	}
	return false
}

// readErr: reading or decoding the file failed on this path.
func readErr(o *Outcome) bool {
	for _, v := range o.st.events() {
		if v.Kind != "call" || len(v.Res) == 0 {
			continue
		}
		if v.Name == "os.ReadFile" || v.Name == "encoding/json.Unmarshal" || v.Name == "os.Open" || v.Name == "io.ReadAll" {
			if isErr(o.st, v.Res[len(v.Res)-1]) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) globalFlag(st *State, id int, fl string) Val {
	t := c.e.typ("sarflags.Cliflags")
	i := fieldIdx(t, "Global")
	if i < 0 {
		return nil
	}
	sv, ok := c.e.expand(st.obj(id).V).(*StructV)
	if !ok {
		return nil
	}
	m, ok := c.e.expand(sv.F[i]).(*MapV)
	if !ok || m.Obj == 0 {
		return nil
	}
	mo := st.obj(m.Obj).M
	if en, ok := mo.ent[fmt.Sprintf("%q", fl)]; ok {
		return en.v
	}
	return nil
}

// is: the value is the unknown of the key.
func (c *Ctx) leafIs(st *State, v Val, path string, l leafT) bool {
	if v == nil {
		return false
	}
	if l.text {
		want := strSrc(mkSrc("json:"+path, nil))
		s, ok := v.(*StrV)
		return ok && (st.normSeq(s.S).key() == st.normSeq(want.S).key() || st.valEqual(v, want))
	}
	iv, ok := v.(*IntV)
	return ok && st.proveEQ(iv.L, linA(mkAtom("json:"+path, bigZero, new(big.Int).Sub(pow2(uint(l.bits)), bigOne))))
}

func (c *Ctx) loadedAs(st *State, id int, leaves map[string]leafT, env map[string]bool) {
	t := c.e.typ("sarflags.Cliflags")
	sv, ok := c.e.expand(st.obj(id).V).(*StructV)
	if !ok {
		c.fail("undecided", "Cliflags", "", "the settings are not a struct")
		return
	}
	used := map[string]bool{}
	fld := func(s *StructV, t types.Type, name string) Val {
		i := fieldIdx(t, name)
		if i < 0 {
			return nil
		}
		return s.F[i]
	}
	for _, k := range sortedKeys(settingOf) {
		n := settingOf[k]
		used[n] = true
		v := fld(sv, t, n)
		if k == "sardir" {
			got, found, known := c.envVal(st, "SARDIR")
			empty := 0
			if known {
				empty = st.seqEqual(got.(*StrV).S, nil)
				if found != nil && st.evalBool(found) == -1 {
					empty = 1
				}
			}
			if c.leafIs(st, v, k, leaves[k]) {
				env["file"] = true
				c.ok("setting", "Sardir from the file", !known || empty == 1, "the transfer directory is that of the file although the environment has one")
				continue
			}
			ok := known && v != nil && valKey(got) == valKey(v)
			c.ok("setting", "Sardir from the environment", !ok || empty == -1 || found != nil && st.evalBool(found) == 1, "the transfer directory is that of the environment although the environment has none")
			if ok {
				env["env"] = true
			}
			c.ok("setting", "Sardir", ok, "the transfer directory is %s, neither that of the file nor that of the environment", valKey(v))
			continue
		}
		c.ok("setting", n, c.leafIs(st, v, k, leaves[k]), "the setting %s holds %s, not the value of %s", n, valKey(v), k)
	}
	used["Timeout"], used["Global"] = true, true
	tv, ok := c.e.expand(fld(sv, t, "Timeout")).(*StructV)
	if c.ok("setting", "Timeout", ok, "there are no timeouts") {
		tt := c.e.typ("sarflags.Timeouts")
		for _, k := range sortedKeys(timeoutOf) {
			v := fld(tv, tt, timeoutOf[k])
			c.ok("setting", "Timeout."+timeoutOf[k], c.leafIs(st, v, "timeout/"+k, leaves["timeout/"+k]), "the timeout %s holds %s, not the value of timeout %s", timeoutOf[k], valKey(v), k)
		}
		c.ok("mapping", "Timeout", len(tv.F) == len(timeoutOf), "there are %d timeouts, %d documented", len(tv.F), len(timeoutOf))
	}
	for _, f := range defaultFlags {
		g := c.globalFlag(st, id, f)
		s, ok := "", false
		if g != nil {
			s, ok = constStrOf(st, g)
		}
		c.ok("default", f, ok && s == c.tables.Raw[f], "the default flag %s holds %s, not the value in the file (%v)", f, valKey(g), c.tables.Raw[f])
	}
	if m, ok := c.e.expand(fld(sv, t, "Global")).(*MapV); ok && m.Obj != 0 {
		mo := st.obj(m.Obj).M
		c.ok("default", "Global", len(mo.ent) == len(defaultFlags) && !mo.open, "there are %d default flags, %d documented", len(mo.ent), len(defaultFlags))
	}
	// tables
	g := func(name string) (Val, types.Type) {
		i := strings.IndexByte(name, '.')
		var gv *ssa.Global
		if p := c.e.pkgs[modPath+"/"+name[:i]]; p != nil {
			gv = p.Var(name[i+1:])
		}
		if gv == nil {
			c.fail("anchor", name, "", "the table "+name+" was not found")
			return nil, nil
		}
		o := st.obj(c.e.global(gv))
		return o.V, o.T
	}
	seen := map[string]bool{}
	for name, top := range map[string]string{"sarflags.Commands": "commands", "sarflags.Flags": "flags", "sarflags.DirentFlags": "direntflags", "sarflags.TimeStamps": "timestamps", "sarflags.Frameflags": "frameflags"} {
		if v, t := g(name); v != nil {
			c.leafWalk(st, v, t, name, top, leaves, seen, 0)
		}
	}
	for _, p := range sortedKeys(leaves) {
		switch strings.SplitN(p, "/", 2)[0] {
		case "commands", "flags", "direntflags", "timestamps", "frameflags":
			c.ok("stored", p, seen[p], "the value of %s is not stored in its table", p)
		}
	}
}

// leafWalk compares what a table holds with the unknowns of the same path.
func (c *Ctx) leafWalk(st *State, v Val, t types.Type, where, path string, leaves map[string]leafT, seen map[string]bool, depth int) {
	if depth > 8 {
		return
	}
	switch x := c.e.expand(v).(type) {
	case *MapV:
		if x.Obj == 0 {
			return
		}
		mt := t.Underlying().(*types.Map)
		mo := st.obj(x.Obj).M
		c.ok("table", where, !mo.open, "the table has unknown further entries")
		for _, k := range mo.keys {
			en, ok := mo.ent[k]
			if !ok {
				continue
			}
			ks, ok := constStrOf(st, en.k)
			if !c.ok("table", where, ok, "the table has an entry of unknown name") {
				continue
			}
			c.leafWalk(st, en.v, mt.Elem(), where+"["+ks+"]", path+"/"+ks, leaves, seen, depth+1)
		}
	case *StructV:
		s := t.Underlying().(*types.Struct)
		for i, f := range x.F {
			n := s.Field(i).Name()
			c.leafWalk(st, f, s.Field(i).Type(), where+"."+n, path+"/"+strings.ToLower(n), leaves, seen, depth+1)
		}
	case *PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok && x.Obj != 0 {
			c.leafWalk(st, c.e.load(st, x, p.Elem()), p.Elem(), where, path, leaves, seen, depth+1)
		}
	case *SliceV:
		n, ok := st.norm(x.Len).constInt()
		if !c.ok("table", where, ok, "the list has an unknown length") || n == 0 {
			return
		}
		q, ok := st.sliceSeq(x)
		et := t.Underlying().(*types.Slice).Elem()
		if !ok {
			c.fail("undecided", where, "", "the list was not decided")
			return
		}
		for i := 0; i < n; i++ {
			if y := st.elemVal(q, linC(int64(i)), et); y != nil {
				c.leafWalk(st, y, et, fmt.Sprintf("%s[%d]", where, i), fmt.Sprintf("%s/%d", path, i), leaves, seen, depth+1)
			}
		}
	default:
		l, ok := leaves[path]
		if !c.ok("table", where, ok, "the table holds %s where the configuration has nothing", valKey(v)) {
			return
		}
		seen[path] = true
		c.ok("table", where, c.leafIs(st, v, path, l), "the table holds %s, not the value of %s", valKey(v), path)
	}
}

// envVal: what the environment variable was found to hold on this path.
func (c *Ctx) envVal(st *State, name string) (Val, *BoolV, bool) {
	for _, v := range st.events() {
		if (v.Name == "os.Getenv" || v.Name == "os.LookupEnv") && len(v.Args) > 0 && len(v.Res) > 0 {
			if s, ok := constStrOf(st, v.Args[0]); ok && s == name {
				if _, ok := v.Res[0].(*StrV); !ok {
					continue
				}
				if len(v.Res) > 1 {
					b, _ := v.Res[1].(*BoolV)
					return v.Res[0], b, true
				}
				return v.Res[0], nil, true
			}
		}
	}
	return nil, nil, false
}

// under: the functions of the repository that run as part of a call of f:
// called by it, or by one of them, and not started as goroutines.
func (e *Engine) under(f *ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{f: true}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := x.Call.StaticCallee()
				if h != nil && e.isRepo(h) && len(h.Blocks) > 0 && !r[h] {
					r[h] = true
					walk(h)
				}
			}
		}
	}
	walk(f)
	return r
}
