package main

// C28: file metadata describes the file that was asked for.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = &checkDef{run: checkC28, min: 150,
		rule: "Abstract interpretation of the functions that describe files, with an unknown name, examining a file replaced by its contract (unknown information per path, or an error). On every path that reports success the information comes from the path of the file asked for, each field of the description is proved equal to the matching part of that information (name, size, modification and change time, owner, kind by mode bits), the property and descriptor of a directory entry match its kind and hold its size, and no examination it rests on failed."}
}

// statHook: examining one path yields the same information again.
func (c *Ctx) statHook(nows *[]Val) hookFn {
	sum := c.e.fn("fileio.Checksum")
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		if fn == nil {
			return nil, false
		}
		switch name {
		case "os.Stat", "os.Lstat", "os.Readlink":
			outs := c.e.pureCall(s, name, fn.Signature, args)
			for _, o := range outs {
				if i, ok := o.ret[0].(*IfaceV); ok && sureNil(o.st, o.ret[1]) {
					n := *i
					n.MayNil = false
					o.ret[0] = &n
				}
				o.st.addEvent(&Event{Kind: "call", Name: name, Args: args, Res: o.ret})
			}
			return outs, true
		case "time.Now":
			k := freshKey("now")
			t := &TimeV{Sec: linA(mkAtom(k+".sec", minTimeSec, maxTimeSec)), Nsec: linA(mkAtom(k+".nsec", bigZero, big.NewInt(999999999)))}
			*nows = append(*nows, t)
			return ret(s, t), true
		}
		if fn == sum && sum != nil {
			bad := s.clone()
			bad.addEvent(&Event{Kind: "call", Name: "fileio.Checksum", Args: args, Res: []Val{nilSlice(), newErr("x")}})
			return append(ret(s, c.e.fresh(types.NewSlice(types.Typ[types.Uint8])), nilIface), ret(bad, nilSlice(), newErr("Checksum"))...), true
		}
		return nil, false
	}
}

// examined: the information the last successful examination of the path gave.
func (c *Ctx) examined(st *State, path Val, how string) (info Val, failed bool) {
	for _, v := range st.events() {
		if v.Kind != "call" || len(v.Res) != 2 {
			continue
		}
		if v.Name == how && c.same(st, v.Args[0], path, nil) {
			if sureNil(st, v.Res[1]) {
				info = v.Res[0]
			} else {
				failed = true
			}
		}
	}
	return
}

// anyFailed: some operation on the way failed.
func anyFailed(st *State) bool {
	for _, v := range st.events() {
		if v.Kind == "call" && len(v.Res) > 0 {
			if l := v.Res[len(v.Res)-1]; !sureNil(st, l) && isErr(st, l) {
				return true
			}
		}
	}
	return false
}

// infoPart: what a method of the information returns.
func (c *Ctx) infoPart(st *State, info Val, m string, t types.Type) Val {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", t)), false)
	return c.e.pureCall(st, "(io/fs.FileInfo)."+m, sig, []Val{info})[0].ret[0]
}

func (c *Ctx) libType(pkg, name string) types.Type {
	if p := c.e.prog.ImportedPackage(pkg); p != nil && p.Type(name) != nil {
		return p.Type(name).Type()
	}
	return nil
}

// sysPart: a field of the system's own information, behind Sys().
func (c *Ctx) sysPart(st *State, info Val, path ...string) Val {
	t := c.libType("syscall", "Stat_t")
	if t == nil {
		return nil
	}
	v := c.e.sym(types.NewPointer(t), "sys("+argsKey(st, []Val{info})+")").(*PtrV)
	v.MayNil = ""
	cur := c.e.load(st, v, t)
	ct := types.Type(t)
	for _, f := range path {
		cur = c.e.expand(cur)
		sv, ok := cur.(*StructV)
		stt, ok2 := ct.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return nil
		}
		found := false
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == f {
				cur, ct, found = sv.F[i], stt.Field(i).Type(), true
			}
		}
		if !found {
			return nil
		}
	}
	return cur
}

func (c *Ctx) sysTime(st *State, info Val, f string) Val {
	p := c.e.prog.ImportedPackage("time")
	if p == nil || p.Func("Unix") == nil {
		return nil
	}
	a, b := c.sysPart(st, info, f, "Sec"), c.sysPart(st, info, f, "Nsec")
	if a == nil || b == nil {
		return nil
	}
	// the conversion to 64 bits that precedes the call changes nothing
	outs := intrinsics["time.Unix"](c.e, &callCtx{st: st.clone(), name: "time.Unix", args: []Val{a, b}, sig: p.Func("Unix").Signature, fn: p.Func("Unix")})
	if len(outs) != 1 || len(outs[0].ret) != 1 {
		return nil
	}
	return outs[0].ret[0]
}

// boolIs: the truth value is exactly whether the mode has the kind; 0 means
// neither is forced.
func (c *Ctx) boolIs(st *State, v Val, info Val, kind int64) bool {
	b, ok := v.(*BoolV)
	if !ok {
		return false
	}
	for _, want := range []bool{true, false} {
		s := st.clone()
		if st.evalBool(b) == map[bool]int{true: -1, false: 1}[want] {
			continue
		}
		s.assume(b, want)
		if s.contradictory() {
			continue
		}
		m := c.modeIs(s, info, kind)
		if want && m != 1 || !want && m != -1 {
			return false
		}
	}
	return true
}

func (c *Ctx) isFalse(st *State, v Val) bool {
	b, ok := v.(*BoolV)
	return ok && st.evalBool(b) == -1
}

func checkC28(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 4000
	c.fileMeta()
	c.fileTimes()
	c.dirEntries()
	c.metaEntries()
}

func (c *Ctx) fileMeta() {
	name := "fileio.FileMeta"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		c.fail("anchor", name, "", "not found")
		return
	}
	fname := c.e.sym(types.Typ[types.String], "fname")
	path := c.filePath(fname)
	if path == nil {
		c.fail("anchor", "fileio.FileExists", "", "where files are is not known")
		return
	}
	var nows []Val
	var outs []*Outcome
	c.withHook(c.statHook(&nows), func() { outs = c.run(name, c.st0, name, fname) })
	good := 0
	for _, o := range outs {
		if !c.ok("returns", name, o.exit == "" && len(o.ret) == 2, "does not return") {
			continue
		}
		st := o.st
		p, _ := o.ret[0].(*PtrV)
		if !sureNil(st, o.ret[1]) {
			c.ok("error", name, isErr(st, o.ret[1]) && p != nil && p.Obj == 0 && p.Ext == "", "a description is returned although something failed")
			c.ok("refused", name, anyFailed(st), "a file that can be examined is refused")
			continue
		}
		good++
		if !c.ok("result", name, p != nil && p.Obj != 0, "no description is returned") {
			continue
		}
		info, bad := c.examined(st, path, "os.Lstat")
		if !c.ok("that-file", name, info != nil, "the file examined is not the one asked for") {
			continue
		}
		c.ok("error", name, !bad, "a failed examination is not reported")
		fld := func(f string) Val { return c.field(st, p, f) }
		eq := func(f string, v Val) {
			c.ok("field", name+" "+f, v != nil && fld(f) != nil && c.same(st, fld(f), v, nil), "%s is not the file's", f)
		}
		eq("Info", info)
		eq("Path", c.infoPart(st, info, "Name", types.Typ[types.String]))
		eq("Mode", c.e.fileMode(st, info))
		eq("Size", c.infoPart(st, info, "Size", types.Typ[types.Int64]))
		eq("ModTime", c.infoPart(st, info, "ModTime", c.libType("time", "Time")))
		eq("Uid", c.sysPart(st, info, "Uid"))
		eq("Gid", c.sysPart(st, info, "Gid"))
		kind := func(f string, k int64) {
			c.ok("kind", name+" "+f, c.boolIs(st, fld(f), info, k), "%s is not what the file is", f)
		}
		kind("IsRegular", modeRegular)
		kind("IsNamedPipe", modePipe)
		kind("IsSymLink", modeLink)
		switch c.modeIs(st, info, modeLink) {
		case -1:
			kind("IsDir", modeDir)
		case 1:
			link, bad := c.examined(st, path, "os.Stat")
			if link != nil && !bad {
				c.ok("kind", name+" IsDir", c.boolIs(st, fld("IsDir"), link, modeDir), "IsDir is not what the link's target is")
			} else {
				c.ok("kind", name+" IsDir", c.isFalse(st, fld("IsDir")), "a link without a target is a directory")
			}
			var to Val
			for _, v := range st.events() {
				if v.Kind == "call" && v.Name == "os.Readlink" && c.same(st, v.Args[0], path, nil) {
					c.ok("error", name, sureNil(st, v.Res[1]), "a link that cannot be read is not reported")
					to = v.Res[0]
				}
			}
			eq("Origin", to)
		default:
			c.ok("kind", name+" IsDir", false, "links are not told from other files")
		}
	}
	c.ok("reached", name, good > 0, "never succeeds")
}

func (c *Ctx) fileTimes() {
	name := "sarsys.FileTime.NewTime"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", name, "", "not found")
		return
	}
	st := c.st0.clone()
	p := c.symAlloc(st, "sarsys.FileTime", "ft")
	inf := c.e.sym(fn.Params[1].Type(), "info").(*IfaceV)
	info := *inf
	info.MayNil = false
	outs := c.method(st, name, name, p, &info)
	for _, o := range outs {
		if !c.ok("returns", name, o.exit == "", "does not return") {
			continue
		}
		for f, v := range map[string]Val{
			"Mtime": c.infoPart(o.st, &info, "ModTime", c.libType("time", "Time")),
			"Atime": c.sysTime(o.st, &info, "Atim"),
			"Ctime": c.sysTime(o.st, &info, "Ctim"),
		} {
			alt := v
			if f == "Mtime" {
				alt = c.sysTime(o.st, &info, "Mtim")
			}
			got := c.field(o.st, p, f)
			c.ok("field", name+" "+f, got != nil && v != nil && (c.same(o.st, got, v, nil) || alt != nil && c.same(o.st, got, alt, nil)), "%s is not that time of the file", f)
		}
	}
	c.ok("reached", name, len(outs) > 0, "never returns")
}

// stampOf: the timestamps of a time in the format of directory entries.
func (c *Ctx) stampOf(st *State, t Val) []Val {
	var r []Val
	s := st.clone()
	tt := c.e.typ("timestamp.Timestamp")
	if tt == nil || t == nil {
		return nil
	}
	p := c.symAlloc(s, "timestamp.Timestamp", freshKey("stamp"))
	ob := *s.obj(p.Obj)
	ob.V = zeroVal(tt)
	s.setObj(&ob)
	for _, o := range c.method(s, "stamp", "timestamp.Timestamp.New", p, strC("epoch2000_32"), t) {
		if o.exit == "" && len(o.ret) == 1 && sureNil(o.st, o.ret[0]) && !o.st.contradictory() {
			r = append(r, c.e.load(o.st, p, tt))
		}
	}
	return r
}

func (c *Ctx) oneOf(st *State, v Val, want []Val) bool {
	for _, w := range want {
		if v != nil && c.same(st, v, w, nil) {
			return true
		}
	}
	return false
}

// described: the directory entry is that of the file at the path.
func (c *Ctx) described(name string, st *State, get func(f string) Val, path Val, special bool, nows []Val) {
	if special {
		z, ok := get("Size").(*IntV)
		c.ok("field", name+" Size", ok && st.proveEQ(z.L, linC(0)), "a stream has a size")
		for _, f := range []string{"Mtime", "Ctime"} {
			found := false
			for _, t := range nows {
				found = found || c.oneOf(st, get(f), c.stampOf(st, t))
			}
			c.ok("field", name+" "+f, found, "%s of a stream is not the current time", f)
		}
		return
	}
	info, bad := c.examined(st, path, "os.Lstat")
	if info == nil {
		info, bad = c.examined(st, path, "os.Stat")
	}
	if !c.ok("that-file", name, info != nil, "the file examined is not the one asked for") {
		return
	}
	c.ok("error", name, !bad, "a failed examination is not reported")
	size, _ := get("Size").(*IntV)
	is, _ := c.infoPart(st, info, "Size", types.Typ[types.Int64]).(*IntV)
	c.ok("field", name+" Size", size != nil && is != nil && st.sameWord(size.L, is.L), "the size is not the file's")
	mt := c.stampOf(st, c.infoPart(st, info, "ModTime", c.libType("time", "Time")))
	mt = append(mt, c.stampOf(st, c.sysTime(st, info, "Mtim"))...)
	c.ok("field", name+" Mtime", c.oneOf(st, get("Mtime"), mt), "the modification time is not the file's")
	c.ok("field", name+" Ctime", c.oneOf(st, get("Ctime"), c.stampOf(st, c.sysTime(st, info, "Ctim"))), "the change time is not the file's")
}

// sameWord: two 64 bit integers hold the same bits.
func (st *State) sameWord(a, b *Lin) bool {
	if st.proveEQ(a, b) {
		return true
	}
	for _, x := range eng.wrap(st.clone(), b, types.Typ[types.Uint64]) {
		if x.s.contradictory() {
			continue
		}
		ok := false
		for _, y := range eng.wrap(x.s, a, types.Typ[types.Uint64]) {
			if !y.s.contradictory() {
				ok = y.s.proveEQ(x.l, y.l)
				if !ok {
					return false
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (c *Ctx) dirEntries() {
	fname := c.e.sym(types.Typ[types.String], "fname")
	path := c.filePath(fname)
	if path == nil {
		return
	}
	name := "dirent.DirEnt.Statfile"
	if c.e.fn(name) == nil {
		c.fail("anchor", name, "", "not found")
	} else {
		st := c.st0.clone()
		p := c.symAlloc(st, "dirent.DirEnt", "entry")
		var nows []Val
		var outs []*Outcome
		c.withHook(c.statHook(&nows), func() { outs = c.method(st, name, name, p, fname) })
		good := 0
		for _, o := range outs {
			if !c.ok("returns", name, o.exit == "" && len(o.ret) == 1, "does not return") {
				continue
			}
			if !sureNil(o.st, o.ret[0]) {
				c.ok("error", name, isErr(o.st, o.ret[0]), "the error is not known")
				continue
			}
			good++
			c.described(name, o.st, func(f string) Val { return c.field(o.st, p, f) }, path, false, nows)
		}
		c.ok("reached", name, good > 0, "never succeeds")
	}
	name = "dirent.DirEnt.New"
	if c.e.fn(name) == nil {
		c.fail("anchor", name, "", "not found")
		return
	}
	for _, prop := range sortedKeys(c.tables.Dirent["property"].Options) {
		for _, desc := range sortedKeys(c.tables.Dirent["descriptor"].Options) {
			scn := fmt.Sprintf("%s %s %s", name, prop, desc)
			st := c.st0.clone()
			p := c.symAlloc(st, "dirent.DirEnt", "entry")
			ob := *st.obj(p.Obj)
			ob.V = zeroVal(c.e.typ("dirent.DirEnt"))
			st.setObj(&ob)
			var nows []Val
			var outs []*Outcome
			c.withHook(c.statHook(&nows), func() {
				outs = c.method(st, scn, name, p, strC("property="+prop+",descriptor="+desc), fname)
			})
			good := 0
			for _, o := range outs {
				if !c.ok("returns", scn, o.exit == "" && len(o.ret) == 1, "does not return") {
					continue
				}
				if !sureNil(o.st, o.ret[0]) {
					c.ok("error", scn, isErr(o.st, o.ret[0]), "the error is not known")
					continue
				}
				good++
				get := func(f string) Val { return c.field(o.st, p, f) }
				c.ok("field", name+" Path", c.same(o.st, get("Path"), fname, nil), "the path is not the one asked for")
				h, _ := get("Header").(*IntV)
				if c.ok("field", name+" Header", h != nil, "no header") {
					c.ok("field", name+" Header", c.dirFlag(o.st, h.L, "property") == prop, "the property is not the one asked for")
					c.ok("field", name+" Header", c.dirFlag(o.st, h.L, "descriptor") == desc, "the descriptor is not the one asked for")
				}
				c.described(scn, o.st, get, path, strings.HasPrefix(prop, "special"), nows)
			}
			c.ok("reached", scn, good > 0, "never succeeds")
		}
	}
}

// dirFlag: the option a directory entry's flags hold.
func (c *Ctx) dirFlag(st *State, w *Lin, field string) string {
	fl, ok := c.tables.Dirent[field]
	if !ok {
		return ""
	}
	for opt, v := range fl.Options {
		if f, ok := st.fieldGet(w, 16, fl.Msb, fl.Len); ok && st.proveEQ(f, linC(int64(v))) {
			return opt
		}
	}
	return ""
}

func (c *Ctx) metaEntries() {
	fname := c.e.sym(types.Typ[types.String], "info.Fname")
	_ = fname
	for _, mode := range []string{"New", "Make"} {
		name := "metadata.MetaData." + mode
		if c.e.fn(name) == nil {
			c.fail("anchor", name, "", "not found")
			continue
		}
		trs := sortedKeys(c.tables.Flags["transfer"].Options)
		if mode == "Make" {
			trs = []string{""}
		}
		for _, tr := range trs {
			scn := strings.TrimSpace(name + " " + tr)
			st := c.st0.clone()
			p := c.symAlloc(st, "metadata.MetaData", "frame")
			ob := *st.obj(p.Obj)
			ob.V = zeroVal(c.e.typ("metadata.MetaData"))
			st.setObj(&ob)
			inf := c.symAlloc(st, "metadata.Minfo", "info")
			iv := &IfaceV{T: types.NewPointer(c.e.typ("metadata.Minfo")), V: inf}
			want := c.field(st, inf, "Fname")
			path := c.filePath(want)
			args := []Val{strC("descriptor=d32,transfer=" + tr), iv}
			if mode == "Make" {
				args[0] = c.e.sym(types.Typ[types.Uint32], "hdr")
			}
			var nows []Val
			var outs []*Outcome
			c.withHook(c.statHook(&nows), func() { outs = c.method(st, scn, name, p, args...) })
			good := 0
			kinds := map[string]bool{}
			for _, o := range outs {
				if !c.ok("returns", scn, o.exit == "" && len(o.ret) == 1, "does not return") {
					continue
				}
				if !sureNil(o.st, o.ret[0]) {
					c.ok("error", scn, isErr(o.st, o.ret[0]), "the error is not known")
					continue
				}
				good++
				st := o.st
				h, _ := c.field(st, p, "Header").(*IntV)
				dir := c.field(st, p, "Dir")
				dt := c.e.typ("dirent.DirEnt")
				if h == nil || dir == nil || dt == nil || path == nil {
					c.fail("anchor", "metadata.MetaData", "", "Header or Dir not found")
					return
				}
				get := func(f string) Val { return fieldOf(dir, dt, f) }
				c.ok("field", name+" Path", get("Path") != nil && c.same(st, get("Path"), want, nil), "the path is not the one asked for")
				info, bad := c.examined(st, path, "os.Lstat")
				if !c.ok("that-file", scn, info != nil && !bad, "the file examined is not the one asked for") {
					continue
				}
				t := c.optOf(st, h.L, "transfer")
				dh, _ := get("Header").(*IntV)
				if !c.ok("field", name+" Header", dh != nil, "no header") {
					continue
				}
				prop := c.dirFlag(st, dh.L, "property")
				kinds[t] = true
				wantKind := map[string]int64{"file": modeRegular, "directory": modeDir, "stream": modePipe}[t]
				wantProp := map[string]string{"file": "normalfile", "directory": "normaldirectory", "stream": "specialfile"}[t]
				c.ok("kind", scn, wantProp != "" && c.modeIs(st, info, wantKind) == 1, "transfer %q is announced for a file of another kind", t)
				c.ok("kind", scn, wantProp != "" && prop == wantProp, "property %q for transfer %q", prop, t)
				c.described(scn, st, get, path, prop == "specialfile", nows)
				// wide enough
				is, _ := c.infoPart(st, info, "Size", types.Typ[types.Int64]).(*IntV)
				desc := c.dirFlag(st, dh.L, "descriptor")
				bits := map[string]uint{"d16": 16, "d32": 32, "d64": 64, "d128": 128}[desc]
				if c.ok("width", scn, bits != 0 && is != nil, "the descriptor is not known") {
					st := st.clone()
					st.assumeGE(is.L) // sizes are not negative
					if !st.contradictory() {
						max := linSub(linB(pow2(bits)), linC(1))
						c.ok("width", scn, st.proveGE(linSub(max, is.L)), "%s is too small for the size of the file", desc)
					}
				}
			}
			c.ok("reached", scn, good > 0 == (tr != "bundle"), "transfer %q", tr)
			if mode == "Make" {
				for _, t := range []string{"file", "directory", "stream"} {
					c.ok("reached", scn, kinds[t], "no %s is ever described", t)
				}
			}
		}
	}
}
