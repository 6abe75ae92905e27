package main

// C18, C19: where the node's files are and how they are opened.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = &checkDef{run: checkC18, min: 12,
		rule: "Every call of a library function that takes a file's path, outside start-up and the configuration loader, is found in the type-checked program; the functions containing them are interpreted on unknown arguments, and on every path the argument is shown to be composed so that it cannot leave the transfer directory: the configured directory joined with a path cleaned as a rooted path or known to be local, a cleaned path known to start with the directory and a separator, or the name of a file already open. Where that depends on what the caller passes, the callers are interpreted instead."}
	checks["C19"] = &checkDef{run: checkC19, min: 30,
		rule: "Abstract interpretation of the function that opens transfer files for every transfer type and for any other type, the file system replaced by its contract: what is opened for receiving is opened exactly once, exclusively created, writable and not truncated or appended, failing only if the opening failed or the name was found to exist; what is opened for sending is opened read only; an unknown type opens nothing; and nothing anywhere else in the program creates, truncates or renames a file."}
}

type pathOp struct {
	args []int
	kind byte // 'r' looks, 'o' opens for reading, 'w' changes
}

// pathOps: library functions that take paths.
var pathOps = map[string]pathOp{
	"os.Open": {[]int{0}, 'o'}, "os.OpenFile": {[]int{0}, 'o'}, "os.Create": {[]int{0}, 'w'},
	"os.Stat": {[]int{0}, 'r'}, "os.Lstat": {[]int{0}, 'r'}, "os.Readlink": {[]int{0}, 'r'},
	"os.ReadFile": {[]int{0}, 'o'}, "os.ReadDir": {[]int{0}, 'r'}, "os.Chdir": {[]int{0}, 'r'}, "os.DirFS": {[]int{0}, 'r'},
	"os.OpenRoot": {[]int{0}, 'r'}, "os.OpenInRoot": {[]int{0}, 'r'},
	"os.Remove": {[]int{0}, 'w'}, "os.RemoveAll": {[]int{0}, 'w'}, "os.Rename": {[]int{0, 1}, 'w'},
	"os.Mkdir": {[]int{0}, 'w'}, "os.MkdirAll": {[]int{0}, 'w'}, "os.Symlink": {[]int{0, 1}, 'w'}, "os.Link": {[]int{0, 1}, 'w'},
	"os.Truncate": {[]int{0}, 'w'}, "os.Chmod": {[]int{0}, 'w'}, "os.Chown": {[]int{0}, 'w'}, "os.Lchown": {[]int{0}, 'w'},
	"os.Chtimes": {[]int{0}, 'w'}, "os.WriteFile": {[]int{0}, 'w'}, "os.CreateTemp": {[]int{0}, 'w'}, "os.MkdirTemp": {[]int{0}, 'w'},
	"os.CopyFS":          {[]int{0}, 'w'},
	"io/ioutil.ReadFile": {[]int{0}, 'o'}, "io/ioutil.WriteFile": {[]int{0}, 'w'}, "io/ioutil.ReadDir": {[]int{0}, 'r'},
	"io/ioutil.TempFile": {[]int{0}, 'w'}, "io/ioutil.TempDir": {[]int{0}, 'w'},
	"path/filepath.Walk": {[]int{0}, 'r'}, "path/filepath.WalkDir": {[]int{0}, 'r'}, "path/filepath.Glob": {[]int{0}, 'r'},
	"path/filepath.EvalSymlinks": {[]int{0}, 'r'},
	"syscall.Open":               {[]int{0}, 'w'}, "syscall.Creat": {[]int{0}, 'w'}, "syscall.Unlink": {[]int{0}, 'w'}, "syscall.Rename": {[]int{0, 1}, 'w'},
	"syscall.Mkdir": {[]int{0}, 'w'}, "syscall.Rmdir": {[]int{0}, 'w'}, "syscall.Stat": {[]int{0}, 'r'}, "syscall.Lstat": {[]int{0}, 'r'},
	"syscall.Truncate": {[]int{0}, 'w'}, "syscall.Link": {[]int{0, 1}, 'w'}, "syscall.Symlink": {[]int{0, 1}, 'w'}, "syscall.Chmod": {[]int{0}, 'w'},
	"syscall.Openat": {[]int{1}, 'w'}, "syscall.Unlinkat": {[]int{1}, 'w'}, "syscall.Mkdirat": {[]int{1}, 'w'}, "syscall.Chdir": {[]int{0}, 'r'},
}

func libCallee(in ssa.Instruction) (string, *ssa.CallCommon) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	cc := ci.Common()
	if f := cc.StaticCallee(); f != nil {
		return fnName(f), cc
	}
	return "", cc
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

// outermost: the declared function a closure is part of.
func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// pathSites: every call of a path operation in the repository, by function.
func (c *Ctx) pathSites() (map[*ssa.Function][]ssa.Instruction, []*ssa.Function) {
	r := map[*ssa.Function][]ssa.Instruction{}
	var order []*ssa.Function
	for _, p := range c.repoPackages() {
		for _, f := range funcsOf(c.e.prog, p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					// a path operation used as a value would escape the search
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok || g.Pkg == nil || c.e.repoPkgs[g.Pkg] {
							continue
						}
						if _, isOp := pathOps[fnName(g)]; isOp {
							if ci, ok := in.(ssa.CallInstruction); !ok || ci.Common().Value != *op {
								c.fail("undecided", f.String(), c.e.pos(in.Pos()), fnName(g)+" is used as a value")
							}
						}
					}
					n, _ := libCallee(in)
					if _, ok := pathOps[n]; ok {
						if r[f] == nil {
							order = append(order, f)
						}
						r[f] = append(r[f], in)
					}
				}
			}
		}
	}
	return r, order
}

func (c *Ctx) repoPackages() []*ssa.Package {
	var ps []*ssa.Package
	for p := range c.e.repoPkgs {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	return ps
}

// startup: functions that run before any peer is heard.
func (c *Ctx) startup(f *ssa.Function) bool {
	f = outermost(f)
	return f.Pkg != nil && (f.Pkg.Pkg.Name() == "main" && f.Name() == "main" || f.Pkg.Pkg.Path() == modPath+"/sarflags") || f.Name() == "init" && f.Parent() == nil
}

// callersOf: who calls a function of the repository.
func (c *Ctx) callersOf(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	for _, p := range c.repoPackages() {
		for _, g := range funcsOf(c.e.prog, p) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && (h == f || h.Origin() == f) && !seen[outermost(g)] && outermost(g) != f {
							seen[outermost(g)] = true
							r = append(r, outermost(g))
						}
					}
				}
			}
		}
	}
	return r
}

func checkC18(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	sites, order := c.pathSites()
	n := 0
	var look func(f *ssa.Function, want map[string]bool, depth int)
	done := map[*ssa.Function]bool{}
	t0 := time.Now()
	look = func(f *ssa.Function, want map[string]bool, depth int) {
		if want == nil {
			if done[f] {
				return
			}
			done[f] = true
		}
		c.e.funcsSeen[f.String()] = true
		bad := map[string]string{}
		given := map[string]bool{} // the path is an argument as it was passed
		for _, o := range c.quietRun(f) {
			for _, v := range o.st.events() {
				op, ok := pathOps[v.Name]
				if v.Kind != "call" || !ok || c.startup(v.In) {
					continue
				}
				at := v.In.String() + "/" + v.Name + "/" + c.e.pos(v.Pos)
				if want != nil && !want[at] {
					continue
				}
				for _, i := range op.args {
					c.oblig++
					c.rules["inside"]++
					if why := c.inside(o.st, v.Args[i]); why != "" {
						if bad[at] == "" {
							given[at] = true
						}
						bad[at] = why
						given[at] = given[at] && isArg(o.st, v.Args[i])
						if os.Getenv("SARA_DEBUG") != "" {
							fmt.Println(at, why, valStr(v.Args[i]))
						}
					}
				}
			}
		}
		if len(bad) == 0 {
			return
		}
		w := map[string]bool{}
		var callers []*ssa.Function
		for _, g := range c.callersOf(f) {
			if !c.startup(g) {
				callers = append(callers, g)
			}
		}
		for at := range bad {
			if given[at] && len(callers) > 0 && depth < 4 && time.Since(t0) < 4*time.Minute {
				w[at] = true
				delete(bad, at)
			}
		}
		for _, g := range callers {
			if len(w) > 0 {
				look(g, w, depth+1)
			}
		}
		for at, why := range bad {
			c.fail("inside", stripPos(at), posOf(at), "the file may lie outside the transfer directory: "+why+" (in "+f.String()+")")
		}
	}
	for _, f := range order {
		if c.startup(f) {
			continue
		}
		n += len(sites[f])
		look(outermost(f), nil, 0)
	}
	c.ok("sites", "path operations", n > 0, "no file operations found")
	c.notes = append(c.notes, fmt.Sprintf("%d calls of path operations.", n))
}

// stripPos drops the position from a site's name, which is not stable.
func stripPos(at string) string {
	if i := strings.Index(at, "/"+repoDir[1:]); i > 0 {
		return at[:i]
	}
	for _, ext := range []string{".go:"} {
		if i := strings.LastIndex(at, ext); i > 0 {
			if j := strings.LastIndex(at[:i], "/"); j > 0 {
				return at[:j]
			}
		}
	}
	return at
}
func posOf(at string) string { return at[len(stripPos(at)):] }

// isArg: a string the caller passed, unchanged.
func isArg(st *State, v Val) bool {
	x, ok := v.(*StrV)
	if !ok {
		return false
	}
	src := st.wholeSrc(st.normSeq(x.S))
	return src != nil && strings.HasPrefix(src.key, "arg") && strings.Count(src.key, ".") == 1
}

// quietRun interprets a function on unknown arguments.
func (c *Ctx) quietRun(f *ssa.Function) []*Outcome {
	var args []Val
	for i, p := range f.Params {
		v := c.e.sym(p.Type(), fmt.Sprintf("arg%d.%s", i, p.Name()))
		if i == 0 && f.Signature.Recv() != nil {
			if q, ok := v.(*PtrV); ok {
				q.MayNil = ""
			}
		}
		args = append(args, v)
	}
	return c.runFn(f.String(), c.st0, f, nil, args...)
}

// sardir: the configured transfer directory.
func (c *Ctx) sardir(st *State) Val {
	g := c.e.globalVar("sarflags.Cliflag")
	t := c.e.typ("sarflags.Cliflags")
	if g == nil || t == nil {
		return nil
	}
	o := st.obj(c.e.global(g))
	p, ok := c.e.expand(o.V).(*PtrV)
	if !ok || p.Obj == 0 {
		return nil
	}
	q := st.obj(p.Obj)
	if q == nil {
		return nil
	}
	return fieldOf(q.V, t, "Sardir")
}

// inside decides that a path lies in the transfer directory, "" if so.
func (c *Ctx) inside(st *State, v Val) string {
	x, ok := c.e.expand(v).(*StrV)
	dir, ok2 := c.sardir(st).(*StrV)
	if !ok || !ok2 {
		return "the path is not known"
	}
	s := st.normSeq(x.S)
	if st.seqEqual(s, dir.S) == 1 {
		return ""
	}
	d := st.normSeq(dir.S)
	isDir := func(q Seq) bool {
		if st.seqEqual(q, d) == 1 {
			return true
		}
		// the directory cleaned or joined with nothing
		if src := st.wholeSrc(st.normSeq(q)); src != nil && (src.op == "path:Clean" || src.op == "path:Join") && len(src.args) == 1 {
			a, ok := src.args[0].(*StrV)
			return ok && st.seqEqual(a.S, d) == 1
		}
		return false
	}
	if src := st.wholeSrc(s); src != nil {
		switch {
		case src.op == "path:Join" && len(src.args) > 0:
			a, ok := src.args[0].(*StrV)
			if ok && isDir(a.S) {
				for _, r := range src.args[1:] {
					if !c.noEscape(st, r.(*StrV).S, true) {
						return "the directory is joined with a name that may contain parent directories"
					}
				}
				return ""
			}
		case src.from == "(*os.File).Name":
			return ""
		}
		if src.op == "path:Join" || src.op == "path:Clean" {
			for _, q := range []Seq{d, cleanOf(st, d)} {
				if q != nil && c.holds(st, "strings.HasPrefix", x, &StrV{append(append(Seq{}, q...), strC("/").S...)}) {
					return ""
				}
			}
		}
		if src.op == "path:Clean" {
			// Clean(dir + "/" + rooted)
			if a, ok := src.args[0].(*StrV); ok && c.inside(st, a) == "" {
				return ""
			}
		}
	}
	// the directory followed by a rooted path
	if len(s) > 1 && len(d) == 1 && isDir(s[:1]) && c.noEscape(st, s[1:], false) {
		return ""
	}
	return "it is not composed of the transfer directory and a path known to stay inside it"
}

func cleanOf(st *State, d Seq) Seq {
	key := "Clean(" + d.key() + ")"
	if s, ok := srcTab[key]; ok {
		return strSrc(s).S
	}
	return nil
}

// holds: a pure predicate of the library is known true here.
func (c *Ctx) holds(st *State, name string, args ...Val) bool {
	r := 0
	s := st.clone()
	for _, o := range c.pureAny(s, name, args) {
		b, ok := o.ret[0].(*BoolV)
		if !ok {
			return false
		}
		k := o.st.evalBool(b)
		if k != 1 {
			return false
		}
		r++
	}
	return r > 0
}
func (c *Ctx) refuted(st *State, name string, args ...Val) bool {
	r := 0
	for _, o := range c.pureAny(st.clone(), name, args) {
		b, ok := o.ret[0].(*BoolV)
		if !ok || o.st.evalBool(b) != -1 {
			return false
		}
		r++
	}
	return r > 0
}

func (c *Ctx) pureAny(st *State, name string, args []Val) []*Outcome {
	sig := types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
	if f, ok := intrinsics[name]; ok {
		return f(c.e, &callCtx{st: st, name: name, args: args, sig: sig})
	}
	return c.e.pureCall(st, name, sig, args)
}

// noEscape: appending this to a directory stays inside it. After a separator
// put in by Join (joined) it need not start with one.
func (c *Ctx) noEscape(st *State, s Seq, joined bool) bool {
	s = st.normSeq(s)
	whole := &StrV{s}
	if joined {
		if c.holds(st, "path/filepath.IsLocal", whole) || c.refuted(st, "strings.Contains", whole, strC("..")) {
			return true
		}
	}
	sep := joined
	for i, p := range s {
		switch p.K {
		case pConst:
			if strings.Contains(p.Data, "..") || i == 0 && !sep && !strings.HasPrefix(p.Data, "/") {
				return false
			}
			if i > 0 && strings.HasPrefix(p.Data, ".") && !sep {
				// ".." could be completed by what precedes it
				if q := s[i-1]; q.K != pSrc || !c.rooted(st, q) {
					return false
				}
			}
		case pSrc:
			if !c.rooted(st, p) {
				return false
			}
			if i > 0 && s[i-1].K == pConst && strings.HasSuffix(s[i-1].Data, ".") {
				return false
			}
			if i == 0 && !sep && p.Off.isC(0) == false {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// rooted: a cleaned path that starts with a separator (or all of it but that),
// so that no element of it is a parent directory.
func (c *Ctx) rooted(st *State, p Piece) bool {
	if p.K != pSrc || len(p.Src.args) == 0 {
		return false
	}
	if !p.Off.isC(0) && !p.Off.isC(1) || !st.proveEQ(linAdd(p.Off, p.Len), p.Src.Len) {
		return false
	}
	first := func() bool {
		a, ok := p.Src.args[0].(*StrV)
		if !ok {
			return false
		}
		q := st.normSeq(a.S)
		return len(q) > 0 && q[0].K == pConst && strings.HasPrefix(q[0].Data, "/") || len(q) == 1 && q[0].K == pSrc && q[0].Off.isC(0) && c.rooted(st, q[0])
	}
	switch p.Src.op {
	case "path:Clean", "path:Join":
		return first()
	case "path:Base":
		return first() && p.Off.isC(0)
	}
	return false
}

// ------------------------------------------------------------------- C19

// opening flags on linux
const (
	oWRONLY, oRDWR, oCREATE, oEXCL, oTRUNC, oAPPEND = 1, 2, 0x40, 0x80, 0x200, 0x400
)

func checkC19(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	name := "fileio.FileOpen"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", name, "", "not found")
		return
	}
	kinds := []struct {
		ttype string
		kind  byte
	}{{"get", 'r'}, {"take", 'r'}, {"getdir", 'd'}, {"put", 's'}, {"putblind", 's'}, {"give", 's'}, {"delete", 'n'}, {"", 'u'}}
	covered := map[*ssa.Function]bool{}
	for _, k := range kinds {
		st := c.st0.clone()
		fname := c.e.sym(types.Typ[types.String], "fname")
		var tt Val = strC(k.ttype)
		scn := name + " " + k.ttype
		if k.kind == 'u' {
			scn = name + " unknown type"
			tt = c.e.sym(types.Typ[types.String], "ttype")
			for _, o := range kinds[:7] {
				st.assumeSeqEq(tt.(*StrV).S, strC(o.ttype).S, false)
			}
		}
		opened, refused := 0, 0
		for _, o := range c.run(scn, st, name, fname, tt) {
			if !c.ok("returns", scn, o.exit == "" && len(o.ret) == 2, "does not return") {
				continue
			}
			c.opening(scn, k.kind, o, covered)
			if sureNil(o.st, o.ret[1]) {
				opened++
			} else {
				refused++
			}
		}
		if k.kind == 'r' || k.kind == 's' || k.kind == 'd' {
			c.ok("reached", scn, opened > 0 && refused > 0, "opening does not depend on the file system")
		}
	}
	// nothing else opens or changes files
	sites, order := c.pathSites()
	for _, f := range order {
		if c.startup(f) {
			continue
		}
		for _, in := range sites[f] {
			n, cc := libCallee(in)
			op := pathOps[n]
			if covered[f] {
				c.ok("elsewhere", f.String()+" "+n, true, "")
				continue
			}
			bad := op.kind == 'w' && n != "os.Remove" && n != "syscall.Unlink"
			if n == "os.OpenFile" {
				k, ok := cc.Args[1].(*ssa.Const)
				bad = !ok || k.Int64()&(oWRONLY|oRDWR|oCREATE|oTRUNC|oAPPEND) != 0
			}
			c.ok("elsewhere", f.String()+" "+n, !bad, "%s outside the function that opens transfer files", n)
		}
	}
	for _, p := range c.repoPackages() {
		for _, f := range funcsOf(c.e.prog, p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if n, _ := libCallee(in); n == "(*os.File).Truncate" {
						c.ok("elsewhere", f.String()+" "+n, false, "a file is truncated")
					}
				}
			}
		}
	}
}

func (c *Ctx) opening(scn string, kind byte, o *Outcome, covered map[*ssa.Function]bool) {
	st := o.st
	var opens []*Event
	exists := false
	for _, v := range st.events() {
		if v.Kind != "call" {
			continue
		}
		if v.Name == "(*os.File).Truncate" {
			c.ok("untouched", scn, false, "truncates a file")
		}
		op, ok := pathOps[v.Name]
		if !ok {
			continue
		}
		covered[v.In] = true
		c.oblig++
		c.rules["operation"]++
		switch {
		case v.Name == "os.Stat" || v.Name == "os.Lstat":
			exists = exists || sureNil(st, v.Res[len(v.Res)-1])
		case v.Name == "os.OpenFile" || v.Name == "os.Open" || v.Name == "os.Create" || v.Name == "os.Mkdir":
			opens = append(opens, v)
		case op.kind == 'w':
			c.ok("untouched", scn, false, "%s while opening a file", v.Name)
		}
	}
	failed := func(v Val) bool { return !sureNil(st, v) }
	good := !failed(o.ret[1])
	for _, v := range opens {
		flags := int64(0)
		switch v.Name {
		case "os.OpenFile":
			iv, ok := v.Args[1].(*IntV)
			n, isC := 0, false
			if ok {
				n, isC = st.norm(iv.L).constInt()
			}
			if !c.ok("flags", scn, isC, "the opening flags are not known") {
				continue
			}
			flags = int64(n)
		case "os.Create":
			flags = oRDWR | oCREATE | oTRUNC
		case "os.Mkdir":
			c.ok("untouched", scn, kind == 'd', "a directory is made")
			continue
		}
		switch kind {
		case 'r':
			c.ok("exclusive", scn, flags&oCREATE != 0 && flags&oEXCL != 0, "an existing file of that name would be opened for receiving")
			c.ok("exclusive", scn, flags&oTRUNC == 0, "the file is truncated")
			c.ok("writable", scn, flags&(oWRONLY|oRDWR) != 0, "a file to receive into cannot be written")
			c.ok("writable", scn, flags&oAPPEND == 0, "writes would go to the end of the file")
		case 's':
			c.ok("readonly", scn, flags&(oWRONLY|oRDWR|oCREATE|oTRUNC|oAPPEND) == 0, "a file to be sent is opened so that it may be changed or created")
		default:
			c.ok("nothing", scn, false, "a file is opened")
		}
	}
	switch kind {
	case 'r', 's':
		if good {
			var is *Event
			for _, v := range opens {
				if len(v.Res) == 2 && valKey(v.Res[0]) == valKey(o.ret[0]) && sureNil(st, v.Res[1]) {
					is = v
				}
			}
			c.ok("opened", scn, is != nil && len(opens) == 1, "success without the file having been opened, once")
			break
		}
		p, isP := o.ret[0].(*PtrV)
		c.ok("refused", scn, isP && p.Obj == 0 && p.Ext == "", "an open file is returned with an error")
		if len(opens) == 0 {
			c.ok("refused", scn, kind == 's' && !exists || kind == 'r' && exists || kind == 's' && c.notRegular(st), "refused although nothing is in the way")
			break
		}
		for _, v := range opens {
			c.ok("refused", scn, len(v.Res) == 2 && !sureNil(st, v.Res[1]), "refused although the file was opened")
		}
	case 'd':
		made := false
		for _, v := range opens {
			made = made || v.Name == "os.Mkdir" && !failed(v.Res[0])
		}
		if good {
			c.ok("opened", scn, made || c.sameErr(st, opens, o.ret[1]), "success without the directory having been made")
		} else if len(opens) == 0 {
			c.ok("refused", scn, exists, "refused although nothing is in the way")
		}
	case 'n':
	case 'u':
		c.ok("unknown", scn, isErr(st, o.ret[1]), "an unknown transfer type is accepted")
		p, isP := o.ret[0].(*PtrV)
		c.ok("unknown", scn, isP && p.Obj == 0 && p.Ext == "", "a file is returned for an unknown transfer type")
	}
}

func (c *Ctx) sameErr(st *State, opens []*Event, v Val) bool {
	for _, o := range opens {
		if valKey(o.Res[len(o.Res)-1]) == valKey(v) {
			return true
		}
	}
	return false
}

// notRegular: something was found that is neither a file nor a directory.
func (c *Ctx) notRegular(st *State) bool {
	for _, v := range st.events() {
		if v.Kind != "call" || v.Name != "os.Stat" && v.Name != "os.Lstat" || !sureNil(st, v.Res[1]) {
			continue
		}
		no := c.modeIs(st, v.Res[0], modeDir) < 0 && c.modeIs(st, v.Res[0], modeRegular) < 0
		if no {
			return true
		}
	}
	return false
}
