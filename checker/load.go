package main

// Loading: parse, type check and build SSA for the repository's current
// working tree (linux/arm64, the platform on which every package but the
// broken client builds), then abstractly run the package initialisers.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/charlesetsmith/saratoga"

var repoDir = "/repo"

func loadEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED", "GOTOOLCHAIN", "GOPROXY", "GO111MODULE", "PWD":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=/opt/vp/gomod/go.work",
		"GOFLAGS=-overlay=/opt/vp/gomod/overlay.json", "GOOS=linux", "GOARCH=arm64", "CGO_ENABLED=0", "PWD="+repoDir)
}

func load() (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir,
		Env: loadEnv(),
	}
	names := &packages.Config{Mode: packages.NeedName, Dir: repoDir, Env: loadEnv()}
	list, err := packages.Load(names, modPath+"/...")
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, p := range list {
		if p.PkgPath == modPath+"/client" { // does not compile on any platform
			continue
		}
		pats = append(pats, p.PkgPath)
	}
	if len(pats) < 10 {
		return nil, fmt.Errorf("only %d packages found under %s", len(pats), modPath)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, er := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, er)
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	e := &Engine{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, repoPkgs: map[*ssa.Package]bool{},
		base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, fninfo: map[*ssa.Function]*fnInfo{}, obl: newRecorder(),
		imprec: map[string]bool{}, symObjs: map[string]int{}, symInfo: map[int]symElemInfo{}, files: map[string]string{},
		recvLen: map[int]*Lin{}, funcsSeen: map[string]bool{}, maxIn: 64, srcPkgs: map[string]*packages.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		e.repoPkgs[sp] = true
		e.pkgs[sp.Pkg.Path()] = sp
		e.srcPkgs[sp.Pkg.Path()] = pkgs[i]
	}
	for _, p := range prog.AllPackages() {
		if e.repoPkgs[p] || stdInline[p.Pkg.Path()] || p.Pkg.Path() == "io/fs" || p.Pkg.Path() == "syscall" {
			p.Build()
		}
		if e.pkgs[p.Pkg.Path()] == nil {
			e.pkgs[p.Pkg.Path()] = p
		}
	}
	eng = e
	return e, nil
}

func (e *Engine) repoPaths() []string {
	var r []string
	for p := range e.repoPkgs {
		r = append(r, p.Pkg.Path())
	}
	sort.Strings(r)
	return r
}

// fn finds a function or method: "pkg.Func" or "pkg.Type.Method", pkg being
// the last element of a repository package path.
func (e *Engine) fn(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	p := e.pkgs[modPath+"/"+parts[0]]
	if p == nil {
		return nil
	}
	if len(parts) == 2 {
		return p.Func(parts[1])
	}
	t := p.Type(parts[1])
	if t == nil {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := e.prog.MethodSets.MethodSet(ty)
		if sel := ms.Lookup(p.Pkg, parts[2]); sel != nil {
			m := e.prog.MethodValue(sel)
			if m != nil && m.Synthetic == "" {
				return m
			}
			if m != nil && m.Synthetic != "" {
				if f, ok := sel.Obj().(*types.Func); ok {
					if d := e.prog.FuncValue(f); d != nil {
						return d
					}
				}
				return m
			}
		}
	}
	return nil
}

func (e *Engine) typ(name string) types.Type {
	parts := strings.Split(name, ".")
	p := e.pkgs[modPath+"/"+parts[0]]
	if p == nil || p.Type(parts[1]) == nil {
		return nil
	}
	return p.Type(parts[1]).Type()
}

func (e *Engine) globalVar(name string) *ssa.Global {
	parts := strings.Split(name, ".")
	p := e.pkgs[modPath+"/"+parts[0]]
	if p == nil {
		return nil
	}
	return p.Var(parts[1])
}

// boot runs the package initialisers of the repository and then ReadConfig
// over the shipped configuration; the resulting globals are the initial state
// of every analysis.
func (e *Engine) boot(config bool) (*State, error) {
	st := newState()
	e.bootHook = e.hook
	e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if fn != nil && fn.Name() == "init" && !e.isRepo(fn) {
			return ret(s), true
		}
		return nil, false
	}
	obl := e.obl
	e.obl = newRecorder()
	e.booting = true
	defer func() { e.hook = e.bootHook; e.obl = obl; e.booting = false }()
	for _, path := range e.repoPaths() {
		f := e.pkgs[path].Func("init")
		outs := e.call(st, f, nil, nil, nil)
		if len(outs) != 1 {
			return nil, fmt.Errorf("initialiser of %s: %d outcomes", path, len(outs))
		}
		st = outs[0].st
	}
	if !config {
		return st, nil
	}
	data, err := os.ReadFile(repoDir + "/saratoga/saratoga.json")
	if err != nil {
		return nil, err
	}
	e.files["saratoga.json"] = string(data)
	f := e.fn("sarflags.Cliflags.ReadConfig")
	if f == nil {
		return nil, fmt.Errorf("sarflags.Cliflags.ReadConfig not found")
	}
	o := st.newObj('v', e.typ("sarflags.Cliflags"), "conf")
	o.V = zeroVal(o.T)
	st.setObj(o)
	e.confObj = o.id
	outs := e.call(st, f, []Val{&PtrV{Obj: o.id}, strC("saratoga.json")}, nil, nil)
	var good []*Outcome
	for _, x := range outs {
		if x.exit == "" && len(x.ret) == 1 {
			if n, k := isNilIface(x.ret[0]); k && n {
				good = append(good, x)
			}
		}
	}
	if len(good) == 0 {
		return nil, fmt.Errorf("ReadConfig of the shipped configuration has no successful outcome (%d outcomes)", len(outs))
	}
	e.bootOuts = outs
	// outcomes differ only in what the environment supplies
	st = good[len(good)-1].st
	st.ev = nil
	e.funcsSeen = map[string]bool{}
	if bad := e.obl.failed(); len(bad) > 0 {
		e.bootBad = bad
	}
	return st, nil
}

func sortStrings(s []string) { sort.Strings(s) }

// mutableGlobals makes every package variable that is assigned outside the
// initialisers and ReadConfig unknown in the initial state.
func (e *Engine) mutableGlobals(st *State) {
	mut := map[*ssa.Global]bool{}
	for p := range e.repoPkgs {
		for _, f := range funcsOf(e.prog, p) {
			if f.Name() == "init" || f.Name() == "ReadConfig" || strings.HasPrefix(f.Name(), "init#") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if g := rootGlobal(x.Addr); g != nil {
							mut[g] = true
						}
					case ssa.CallInstruction:
						for _, a := range x.Common().Args {
							if g, ok := a.(*ssa.Global); ok && integerVar(g) {
								mut[g] = true
							}
						}
					case *ssa.MapUpdate:
						if g := rootGlobal(x.Map); g != nil {
							mut[g] = true
						}
					}
				}
			}
		}
	}
	var gs []*ssa.Global
	for g := range mut {
		if e.repoPkgs[g.Pkg] {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	e.mutable = gs
	for _, g := range gs {
		id := e.global(g)
		o := *st.obj(id)
		if e.initial == nil {
			e.initial = map[*ssa.Global]Val{}
		}
		e.initial[g] = o.V
		o.V = e.sym(o.T, "g:"+g.Pkg.Pkg.Name()+"."+g.Name())
		if p, ok := o.V.(*PtrV); ok && types.Identical(o.T, types.NewPointer(e.typ("sarflags.Cliflags"))) {
			p.MayNil = "" // the node has read its configuration
		}
		st.setObj(&o)
	}
}

// rootGlobal: the package variable an address or map value is rooted in.
func rootGlobal(v ssa.Value) *ssa.Global {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.Lookup:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// funcsOf: every function of a package, methods and closures included.
func funcsOf(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	var r []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 {
			r = append(r, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if _, isI := m.Type().Underlying().(*types.Interface); isI {
				continue
			}
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if fo, ok := ms.At(i).Obj().(*types.Func); ok {
						if f := prog.FuncValue(fo); f != nil && f.Pkg == p {
							add(f)
						}
					}
				}
			}
		}
	}
	return r
}
