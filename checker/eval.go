package main

// The fixpoint engine: runs the abstract semantics over a function's SSA,
// blocks in reverse post-order, joining states when a block collects too many
// and summarising loops by an inductive generic iteration.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package
	repoPkgs  map[*ssa.Package]bool
	base      map[int]*Obj
	globals   map[*ssa.Global]int
	nextObj   int
	nextUnk   int
	nextRep   int
	fninfo    map[*ssa.Function]*fnInfo
	obl       *Recorder
	stack     []*ssa.Function
	maxIn     int
	recvLen   map[int]*Lin
	maxOut    int
	mapRev    bool
	steps     int
	maxSteps  int
	imprec    map[string]bool
	initial   map[*ssa.Global]Val // values of mutable variables before the first assignment
	watch     map[int]string      // objects whose accesses are events
	hook      func(st *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool)
	joinLoop  func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool
	onRec     func(s *State, fn *ssa.Function, args []Val, site ssa.Instruction) ([]*Outcome, bool) // calls of functions under way
	joinCall  func(fn *ssa.Function, s *State) bool
	syncGo    func(s *State, f *FuncV) bool           // run a started function in place
	onRecv    func(s *State, in ssa.Instruction) bool // stop before receiving here
	obligeIf  func(s *State) bool
	recvAlts  func(s *State, t types.Type) []recvAlt // what may be received
	unroll    func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool
	turns     int                                                        // most turns of a loop unrolled for e.unroll
	brief     func(fn *ssa.Function, body map[*ssa.BasicBlock]bool) bool // take the loop for any number of turns
	onBack    func(fn *ssa.Function, header *ssa.BasicBlock, start, back *State)
	spawn     []*Event
	noInline  func(fn *ssa.Function) bool
	funcsSeen map[string]bool
	logw      int
	symObjs   map[string]int
	symInfo   map[int]symElemInfo
	files     map[string]string
	constDir  string
	quiet     int
	srcPkgs   map[string]*packages.Package
	bootHook  func(st *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool)
	booting   bool
	confObj   int
	recovered Val                           // what recover returns, nil outside panics
	jsonSub   func(interface{}) interface{} // a check may ask for some leaves of the configuration to be unknown
	bootOuts  []*Outcome
	bootBad   []*Site
	mutable   []*ssa.Global
}

var eng *Engine

type recvAlt struct {
	label string
	mk    func(s *State) Val
}

type Outcome struct {
	st   *State
	ret  []Val
	exit string // non-empty: the process ends here
}

// Recorder collects proof obligations.
type Recorder struct {
	sites map[string]*Site
	order []string
}
type Site struct {
	Key, Fn, Kind, Pos, Msg string
	OK, Bad                 int
	Why                     string
}

func newRecorder() *Recorder { return &Recorder{sites: map[string]*Site{}} }
func (r *Recorder) add(s *Site) {
	o, ok := r.sites[s.Key]
	if !ok {
		c := *s
		r.sites[s.Key] = &c
		r.order = append(r.order, s.Key)
		return
	}
	o.OK += s.OK
	o.Bad += s.Bad
	if s.Bad > 0 && o.Why == "" {
		o.Why, o.Msg = s.Why, s.Msg
	}
}
func (r *Recorder) merge(x *Recorder) {
	for _, k := range x.order {
		r.add(x.sites[k])
	}
}
func (r *Recorder) failed() []*Site {
	var f []*Site
	for _, k := range r.order {
		if r.sites[k].Bad > 0 {
			f = append(f, r.sites[k])
		}
	}
	return f
}

func (e *Engine) pos(p token.Pos) string {
	ps := e.fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (e *Engine) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	p := in.Pos()
	if p == token.NoPos {
		// nearest positioned instruction of the block
		for _, x := range in.Block().Instrs {
			if x.Pos() != token.NoPos {
				p = x.Pos()
			}
			if x == in && p != token.NoPos {
				break
			}
		}
	}
	if p == token.NoPos {
		p = in.Parent().Pos()
	}
	return e.pos(p)
}

// oblige records a proof obligation at an instruction.
func (e *Engine) oblige(st *State, in ssa.Instruction, kind string, ok bool, msg string) {
	fn := "?"
	if in != nil && in.Parent() != nil {
		fn = in.Parent().String()
	}
	s := &Site{Fn: fn, Kind: kind, Pos: e.instrPos(in), Msg: msg}
	s.Key = fn + "|" + kind + "|" + s.Pos + "|" + instrIdx(in)
	if e.obligeIf != nil && !e.obligeIf(st) {
		return
	}
	if ok {
		s.OK = 1
	} else {
		s.Bad = 1
		if os.Getenv("SARA_DEBUG") != "" {
			s.Why = st.dump()
		} else {
			s.Why = "not established"
		}
	}
	e.obl.add(s)
}

func instrIdx(in ssa.Instruction) string {
	if in == nil || in.Block() == nil {
		return ""
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("b%d.%d", in.Block().Index, i)
		}
	}
	return ""
}

// ------------------------------------------------------------------- CFG

type fnInfo struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live  map[*ssa.BasicBlock]map[ssa.Value]bool
	irred bool
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.num[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.loops[s] = body
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if body[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if fi.num[s] <= fi.num[b] {
				fi.irred = true
			}
		}
	}
	// liveness of SSA values at block entry (after phis)
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.rpo {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				ch = true
			}
		}
	}
	fi.live = live
	e.fninfo[fn] = fi
	return fi
}

// ------------------------------------------------------------------- calls

func (e *Engine) call(st *State, fn *ssa.Function, args []Val, binds []Val, site ssa.Instruction) []*Outcome {
	if st.dead {
		return nil
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 0 && e.onRec != nil {
		if r, ok := e.onRec(st, fn, args, site); ok {
			return r
		}
	}
	if len(e.stack) > 60 || rec > 14 {
		e.imprec["recursion limit in "+fn.String()] = true
		return e.havocCall(st, fn.Signature, fn.String(), args, site, true)
	}
	e.steps++
	if e.funcsSeen != nil && e.quiet == 0 {
		e.funcsSeen[fn.String()] = true
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()

	fi := e.info(fn)
	caller, cdef, cprev := st.env, st.defers, st.prev
	st = st.clone()
	st.env = map[ssa.Value]Val{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			st.env[fv] = binds[i]
		}
	}
	st.prev = nil
	in := map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}}
	_, _, outs := e.runRegion(fi, in, nil, nil, false)
	outs = e.groupOutcomes(outs, e.joinCall != nil && len(outs) > 1 && e.joinCall(fn, outs[0].st))
	for i, o := range outs {
		if i == len(outs)-1 {
			o.st.env = cloneMap(caller)
		} else {
			o.st.env = cloneMap(caller)
		}
		o.st.defers = cdef
		o.st.prev = cprev
	}
	return outs
}

func (e *Engine) limitOutcomes(outs []*Outcome) []*Outcome {
	return e.groupOutcomes(outs, false)
}

func (e *Engine) groupOutcomes(outs []*Outcome, all bool) []*Outcome {
	max := 160
	if e.maxOut > 0 {
		max = e.maxOut
	}
	if all {
		max = 1
	}
	if len(outs) <= max {
		return outs
	}
	groups := map[string][]*Outcome{}
	var order []string
	for _, o := range outs {
		k := o.exit + "|"
		for _, r := range o.ret {
			k += shapeKey(r) + ","
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var res []*Outcome
	for _, k := range order {
		g := groups[k]
		acc := g[0]
		for _, o := range g[1:] {
			acc = joinOutcome(acc, o)
		}
		res = append(res, acc)
	}
	return res
}

func joinOutcome(a, b *Outcome) *Outcome {
	j := newJoiner(a.st, b.st)
	r := &Outcome{exit: a.exit}
	for i := range a.ret {
		r.ret = append(r.ret, j.val(a.ret[i], b.ret[i], nil))
	}
	r.st = j.finish(nil)
	j.dropTwins(r.ret...)
	return r
}

// runRegion runs all blocks of region (nil: whole function) in RPO from the
// given entry states. Edges to header are returned as back states, edges
// leaving the region as exits.
func (e *Engine) runRegion(fi *fnInfo, in map[*ssa.BasicBlock][]*State, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, headerPre bool) (exits map[*ssa.BasicBlock][]*State, back []*State, outs []*Outcome) {
	exits = map[*ssa.BasicBlock][]*State{}
	route := func(b *ssa.BasicBlock, s *State) {
		if s.dead {
			return
		}
		if b == header {
			back = append(back, s)
			return
		}
		if region != nil && !region[b] {
			exits[b] = append(exits[b], s)
			return
		}
		in[b] = append(in[b], s)
	}
	for _, b := range fi.rpo {
		if region != nil && !region[b] {
			continue
		}
		sts := in[b]
		if len(sts) == 0 {
			continue
		}
		delete(in, b)
		if body, isLoop := fi.loops[b]; isLoop && b != header {
			ex, os := e.runLoop(fi, b, body, sts)
			outs = append(outs, os...)
			var bs []*ssa.BasicBlock
			for x := range ex {
				bs = append(bs, x)
			}
			sort.Slice(bs, func(i, j int) bool { return fi.num[bs[i]] < fi.num[bs[j]] })
			for _, x := range bs {
				for _, s := range ex[x] {
					route(x, s)
				}
			}
			continue
		}
		if !(b == header && headerPre) {
			for _, s := range sts {
				e.doPhis(s, b)
			}
		}
		sts = e.limitStates(fi, b, sts)
		for _, s := range sts {
			e.exec(s, b, 0, func(succ *ssa.BasicBlock, ns *State) {
				ns.prev = b
				route(succ, ns)
			}, func(o *Outcome) { outs = append(outs, o) })
		}
	}
	return
}

func (e *Engine) doPhis(s *State, b *ssa.BasicBlock) {
	if s.prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == s.prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		return
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var pvs []pv
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{ph, e.val(s, ph.Edges[pi])})
	}
	for _, x := range pvs {
		s.env[x.p] = x.v
	}
}

func (e *Engine) limitStates(fi *fnInfo, b *ssa.BasicBlock, sts []*State) []*State {
	lv := fi.live[b]
	if os.Getenv("SARA_TRACE") != "" && len(sts) > traceMin {
		fmt.Fprintln(os.Stderr, "states", len(sts), fi.fn, e.instrPos(b.Instrs[0]))
	}
	for _, s := range sts {
		for v := range s.env {
			if !lv[v] {
				if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
					continue
				}
				delete(s.env, v)
			}
		}
	}
	if len(sts) <= e.maxIn {
		return sts
	}
	if os.Getenv("SARA_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "joining", len(sts), fi.fn, e.instrPos(b.Instrs[0]))
	}
	var groups map[string][]*State
	var order []string
	// as fine a division as the bound allows
	for lvl := 4; lvl >= 0; lvl-- {
		groups, order = map[string][]*State{}, nil
		for _, s := range sts {
			k := e.envShape(s, lvl)
			if _, ok := groups[k]; !ok {
				order = append(order, k)
			}
			groups[k] = append(groups[k], s)
		}
		if len(order) <= e.maxIn {
			break
		}
	}
	var res []*State
	for _, k := range order {
		res = append(res, joinAll(groups[k]))
	}
	return res
}

func joinAll(g []*State) *State {
	acc := g[0]
	for _, s := range g[1:] {
		j := newJoiner(acc, s)
		acc = j.finish(acc)
		j.dropTwins()
	}
	return acc
}

// envShape: what tells states apart that are better not joined; level 4 adds
// how long the tables are, 3 looks into the variables pointed to, 2 at the values at hand, 1 only at which
// pointers and errors are missing, 0 at nothing.
func (e *Engine) envShape(s *State, lvl int) string {
	if lvl == 0 {
		return "*"
	}
	var ks []string
	for v, x := range s.env {
		switch y := x.(type) {
		case *PtrV, *IfaceV, *BoolV, *FuncV, *IterV, *MapV:
			k := shapeKey(x)
			if lvl == 1 {
				switch x.(type) {
				case *PtrV, *IfaceV:
				default:
					continue
				}
			}
			if p, ok := y.(*PtrV); ok && lvl >= 3 && p.Obj != 0 && len(p.Path) == 0 {
				if _, isA := v.(*ssa.Alloc); isA {
					if o := s.obj(p.Obj); o != nil {
						switch o.V.(type) {
						case *PtrV, *IfaceV, *BoolV:
							k += "=" + shapeKey(o.V)
						}
					}
				}
			}
			ks = append(ks, v.Name()+":"+k)
		}
	}
	for k, n := range s.held {
		if n != 0 {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
	}
	if lvl >= 4 {
		for g, id := range e.globals {
			if o := s.obj(id); o != nil {
				if x, ok := o.V.(*SliceV); ok {
					if n, isC := s.norm(x.Len).constInt(); isC {
						ks = append(ks, fmt.Sprintf("%s#%d", g.Name(), n))
					}
				}
			}
		}
	}
	sort.Strings(ks)
	if s.ev != nil && lvl > 1 {
		ks = append(ks, fmt.Sprintf("ev%d", s.ev.n))
	}
	return strings.Join(ks, ";")
}

func shapeKey(v Val) string {
	switch x := v.(type) {
	case *PtrV:
		if x.Obj == 0 && x.Ext == "" {
			return "nil"
		}
		if x.MayNil != "" {
			return "p?"
		}
		return "p"
	case *IfaceV:
		if x.Sym != "" {
			return "if?"
		}
		if x.T == nil {
			return "nil"
		}
		return "if:" + x.T.String()
	case *BoolV:
		if x.Op == 'c' {
			return fmt.Sprint(x.C)
		}
		return "b"
	case *FuncV:
		if x.Fn != nil {
			return x.Fn.String()
		}
		return "fn"
	case *IterV:
		return "it"
	}
	return ""
}

// -------------------------------------------------------------------- loops

func (e *Engine) runLoop(fi *fnInfo, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, sts []*State) (map[*ssa.BasicBlock][]*State, []*Outcome) {
	exits := map[*ssa.BasicBlock][]*State{}
	var outs []*Outcome
	for _, s := range sts {
		e.doPhis(s, h)
	}
	sts = e.limitStates(fi, h, sts)
	add := func(ex map[*ssa.BasicBlock][]*State) {
		for b, l := range ex {
			exits[b] = append(exits[b], l...)
		}
	}
	// states here already carry phi values
	cur := sts
	unroll := e.unroll != nil && e.unroll(fi.fn, body)
	most := 3000
	if unroll && e.turns > 0 {
		most = e.turns
	}
	if e.brief != nil && e.brief(fi.fn, body) {
		most = 0
	}
	for it := 0; len(cur) > 0; it++ {
		var next []*State
		for _, s := range cur {
			if it < most && (unroll || e.decided(fi, h, body, s)) {
				in := map[*ssa.BasicBlock][]*State{h: {s}}
				ex, back, os := e.runRegion(fi, in, body, h, true)
				add(ex)
				outs = append(outs, os...)
				for _, b := range back {
					e.doPhis(b, h)
					if !b.dead {
						next = append(next, b)
					}
				}
			} else {
				ex, os := e.symLoop(fi, h, body, s)
				add(ex)
				outs = append(outs, os...)
			}
		}
		cur = e.limitStates(fi, h, next)
	}
	if !unroll && e.joinLoop != nil && e.joinLoop(fi.fn, body) {
		for b, l := range exits {
			if len(l) > 1 {
				exits[b] = []*State{joinAll(l)}
			}
		}
	}
	return exits, outs
}

// decided: the loop condition in the header is determined in this state.
func (e *Engine) decided(fi *fnInfo, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || (body[h.Succs[0]] == body[h.Succs[1]]) {
		return false
	}
	dec := true
	was := 0
	e.mute(func() {
		p := s.clone()
		e.execRange(p, h, 0, len(h.Instrs)-1, func(ns *State) {
			b, ok := e.val(ns, iff.Cond).(*BoolV)
			v := 0
			if ok {
				v = ns.evalBool(b)
			}
			// all continuations have to agree (a symbolic map iteration forks)
			if v == 0 || (was != 0 && was != v) {
				dec = false
			}
			was = v
		}, func(*Outcome) {})
	})
	return dec
}

// mute runs f without recording obligations.
func (e *Engine) mute(f func()) {
	o := e.obl
	e.obl = newRecorder()
	e.quiet++
	defer func() { e.obl = o; e.quiet-- }()
	f()
}

// ---------------------------------------------------------- symbolic loops

type leafKind byte

const (
	lkInv  leafKind = 'i' // unchanged
	lkInd  leafKind = 'n' // entry + stride*k
	lkMono leafKind = 'm' // >= entry
	lkAcc  leafKind = 'a' // slice accumulator, M appended per iteration
	lkWin  leafKind = 'w' // slice with M elements dropped from its front per iteration
	lkHav  leafKind = 'h' // anything of its type
)

type leafPlan struct {
	kind   leafKind
	stride *Lin
	m      int
	rep    *Rep
	nonnil bool
}
type arrPlan struct {
	known bool
	start *Lin // A(k)
	m     int64
	rep   *Rep
	body  string
}
type loopPlan struct {
	k    *Atom
	phi  map[*ssa.Phi]*leafPlan
	cell map[string]*leafPlan // objid + path
	arr  map[int]*arrPlan
	mp   map[int]bool
}

func (e *Engine) headerPhis(h *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (e *Engine) symLoop(fi *fnInfo, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s0 *State) (map[*ssa.BasicBlock][]*State, []*Outcome) {
	phis := e.headerPhis(h)
	mark := len(atomList)
	k := freshAtom("k", bigZero, maxLen)
	plan := &loopPlan{k: k, phi: map[*ssa.Phi]*leafPlan{}, cell: map[string]*leafPlan{}, arr: map[int]*arrPlan{}, mp: map[int]bool{}}
	for _, p := range phis {
		plan.phi[p] = &leafPlan{kind: lkInv}
	}

	runOnce := func(s *State) (map[*ssa.BasicBlock][]*State, []*State, []*Outcome) {
		in := map[*ssa.BasicBlock][]*State{h: {s}}
		e.logw++
		s.wlog = nil
		ex, back, os := e.runRegion(fi, in, body, h, true)
		e.logw--
		for _, b := range back {
			e.doPhis(b, h)
		}
		var nb []*State
		for _, b := range back {
			if !b.dead {
				nb = append(nb, b)
			}
		}
		return ex, nb, os
	}

	// pass A: one concrete-start iteration, to propose strides
	e.mute(func() {
		a := s0.clone()
		_, back, _ := runOnce(a)
		for _, b := range back {
			e.proposeFirst(plan, phis, s0, b)
		}
	})

	for round := 0; round < 10; round++ {
		saved := e.obl
		e.obl = newRecorder()
		muted := e.obl
		gens := e.generic(plan, phis, s0, fi, h, body)
		exits := map[*ssa.BasicBlock][]*State{}
		var outs []*Outcome
		var backs []*State
		var starts []*State
		stable := true
		e.quiet++
		for _, g := range gens {
			start := g.clone()
			ex, back, os := runOnce(g)
			for b, l := range ex {
				exits[b] = append(exits[b], l...)
			}
			outs = append(outs, os...)
			for _, b := range back {
				if !e.verify(plan, phis, s0, start, b) {
					stable = false
				}
				backs = append(backs, b)
				starts = append(starts, start)
			}
		}
		e.quiet--
		e.obl = saved
		if !stable {
			continue
		}
		if !e.fillReps(plan, phis, s0, starts, backs, mark) {
			if os.Getenv("SARA_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "contents not filled", fi.fn, round)
			}
			continue
		}
		if e.quiet == 0 {
			for _, s := range muted.order {
				_ = s
			}
		}
		e.obl.merge(muted)
		if e.onBack != nil && e.quiet == 0 {
			for i, b := range backs {
				e.onBack(fi.fn, h, starts[i], b)
			}
		}
		// universally quantified facts for the states leaving through the header
		fa := e.collectForall(plan, starts, backs, mark)
		if fa != nil {
			for _, l := range exits {
				for _, s := range l {
					if s.prev == h {
						s.forall = append(s.forall, fa)
					}
				}
			}
		}
		return exits, outs
	}
	if os.Getenv("SARA_DEBUG") != "" {
		for c, lp := range plan.cell {
			fmt.Fprintln(os.Stderr, "unstable loop", fi.fn, "cell", c, string(lp.kind), lp.nonnil)
		}
		for id, ap := range plan.arr {
			fmt.Fprintln(os.Stderr, "unstable loop", fi.fn, "array", id, ap.known, ap.m)
		}
		for ph, lp := range plan.phi {
			fmt.Fprintln(os.Stderr, "unstable loop", fi.fn, "phi", ph.Comment, string(lp.kind), lp.nonnil)
		}
	}
	e.imprec["loop not stabilised in "+fi.fn.String()] = true
	e.oblige(s0, h.Instrs[0], "loop", false, "loop could not be summarised")
	return map[*ssa.BasicBlock][]*State{}, nil
}

func leafKey(id int, path string) string { return fmt.Sprintf("%d%s", id, path) }

// proposeFirst compares the state after the first iteration with the entry.
func (e *Engine) proposeFirst(plan *loopPlan, phis []*ssa.Phi, s0, b *State) {
	for _, p := range phis {
		e.propose(plan.phi[p], s0, b, s0.env[p], b.env[p])
	}
	for id, o1 := range b.heap {
		o0 := s0.obj(id)
		if o0 == nil || o0 == o1 {
			continue
		}
		switch o1.K {
		case 'v':
			e.walkLeaves(o0.V, o1.V, "", func(path string, x, y Val) {
				key := leafKey(id, path)
				lp := plan.cell[key]
				if lp == nil {
					lp = &leafPlan{kind: lkInv}
					plan.cell[key] = lp
				}
				e.propose(lp, s0, b, x, y)
			})
		case 'a':
			if plan.arr[id] == nil {
				plan.arr[id] = &arrPlan{}
			}
		case 'm':
			plan.mp[id] = true
		case 'i':
			plan.mp[id] = true
		}
	}
}

// walkLeaves calls f for differing leaves of two value trees.
func (e *Engine) walkLeaves(x, y Val, path string, f func(path string, x, y Val)) {
	if x == y || valKey(x) == valKey(y) {
		return
	}
	sx, ok1 := x.(*StructV)
	sy, ok2 := y.(*StructV)
	if ok1 && ok2 && len(sx.F) == len(sy.F) {
		for i := range sx.F {
			e.walkLeaves(sx.F[i], sy.F[i], fmt.Sprintf("%s.%d", path, i), f)
		}
		return
	}
	f(path, x, y)
}

func (e *Engine) propose(lp *leafPlan, s0, b *State, x, y Val) {
	if lp.kind == lkHav {
		return
	}
	if b.valSame(x, y) {
		if lp.kind == lkInd && !lp.stride.isC(0) {
			lp.kind = lkMono
		}
		return
	}
	switch xv := x.(type) {
	case *IntV:
		if yv, ok := y.(*IntV); ok {
			d := b.norm(linSub(yv.L, xv.L))
			if d.isConst() {
				if lp.kind == lkInv && lp.stride == nil {
					lp.kind, lp.stride = lkInd, d
					return
				}
				if lp.kind == lkInd && linEq(lp.stride, d) {
					return
				}
				if d.c.Sign() >= 0 && (lp.stride == nil || lp.stride.c.Sign() >= 0) {
					lp.kind = lkMono
					return
				}
			}
		}
	case *SliceV:
		if yv, ok := y.(*SliceV); ok {
			d := b.norm(linSub(yv.Len, xv.Len))
			if n, ok := b.dropped(xv, yv); ok && (lp.kind == lkInv || lp.kind == lkWin && lp.m == n) {
				lp.kind, lp.m = lkWin, n
				return
			}
			if n, ok := d.constInt(); ok && n > 0 && n < 64 && lp.kind != lkMono {
				if lp.kind == lkInv || (lp.kind == lkAcc && lp.m == n) {
					if lp.kind == lkInv {
						e.nextRep++
						lp.rep = &Rep{id: e.nextRep, M: n}
					}
					lp.kind, lp.m = lkAcc, n
					return
				}
			}
		}
	}
	lp.kind = lkHav
	lp.nonnil = nonNil(x) && nonNil(y)
}

// dropped is n when y is x without its first n elements.
func (st *State) dropped(x, y *SliceV) (int, bool) {
	if x.Arr == 0 || x.Arr != y.Arr {
		return 0, false
	}
	n, ok := st.norm(linSub(y.Off, x.Off)).constInt()
	if !ok || n <= 0 || !st.proveEQ(linSub(x.Len, y.Len), linC(int64(n))) || !st.proveEQ(linSub(x.Cap, y.Cap), linC(int64(n))) {
		return 0, false
	}
	return n, true
}

func nonNil(v Val) bool {
	switch x := v.(type) {
	case *PtrV:
		return (x.Obj != 0 || x.Ext != "") && x.MayNil == ""
	case *IfaceV:
		return (x.Sym == "" && x.T != nil) || (x.Sym != "" && !x.MayNil)
	}
	return false
}

func (st *State) valSame(x, y Val) bool {
	if valKey(x) == valKey(y) {
		return true
	}
	switch a := x.(type) {
	case *IntV:
		if b, ok := y.(*IntV); ok {
			return st.proveEQ(a.L, b.L)
		}
	case *StrV:
		if b, ok := y.(*StrV); ok {
			return st.seqEqual(a.S, b.S) == 1
		}
	case *SliceV:
		if b, ok := y.(*SliceV); ok {
			return a.Arr == b.Arr && st.proveEQ(a.Len, b.Len) && st.proveEQ(a.Off, b.Off)
		}
	case *BoolV:
		if b, ok := y.(*BoolV); ok {
			return a.key() == b.key()
		}
	}
	return false
}

// planVal: the value of a leaf at the start of iteration k.
func (e *Engine) planVal(st *State, lp *leafPlan, k *Lin, x Val, t types.Type) Val {
	switch lp.kind {
	case lkInv:
		return x
	case lkInd:
		return &IntV{linAdd(x.(*IntV).L, linMul(k, lp.stride.c))}
	case lkMono:
		v, ok := e.freshLike(st, x, t, lp.nonnil).(*IntV)
		if ok {
			st.assumeGE(linSub(v.L, x.(*IntV).L))
			return v
		}
		return e.freshLike(st, x, t, lp.nonnil)
	case lkWin:
		xv := x.(*SliceV)
		n := linMul(k, big.NewInt(int64(lp.m)))
		return &SliceV{Arr: xv.Arr, Off: linAdd(xv.Off, n), Len: linSub(xv.Len, n), Cap: linSub(xv.Cap, n), Nil: xv.Nil, NilKey: xv.NilKey}
	case lkAcc:
		xv := x.(*SliceV)
		seq, ok := st.sliceSeq(xv)
		n := linMul(k, big.NewInt(int64(lp.m)))
		if !ok {
			seq = unkSeq(xv.Len)
		}
		o := st.newObj('a', nil, "acc")
		if xo := st.obj(xv.Arr); xo != nil {
			o.T = xo.T
		}
		seq = append(append(Seq{}, seq...), Piece{K: pRep, Len: n, Off: linC(0), Rep: lp.rep})
		l := linAdd(xv.Len, n)
		cp := freshAtom("cap", bigZero, pow2(42))
		st.addFact(linSub(linA(cp), l))
		o.S = append(append(Seq{}, seq...), unkSeq(linSub(linA(cp), l))...)
		return &SliceV{Arr: o.id, Off: linC(0), Len: l, Cap: linA(cp), Nil: '?', NilKey: fmt.Sprintf("acc%d", o.id)}
	}
	return e.freshLike(st, x, t, lp.nonnil)
}

// generic builds the states at the loop header for an arbitrary iteration k.
func (e *Engine) generic(plan *loopPlan, phis []*ssa.Phi, s0 *State, fi *fnInfo, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*State {
	k := linA(plan.k)
	build := func(k *Lin) *State {
		g := s0.clone()
		for _, p := range phis {
			g.env[p] = e.planVal(g, plan.phi[p], k, s0.env[p], p.Type())
		}
		var keys []string
		for c := range plan.cell {
			keys = append(keys, c)
		}
		sort.Strings(keys)
		for _, c := range keys {
			lp := plan.cell[c]
			if lp.kind == lkInv {
				continue
			}
			i := strings.IndexByte(c, '.')
			ids, path := c, ""
			if i >= 0 {
				ids, path = c[:i], c[i:]
			}
			var id int
			fmt.Sscan(ids, &id)
			o := g.obj(id)
			no := *o
			no.V = e.updPath(o.V, path, o.T, func(old Val, t types.Type) Val { return e.planVal(g, lp, k, old, t) })
			g.setObj(&no)
		}
		for id, ap := range plan.arr {
			o := g.obj(id)
			no := *o
			no.V = nil
			base := o.arr()
			if ap.known {
				sb := &subst{a: plan.k, l: linC(0)}
				a0 := sb.lin(ap.start)
				ak := (&subst{a: plan.k, l: k}).lin(ap.start)
				hd, rest, ok1 := g.seqSplit(base, a0)
				_, tl, ok2 := g.seqSplit(base, ak)
				if !ok2 {
					// position inside base not ordered yet: bound by the region's own write check
					n := seqLen(base)
					if allZero(base) || ok1 && allZero(rest) {
						tl, ok2 = Seq{{K: pZero, Len: linSub(n, ak)}}, true
					}
				}
				if ok1 && ok2 {
					no.S = append(append(append(Seq{}, hd...), Piece{K: pRep, Rep: ap.rep, Off: linC(0), Len: linMul(k, big.NewInt(ap.m))}), tl...)
					if no.K == 'v' {
						no.V = &ArrV{S: no.S}
					}
					g.setObj(&no)
					continue
				}
				ap.known = false
				ap.m = -1
			}
			no.S = unkSeq(seqLen(base))
			if no.K == 'v' {
				no.V = &ArrV{S: no.S}
			}
			g.setObj(&no)
		}
		for id := range plan.mp {
			o := g.obj(id)
			no := *o
			if o.K == 'm' {
				e.nextUnk++
				no.M = &MapO{ent: map[string]MapEnt{}, del: map[string]bool{}, open: true, name: fmt.Sprintf("havoc%d", e.nextUnk), T: o.M.T}
			} else {
				it := *o.It
				it.sym = true
				no.It = &it
			}
			g.setObj(&no)
		}
		return g
	}
	g := build(k)
	// candidate bound on k from the loop condition
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body[h.Succs[0]] == body[h.Succs[1]] {
		return []*State{g}
	}
	var conds []*BoolV
	e.mute(func() {
		p := g.clone()
		e.execRange(p, h, 0, len(h.Instrs)-1, func(ns *State) {
			b, _ := e.val(ns, iff.Cond).(*BoolV)
			if b != nil && !body[h.Succs[0]] {
				b = boolNot(b)
			}
			if b != nil && b.Op == '>' {
				b = &BoolV{Op: '>', L: ns.norm(b.L)}
			}
			if b != nil && b.Op == '=' {
				c := *b
				c.L = ns.norm(b.L)
				b = &c
			}
			conds = append(conds, b)
		}, func(*Outcome) {})
	})
	if len(conds) != 1 || conds[0] == nil {
		return []*State{g}
	}
	c := conds[0]
	if c.Op == '=' && c.Neg && c.L.has(plan.k) {
		// i != n with unit stride: treat as i < n when that holds initially
		co := c.L.coef(plan.k)
		if co.CmpAbs(bigOne) == 0 {
			l := c.L
			if co.Sign() > 0 {
				l = linNeg(l)
			}
			// l = n - i, decreasing; invariant l >= 0
			at0 := (&subst{a: plan.k, l: linC(0)}).lin(l)
			if s0.proveGE(at0) {
				g.addFact(l)
			}
		}
		return []*State{g}
	}
	if c.Op != '>' || !c.L.has(plan.k) {
		return []*State{g}
	}
	prev := (&subst{a: plan.k, l: linAddC(k, -1)}).lin(c.L)
	at0 := (&subst{a: plan.k, l: linC(0)}).lin(prev)
	if s0.proveGE(at0) {
		g.addFact(prev)
		return []*State{g}
	}
	g0 := build(linC(0))
	g1 := g
	g1.addFact(linAddC(k, -1))
	g1.addFact(prev)
	return []*State{g0, g1}
}

func allZero(s Seq) bool {
	for _, p := range s {
		if p.K != pZero {
			return false
		}
	}
	return true
}

// verify checks that the back edge state matches the plan at k+1, refining
// the plan (and returning false) where it does not.
func (e *Engine) verify(plan *loopPlan, phis []*ssa.Phi, s0, g, b *State) bool {
	ok := true
	// leaf value at start of this iteration: g; after: b
	check := func(lp *leafPlan, x, y Val) {
		switch lp.kind {
		case lkInv:
			if !b.valSame(x, y) {
				before := *lp
				e.propose(lp, g, b, x, y)
				if lp.kind == before.kind {
					lp.kind = lkHav
				}
				ok = false
			}
		case lkInd:
			xv, o1 := x.(*IntV)
			yv, o2 := y.(*IntV)
			if !o1 || !o2 {
				lp.kind = lkHav
				ok = false
				return
			}
			if !b.proveEQ(yv.L, linAdd(xv.L, lp.stride)) {
				if b.proveGE(linSub(yv.L, xv.L)) && lp.stride.c.Sign() >= 0 {
					lp.kind = lkMono
				} else {
					lp.kind = lkHav
				}
				ok = false
			}
		case lkMono:
			xv, o1 := x.(*IntV)
			yv, o2 := y.(*IntV)
			if !o1 || !o2 || !b.proveGE(linSub(yv.L, xv.L)) {
				lp.kind = lkHav
				ok = false
			}
		case lkAcc:
			xv, o1 := x.(*SliceV)
			yv, o2 := y.(*SliceV)
			if !o1 || !o2 || !b.proveEQ(yv.Len, linAddC(xv.Len, int64(lp.m))) {
				lp.kind = lkHav
				ok = false
				return
			}
		case lkWin:
			xv, o1 := x.(*SliceV)
			yv, o2 := y.(*SliceV)
			if o1 && o2 {
				if n, same := b.dropped(xv, yv); same && n == lp.m {
					return
				}
			}
			lp.kind = lkHav
			ok = false
		case lkHav:
			if lp.nonnil && !(nonNil(x) && nonNil(y)) {
				lp.nonnil = false
				ok = false
			}
		}
	}
	for _, p := range phis {
		check(plan.phi[p], g.env[p], b.env[p])
	}
	for id, o1 := range b.heap {
		o0 := s0.obj(id)
		if o0 == nil {
			continue
		}
		og := g.obj(id)
		if og == o1 {
			continue
		}
		switch o1.K {
		case 'v':
			if _, isArr := o1.V.(*ArrV); isArr {
				if plan.arr[id] == nil {
					plan.arr[id] = &arrPlan{}
					ok = false
				} else if !e.verifyArr(plan, plan.arr[id], id, g, b) {
					ok = false
				}
				continue
			}
			e.walkLeaves(og.V, o1.V, "", func(path string, x, y Val) {
				key := leafKey(id, path)
				lp := plan.cell[key]
				if lp == nil {
					// covered by a planned ancestor?
					for p := path; ; {
						if q := plan.cell[leafKey(id, p)]; q != nil && q.kind == lkHav {
							return
						}
						i := strings.LastIndexByte(p, '.')
						if i < 0 {
							break
						}
						p = p[:i]
					}
					lp = &leafPlan{kind: lkInv}
					plan.cell[key] = lp
				}
				check(lp, x, y)
			})
		case 'a':
			ap := plan.arr[id]
			if ap == nil {
				plan.arr[id] = &arrPlan{}
				ok = false
				continue
			}
			if !e.verifyArr(plan, ap, id, g, b) {
				ok = false
			}
		case 'm', 'i':
			if !plan.mp[id] {
				plan.mp[id] = true
				ok = false
			}
		}
	}
	return ok
}

func (e *Engine) verifyArr(plan *loopPlan, ap *arrPlan, id int, g, b *State) bool {
	if ap.m == -1 {
		return true // contents given up
	}
	var ws []wrec
	for _, w := range b.wlog {
		if w.obj == id {
			ws = append(ws, w)
		}
	}
	if len(ws) == 0 {
		return true
	}
	start, end := ws[0].off, linAdd(ws[0].off, ws[0].n)
	for _, w := range ws[1:] {
		switch {
		case b.proveEQ(w.off, end):
			end = linAdd(end, w.n)
		case b.proveGE(linSub(w.off, start)) && b.proveGE(linSub(end, linAdd(w.off, w.n))):
		case b.proveEQ(linAdd(w.off, w.n), start):
			start = w.off
		default:
			ap.giveUp(b, start, end, ws)
			return false
		}
	}
	start, end = b.norm(start), b.norm(end)
	next := (&subst{a: plan.k, l: linAddC(linA(plan.k), 1)}).lin(start)
	d := b.norm(linSub(end, start))
	m, isc := d.constInt()
	if !isc || m <= 0 || !start.has(plan.k) && true && !b.proveEQ(next, end) {
		ap.giveUp(b, start, end, ws)
		return false
	}
	if !b.proveEQ(next, end) {
		ap.giveUp(b, start, end, ws)
		return false
	}
	if !ap.known {
		ap.known, ap.start, ap.m = true, start, int64(m)
		e.nextRep++
		ap.rep = &Rep{id: e.nextRep, M: m}
		return false
	}
	if !b.proveEQ(ap.start, start) || ap.m != int64(m) {
		ap.giveUp(b, start, end, ws)
		return false
	}
	return true
}

func (ap *arrPlan) giveUp(b *State, start, end *Lin, ws []wrec) {
	if os.Getenv("SARA_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "array plan given up: start=%v end=%v (%v) norm %v %v\n", start, end, ap.known, b.norm(start), b.norm(end))
		for _, w := range ws {
			fmt.Fprintf(os.Stderr, "   write %v + %v\n", w.off, w.n)
		}
	}
	ap.m, ap.known = -1, false
}

// pureIn: every atom of the form was either created before the loop, or is
// a rebuildable function of such atoms and the loop index.
func pureAtom(a *Atom, mark int, k *Atom) bool {
	if a == k || a.id < mark {
		return true
	}
	switch a.op {
	case "field":
		return pureAtom(a.parent, mark, k)
	case "elem", "byte", "be":
		s := a.args[0].(*Src)
		return pureSrc(s, mark, k) && pureLin(a.args[1].(*IntV).L, mark, k)
	case "call":
		for _, v := range a.args {
			if !pureVal(v, mark, k) {
				return false
			}
		}
		return true
	case "len":
		return true
	}
	return false
}
func pureSrc(s *Src, mark int, k *Atom) bool {
	if s.op == "elem" {
		return pureSrc(s.par, mark, k) && pureLin(s.idx, mark, k)
	}
	return s.Len.atom() == nil || s.Len.atom().id < mark
}
func pureLin(l *Lin, mark int, k *Atom) bool {
	if l == nil {
		return true
	}
	for _, t := range l.t {
		if !pureAtom(t.a, mark, k) {
			return false
		}
	}
	return true
}
func pureSeq(s Seq, mark int, k *Atom) bool {
	for _, p := range s {
		if p.K == pUnk || p.K == pRep {
			return false
		}
		if !pureLin(p.Len, mark, k) || !pureLin(p.Off, mark, k) || !pureLin(p.V, mark, k) {
			return false
		}
		if p.Src != nil && !pureSrc(p.Src, mark, k) {
			return false
		}
		for _, x := range p.Elems {
			if !pureVal(x, mark, k) {
				return false
			}
		}
	}
	return true
}
func pureVal(v Val, mark int, k *Atom) bool {
	switch x := v.(type) {
	case *IntV:
		return pureLin(x.L, mark, k)
	case *StrV:
		return pureSeq(x.S, mark, k)
	case *StructV:
		for _, f := range x.F {
			if !pureVal(f, mark, k) {
				return false
			}
		}
		return true
	case *BoolV:
		return x.Op == 'c' || (x.Op == '>' || x.Op == '=') && pureLin(x.L, mark, k) || x.Op == 's' && pureSeq(x.A, mark, k) && pureSeq(x.B, mark, k)
	case *TimeV:
		return pureLin(x.Sec, mark, k) && pureLin(x.Nsec, mark, k)
	case *Src:
		return pureSrc(x, mark, k)
	case nil:
		return true
	}
	return false
}

// fillReps stores what a generic iteration produced into the plan's Reps.
func (e *Engine) fillReps(plan *loopPlan, phis []*ssa.Phi, s0 *State, gs, bs []*State, mark int) bool {
	if len(bs) == 0 {
		return true
	}
	bindk := freshAtom("it", bigZero, maxLen)
	sb := &subst{a: plan.k, l: linA(bindk)}
	fill := func(rep *Rep, get func(g, b *State) (Seq, bool)) bool {
		if rep.K != nil {
			// already filled in an earlier round: keep (verified equal below)
		}
		var body Seq
		var facts []*Lin
		good := true
		for i := range bs {
			sq, ok := get(gs[i], bs[i])
			if ok {
				// express contents at the state, resolve known equalities
				sq = bs[i].normSeq(sq)
				ok = pureSeq(sq, mark, plan.k)
			}
			if !ok {
				good = false
				break
			}
			if i == 0 {
				body = sq
				for _, f := range bs[i].facts {
					f = bs[i].norm(f)
					if pureLin(f, mark, plan.k) && !f.isConst() {
						facts = append(facts, f)
					}
				}
			} else {
				if sq.key() != body.key() {
					good = false
					break
				}
				var nf []*Lin
				for _, f := range facts {
					if bs[i].proveGE(f) {
						nf = append(nf, f)
					}
				}
				facts = nf
			}
		}
		if !good {
			rep.ok = false
			rep.K = bindk
			return true
		}
		rep.K = bindk
		rep.Body = sb.seq(body)
		rep.Facts = nil
		for _, f := range facts {
			if f.has(plan.k) || mentions(f, plan.k) {
				rep.Facts = append(rep.Facts, sb.lin(f))
			}
		}
		rep.ok = true
		return true
	}
	acc := func(lp *leafPlan, get func(s *State) Val) {
		if lp.kind != lkAcc {
			return
		}
		fill(lp.rep, func(g, b *State) (Seq, bool) {
			xv, ok1 := get(g).(*SliceV)
			yv, ok2 := get(b).(*SliceV)
			if !ok1 || !ok2 {
				return nil, false
			}
			all, ok := b.sliceSeq(yv)
			if !ok {
				return nil, false
			}
			_, tail, ok := b.seqSplit(all, xv.Len)
			return tail, ok
		})
	}
	for _, p := range phis {
		p := p
		acc(plan.phi[p], func(s *State) Val { return s.env[p] })
	}
	for c, lp := range plan.cell {
		i := strings.IndexByte(c, '.')
		ids, path := c, ""
		if i >= 0 {
			ids, path = c[:i], c[i:]
		}
		var id int
		fmt.Sscan(ids, &id)
		acc(lp, func(s *State) Val { return getPath(s.obj(id).V, path) })
	}
	for id, ap := range plan.arr {
		if !ap.known {
			continue
		}
		id, ap := id, ap
		fill(ap.rep, func(g, b *State) (Seq, bool) {
			return b.seqSub(b.obj(id).arr(), ap.start, linAddC(ap.start, ap.m))
		})
		_ = id
	}
	return true
}

func mentions(f *Lin, k *Atom) bool {
	sb := &subst{a: k, l: linAddC(linA(k), 1)}
	return !linEq(sb.lin(f), f)
}

func getPath(v Val, path string) Val {
	for path != "" {
		path = path[1:]
		i := strings.IndexByte(path, '.')
		n := path
		if i >= 0 {
			n, path = path[:i], path[i:]
		} else {
			path = ""
		}
		var f int
		fmt.Sscan(n, &f)
		sv, ok := v.(*StructV)
		if !ok || f >= len(sv.F) {
			return nil
		}
		v = sv.F[f]
	}
	return v
}

// updPath rebuilds v with the leaf at path replaced.
func (e *Engine) updPath(v Val, path string, t types.Type, f func(Val, types.Type) Val) Val {
	if path == "" {
		return f(v, t)
	}
	path = path[1:]
	n := path
	rest := ""
	if i := strings.IndexByte(path, '.'); i >= 0 {
		n, rest = path[:i], path[i:]
	}
	var fi int
	fmt.Sscan(n, &fi)
	sv, ok := v.(*StructV)
	if !ok {
		return v
	}
	ns := &StructV{F: append([]Val(nil), sv.F...)}
	var ft types.Type
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok {
			ft = s.Field(fi).Type()
		}
	}
	ns.F[fi] = e.updPath(sv.F[fi], rest, ft, f)
	return ns
}

// collectForall: facts every completed iteration established about its index.
func (e *Engine) collectForall(plan *loopPlan, gs, bs []*State, mark int) *Forall {
	if len(bs) == 0 {
		return nil
	}
	bk := freshAtom("all", bigZero, maxLen)
	sb := &subst{a: plan.k, l: linA(bk)}
	fa := &Forall{K: bk, N: linA(plan.k)}
	b0 := bs[0]
	gf := map[string]bool{}
	for _, f := range gs[0].facts {
		gf[f.key()] = true
	}
	for _, f := range b0.facts {
		if gf[f.key()] {
			continue
		}
		f = b0.norm(f)
		if f.isConst() || !pureLin(f, mark, plan.k) || !mentions(f, plan.k) {
			continue
		}
		all := true
		for _, b := range bs[1:] {
			if !b.proveGE(f) {
				all = false
			}
		}
		if all {
			fa.Facts = append(fa.Facts, sb.lin(f))
		}
	}
	gn := map[string]bool{}
	for _, f := range gs[0].neqs {
		gn[f.key()] = true
	}
	for _, f := range b0.neqs {
		if gn[f.key()] {
			continue
		}
		f = b0.norm(f)
		if f.isConst() || !pureLin(f, mark, plan.k) || !mentions(f, plan.k) {
			continue
		}
		all := true
		for _, b := range bs[1:] {
			if !b.proveNE(f, linC(0)) {
				all = false
			}
		}
		if all {
			fa.Neqs = append(fa.Neqs, sb.lin(f))
		}
	}
	var tk []string
	for key := range b0.truth {
		if _, old := gs[0].truth[key]; !old {
			tk = append(tk, key)
		}
	}
	sort.Strings(tk)
	for _, key := range tk {
		p := b0.pred[key]
		if p == nil || p.Op != 's' {
			continue
		}
		v := b0.truth[key]
		q := *p
		q.Neg = !v
		if !pureSeq(q.A, mark, plan.k) || !pureSeq(q.B, mark, plan.k) {
			continue
		}
		n := sb.bool(&q)
		if n.key() == (&q).key() {
			continue
		}
		all := true
		for _, b := range bs[1:] {
			if b.evalBool(&q) != 1 {
				all = false
			}
		}
		if all {
			fa.Bools = append(fa.Bools, n)
		}
	}
	if len(fa.Facts)+len(fa.Neqs)+len(fa.Bools) == 0 {
		return nil
	}
	return fa
}

var traceMin = func() int { n, _ := strconv.Atoi(os.Getenv("SARA_TRACE")); return n }()
