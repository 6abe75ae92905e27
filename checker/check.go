package main

// Check framework: obligations, violations, known findings, evidence.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"` // function, call site, table entry
	Pos       string `json:"pos"`
	Msg       string `json:"message"`
	Key       string `json:"key"`
}

type Ctx struct {
	e      *Engine
	id     string
	tier   string
	st0    *State
	oblig  int
	rules  map[string]int
	finds  []*Finding
	seen   map[string]bool
	scen   []string
	notes  []string
	tables *Tables
	exits  bool              // ending the process is not a crash in the current scenario
	caught func(*Site) bool  // the crash at this site is turned into an error
	wide   func(*Event) bool // started activities analysed without merging states
	fine   int               // paths kept apart when looking closer
	crash  bool              // crash obligations inside scenarios count for this property
}

// ok records one obligation of a rule about a construct.
func (c *Ctx) ok(rule, construct string, cond bool, format string, a ...interface{}) bool {
	c.oblig++
	c.rules[rule]++
	if cond {
		return true
	}
	c.fail(rule, construct, "", fmt.Sprintf(format, a...))
	return false
}

func (c *Ctx) fail(rule, construct, pos, msg string) {
	k := c.id + "|" + rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.finds = append(c.finds, &Finding{Rule: rule, Construct: construct, Pos: pos, Msg: msg, Key: k})
}

func fnPos(e *Engine, f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return e.pos(f.Pos())
}

// run analyses one call from the given state; every crash obligation met on
// the way is an obligation of the scenario.
func (c *Ctx) run(scn string, st *State, name string, args ...Val) []*Outcome {
	f := c.e.fn(name)
	if f == nil {
		c.fail("anchor", name, "", "function "+name+" not found in the repository")
		return nil
	}
	return c.runFn(scn, st, f, nil, args...)
}

func (c *Ctx) runFn(scn string, st *State, f *ssa.Function, bind []Val, args ...Val) []*Outcome {
	e := c.e
	c.scen = append(c.scen, scn)
	old, oldi := e.obl, e.imprec
	e.obl, e.imprec = newRecorder(), map[string]bool{}
	s := st.clone()
	t0 := time.Now()
	outs := e.call(s, f, args, bind, nil)
	if c.fine > e.maxIn && c.failing(e.obl) {
		// look closer before reporting: keep more paths apart
		was := e.maxIn
		e.maxIn, e.obl, e.imprec = c.fine, newRecorder(), map[string]bool{}
		outs = e.call(st.clone(), f, args, bind, nil)
		e.maxIn = was
	}
	if d := time.Since(t0); os.Getenv("SARA_TIME") != "" && d > 200*time.Millisecond {
		fmt.Fprintln(os.Stderr, "time", d, scn, len(outs))
	}
	c.collect(scn, e.obl)
	for k := range e.imprec {
		c.fail("undecided", f.String(), fnPos(e, f), k+" (in scenario "+scn+")")
	}
	e.obl, e.imprec = old, oldi
	return settled(outs)
}

// settled splits outcomes whose truth value or error is still open.
func settled(outs []*Outcome) []*Outcome {
	var r []*Outcome
	for _, o := range outs {
		alts := []*Outcome{o}
		for _, v := range o.ret {
			var b *BoolV
			switch x := v.(type) {
			case *BoolV:
				b = x
			case *IfaceV:
				if x.Sym != "" && x.MayNil && isErrVal(x) {
					b = boolOpaque("nilif:" + x.Sym)
				}
			}
			if b == nil || o.exit != "" || o.st.evalBool(b) != 0 {
				continue
			}
			var next []*Outcome
			for _, a := range alts {
				f := *a
				f.st = a.st.clone()
				a.st.assume(b, true)
				f.st.assume(b, false)
				for _, x := range []*Outcome{a, &f} {
					if !x.st.dead {
						next = append(next, x)
					}
				}
			}
			alts = next
		}
		r = append(r, alts...)
	}
	return r
}

// failing: an obligation which would be reported was not met.
func (c *Ctx) failing(r *Recorder) bool {
	for _, k := range r.order {
		s := r.sites[k]
		if s.Bad > 0 && c.crash && !(c.exits && s.Kind == "exit") && (c.caught == nil || !c.caught(s)) {
			return true
		}
	}
	return false
}

func (c *Ctx) collect(scn string, r *Recorder) {
	for _, k := range r.order {
		s := r.sites[k]
		if c.exits && s.Kind == "exit" {
			continue
		}
		c.oblig++
		c.rules["no-crash/"+s.Kind]++
		if s.Bad > 0 && c.caught != nil && c.caught(s) {
			continue
		}
		if s.Bad > 0 && c.crash {
			msg := s.Msg + " (in scenario " + scn + ")"
			if os.Getenv("SARA_DEBUG") != "" {
				msg += "\n" + s.Why
			}
			c.fail("no-crash", s.Fn+"/"+s.Kind+"/"+s.Pos, s.Pos, msg)
		}
	}
}

// ----------------------------------------------------------- value helpers

func (st *State) eqBits(a, b *Lin, w int) bool {
	if st.proveEQ(a, b) {
		return true
	}
	x, o1 := st.toBits(a, w)
	y, o2 := st.toBits(b, w)
	if !o1 || !o2 {
		return false
	}
	return st.sameBits(x, y)
}

func symInt(name string, bits uint) *Lin {
	return linA(mkAtom(name, bigZero, new(big.Int).Sub(pow2(bits), bigOne)))
}

func nilErr(v Val) bool {
	n, k := isNilIface(v)
	return k && n
}
func isErr(st *State, v Val) bool {
	i, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	if i.Sym != "" && i.MayNil {
		return st.evalBool(boolOpaque("nilif:"+i.Sym)) == -1
	}
	return i.Sym != "" || i.T != nil
}

// sureNil: the error is known to be nil in this state.
func sureNil(st *State, v Val) bool {
	i, ok := v.(*IfaceV)
	if !ok {
		return false
	}
	if i.Sym != "" && i.MayNil {
		return st.evalBool(boolOpaque("nilif:"+i.Sym)) == 1
	}
	return i.Sym == "" && i.T == nil
}

func constStrOf(st *State, v Val) (string, bool) {
	s, ok := v.(*StrV)
	if !ok {
		return "", false
	}
	return st.normSeq(s.S).constStr()
}

// ------------------------------------------------------------------ output

type Known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}
type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

type checkDef struct {
	run   func(c *Ctx)
	min   int // least number of obligations on any tree (vacuity guard)
	rule  string
	crash bool
	noCfg bool
}

var checks = map[string]*checkDef{}

func runCheck(id, tier, root string) int {
	t0 := time.Now()
	def := checks[id]
	if def == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	c := &Ctx{id: id, tier: tier, rules: map[string]int{}, seen: map[string]bool{}, crash: def.crash, fine: 300}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("SARA_DEBUG") != "" {
					panic(r)
				}
				c.fail("undecided", "analysis", "", fmt.Sprintf("the analysis failed: %v", r))
			}
		}()
		e, err := load()
		if err != nil {
			c.fail("load", "repository", "", "the repository could not be loaded: "+err.Error())
			return
		}
		c.e = e
		if c.tables, err = readTables(); err != nil {
			c.fail("load", "saratoga/saratoga.json", "", err.Error())
			return
		}
		st, err := e.boot(true)
		if err != nil {
			c.fail("load", "sarflags.Cliflags.ReadConfig", "", err.Error())
			return
		}
		c.st0 = st
		e.mutableGlobals(st)
		def.run(c)
		if c.oblig < def.min {
			c.fail("vacuous", "analysis", "", fmt.Sprintf("only %d obligations were found, at least %d expected", c.oblig, def.min))
		}
	}()
	return c.report(root, t0, def)
}

func (c *Ctx) report(root string, t0 time.Time, def *checkDef) int {
	known := KnownFile{}
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("known_findings.json:", err)
		}
	}
	kn := map[string]string{}
	for _, k := range known.Findings {
		if k.Property == c.id {
			kn[k.Key] = k.What
		}
	}
	sort.Slice(c.finds, func(i, j int) bool { return c.finds[i].Key < c.finds[j].Key })
	var bad []*Finding
	nk := 0
	for _, f := range c.finds {
		if w, ok := kn[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, w)
			nk++
			continue
		}
		bad = append(bad, f)
	}
	var rk []string
	for r := range c.rules {
		rk = append(rk, r)
	}
	sort.Strings(rk)
	var rs []string
	for _, r := range rk {
		rs = append(rs, fmt.Sprintf("%s: %d", r, c.rules[r]))
	}
	var fns []string
	npk := 0
	if c.e != nil {
		for f := range c.e.funcsSeen {
			fns = append(fns, strings.TrimPrefix(f, modPath+"/"))
		}
		sort.Strings(fns)
		npk = len(c.e.repoPkgs)
	}
	replay := filepath.Join(root, "evidence", c.id+".violations.json")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.Remove(replay)
	if len(bad) > 0 {
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(replay, b, 0o644)
		for i, f := range bad {
			if i < 25 {
				fmt.Printf("  [%s] %s %s: %s\n", f.Rule, f.Construct, f.Pos, f.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := c.tier
	scen := c.scen
	if len(scen) > 400 {
		scen = scen[:400]
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other", "wall_s": time.Since(t0).Seconds(),
		"coverage": map[string]interface{}{
			"explanation": fmt.Sprintf("%s %d obligations were decided on %d packages of the current working tree (%d functions analysed, %d scenarios). %s",
				def.rule, c.oblig, npk, len(fns), len(c.scen), strings.Join(c.notes, " ")),
			"obligations":         c.oblig,
			"obligations_by_rule": rs,
			"scenarios":           scen,
			"functions":           fns,
			"known_findings":      nk,
		},
		"assumptions": assumptions,
		"violations":  len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", c.id+".json"), b, 0o644)
	fmt.Printf("property=%s tier=%s obligations=%d functions=%d scenarios=%d violations=%d known=%d wall=%.1fs\n", c.id, tier, c.oblig, len(fns), len(c.scen), len(bad), nk, time.Since(t0).Seconds())
	if len(bad) > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"linux/arm64 build of every package but client (which compiles nowhere); 64 bit int",
	"the standard library and gocui behave as documented; lengths are below 2^40",
	"the running node loads the shipped saratoga.json flag tables",
}

// changed lists what differs in after among the objects of before.
func changed(before, after *State) []string {
	var ids []int
	for id := range after.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var r []string
	for _, id := range ids {
		o1 := after.heap[id]
		o0 := before.obj(id)
		if o0 == nil || o0 == o1 || o1.K == 'i' {
			continue
		}
		name := o0.Label
		if name == "" {
			name = fmt.Sprintf("object %d", id)
		}
		switch o1.K {
		case 'v':
			diffVal(after, o0.V, o1.V, name, &r)
		case 'a':
			if o0.S.key() != o1.S.key() && after.normSeq(o0.S).key() != after.normSeq(o1.S).key() && after.seqEqual(o0.S, o1.S) != 1 {
				r = append(r, name)
			}
		case 'm':
			if !mapSame(o0.M, o1.M) {
				r = append(r, name)
			}
		}
	}
	return r
}

func diffVal(st *State, x, y Val, path string, out *[]string) {
	if x == y || valKey(x) == valKey(y) {
		return
	}
	x, y = eng.expand(x), eng.expand(y)
	sx, o1 := x.(*StructV)
	sy, o2 := y.(*StructV)
	if o1 && o2 && len(sx.F) == len(sy.F) {
		for i := range sx.F {
			diffVal(st, sx.F[i], sy.F[i], fmt.Sprintf("%s.%d", path, i), out)
		}
		return
	}
	if valKey(x) == valKey(y) || st.valSame(x, y) || st.valEqual(x, y) {
		return
	}
	*out = append(*out, path)
}
