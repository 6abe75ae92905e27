package main

// C29: errors from encoding, files and sockets are never dropped.
//
// For every call that can report an error the function it is in is walked from
// the call on, assuming the call failed: branches that depend on the error are
// followed one way, all others both ways. Every way out has to report an error
// or take a failure action, and no other result of the call may be used.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = &checkDef{run: checkC29, min: 150,
		rule: "For every call of a function that can report an error (the program's own, and those of the library for files, sockets, the system, conversions and encodings; closing excepted) every path of the SSA form from the call to the end of its function is followed under the assumption that it failed, with the error and what is made of it tracked through variables, phis, comparisons and helpers: a function with an error result returns a non-nil error, another one returns a failure value or takes an action no successful path takes, and no other result of the failed call is used on the way. Calls that cannot fail with the constants they are given are exempt, decided from the tables and by following the callee."}
}

func errIdx(sig *types.Signature) int {
	r := sig.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if r.At(i).Type().String() == "error" {
			return i
		}
	}
	return -1
}

// what is known of a value
type known byte

const (
	kUnknown known = iota
	kNil
	kNonNil
	kTrue
	kFalse
)

type errA struct {
	c   *Ctx
	a   *nameA
	n   map[string]int
	sum map[string]*errSum
	may map[string]bool
}

// failWalk: the paths after one failed call
type failWalk struct {
	e       *errA
	fn      *ssa.Function
	call    *ssa.Call
	err     ssa.Value // the error, nil when it is not even taken
	results map[ssa.Value]bool
	places  map[string]bool // where results were stored
	seen    map[string]bool
	bad     string
	badPos  ssa.Instruction
	steps   int
	only    map[*ssa.BasicBlock]bool // blocks no successful path need pass
	depth   int
	absorb  func(in ssa.Instruction) bool
	query   bool // that it fails is an answer
}

type walkState struct {
	b        *ssa.BasicBlock
	i        int
	env      map[ssa.Value]known
	str      map[ssa.Value]string // texts known
	alias    map[string]ssa.Value // what fields were just set to
	max      map[ssa.Value]int64  // what parameters are at most
	printed  bool                 // something was shown or logged
	defers   []*ssa.Defer
	jumped   bool
	examined bool // a branch depended on the error
	acted    bool // a failure action was taken
	handled  bool // a particular failure was recognised
}

func (s *walkState) clone() *walkState {
	n := *s
	n.env = make(map[ssa.Value]known, len(s.env))
	for k, v := range s.env {
		n.env[k] = v
	}
	n.alias = nil
	n.str = make(map[ssa.Value]string, len(s.str))
	for k, v := range s.str {
		n.str[k] = v
	}
	return &n
}

func (s *walkState) key() string {
	var l []string
	for k, v := range s.env {
		l = append(l, fmt.Sprintf("%s=%d", k.Name(), v))
	}
	for k, v := range s.str {
		l = append(l, fmt.Sprintf("%s=%q", k.Name(), v))
	}
	sort.Strings(l)
	return fmt.Sprintf("%d/%d/%v/%v/%v/%d/%s", s.b.Index, s.i, s.examined, s.acted, s.printed, len(s.defers), strings.Join(l, ","))
}

// fallible: calls whose error counts.
func (e *errA) fallible(call *ssa.Call) (string, int) {
	cc := call.Common()
	i := errIdx(cc.Signature())
	if i < 0 {
		return "", -1
	}
	if cc.IsInvoke() {
		if m := cc.Method; m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), modPath) {
			return m.Name(), i
		} else if m.Pkg() != nil && (m.Pkg().Path() == "net" || m.Pkg().Path() == "io") && m.Name() != "Close" && cc.Value.Type().String() != "hash.Hash" {
			return m.Name(), i
		}
		return "", -1
	}
	f := cc.StaticCallee()
	if f == nil {
		// a function value
		return "a function value", i
	}
	if strings.Contains(f.Name(), "Close") {
		return "", -1
	}
	if e.c.e.isRepo(f) {
		for j := 0; j < f.Signature.Params().Len(); j++ {
			if strings.HasSuffix(f.Signature.Params().At(j).Type().String(), "gocui.View") {
				return "", -1 // handlers of the user interface
			}
		}
		return shortName(f.String()), i
	}
	p := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	switch strings.SplitN(p, "/", 2)[0] {
	case "os", "io", "net", "syscall", "encoding", "strconv", "time", "bufio", "path", "internal":
		return f.String(), i
	}
	return "", -1
}

func (w *failWalk) eval(s *walkState, v ssa.Value) known {
	if v == w.err && v != nil {
		return kNonNil
	}
	if k, ok := s.env[v]; ok {
		return k
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return kNil
		}
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return kTrue
			}
			return kFalse
		}
	case *ssa.MakeInterface:
		return kNonNil
	case *ssa.ChangeInterface:
		return w.eval(s, x.X)
	case *ssa.ChangeType:
		return w.eval(s, x.X)
	case *ssa.BinOp:
		op, l, r := x.Op, x.X, x.Y
		if w.e.number(l) != nil {
			op, l, r = flip(op), r, l
		}
		if k := w.e.number(r); k != nil {
			if m, ok := w.atMost(s, l, 0); ok {
				most := constant.MakeInt64(m)
				switch {
				case op == token.GTR && constant.Compare(most, token.LEQ, k), op == token.GEQ && constant.Compare(most, token.LSS, k):
					return kFalse
				case op == token.LEQ && constant.Compare(most, token.LEQ, k), op == token.LSS && constant.Compare(most, token.LSS, k):
					return kTrue
				}
			}
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, r := w.eval(s, x.X), w.eval(s, x.Y)
			same := known(kUnknown)
			switch {
			case isStr(x.X.Type()):
				a, ok1 := w.text(s, x.X)
				b, ok2 := w.text(s, x.Y)
				if ok1 && ok2 {
					same = kFalse
					if a == b {
						same = kTrue
					}
				}
			case l == kNil && r == kNil:
				same = kTrue
			case l == kNil && r == kNonNil || l == kNonNil && r == kNil:
				same = kFalse
			case l == kTrue && r == kTrue || l == kFalse && r == kFalse:
				same = kTrue
			case l == kTrue && r == kFalse || l == kFalse && r == kTrue:
				same = kFalse
			}
			if same == kUnknown {
				return kUnknown
			}
			if (x.Op == token.EQL) == (same == kTrue) {
				return kTrue
			}
			return kFalse
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch w.eval(s, x.X) {
			case kTrue:
				return kFalse
			case kFalse:
				return kTrue
			}
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && x.Type().String() == "error" {
				return w.e.sentinel(g)
			}
			if k, ok := s.env[x.X]; ok {
				return k
			}
		}
	}
	return kUnknown
}

// flip: the comparison with its sides exchanged.
func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// number: a constant, or a variable that is set to one and to nothing else.
func (e *errA) number(v ssa.Value) constant.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if vs := e.a.stores["g:"+g.String()]; len(vs) == 1 {
				v = vs[0]
			}
		}
	}
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		return k.Value
	}
	return nil
}

// atMost: a number that has a bound.
func (w *failWalk) atMost(s *walkState, v ssa.Value, d int) (int64, bool) {
	if d > 5 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return w.atMost(s, x.X, d+1)
	case *ssa.Parameter:
		m, ok := s.max[x]
		return m, ok
	case *ssa.UnOp:
		if p := localPlace(x.X); x.Op == token.MUL && s.alias[p] != nil {
			return w.atMost(s, s.alias[p], d+1)
		}
	case *ssa.Call:
		if callName(x) == "(time.Time).Nanosecond" || callName(x) == "time.Time.Nanosecond" {
			return 999999999, true
		}
	}
	return 0, false
}

// text: a text that is known.
func (w *failWalk) text(s *walkState, v ssa.Value) (string, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	t, ok := s.str[v]
	return t, ok
}

// sentinel: a package variable of type error that is set once, at start-up.
func (e *errA) sentinel(g *ssa.Global) known {
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return kNonNil
	}
	vs := e.a.stores["g:"+g.String()]
	if len(vs) != 1 {
		return kUnknown
	}
	if c, ok := vs[0].(*ssa.Call); ok {
		switch callName(c) {
		case "errors.New", "fmt.Errorf":
			return kNonNil
		}
	}
	return kUnknown
}

// fromErr: the value is the error, or made of it.
func (w *failWalk) fromErr(s *walkState, v ssa.Value) bool {
	for d := 0; d < 8; d++ {
		if v == w.err && w.err != nil {
			return true
		}
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Slice:
			// the arguments of a variadic call
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						for _, q := range *ia.Referrers() {
							if st, ok := q.(*ssa.Store); ok && w.fromErr(s, st.Val) {
								return true
							}
						}
					}
				}
			}
			return false
		case *ssa.Call:
			if x.Call.IsInvoke() && x.Call.Method.Name() == "Error" {
				v = x.Call.Value
				continue
			}
			return false
		case *ssa.Phi:
			return s.env[v] == kNonNil && w.phiOfErr(x)
		case *ssa.UnOp:
			return s.env[x.X] == kNonNil
		default:
			return false
		}
	}
	return false
}

func (w *failWalk) phiOfErr(p *ssa.Phi) bool {
	for _, e := range p.Edges {
		if e == w.err {
			return true
		}
	}
	return false
}

func (w *failWalk) fail(in ssa.Instruction, format string, args ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(format, args...)
		w.badPos = in
	}
}

// run follows every path from a state.
func (w *failWalk) run(s *walkState) {
	s.jumped = false
	for w.bad == "" {
		w.steps++
		if w.steps > 200000 {
			w.fail(w.call, "the paths after the call are too many to follow")
			return
		}
		b := s.b
		if w.step(s, b.Instrs[s.i]) {
			return
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If, *ssa.Jump:
			if s.jumped {
				s.jumped = false
				continue
			}
		}
		s.i++
	}
}

func (w *failWalk) goTo(s *walkState, to *ssa.BasicBlock) bool {
	from := s.b
	env := map[ssa.Value]known{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from {
				env[p] = w.eval(s, p.Edges[i])
				if w.results[p.Edges[i]] {
					// a result carried along
					w.results[p] = true
				}
				break
			}
		}
	}
	for p, k := range env {
		if k == kUnknown {
			delete(s.env, p)
		} else {
			s.env[p] = k
		}
	}
	s.b, s.i, s.jumped = to, 0, true
	k := s.key()
	if w.seen[k] {
		return true
	}
	w.seen[k] = true
	// phis are done
	for s.i < len(to.Instrs) {
		if _, ok := to.Instrs[s.i].(*ssa.Phi); !ok {
			break
		}
		s.i++
	}
	return false
}

// exits: calls that end the program.
func exits(n string) bool {
	switch n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

// step executes one instruction; true when the path ends.
func (w *failWalk) step(s *walkState, in ssa.Instruction) bool {
	if in == ssa.Instruction(w.call) {
		// round a loop: the error is gone
		w.ended(s, in, nil)
		return true
	}
	w.uses(s, in)
	if w.bad != "" {
		return true
	}
	switch x := in.(type) {
	case *ssa.If:
		k := w.eval(s, x.Cond)
		if k == kUnknown {
			if w.recognised(s, x.Cond) {
				t := s.clone()
				t.handled = true
				if !w.goTo(t, x.Block().Succs[0]) {
					w.run(t)
				}
				return w.goTo(s, x.Block().Succs[1])
			}
			t := s.clone()
			if !w.goTo(t, x.Block().Succs[0]) {
				w.run(t)
			}
			return w.goTo(s, x.Block().Succs[1])
		}
		if w.about(s, x.Cond, 0) {
			s.examined = true
		}
		if k == kTrue {
			return w.goTo(s, x.Block().Succs[0])
		}
		return w.goTo(s, x.Block().Succs[1])
	case *ssa.Jump:
		return w.goTo(s, x.Block().Succs[0])
	case *ssa.Return:
		w.ended(s, in, x.Results)
		return true
	case *ssa.Panic:
		return true
	case *ssa.Store:
		w.store(s, x)
	case *ssa.Send:
		s.acted = s.acted || w.onlyFailing(s, x.Block()) || w.fromErr(s, x.X)
	case *ssa.RunDefers:
		for _, t := range w.deferred(s) {
			w.run(t)
		}
	case *ssa.Defer, *ssa.Go:
		ci := in.(ssa.CallInstruction)
		if d, ok := in.(*ssa.Defer); ok {
			s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
		}
		for _, g := range ci.Common().Args {
			if w.fromErr(s, g) {
				s.acted = true
			}
		}
	case *ssa.Call:
		return w.calls(s, x)
	}
	return false
}

// about: the condition depends on the error.
func (w *failWalk) about(s *walkState, v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	if w.fromErr(s, v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return w.about(s, x.X, d+1) || w.about(s, x.Y, d+1)
	case *ssa.UnOp:
		return w.about(s, x.X, d+1)
	case *ssa.Phi:
		// a condition joined from several tests
		_, ok := s.env[v]
		return ok
	case *ssa.Call, *ssa.Extract:
		_, ok := s.env[v]
		return ok
	}
	return false
}

// recognised: a test for one particular error.
func (w *failWalk) recognised(s *walkState, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		switch callName(x) {
		case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
			return w.fromErr(s, x.Call.Args[0])
		}
	case *ssa.BinOp:
		return x.Op == token.EQL && (w.fromErr(s, x.X) || w.fromErr(s, x.Y))
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return w.fromErr(s, ta.X)
		}
	}
	return false
}

func (w *failWalk) store(s *walkState, x *ssa.Store) {
	k := w.eval(s, x.Val)
	if p := localPlace(x.Addr); p != "" {
		if s.alias == nil {
			s.alias = map[string]ssa.Value{}
		}
		s.alias[p] = x.Val
	}
	switch a := x.Addr.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		if k == kUnknown {
			delete(s.env, a.(ssa.Value))
		} else {
			s.env[a.(ssa.Value)] = k
		}
	case *ssa.IndexAddr:
		return // arguments being put together
	default:
		if w.fromErr(s, x.Val) {
			s.acted = true // handed on
		}
	}
	p := localPlace(x.Addr)
	if p == "" {
		return
	}
	if w.results[x.Val] {
		w.places[p] = true
	} else {
		delete(w.places, p)
	}
}

// localPlace: the same place within one function.
func localPlace(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", x.X.Name(), x.Field)
	case *ssa.Alloc:
		if x.Heap {
			return ""
		}
		return x.Name()
	}
	return ""
}

// printing and tidying up may look at results of a failed call
func harmless(n string) bool {
	i := strings.LastIndexByte(n, '.')
	base := n[i+1:]
	return strings.Contains(base, "Print") || strings.Contains(base, "print") || strings.Contains(base, "Close") || base == "Error" || base == "Errorf" || base == "String" || strings.HasPrefix(n, "log.") || base == "Sprintf" || base == "Sprint"
}

// uses: results of the failed call must not be used.
func (w *failWalk) uses(s *walkState, in ssa.Instruction) {
	if s.handled {
		return
	}
	if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
		if p := localPlace(u.X); p != "" && w.places[p] {
			w.results[u] = true
			return
		}
	}
	switch x := in.(type) {
	case *ssa.Return, *ssa.Phi, *ssa.Store, *ssa.Extract, *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert, *ssa.Jump, *ssa.RunDefers:
		if v, ok := in.(ssa.Value); ok {
			switch y := x.(type) {
			case *ssa.ChangeType:
				if w.results[y.X] {
					w.results[v] = true
				}
			case *ssa.Convert:
				if w.results[y.X] {
					w.results[v] = true
				}
			}
		}
		return
	case *ssa.MakeClosure:
		return
	case ssa.CallInstruction:
		n := ""
		if f := x.Common().StaticCallee(); f != nil {
			n = f.String()
		} else if x.Common().IsInvoke() {
			n = x.Common().Method.Name()
		} else if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			n = b.Name()
		}
		if harmless(n) || n == "len" || n == "cap" {
			return
		}
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && w.results[*op] {
			w.fail(in, "a result of the failed call is used")
			return
		}
	}
}

// onlyFailing: a successful path can avoid the block.
func (w *failWalk) onlyFailing(s *walkState, b *ssa.BasicBlock) bool {
	if w.call == nil {
		return false
	}
	if r, ok := w.only[b]; ok {
		return r
	}
	// from the call, with the error nil, to the end or back, not through b
	seen := map[*ssa.BasicBlock]bool{}
	nilEnv := &failWalk{e: w.e, fn: w.fn, call: w.call}
	var reach func(x *ssa.BasicBlock, env map[ssa.Value]known) bool
	reach = func(x *ssa.BasicBlock, env map[ssa.Value]known) bool {
		if x == b && x != w.call.Block() || seen[x] {
			return false
		}
		seen[x] = true
		last := x.Instrs[len(x.Instrs)-1]
		if len(x.Succs) == 0 {
			return true
		}
		succs := x.Succs
		if iff, ok := last.(*ssa.If); ok {
			switch w.evalNil(nilEnv, iff.Cond, 0) {
			case kTrue:
				succs = x.Succs[:1]
			case kFalse:
				succs = x.Succs[1:]
			}
		}
		for _, y := range succs {
			if y == w.call.Block() || reach(y, env) {
				return true
			}
		}
		return false
	}
	r := b != w.call.Block() && reach(w.call.Block(), nil)
	w.only[b] = r
	return r
}

// evalNil evaluates a condition for a call that succeeded.
func (w *failWalk) evalNil(n *failWalk, v ssa.Value, d int) known {
	if d > 5 {
		return kUnknown
	}
	if x, ok := v.(*ssa.BinOp); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
		isErr := func(v ssa.Value) bool { return v == w.err }
		isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
		if isErr(x.X) && isNil(x.Y) || isErr(x.Y) && isNil(x.X) {
			if x.Op == token.EQL {
				return kTrue
			}
			return kFalse
		}
	}
	return kUnknown
}

// calls: a call on the way.
func (w *failWalk) calls(s *walkState, x *ssa.Call) bool {
	n := callName(x)
	if exits(n) {
		return true
	}
	switch n {
	case "errors.New", "fmt.Errorf":
		s.env[x] = kNonNil
		return false
	case "errors.Join":
		if w.fromErr(s, x.Call.Args[0]) {
			s.env[x] = kNonNil
		}
		return false
	}
	switch n {
	case "strings.Replace", "strings.ReplaceAll":
		t, ok := w.text(s, x.Call.Args[0])
		o, ok1 := w.text(s, x.Call.Args[1])
		r, ok2 := w.text(s, x.Call.Args[2])
		if ok && ok1 && ok2 {
			s.str[x] = strings.ReplaceAll(t, o, r)
		}
	case "strings.TrimSpace", "strings.ToLower":
		if t, ok := w.text(s, x.Call.Args[0]); ok {
			if n == "strings.ToLower" {
				t = strings.ToLower(t)
			}
			s.str[x] = strings.TrimSpace(t)
		}
	}
	if prints(n) {
		s.printed = true
	}
	if w.absorb != nil && w.absorb(x) {
		s.handled = true
	}
	if w.call != nil && !s.acted && !s.handled && strings.HasSuffix(n, "status.Status).New") && w.e.success(x.Call.Args[1]) {
		w.fail(x, "the peer is told that it succeeded")
		return true
	}
	bounded := false
	for _, g := range x.Call.Args {
		if _, ok := w.atMost(s, g, 0); ok {
			bounded = true
		}
	}
	if f := x.Call.StaticCallee(); bounded && f != nil && w.e.c.e.isRepo(f) && len(f.Blocks) > 0 && w.depth < 3 {
		if sm := w.e.summary(f, w, s, x); len(sm.res) == 1 && sm.res[0] != kUnknown {
			s.env[x] = sm.res[0]
		}
	}
	if n != "(time.Time).Nanosecond" {
		s.alias = nil
	}
	if w.never(s, x) {
		if i := errIdx(x.Call.Signature()); x.Call.Signature().Results().Len() == 1 {
			s.env[x] = kNil
		} else {
			for _, r := range *x.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
					s.env[ex] = kNil
				}
			}
		}
		return false
	}
	given := false
	for _, g := range x.Call.Args {
		given = given || w.fromErr(s, g) || s.env[g] == kNonNil && g.Type().String() == "error"
	}
	f := x.Call.StaticCallee()
	if f != nil && w.e.c.e.isRepo(f) && len(f.Blocks) > 0 && w.depth < 3 {
		shows := w.e.mayShow(f, 0)
		if given || shows {
			sm := w.e.summary(f, w, s, x)
			if shows && !sm.never && sm.shows {
				s.printed = true
			}
		}
		if given {
			sm := w.e.summary(f, w, s, x)
			if sm.never {
				return true
			}
			for i, k := range sm.res {
				if k == kUnknown {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					s.env[x] = k
				} else {
					for _, r := range *x.Referrers() {
						if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
							s.env[ex] = k
						}
					}
				}
			}
		}
	}
	if n == "errors.Is" || n == "errors.As" || strings.HasPrefix(n, "os.Is") || strings.HasSuffix(n, ".Error") || harmless(n) && strings.Contains(n, "Close") {
		return false
	}
	if given || w.onlyFailing(s, x.Block()) {
		s.acted = true
	}
	return false
}

// success: a flag string that tells of success.
func (e *errA) success(v ssa.Value) bool {
	for _, t := range e.a.templates(v, map[ssa.Value]bool{}) {
		txt := ""
		for _, p := range t {
			txt += p.s
		}
		if len(t) == 0 || !strings.Contains(txt, "errcode=success") {
			return false
		}
	}
	return true
}

// prints: a call that shows or logs something.
func prints(n string) bool {
	base := n[strings.LastIndexByte(n, '.')+1:]
	return strings.HasPrefix(n, "log.") || strings.Contains(base, "Print")
}

// mayShow: the function, or one it calls, shows or logs something.
func (e *errA) mayShow(f *ssa.Function, depth int) bool {
	if depth > 3 || len(f.Blocks) == 0 || !e.c.e.isRepo(f) {
		return false
	}
	k := fmt.Sprint(depth, f)
	if r, ok := e.may[k]; ok {
		return r
	}
	e.may[k] = false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Call); ok {
				if g := x.Call.StaticCallee(); prints(callName(x)) || g != nil && e.mayShow(g, depth+1) {
					e.may[k] = true
					return true
				}
			}
		}
	}
	return false
}

// never: the call does not fail, in this state.
func (w *failWalk) never(s *walkState, x *ssa.Call) bool {
	switch n := sarflagsFn(x.Call.StaticCallee()); n {
	case "SetT":
		t, ok := w.text(s, x.Call.Args[1])
		return ok && w.e.a.flagNames('T')[t]
	case "Set", "SetD":
		f, ok1 := w.text(s, x.Call.Args[1])
		o, ok2 := w.text(s, x.Call.Args[2])
		if !ok1 || !ok2 || o == "" {
			return false
		}
		_, ok := w.e.a.options(flagAccess[n].table, f).vals[o]
		return ok
	}
	// the program's own, with texts that are known
	f := x.Call.StaticCallee()
	if f == nil || !w.e.c.e.isRepo(f) || len(f.Blocks) == 0 || errIdx(f.Signature) < 0 || w.depth > 3 {
		return false
	}
	some := false
	for _, g := range x.Call.Args {
		if _, ok := w.text(s, g); ok {
			some = true
		}
	}
	return some && w.e.summary(f, w, s, x).res[errIdx(f.Signature)] == kNil
}

type errSum struct {
	res     []known
	never   bool // does not return
	reports bool // whenever it returns an error something has been shown
	shows   bool // something has been shown whenever it returns
}

// summary: what a function returns for the values it is given.
func (e *errA) summary(f *ssa.Function, w *failWalk, s *walkState, call *ssa.Call) *errSum {
	env, str, max := map[ssa.Value]known{}, map[ssa.Value]string{}, map[ssa.Value]int64{}
	key := f.String()
	for i, g := range call.Call.Args {
		if i < len(f.Params) {
			if k := w.eval(s, g); k != kUnknown {
				env[f.Params[i]] = k
				key += fmt.Sprintf("|%d=%d", i, k)
			}
			if t, ok := w.text(s, g); ok {
				str[f.Params[i]] = t
				key += fmt.Sprintf("|%d=%q", i, t)
			}
			if m, ok := w.atMost(s, g, 0); ok {
				max[f.Params[i]] = m
				key += fmt.Sprintf("|%d<=%d", i, m)
			}
		}
	}
	if sm, ok := e.sum[key]; ok {
		return sm
	}
	sm := &errSum{res: make([]known, f.Signature.Results().Len()), never: true, reports: true, shows: true}
	e.sum[key] = sm
	sub := &failWalk{e: e, fn: f, results: map[ssa.Value]bool{}, places: map[string]bool{}, seen: map[string]bool{}, only: map[*ssa.BasicBlock]bool{}, depth: w.depth + 1}
	first := true
	collect := func(st *walkState, rs []ssa.Value) {
		sm.never = false
		sm.shows = sm.shows && st.printed
		if i := errIdx(f.Signature); i >= 0 && sub.eval(st, rs[i]) != kNil && !st.printed {
			sm.reports = false
		}
		for i, r := range rs {
			k := sub.eval(st, r)
			if first {
				sm.res[i] = k
			} else if sm.res[i] != k {
				sm.res[i] = kUnknown
			}
		}
		first = false
	}
	sub.summarise(&walkState{b: f.Blocks[0], env: env, str: str, max: max}, collect)
	return sm
}

// summarise follows a whole function.
func (w *failWalk) summarise(s *walkState, ret func(*walkState, []ssa.Value)) {
	for {
		w.steps++
		if w.steps > 20000 {
			return
		}
		in := s.b.Instrs[s.i]
		switch x := in.(type) {
		case *ssa.If:
			switch w.eval(s, x.Cond) {
			case kTrue:
				if w.goTo(s, x.Block().Succs[0]) {
					return
				}
				continue
			case kFalse:
				if w.goTo(s, x.Block().Succs[1]) {
					return
				}
				continue
			}
			t := s.clone()
			if !w.goTo(t, x.Block().Succs[0]) {
				w.summarise(t, ret)
			}
			if w.goTo(s, x.Block().Succs[1]) {
				return
			}
			continue
		case *ssa.Jump:
			if w.goTo(s, x.Block().Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			ret(s, x.Results)
			return
		case *ssa.Panic:
			return
		case *ssa.Store:
			w.store(s, x)
		case *ssa.Defer:
			s.defers = append(s.defers[:len(s.defers):len(s.defers)], x)
		case *ssa.RunDefers:
			for _, t := range w.deferred(s) {
				w.summarise(t, ret)
			}
		case *ssa.Call:
			if w.calls(s, x) {
				return
			}
			if t := w.told(s, x); t != nil {
				w.summarise(t, ret)
			}
		}
		s.i++
	}
}

// told: where a function shows something whenever it fails, the state after
// it failed; the state given is then the one after it did not.
func (w *failWalk) told(s *walkState, x *ssa.Call) *walkState {
	f := x.Call.StaticCallee()
	i := errIdx(x.Call.Signature())
	if s.printed || i < 0 || f == nil || !w.e.isShowing(f) || w.depth >= 3 {
		return nil
	}
	var err ssa.Value = x
	if x.Call.Signature().Results().Len() > 1 {
		err = nil
		for _, r := range *x.Referrers() {
			if ex, ok := r.(*ssa.Extract); ok && ex.Index == i {
				err = ex
			}
		}
	}
	if err == nil || s.env[err] != kUnknown || !w.e.summary(f, w, s, x).reports {
		return nil
	}
	t := s.clone()
	t.env[err], s.env[err] = kNonNil, kNil
	t.printed = true
	t.i++
	return t
}

func (e *errA) isShowing(f *ssa.Function) bool {
	return e.c.e.isRepo(f) && len(f.Blocks) > 0 && e.mayShow(f, 0)
}

// deferred: the deferred functions run, last first. A captured error that is
// not known is looked at both ways; the states for the other ways, which are
// past this instruction, are returned.
func (w *failWalk) deferred(s *walkState) []*walkState {
	var more []*walkState
	ds := s.defers
	s.defers = nil
	all := func() []*walkState { return append(append([]*walkState{}, more...), s) }
	for i := len(ds) - 1; i >= 0; i-- {
		if prints(callName(ds[i])) {
			for _, t := range all() {
				t.printed = true
			}
			continue
		}
		mc, ok := ds[i].Call.Value.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		f := mc.Fn.(*ssa.Function)
		if w.depth >= 3 || !w.e.mayShow(f, 0) {
			continue
		}
		for j, b := range mc.Bindings {
			if al, ok := b.(*ssa.Alloc); ok && j < len(f.FreeVars) && isErrorType(al.Type().(*types.Pointer).Elem()) {
				for _, t := range all() {
					if t.env[al] == kUnknown {
						u := t.clone()
						u.env[al], t.env[al] = kNil, kNonNil
						u.i++
						more = append(more, u)
					}
				}
			}
		}
		for _, t := range all() {
			env := map[ssa.Value]known{}
			about := false
			for j, b := range mc.Bindings {
				if k := t.env[b]; k != kUnknown && j < len(f.FreeVars) {
					env[f.FreeVars[j]] = k
					about = about || k == kNonNil && isErrorType(b.Type().(*types.Pointer).Elem())
				}
			}
			shows := true
			sub := &failWalk{e: w.e, fn: f, results: map[ssa.Value]bool{}, places: map[string]bool{}, seen: map[string]bool{}, only: map[*ssa.BasicBlock]bool{}, depth: w.depth + 1}
			sub.summarise(&walkState{b: f.Blocks[0], env: env, str: map[ssa.Value]string{}, max: map[ssa.Value]int64{}}, func(st *walkState, rs []ssa.Value) {
				shows = shows && st.printed
			})
			if shows {
				t.printed = true
				t.acted = t.acted || about
			}
		}
	}
	return more
}

// ended: a path reached the end of the function, or the call again.
func (w *failWalk) ended(s *walkState, in ssa.Instruction, rs []ssa.Value) {
	if s.handled || w.query && s.examined {
		return
	}
	i := errIdx(w.fn.Signature)
	rt, _ := in.(*ssa.Return)
	if i >= 0 && w.fn.Signature.Results().Len() > 0 {
		if rt == nil {
			if s.acted && s.examined {
				return // the next one is tried
			}
			w.fail(in, "the error is overwritten by the next attempt")
			return
		}
		switch k := w.eval(s, rs[i]); {
		case k == kNonNil:
			return
		case k == kUnknown && s.examined:
			return
		case k == kNil:
			w.fail(in, "the function reports success although the call failed")
		default:
			w.fail(in, "the error of the call is not looked at")
		}
		return
	}
	if w.err == nil {
		w.fail(in, "the error is not even taken")
		return
	}
	if rt != nil && len(rs) > 0 {
		for _, r := range rs {
			if w.eval(s, r) == kFalse || w.eval(s, r) == kNil {
				return
			}
			if k, ok := r.(*ssa.Const); ok && s.examined && k.Value != nil {
				return
			}
			if w.fromErr(s, r) {
				return
			}
		}
	}
	if !s.acted {
		w.fail(in, "nothing is done about the failure")
	}
}

// cannotFail: with the constants it is given the call never fails.
func (e *errA) cannotFail(call *ssa.Call) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	args := call.Call.Args
	constAt := func(i int) (string, bool) {
		k, ok := args[i].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(k.Value), true
	}
	switch f.String() {
	case "time.Parse":
		l, ok1 := constAt(0)
		v, ok2 := constAt(1)
		if ok1 && ok2 {
			_, err := time.Parse(l, v)
			return err == nil
		}
	}
	switch n := sarflagsFn(f); n {
	case "Set", "SetD":
		t := flagAccess[n].table
		fl, op := e.a.of(args[1]), e.a.of(args[2])
		if fl.unknown || op.unknown || len(fl.vals) == 0 {
			return false
		}
		for _, x := range fl.list() {
			if !e.a.flagNames(t)[x] {
				return false
			}
			for _, o := range op.list() {
				if _, ok := e.a.options(t, x).vals[o]; !ok || o == "" {
					return false
				}
			}
		}
		return true
	case "SetT":
		op := e.a.of(args[1])
		for _, o := range op.list() {
			if !e.a.flagNames('T')[o] {
				return false
			}
		}
		return !op.unknown
	}
	return false
}

func checkC29(c *Ctx) {
	a := newNameA(c)
	e := &errA{c: c, a: a, n: map[string]int{}, sum: map[string]*errSum{}, may: map[string]bool{}}
	sites, exempt := 0, 0
	a.instructions(func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Call:
			n, i := e.fallible(x)
			if i < 0 {
				return
			}
			sites++
			w := &failWalk{e: e, fn: x.Parent(), seen: map[string]bool{}}
			if e.cannotFail(x) || w.never(&walkState{b: x.Block(), env: map[ssa.Value]known{}, str: map[ssa.Value]string{}}, x) {
				exempt++
				c.ok("cannot fail", where(in), true, "")
				return
			}
			e.site(x, n, i)
		case *ssa.Go, *ssa.Defer:
			cc := in.(ssa.CallInstruction).Common()
			if f := cc.StaticCallee(); f != nil && errIdx(f.Signature) >= 0 && c.e.isRepo(f) && !strings.Contains(f.Name(), "Close") {
				c.fail("dropped", where(in)+"/"+f.Name(), a.pos(in), "the error of "+f.Name()+" cannot be looked at: it is started or deferred")
			}
		}
	})
	c.notes = append(c.notes, fmt.Sprintf("%d calls that can fail, %d of them not with their constants.", sites, exempt))
}

func (e *errA) site(x *ssa.Call, n string, i int) {
	w := &failWalk{e: e, fn: x.Parent(), call: x, results: map[ssa.Value]bool{}, places: map[string]bool{}, seen: map[string]bool{}, only: map[*ssa.BasicBlock]bool{}}
	if x.Call.Signature().Results().Len() == 1 {
		if len(*x.Referrers()) > 0 {
			w.err = x
		}
	} else {
		for _, r := range *x.Referrers() {
			ex, ok := r.(*ssa.Extract)
			if !ok {
				continue
			}
			if ex.Index == i {
				if len(*ex.Referrers()) > 0 {
					w.err = ex
				}
			} else {
				w.results[ex] = true
			}
		}
	}
	if partial(n) {
		// how much was done is told with an error too
		w.results = map[ssa.Value]bool{}
	}
	w.absorb = e.within(e.absorbed(n), 0)
	w.query = n == "os.Stat" // whether there is such a file
	if f := x.Call.StaticCallee(); f != nil && e.c.e.isRepo(f) && errIdx(w.fn.Signature) < 0 && len(f.Blocks) > 0 {
		// it tells the operator itself
		w.query = e.summary(f, &failWalk{e: e, fn: w.fn}, &walkState{b: x.Block(), env: map[ssa.Value]known{}, str: map[ssa.Value]string{}}, x).reports
	}
	at := 0
	for k, in := range x.Block().Instrs {
		if in == ssa.Instruction(x) {
			at = k + 1
		}
	}
	w.run(&walkState{b: x.Block(), i: at, env: map[ssa.Value]known{}, str: map[ssa.Value]string{}})
	short := n
	if k := strings.LastIndexByte(n, '.'); k >= 0 {
		short = n[k+1:]
	}
	con := pkgOf(x) + "/" + short
	e.c.oblig++
	e.c.rules["failure followed"]++
	if w.bad != "" {
		e.c.fail("dropped", con, e.a.pos(x), fmt.Sprintf("in %s, when %s fails: %s (%s)", where(x), n, w.bad, e.a.pos(w.badPos)))
	}
}

// partial: operations that tell how much they did even when they fail.
func partial(n string) bool {
	switch n[strings.LastIndexByte(n, '.')+1:] {
	case "Read", "ReadFull", "ReadAtLeast", "ReadAt", "Write", "WriteAt", "WriteString", "Copy", "CopyN", "CopyBuffer":
		return strings.HasPrefix(n, "(*os.") || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "(*bufio.") || !strings.Contains(n, ".")
	}
	return false
}

// within: the action itself, or a function of the program that always takes it.
func (e *errA) within(act func(ssa.Instruction) bool, depth int) func(ssa.Instruction) bool {
	if act == nil {
		return nil
	}
	return func(in ssa.Instruction) bool {
		if act(in) {
			return true
		}
		x, ok := in.(*ssa.Call)
		if !ok || depth > 2 {
			return false
		}
		f := x.Call.StaticCallee()
		if f == nil || !e.c.e.isRepo(f) || len(f.Blocks) == 0 {
			return false
		}
		deeper := e.within(act, depth+1)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if !deeper(i) {
					continue
				}
				all := true
				for _, r := range f.Blocks {
					if _, ok := r.Instrs[len(r.Instrs)-1].(*ssa.Return); ok && !b.Dominates(r) {
						all = false
					}
				}
				if all {
					return true
				}
			}
		}
		return false
	}
}

// absorbed: the documented failure actions of functions that then succeed.
func (e *errA) absorbed(n string) func(ssa.Instruction) bool {
	switch n {
	case "fileio.FileMeta":
		// a file to be deleted need not be here: the operator is told
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			return ok && strings.Contains(callName(c), "ErrPrint")
		}
	case "syscall.Statfs", "golang.org/x/sys/unix.Statfs":
		// a beacon says that it gives no free space
		return func(in ssa.Instruction) bool {
			c, ok := in.(*ssa.Call)
			if !ok || sarflagsFn(c.Call.StaticCallee()) != "Set" {
				return false
			}
			f, o := e.a.of(c.Call.Args[1]).list(), e.a.of(c.Call.Args[2]).list()
			return len(f) == 1 && f[0] == "freespace" && len(o) == 1 && o[0] == "no"
		}
	}
	return nil
}
