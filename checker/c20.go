package main

// C20, C21: checksums and positioned reads and writes.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = &checkDef{run: checkC20, min: 60,
		rule: "Abstract interpretation of the checksum function for every type and for any other, with hashes, files and copying replaced by their contracts (a digest stands for everything fed to one hash of a named algorithm): a checksum is returned only when the file of that name was opened, exactly its whole content was fed to one fresh hash of the algorithm named (crc32 with the IEEE polynomial) without error and nothing else was, and it is that hash's digest of the length the protocol gives; otherwise an error without a checksum. The metadata constructors are interpreted over that contract: the checksum carried is the one of the file described, of the type and length the header announces."}
	checks["C21"] = &checkDef{run: checkC21, min: 30,
		rule: "Abstract interpretation of the positioned read, write and seek with an unknown file, position, length and buffer, file operations replaced by their contracts: success is reported only if the position is representable, the file was open, the operation was made at exactly that position without error (positioned directly, or after a seek from the start known to have arrived there, with nothing in between), on the given buffer or on a fresh one of the length asked for, of which exactly the part read is returned, or the count written."}
}

var hashLen = map[string]int64{"crypto/md5.New": 16, "crypto/sha1.New": 20, "hash/crc32.New": 4, "hash/crc32.NewIEEE": 4}

// algorithm names what a digest is of.
var algName = map[string]string{"crypto/md5.New": "md5", "crypto/sha1.New": "sha1", "crypto/md5.Sum": "md5", "crypto/sha1.Sum": "sha1"}

var algOf = map[string]string{"crc32": "hash/crc32.NewIEEE", "md5": "crypto/md5.New", "sha1": "crypto/sha1.New"}

const ieeePoly = 0xedb88320

type hashT struct {
	alg string
	len int64
}

// hashModel: hashes as the sequence of what they were fed.
func (c *Ctx) hashModel(hs map[string]hashT, alias map[string]string, pc *piecesT) hookFn {
	next := 0
	table := func(s *State, v Val) string {
		k := valKey(v)
		if strings.Contains(k, "crctab:") {
			return k[strings.Index(k, "crctab:")+7:]
		}
		if strings.Contains(k, "IEEETable") {
			return fmt.Sprint(ieeePoly)
		}
		if p, ok := v.(*PtrV); ok {
			if o := s.obj(p.Obj); o != nil && strings.Contains(o.Label, "IEEETable") {
				return fmt.Sprint(ieeePoly)
			}
		}
		return "?"
	}
	crc := func(poly string) string {
		if poly == fmt.Sprint(ieeePoly) {
			return "crc32"
		}
		return "crc32 with polynomial " + poly
	}
	return func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		switch name {
		case "(*os.File).Read", "(*bufio.Reader).Read", "(io.Reader).Read":
			if pc != nil && len(args) == 2 {
				return pc.read(c, s, name, fileKey(args[0], alias), args[1])
			}
		case "errors.Is":
			if x, ok := args[0].(*IfaceV); ok && pc != nil && len(args) == 2 {
				if y, ok := args[1].(*IfaceV); ok && y.Sym == "ext:io.EOF" && (x.Sym == y.Sym || x.Sym == "" || strings.HasPrefix(x.Sym, notEOF)) {
					return ret(s, boolC(x.Sym == y.Sym)), true
				}
			}
		}
		if fn != nil && !strings.HasPrefix(name, "hash") && !strings.HasPrefix(name, "crypto") && !strings.HasPrefix(name, "(hash") && !strings.HasPrefix(name, "io.") {
			return nil, false
		}
		mk := func(alg string, n int64) ([]*Outcome, bool) {
			next++
			k := fmt.Sprintf("hash%d", next)
			hs[k] = hashT{alg, n}
			s.addEvent(&Event{Kind: "hash", Name: k})
			return ret(s, &IfaceV{Sym: k}), true
		}
		feed := func(kind, h string, v ...Val) { s.addEvent(&Event{Kind: kind, Name: h, Args: v}) }
		switch name {
		case "hash/crc32.MakeTable":
			iv, _ := args[0].(*IntV)
			poly := "?"
			if iv != nil {
				if l := s.norm(iv.L); l.isConst() {
					poly = l.c.String()
				}
			}
			return ret(s, &PtrV{Ext: "crctab:" + poly}), true
		case "hash/crc32.New":
			return mk(crc(table(s, args[0])), 4)
		case "hash/crc32.NewIEEE":
			return mk("crc32", 4)
		case "crypto/md5.New", "crypto/sha1.New":
			return mk(algName[name], hashLen[name])
		case "crypto/sha256.New", "crypto/sha512.New", "hash/adler32.New", "hash/fnv.New32", "hash/fnv.New32a":
			return mk(name, 32)
		case "io.Copy", "io.CopyBuffer":
			if d, ok := args[0].(*IfaceV); ok && hs[d.Sym].alg != "" {
				if pc != nil && !pc.is(c, s, "Used", 0) {
					feed("feed-part", d.Sym) // only what was left
				}
				pc.spoil(c, s)
				bad := s.clone()
				s.addEvent(&Event{Kind: "feed-all", Name: d.Sym, Args: []Val{args[1]}})
				bad.addEvent(&Event{Kind: "feed-failed", Name: d.Sym, Args: []Val{args[1]}})
				n := c.e.sym(types.Typ[types.Int64], freshKey("copied"))
				return append(ret(s, n, nilIface), ret(bad, n, newErr(name))...), true
			}
		case "(hash.Hash).Write", "(io.Writer).Write", "(hash.Hash32).Write", "io.WriteString", "(hash.Hash).Reset", "(hash.Hash32).Reset", "io.CopyN":
			if d, ok := args[0].(*IfaceV); ok && hs[d.Sym].alg != "" {
				if strings.HasSuffix(name, "Reset") {
					feed("feed-part", d.Sym)
					pc.spoil(c, s)
					return ret(s), true
				}
				q, ok := c.e.contents(s, args[1])
				if ok && pc.write(c, s, q) {
					return ret(s, &IntV{seqLen(q)}, nilIface), true
				}
				pc.spoil(c, s)
				if !ok {
					feed("feed-part", d.Sym)
					return nil, false
				}
				feed("feed-data", d.Sym, &StrV{q})
				return ret(s, &IntV{seqLen(q)}, nilIface), true
			}
		case "(hash.Hash).Sum", "(hash.Hash32).Sum":
			if d, ok := args[0].(*IfaceV); ok && hs[d.Sym].alg != "" {
				pre, ok := c.e.contents(s, args[1])
				if !ok {
					return nil, false
				}
				src := mkSrc("digest("+d.Sym+")", nil)
				s.assumeEQ(linAddC(src.Len, -hs[d.Sym].len))
				s.addEvent(&Event{Kind: "digest", Name: d.Sym, Args: []Val{pc.complete(c, s)}})
				return ret(s, c.e.appendSeq(s, &SliceV{Off: linC(0), Len: linC(0), Cap: linC(0), Nil: 'y'}, types.Typ[types.Byte], append(append(Seq{}, pre...), strSrc(src).S...))), true
			}
		case "(hash.Hash).Size", "(hash.Hash32).Size":
			if d, ok := args[0].(*IfaceV); ok && hs[d.Sym].alg != "" {
				return ret(s, &IntV{linC(hs[d.Sym].len)}), true
			}
		case "(hash.Hash32).Sum32":
			if d, ok := args[0].(*IfaceV); ok && hs[d.Sym].alg != "" {
				a := mkAtom("digest32("+d.Sym+")", bigZero, pow2(32))
				s.addEvent(&Event{Kind: "digest", Name: d.Sym, Args: []Val{pc.complete(c, s)}})
				return ret(s, &IntV{linA(a)}), true
			}
		case "crypto/md5.Sum", "crypto/sha1.Sum", "hash/crc32.ChecksumIEEE", "hash/crc32.Checksum":
			q, ok := c.e.contents(s, args[0])
			if !ok {
				return nil, false
			}
			next++
			k := fmt.Sprintf("hash%d", next)
			switch name {
			case "crypto/md5.Sum":
				hs[k] = hashT{"md5", 16}
			case "crypto/sha1.Sum":
				hs[k] = hashT{"sha1", 20}
			case "hash/crc32.ChecksumIEEE":
				hs[k] = hashT{"crc32", 4}
			case "hash/crc32.Checksum":
				hs[k] = hashT{crc(table(s, args[1])), 4}
			}
			s.addEvent(&Event{Kind: "hash", Name: k})
			feed("feed-data", k, &StrV{q})
			s.addEvent(&Event{Kind: "digest", Name: k})
			if strings.HasPrefix(name, "hash") {
				return ret(s, &IntV{linA(mkAtom("digest32("+k+")", bigZero, pow2(32)))}), true
			}
			src := mkSrc("digest("+k+")", nil)
			s.assumeEQ(linAddC(src.Len, -hs[k].len))
			return ret(s, &ArrV{S: strSrc(src).S, N: hs[k].len}), true
		case "bufio.NewReader", "bufio.NewReaderSize":
			k := freshKey("bufio")
			alias[k] = fileKey(args[0], nil)
			return ret(s, &PtrV{Ext: k}), true
		}
		return nil, false
	}
}

// notEOF: an error that is not the end of a file.
const notEOF = "err:noteof"

// piecesT: a file that is read and hashed piece by piece. What has happened
// so far is kept in an object of the program's state, so that it takes part
// in the treatment of loops: whether something was read that the hash was
// not given yet, whether the end was met, whether anything went wrong.
type piecesT struct {
	obj  *PtrV
	path Val
}

func (c *Ctx) newPieces(st *State, path Val) *piecesT {
	i := types.Typ[types.Int]
	t := types.NewStruct([]*types.Var{
		types.NewField(token.NoPos, nil, "Pending", i, false),
		types.NewField(token.NoPos, nil, "Ended", i, false),
		types.NewField(token.NoPos, nil, "Bad", i, false),
		types.NewField(token.NoPos, nil, "Used", i, false),
	}, nil)
	z := func() Val { return &IntV{linC(0)} }
	return &piecesT{c.alloc(st, t, &StructV{F: []Val{z(), z(), z(), z()}}, "pieces"), path}
}

func (p *piecesT) is(c *Ctx, s *State, f string, v int64) bool {
	x, ok := c.field(s, p.obj, f).(*IntV)
	return ok && s.proveEQ(x.L, linC(v))
}

func (p *piecesT) set(c *Ctx, s *State, f string, v int64) {
	c.setField(s, p.obj, f, &IntV{linC(v)})
}

func (p *piecesT) spoil(c *Ctx, s *State) {
	if p != nil {
		p.set(c, s, "Bad", 1)
	}
}

// opened: the file was opened at the path and not read otherwise.
func (p *piecesT) opened(c *Ctx, s *State, file string) bool {
	open, hashes := false, 0
	for _, v := range s.events() {
		switch {
		case v.Kind == "hash":
			hashes++
		case v.Kind == "call" && (v.Name == "os.Open" || v.Name == "os.OpenFile"):
			if valKey(v.Res[0]) == file {
				open = sureNil(s, v.Res[1]) && p.path != nil && c.same(s, v.Args[0], p.path, nil)
			}
		case v.Kind == "call" && strings.HasPrefix(v.Name, "(*os.File).") && len(v.Args) > 0 && fileKey(v.Args[0], nil) == file:
			switch v.Name[len("(*os.File)."):] {
			case "Close", "Stat", "Name", "Sync", "Fd":
			default:
				open = false
			}
		case v.Kind == "feed-all" || v.Kind == "feed-failed" || v.Kind == "feed-data" || v.Kind == "feed-part":
			open = false
		}
	}
	return open && hashes == 1
}

// read: some bytes, the end, or a failure.
func (p *piecesT) read(c *Ctx, s *State, name, file string, to Val) ([]*Outcome, bool) {
	b, ok := to.(*SliceV)
	if !ok || b.Arr == 0 {
		return nil, false
	}
	if !p.opened(c, s, file) {
		p.spoil(c, s)
	}
	c.e.havocVal(s, b, 0)
	p.set(c, s, "Used", 1)
	end, bad := s.clone(), s.clone()
	// some
	src := mkSrc(freshKey("piece"), nil)
	s.assumeGE(linAddC(src.Len, -1))
	s.assumeGE(linSub(b.Len, src.Len))
	o := *s.obj(b.Arr)
	ns, ok := s.seqWrite(o.arr(), b.Off, strSrc(src).S)
	if !ok {
		return nil, false
	}
	if o.K == 'a' {
		o.S = ns
	} else if av, ok := o.V.(*ArrV); ok {
		o.V = &ArrV{S: ns, N: av.N}
	}
	s.setObj(&o)
	if !p.is(c, s, "Pending", 0) || !p.is(c, s, "Ended", 0) {
		p.spoil(c, s)
	}
	p.set(c, s, "Pending", 1)
	s.addEvent(&Event{Kind: "read-piece", Args: []Val{strSrc(src)}})
	// none: the end
	p.set(c, end, "Ended", 1)
	// failure
	p.spoil(c, bad)
	n := c.e.sym(types.Typ[types.Int], freshKey("n")).(*IntV)
	bad.assumeGE(n.L)
	bad.assumeGE(linSub(b.Len, n.L))
	outs := append(ret(s, &IntV{src.Len}, nilIface), ret(end, &IntV{linC(0)}, &IfaceV{Sym: "ext:io.EOF"})...)
	return append(outs, ret(bad, n, &IfaceV{Sym: freshKey(notEOF)})...), true
}

// write: the piece just read is hashed.
func (p *piecesT) write(c *Ctx, s *State, q Seq) bool {
	if p == nil {
		return false
	}
	var last *Event
	for _, v := range s.events() {
		if v.Kind == "read-piece" {
			last = v
		}
	}
	if n := seqLen(s.normSeq(q)); n.isC(0) {
		return true
	}
	if last == nil {
		return false
	}
	if p.is(c, s, "Bad", 1) {
		return true // it no longer counts
	}
	if !p.is(c, s, "Pending", 1) || s.seqEqual(q, last.Args[0].(*StrV).S) != 1 {
		return false
	}
	p.set(c, s, "Pending", 0)
	return true
}

// complete: all of the file has been read and hashed.
func (p *piecesT) complete(c *Ctx, s *State) Val {
	return boolC(p != nil && p.is(c, s, "Pending", 0) && p.is(c, s, "Ended", 1) && p.is(c, s, "Bad", 0))
}

// fileKey: the file behind a reader.
func fileKey(v Val, alias map[string]string) string {
	if i, ok := v.(*IfaceV); ok && i.T != nil {
		v = i.V
	}
	if p, ok := v.(*PtrV); ok && p.Ext != "" && alias[p.Ext] != "" {
		return alias[p.Ext]
	}
	return valKey(v)
}

// filePath: where the file of a name is, as examining it computes it.
func (c *Ctx) filePath(fname Val) Val {
	for _, o := range c.run("fileio.FileExists", c.st0, "fileio.FileExists", fname) {
		for _, v := range o.st.events() {
			if v.Kind == "call" && (v.Name == "os.Stat" || v.Name == "os.Lstat") {
				return v.Args[0]
			}
		}
	}
	return nil
}

func (c *Ctx) withHook(h hookFn, f func()) {
	old := c.e.hook
	c.e.hook = func(s *State, fn *ssa.Function, name string, args []Val, site ssa.Instruction) ([]*Outcome, bool) {
		if r, ok := h(s, fn, name, args); ok {
			return r, ok
		}
		if old != nil {
			return old(s, fn, name, args, site)
		}
		return nil, false
	}
	f()
	c.e.hook = old
}

func checkC20(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	name := "fileio.Checksum"
	fn := c.e.fn(name)
	if fn == nil || len(fn.Params) != 2 {
		c.fail("anchor", name, "", "not found")
		return
	}
	fname := c.e.sym(types.Typ[types.String], "fname")
	path := c.filePath(fname)
	known := []string{"none", "crc32", "md5", "sha1"}
	for _, ty := range []string{"none", "crc32", "md5", "sha1", "", "unknown"} {
		st := c.st0.clone()
		var tv Val = strC(ty)
		scn := name + " " + ty
		if ty == "unknown" {
			tv = c.e.sym(types.Typ[types.String], "csumtype")
			for _, k := range known {
				st.assumeSeqEq(tv.(*StrV).S, strC(k).S, false)
			}
		}
		hs, alias := map[string]hashT{}, map[string]string{}
		var outs []*Outcome
		pc := c.newPieces(st, path)
		c.withHook(c.hashModel(hs, alias, pc), func() { outs = c.run(scn, st, name, tv, fname) })
		good := 0
		for _, o := range outs {
			if !c.ok("returns", scn, o.exit == "" && len(o.ret) == 2, "does not return") {
				continue
			}
			sum, ok := c.e.contents(o.st, o.ret[0])
			if !c.ok("result", scn, ok, "the checksum is not known") {
				continue
			}
			sum = o.st.normSeq(sum)
			empty := o.st.proveEQ(seqLen(sum), linC(0))
			if !sureNil(o.st, o.ret[1]) {
				c.ok("error", scn, isErr(o.st, o.ret[1]) && empty, "a checksum is returned although something failed")
				continue
			}
			good++
			c.ok("unknown", scn, ty != "" && ty != "unknown", "an unknown checksum type is accepted")
			if ty == "none" {
				c.ok("none", scn, empty, "there is a checksum for type none")
				continue
			}
			// what the digest is of
			h := ""
			if src := o.st.wholeSrc(sum); src != nil && strings.HasPrefix(src.key, "digest(") {
				h = src.key[7 : len(src.key)-1]
			} else if len(sum) == 1 && sum[0].K == pInt && sum[0].N == 4 && sum[0].Lo == 0 && sum[0].Len.isC(4) && strings.Contains(sum[0].V.key(), "") {
				for k := range hs {
					if o.st.proveEQ(sum[0].V, linA(mkAtom("digest32("+k+")", bigZero, pow2(32)))) {
						h = k
					}
				}
			}
			if !c.ok("digest", scn, h != "", "what is returned is not one digest") {
				continue
			}
			c.ok("algorithm", scn, hs[h].alg == ty, "the digest is %s", hs[h].alg)
			c.ok("length", scn, o.st.proveEQ(seqLen(sum), linC(hs[h].len)), "the digest is not whole")
			c.ok("length", scn, hs[h].len == 4*c.optVal("csumlen", ty), "the digest is not of the length the flags assign to the type")
			c.fed(scn, o.st, h, path, hs, alias)
		}
		c.ok("reached", scn, (good > 0) == (ty != "" && ty != "unknown"), "the type is %s", map[bool]string{true: "accepted", false: "never accepted"}[good > 0])
	}
	c.metaChecksum()
}

// fed: the hash was fed the whole file, once, and then summed.
func (c *Ctx) fed(scn string, st *State, h string, path Val, hs map[string]hashT, alias map[string]string) {
	open := map[string]bool{}  // files opened at the path
	moved := map[string]bool{} // files read from or moved before
	whole := map[string]bool{} // contents read completely
	feeds, digests := 0, 0
	for _, v := range st.events() {
		switch v.Kind {
		case "call":
			switch {
			case v.Name == "os.Open" || v.Name == "os.OpenFile":
				if sureNil(st, v.Res[1]) && path != nil && c.same(st, v.Args[0], path, nil) {
					open[valKey(v.Res[0])] = true
				}
			case v.Name == "os.ReadFile":
				if sureNil(st, v.Res[1]) && path != nil && c.same(st, v.Args[0], path, nil) {
					if q, ok := c.e.contents(st, v.Res[0]); ok {
						whole[st.normSeq(q).key()] = true
					}
				}
			case v.Name == "io.ReadAll":
				k := fileKey(v.Args[0], alias)
				if open[k] && !moved[k] && sureNil(st, v.Res[1]) {
					if q, ok := c.e.contents(st, v.Res[0]); ok {
						whole[st.normSeq(q).key()] = true
					}
				}
				moved[k] = true
			case strings.HasPrefix(v.Name, "(*os.File).") && len(v.Args) > 0:
				m := v.Name[len("(*os.File)."):]
				k := fileKey(v.Args[0], alias)
				switch m {
				case "Close", "Stat", "Name", "Sync", "Fd":
				case "Seek":
					o, w := v.Args[1].(*IntV), v.Args[2].(*IntV)
					if o != nil && w != nil && st.norm(o.L).isC(0) && st.norm(w.L).isC(0) && sureNil(st, v.Res[1]) {
						delete(moved, k)
					} else {
						moved[k] = true
					}
				default:
					moved[k] = true
				}
			}
		case "feed-all":
			k := fileKey(v.Args[0], alias)
			if v.Name == h {
				feeds++
				c.ok("whole-file", scn, open[k] && !moved[k], "what is fed to the hash is not the whole file named")
				c.ok("whole-file", scn, digests == 0, "the digest is taken before the file is read")
			}
			moved[k] = true
		case "feed-data":
			if v.Name == h {
				feeds++
				q, _ := v.Args[0].(*StrV)
				c.ok("whole-file", scn, q != nil && whole[st.normSeq(q.S).key()], "what is fed to the hash is not the whole file named")
				c.ok("whole-file", scn, digests == 0, "the digest is taken before the file is read")
			}
		case "feed-part", "feed-failed":
			if v.Name == h {
				c.ok("whole-file", scn, false, "reading the file failed, or part of something is fed to the hash")
			}
		case "digest":
			if v.Name == h {
				digests++
				if len(v.Args) == 1 && v.Args[0].(*BoolV).Op == 'c' && v.Args[0].(*BoolV).C {
					feeds++ // piece by piece
				}
			}
		}
	}
	c.ok("whole-file", scn, feeds == 1, "the hash is fed %d times", feeds)
}

// optVal: the value a header flag's option has in the shipped table.
func (c *Ctx) optVal(field, opt string) int64 {
	if f, ok := c.tables.Flags[field]; ok {
		if v, ok := f.Options[opt]; ok {
			return int64(v)
		}
	}
	return -1
}

// metaChecksum: what metadata carries is the checksum of the file described.
func (c *Ctx) metaChecksum() {
	sumFn, entFn, fmFn := c.e.fn("fileio.Checksum"), c.e.fn("dirent.DirEnt.New"), c.e.fn("fileio.FileMeta")
	t := c.e.typ("metadata.MetaData")
	if t == nil || sumFn == nil || entFn == nil {
		c.fail("anchor", "metadata.MetaData", "", "not found")
		return
	}
	_ = fmFn
	hook := func(s *State, fn *ssa.Function, name string, args []Val) ([]*Outcome, bool) {
		switch fn {
		case nil:
			return nil, false
		case entFn:
			bad := s.clone()
			c.e.havocVal(s, args[0], 0)
			return append(ret(s, nilIface), ret(bad, newErr("DirEnt.New"))...), true
		case sumFn:
			bad := s.clone()
			if k, ok := constStrOf(s, args[0]); ok && k != "none" && hashLen[algOf[k]] == 0 {
				bad.addEvent(&Event{Kind: "checksum-failed", Args: args})
				return ret(bad, nilSlice(), newErr("Checksum")), true
			}
			none := s.clone()
			key := freshKey("sum")
			v := symBytes(c.e, key)
			if q, ok := c.e.contents(s, v); ok {
				s.assumeGE(linAddC(seqLen(q), -1))
			}
			s.addEvent(&Event{Kind: "checksum", Args: args, Res: []Val{v}})
			none.addEvent(&Event{Kind: "checksum", Args: args, Res: []Val{nilSlice()}})
			bad.addEvent(&Event{Kind: "checksum-failed", Args: args})
			return append(append(ret(s, v, nilIface), ret(none, nilSlice(), nilIface)...), ret(bad, nilSlice(), newErr("Checksum"))...), true
		}
		return nil, false
	}
	for _, mode := range []string{"New", "Make"} {
		for _, ty := range []string{"none", "crc32", "md5", "sha1", ""} {
			name := "metadata.MetaData." + mode
			scn := name + " " + ty
			if mode == "Make" {
				if ty != "" {
					continue
				}
				scn = name
			}
			fn := c.e.fn(name)
			if fn == nil {
				c.fail("anchor", name, "", "not found")
				return
			}
			st := c.st0.clone()
			p := c.symAlloc(st, "metadata.MetaData", "frame")
			if mode == "New" && ty == "" { // nothing said: a new frame
				o := *st.obj(p.Obj)
				o.V = zeroVal(t)
				st.setObj(&o)
			}
			inf := c.symAlloc(st, "metadata.Minfo", "info")
			iv := &IfaceV{T: types.NewPointer(c.e.typ("metadata.Minfo")), V: inf}
			want := c.field(st, inf, "Fname")
			args := []Val{nil, iv}
			if mode == "New" {
				fl := "descriptor=d32,transfer=file"
				if ty != "" {
					fl += ",csumtype=" + ty
				}
				args[0] = strC(fl)
			} else {
				h := c.e.sym(types.Typ[types.Uint32], "hdr")
				args[0] = h
			}
			var outs []*Outcome
			c.withHook(hook, func() { outs = c.method(st, scn, name, p, args...) })
			good := 0
			for _, o := range outs {
				if o.exit != "" || len(o.ret) != 1 || !sureNil(o.st, o.ret[0]) {
					continue
				}
				good++
				h, _ := c.field(o.st, p, "Header").(*IntV)
				if h == nil {
					c.fail("anchor", "metadata.MetaData", "", "Header not found")
					return
				}
				opt := c.optOf(o.st, h.L, "csumtype")
				var sums []*Event
				for _, v := range o.st.events() {
					if strings.HasPrefix(v.Kind, "checksum") {
						sums = append(sums, v)
					}
				}
				got, ok := c.e.contents(o.st, c.field(o.st, p, "Checksum"))
				if !c.ok("metadata", scn, ok, "the checksum is not known") {
					continue
				}
				if len(sums) == 0 {
					c.ok("metadata", scn, o.st.proveEQ(seqLen(got), linC(0)), "a checksum is carried that was not calculated")
					c.ok("metadata", scn, c.hasFlag(o.st, h.L, "transfer", "stream") || c.hasFlag(o.st, h.L, "csumtype", "none"), "no checksum is calculated for transfer %q and type %q", c.optOf(o.st, h.L, "transfer"), opt)
					continue
				}
				if !c.ok("metadata", scn, len(sums) == 1 && sums[0].Kind == "checksum", "the frame is built although the checksum failed") {
					continue
				}
				s := sums[0]
				k, isC := constStrOf(o.st, s.Args[0])
				c.ok("metadata", scn, isC && c.hasFlag(o.st, h.L, "csumtype", k), "the checksum is of type %q, the header says %q", k, opt)
				if mode == "New" {
					c.ok("metadata", scn, isC && c.hasFlag(o.st, h.L, "csumlen", k), "the length announced is not that of the checksum's type")
					c.ok("metadata", scn, ty == "" || k == ty, "the checksum is of type %q, asked for was %q", k, ty)
				}
				c.ok("metadata", scn, c.same(o.st, s.Args[1], want, nil), "the checksum is of another file")
				res, ok := c.e.contents(o.st, s.Res[0])
				c.ok("metadata", scn, ok && o.st.seqEqual(got, res) == 1, "the checksum carried is not the one calculated")
			}
			c.ok("reached", scn, good > 0, "no frame is ever built")
		}
	}
}

// ------------------------------------------------------------------- C21

func checkC21(c *Ctx) {
	c.e.maxIn, c.e.maxOut = 1000, 2000
	for _, what := range []string{"Seek", "Read", "Write"} {
		name := "fileio.File" + what
		fn := c.e.fn(name)
		if fn == nil || len(fn.Params) < 2 {
			c.fail("anchor", name, "", "not found")
			continue
		}
		for _, open := range []bool{true, false} {
			st := c.st0.clone()
			fp := c.e.sym(fn.Params[0].Type(), "fp").(*PtrV)
			q := *fp
			fp = &q
			fp.MayNil = ""
			scn := name
			if !open {
				fp = &PtrV{}
				scn += " of a closed file"
			}
			pos := c.e.sym(types.Typ[types.Uint64], "pos")
			args := []Val{fp, pos}
			var buf *SliceV
			var blen *IntV
			switch what {
			case "Read":
				blen = c.e.sym(types.Typ[types.Int], "blen").(*IntV)
				st.assumeGE(blen.L)
				args = append(args, blen)
			case "Write":
				buf = symBytes(c.e, "buf")
				args = append(args, buf)
			}
			good := 0
			for _, o := range c.run(scn, st, name, args...) {
				if !c.ok("returns", scn, o.exit == "" && len(o.ret) > 0, "does not return") {
					continue
				}
				last := o.ret[len(o.ret)-1]
				if isErr(o.st, last) {
					if open {
						c.ok("refused", scn, c.hadToFail(o.st, pos.(*IntV)), "an operation that could be done is refused")
					}
					continue
				}
				good++
				if !open {
					c.ok("closed", scn, false, "a closed file is not reported")
					continue
				}
				c.positioned(scn, what, o, fp, pos.(*IntV), blen, buf, last)
			}
			if open {
				c.ok("reached", scn, good > 0, "never succeeds")
			}
		}
	}
}

func (c *Ctx) positioned(scn, what string, o *Outcome, fp *PtrV, pos, blen *IntV, buf *SliceV, last Val) {
	st := o.st
	errOK := func(v Val) bool { return sureNil(st, v) || valKey(v) == valKey(last) }
	at := false // the file is known to be at the position
	done := 0
	for _, v := range st.events() {
		if v.Kind != "call" || !strings.HasPrefix(v.Name, "(*os.File).") {
			continue
		}
		if !c.ok("file", scn, valKey(v.Args[0]) == valKey(fp), "another file is used") {
			continue
		}
		m := v.Name[len("(*os.File)."):]
		switch m {
		case "Seek":
			off, w := v.Args[1].(*IntV), v.Args[2].(*IntV)
			np, _ := v.Res[0].(*IntV)
			okOff := off != nil && w != nil && st.proveEQ(off.L, pos.L) && st.norm(w.L).isC(0)
			at = okOff && errOK(v.Res[1]) && np != nil
			if what == "Seek" {
				done++
				c.ok("position", scn, okOff, "seeks to another position")
				c.ok("position", scn, errOK(v.Res[1]), "a failed seek is not reported")
			}
		case "Read", "Write", "ReadAt", "WriteAt":
			done++
			if strings.HasSuffix(m, "At") {
				off, _ := v.Args[2].(*IntV)
				c.ok("position", scn, off != nil && st.proveEQ(off.L, pos.L), "the operation is at another position")
			} else {
				c.ok("position", scn, at, "the operation is not at the position asked for")
			}
			at = false
			c.ok("operation", scn, strings.HasPrefix(m, what), "%s instead", m)
			c.ok("operation", scn, errOK(v.Res[1]), "a failed operation is not reported")
			b, _ := v.Args[1].(*SliceV)
			n, _ := v.Res[0].(*IntV)
			if !c.ok("operation", scn, b != nil && n != nil, "the operation is not known") {
				continue
			}
			if what == "Write" {
				c.ok("data", scn, b.Arr == buf.Arr && st.proveEQ(b.Off, buf.Off) && st.proveEQ(b.Len, buf.Len), "something else than the buffer is written")
				r, ok := o.ret[0].(*IntV)
				c.ok("data", scn, ok && st.proveEQ(r.L, n.L), "the count returned is not the count written")
				continue
			}
			c.ok("data", scn, st.proveEQ(b.Len, blen.L), "another length than asked for is read")
			r, ok := o.ret[0].(*SliceV)
			c.ok("data", scn, ok && r.Arr == b.Arr && st.proveEQ(r.Off, b.Off) && st.proveEQ(r.Len, n.L), "what is returned is not exactly what was read")
		case "Stat", "Name", "Fd", "Sync":
		default:
			c.ok("untouched", scn, false, "%s changes the file or its position", m)
		}
	}
	if what == "Seek" {
		c.ok("operation", scn, done == 1 && at, "the file is not known to be at the position")
	} else {
		c.ok("operation", scn, done == 1, "%d operations for one request", done)
	}
	c.ok("position", scn, st.proveGE(linSub(linA(mkAtom("maxint64", bigMaxInt64(), bigMaxInt64())), pos.L)), "a position that cannot be represented is accepted")
}

func bigMaxInt64() *big.Int { return new(big.Int).Sub(pow2(63), bigOne) }

// hadToFail: the position cannot be represented, or an operation failed.
func (c *Ctx) hadToFail(st *State, pos *IntV) bool {
	if st.proveGE(linSub(pos.L, linB(pow2(63)))) {
		return true
	}
	for _, v := range st.events() {
		if v.Kind != "call" || !strings.HasPrefix(v.Name, "(*os.File).") || len(v.Res) < 2 {
			continue
		}
		n, _ := v.Res[0].(*IntV)
		if !sureNil(st, v.Res[1]) || strings.HasSuffix(v.Name, ".Seek") && n != nil && !st.proveEQ(n.L, pos.L) {
			return true
		}
	}
	return false
}
