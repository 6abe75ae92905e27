package main

// C06: the shipped flag tables.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = &checkDef{run: checkC06, min: 400,
		rule: "The tables of saratoga.json, and the tables ReadConfig makes of them (obtained by abstract interpretation of ReadConfig over that file), are compared entry by entry with the published layout; the bit ranges of every two fields of a frame type, the options of every field, and the two directions of the field / frame type relation are compared pairwise."}
}

type pubField struct {
	msb, len int
	in       string // frame types, by initial: b r m d s
	opts     string
}

// published: the Saratoga version 1 header words.
var published = map[string]pubField{
	"version":       {0, 3, "brmds", "v0=0 v1=1"},
	"frametype":     {3, 5, "brmds", "beacon=0 request=1 metadata=2 data=3 status=4"},
	"descriptor":    {8, 2, "brmds", "d16=0 d32=1 d64=2 d128=3"},
	"stream":        {11, 1, "br", "no=0 yes=1"},
	"transfer":      {10, 2, "md", "file=0 directory=1 bundle=2 stream=3"},
	"reqtstamp":     {12, 1, "ds", "no=0 yes=1"},
	"progress":      {12, 1, "m", "inprogress=0 terminated=1"},
	"txwilling":     {12, 2, "br", "no=0 invalid=1 capable=2 yes=3"},
	"rxwilling":     {14, 2, "br", "no=0 invalid=1 capable=2 yes=3"},
	"metadatarecvd": {13, 1, "s", "yes=0 no=1"},
	"allholes":      {14, 1, "s", "yes=0 no=1"},
	"reqholes":      {15, 1, "s", "requested=0 voluntarily=1"},
	"reqtype":       {24, 8, "r", "noaction=0 get=1 put=2 take=3 give=4 delete=5 getdir=6"},
	"reqstatus":     {15, 1, "d", "no=0 yes=1"},
	"udplite":       {16, 1, "br", "no=0 yes=1"},
	"eod":           {16, 1, "d", "no=0 yes=1"},
	"freespace":     {17, 1, "b", "no=0 yes=1"},
	"freespaced":    {18, 2, "b", "d16=0 d32=1 d64=2 d128=3"},
	"csumlen":       {24, 4, "m", "none=0 crc32=1 invalid2=2 invalid3=3 md5=4 sha1=5"},
	"csumtype":      {28, 4, "m", "none=0 crc32=1 md5=2 sha1=3"},
	"reliability":   {13, 1, "m", "udponly=0 udplite=1"},
	"errcode":       {24, 8, "s", "success=0 unspecified=1 cantsend=2 cantreceive=3 filenotfound=4 accessdenied=5 unknownid=6 didnotdelete=7 filetobig=8 badoffset=9 badpacket=10 badrequest=11 internaltimeout=12 baddataflag=13 rxnotinterested=14 fileinuse=15 metadatarequired=16 badstatus=17 rxtimeout=18"},
}
var publishedDirent = map[string]pubField{
	"sod":        {0, 1, "", "sod=1"},
	"property":   {6, 2, "", "normalfile=0 normaldirectory=1 specialfile=2 specialdirectory=3"},
	"descriptor": {8, 2, "", "d16=0 d32=1 d64=2 d128=3"},
	"reserved":   {10, 1, "", "reserved=0"},
}
var publishedTime = map[string]pubField{
	"timestamp": {0, 8, "", "localinterp=0 posix32=1 posix64=2 posix32_32=3 posix64_32=4 epoch2000_32=5"},
}
var frameNames = []string{"beacon", "request", "metadata", "data", "status"}

// plain turns a value whose contents are all known into plain Go data.
func (c *Ctx) plain(st *State, v Val, t types.Type, depth int) (interface{}, bool) {
	if depth > 8 {
		return nil, false
	}
	switch x := c.e.expand(v).(type) {
	case *IntV:
		n, ok := st.norm(x.L).constInt()
		return n, ok
	case *StrV:
		return constStrOf(st, x)
	case *BoolV:
		b := st.evalBool(x)
		return b == 1, b != 0
	case *MapV:
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return nil, false
		}
		r := map[string]interface{}{}
		if x.Obj == 0 {
			return r, true
		}
		o := st.obj(x.Obj)
		if o == nil || o.M == nil || o.M.open {
			return nil, false
		}
		for _, k := range o.M.keys {
			en, ok := o.M.ent[k]
			if !ok {
				continue
			}
			ks, ok := constStrOf(st, en.k)
			if !ok {
				return nil, false
			}
			y, ok := c.plain(st, en.v, mt.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			r[ks] = y
		}
		return r, true
	case *StructV:
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		r := map[string]interface{}{}
		for i, f := range x.F {
			y, ok := c.plain(st, f, s.Field(i).Type(), depth+1)
			if !ok {
				return nil, false
			}
			r[strings.ToLower(s.Field(i).Name())] = y
		}
		return r, true
	case *PtrV:
		p, ok := t.Underlying().(*types.Pointer)
		if !ok || x.Obj == 0 {
			return nil, false
		}
		return c.plain(st, c.e.load(st, x, p.Elem()), p.Elem(), depth+1)
	case *SliceV:
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		n, ok := st.norm(x.Len).constInt()
		if !ok {
			return nil, false
		}
		var r []interface{}
		if n == 0 {
			return r, true
		}
		q, ok := st.sliceSeq(x)
		if !ok {
			return nil, false
		}
		for i := 0; i < n; i++ {
			el := st.elemVal(q, linC(int64(i)), s.Elem())
			if el == nil {
				return nil, false
			}
			y, ok := c.plain(st, el, s.Elem(), depth+1)
			if !ok {
				return nil, false
			}
			r = append(r, y)
		}
		return r, true
	}
	return nil, false
}

// loaded: the contents of a package variable after the configuration was read.
func (c *Ctx) loaded(name string) interface{} {
	i := strings.IndexByte(name, '.')
	p := c.e.pkgs[modPath+"/"+name[:i]]
	var g *ssa.Global
	if p != nil {
		g = p.Var(name[i+1:])
	}
	if g == nil {
		c.fail("anchor", name, "", "the table "+name+" was not found")
		return nil
	}
	o := c.st0.obj(c.e.global(g))
	v, ok := c.plain(c.st0, o.V, o.T, 0)
	if !ok {
		c.fail("loaded", name, c.e.pos(g.Pos()), "the contents of the table are not fixed once the configuration has been read: it is written elsewhere, or not from the file alone")
		return nil
	}
	return v
}

func optsOf(s string) map[string]int {
	r := map[string]int{}
	for _, f := range strings.Fields(s) {
		var n int
		i := strings.IndexByte(f, '=')
		fmt.Sscan(f[i+1:], &n)
		r[f[:i]] = n
	}
	return r
}

func asFlagT(v interface{}) (FlagT, bool) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return FlagT{}, false
	}
	var r FlagT
	var o1, o2 bool
	r.Len, o1 = m["len"].(int)
	r.Msb, o2 = m["msb"].(int)
	op, o3 := m["options"].(map[string]interface{})
	r.Options = map[string]int{}
	for k, x := range op {
		n, ok := x.(int)
		if !ok {
			return r, false
		}
		r.Options[k] = n
	}
	if ft, ok := m["frametypes"].([]interface{}); ok {
		for _, x := range ft {
			s, _ := x.(string)
			r.Frametypes = append(r.Frametypes, s)
		}
	}
	return r, o1 && o2 && o3
}

func checkC06(c *Ctx) {
	// the file
	c.flagTable("saratoga.json flags", c.tables.Flags, published, 32)
	c.flagTable("saratoga.json direntflags", c.tables.Dirent, publishedDirent, 16)
	c.flagTable("saratoga.json timestamps", map[string]FlagT{"timestamp": c.tables.Timestamp}, publishedTime, 8)
	c.relation("saratoga.json", c.tables.Flags, c.tables.Frameflags)
	c.layout("saratoga.json", c.tables.Flags, c.tables.Frameflags)
	// what the node makes of it
	conv := func(name string) map[string]FlagT {
		v := c.loaded(name)
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil
		}
		r := map[string]FlagT{}
		for k, x := range m {
			f, ok := asFlagT(x)
			c.ok("loaded", name+"/"+k, ok, "the entry does not have a length, position and options")
			r[k] = f
		}
		return r
	}
	flags := conv("sarflags.Flags")
	c.flagTable("sarflags.Flags", flags, published, 32)
	c.flagTable("sarflags.DirentFlags", conv("sarflags.DirentFlags"), publishedDirent, 16)
	if v := c.loaded("sarflags.TimeStamps"); v != nil {
		f, ok := asFlagT(v)
		c.ok("loaded", "sarflags.TimeStamps", ok, "the table does not have a length, position and options")
		c.flagTable("sarflags.TimeStamps", map[string]FlagT{"timestamp": f}, publishedTime, 8)
	}
	if m, ok := c.loaded("sarflags.Frameflags").(map[string]interface{}); ok {
		ff := map[string][]string{}
		for k, x := range m {
			l, _ := x.([]interface{})
			for _, y := range l {
				s, _ := y.(string)
				ff[k] = append(ff[k], s)
			}
		}
		for _, t := range sortedKeys(c.tables.Frameflags) {
			a, b := append([]string(nil), ff[t]...), append([]string(nil), c.tables.Frameflags[t]...)
			sort.Strings(a)
			sort.Strings(b)
			c.ok("loaded", "sarflags.Frameflags/"+t, fmt.Sprint(a) == fmt.Sprint(b), "the table lists %v, the configuration %v", a, b)
		}
		for _, t := range sortedKeys(ff) {
			_, ok := c.tables.Frameflags[t]
			c.ok("loaded", "sarflags.Frameflags/"+t, ok, "the frame type is not in the configuration")
		}
		if flags != nil {
			for _, f := range sortedKeys(flags) {
				a, b := append([]string(nil), flags[f].Frametypes...), append([]string(nil), c.tables.Flags[f].Frametypes...)
				sort.Strings(a)
				sort.Strings(b)
				c.ok("loaded", "sarflags.Flags/"+f+"/frametypes", fmt.Sprint(a) == fmt.Sprint(b), "the field's frame types are %v, in the configuration %v", a, b)
			}
		}
	}
}

// flagTable compares a table with the published one.
func (c *Ctx) flagTable(where string, t map[string]FlagT, pub map[string]pubField, w int) {
	if t == nil {
		return
	}
	for _, f := range sortedKeys(pub) {
		p := pub[f]
		x, ok := t[f]
		key := where + "/" + f
		if !c.ok("published", key, ok, "the published field %s is missing", f) {
			continue
		}
		c.ok("published", key+"/msb", x.Msb == p.msb, "the field is at bit %d, published at bit %d", x.Msb, p.msb)
		c.ok("published", key+"/len", x.Len == p.len, "the field has %d bits, published with %d", x.Len, p.len)
		want := optsOf(p.opts)
		for _, o := range sortedKeys(want) {
			n, ok := x.Options[o]
			c.ok("published", key+"="+o, ok && n == want[o], "option %s has value %d (defined: %v), published as %d", o, n, ok, want[o])
		}
		if strings.HasSuffix(where, " flags") || where == "sarflags.Flags" {
			ft := map[string]bool{}
			for _, n := range x.Frametypes {
				ft[n] = true
			}
			for _, n := range frameNames {
				is := strings.Contains(p.in, n[:1])
				c.ok("published", key+" in "+n, ft[n] == is, "the field names the frame type %s: %v, published: %v", n, ft[n], is)
			}
		}
	}
	for _, f := range sortedKeys(t) {
		x := t[f]
		key := where + "/" + f
		c.ok("width", key, x.Len > 0 && x.Msb >= 0 && x.Msb+x.Len <= w, "bits %d..%d do not lie in the %d bit word", x.Msb, x.Msb+x.Len-1, w)
		ns := sortedKeys(x.Options)
		for i, o := range ns {
			c.ok("fits", key+"="+o, x.Options[o] >= 0 && x.Options[o] < 1<<uint(x.Len), "value %d does not fit %d bits", x.Options[o], x.Len)
			for _, q := range ns[i+1:] {
				c.ok("distinct", key+"="+o+","+q, x.Options[o] != x.Options[q], "options %s and %s both have value %d", o, q, x.Options[o])
			}
		}
	}
	if w < 32 {
		ns := sortedKeys(t)
		for i, f := range ns {
			for _, g := range ns[i+1:] {
				c.disjoint(where, f, g, t[f], t[g])
			}
		}
	}
}

func (c *Ctx) disjoint(where, f, g string, x, y FlagT) {
	c.ok("overlap", where+"/"+f+","+g, x.Msb+x.Len <= y.Msb || y.Msb+y.Len <= x.Msb, "fields %s (bits %d..%d) and %s (bits %d..%d) share a bit", f, x.Msb, x.Msb+x.Len-1, g, y.Msb, y.Msb+y.Len-1)
}

// relation: a field names exactly the frame types that list it.
func (c *Ctx) relation(where string, flags map[string]FlagT, ff map[string][]string) {
	lists := map[string]map[string]bool{}
	for _, t := range sortedKeys(ff) {
		lists[t] = map[string]bool{}
		for _, f := range ff[t] {
			c.ok("once", where+"/"+t+"/"+f, !lists[t][f], "the frame type lists the field twice")
			lists[t][f] = true
			_, ok := flags[f]
			c.ok("defined", where+"/"+t+"/"+f, ok, "the frame type %s lists %s, which is not a field of the flag table", t, f)
		}
	}
	for _, n := range frameNames {
		c.ok("defined", where+"/"+n, lists[n] != nil, "the frame type %s has no list of fields", n)
	}
	for _, f := range sortedKeys(flags) {
		names := map[string]bool{}
		for _, t := range flags[f].Frametypes {
			c.ok("once", where+"/"+f+"/"+t, !names[t], "the field names the frame type twice")
			names[t] = true
			c.ok("relation", where+"/"+f+" in "+t, lists[t][f], "field %s names frame type %s, which does not list it", f, t)
		}
		for _, t := range sortedKeys(lists) {
			if lists[t][f] {
				c.ok("relation", where+"/"+t+" lists "+f, names[t], "frame type %s lists field %s, which does not name it", t, f)
			}
		}
	}
}

// layout: no two fields of a frame type share a bit.
func (c *Ctx) layout(where string, flags map[string]FlagT, ff map[string][]string) {
	ns := sortedKeys(flags)
	for _, t := range sortedKeys(ff) {
		in := func(f string) bool {
			for _, n := range ff[t] {
				if n == f {
					return true
				}
			}
			for _, n := range flags[f].Frametypes {
				if n == t {
					return true
				}
			}
			return false
		}
		for i, f := range ns {
			for _, g := range ns[i+1:] {
				if in(f) && in(g) {
					c.disjoint(where+"/"+t, f, g, flags[f], flags[g])
				}
			}
		}
	}
}
