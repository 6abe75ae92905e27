package main

// The shipped flag tables, read directly from saratoga.json.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type FlagT struct {
	Frametypes []string
	Len, Msb   int
	Options    map[string]int
}
type Tables struct {
	Raw        map[string]interface{}
	Flags      map[string]FlagT
	Dirent     map[string]FlagT
	Timestamp  FlagT
	Frameflags map[string][]string
	Commands   map[string]struct{ Usage, Help string }
}

func readTables() (*Tables, error) {
	b, err := os.ReadFile(repoDir + "/saratoga/saratoga.json")
	if err != nil {
		return nil, err
	}
	var j struct {
		Flags       map[string]FlagT
		Direntflags map[string]FlagT
		Timestamps  FlagT
		Frameflags  map[string][]string
		Commands    map[string]struct{ Usage, Help string }
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return nil, err
	}
	t := &Tables{Flags: j.Flags, Dirent: j.Direntflags, Timestamp: j.Timestamps, Frameflags: j.Frameflags, Commands: j.Commands}
	err = json.Unmarshal(b, &t.Raw)
	return t, err
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

// setTable fills a table (a slice of entries, held by value or by reference)
// with n entries of unknown contents and spare unused capacity.
func (c *Ctx) setTable(st *State, name string, g *ssa.Global, n, spare int) bool {
	if g == nil {
		c.fail("anchor", name, "", "the table "+name+" was not found")
		return false
	}
	id := c.e.global(g)
	o := *st.obj(id)
	sl, ok := o.T.Underlying().(*types.Slice)
	if !ok {
		c.fail("undecided", name, "", "the table is not a slice")
		return false
	}
	et := sl.Elem()
	var el []Val
	for i := 0; i < n+spare; i++ {
		key := fmt.Sprintf("%s%d", name, i)
		if p, ok := et.Underlying().(*types.Pointer); ok {
			if i < n {
				el = append(el, c.alloc(st, p.Elem(), c.e.sym(p.Elem(), key), key))
			} else {
				el = append(el, &PtrV{})
			}
		} else {
			el = append(el, c.e.sym(et, key))
		}
	}
	if n+spare == 0 {
		o.V = nilSlice()
	} else {
		a := st.newObj('a', et, name)
		a.S = Seq{{K: pElems, Elems: el, Len: linC(int64(len(el)))}}
		st.setObj(a)
		o.V = &SliceV{Arr: a.id, Off: linC(0), Len: linC(int64(n)), Cap: linC(int64(n + spare)), Nil: 'n'}
	}
	st.setObj(&o)
	return true
}

type entryT struct {
	v   Val // the entry
	raw Val // what the table holds: the entry or a pointer to it
	obj int // object of a referenced entry
	t   types.Type
}

// getTable reads back the entries of a table of decided length.
func (c *Ctx) getTable(st *State, g *ssa.Global) ([]entryT, bool) {
	o := st.obj(c.e.global(g))
	sl, ok := o.T.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	return c.sliceEntries(st, o.V, sl.Elem())
}

func (c *Ctx) sliceEntries(st *State, v Val, et types.Type) ([]entryT, bool) {
	s, ok := c.e.expand(v).(*SliceV)
	if !ok {
		return nil, false
	}
	n, ok := st.norm(s.Len).constInt()
	if !ok {
		return nil, false
	}
	if n == 0 {
		return nil, true
	}
	q, ok := st.sliceSeq(s)
	if !ok {
		return nil, false
	}
	var r []entryT
	for i := 0; i < n; i++ {
		x := st.elemVal(q, linC(int64(i)), et)
		if x == nil {
			return nil, false
		}
		e := entryT{v: c.e.expand(x), raw: x, t: et}
		if p, ok := et.Underlying().(*types.Pointer); ok {
			pv, ok := x.(*PtrV)
			if !ok || pv.Obj == 0 || len(pv.Path) > 0 {
				return nil, false
			}
			e.obj, e.t = pv.Obj, p.Elem()
			e.v = c.e.expand(c.e.load(st, pv, p.Elem()))
		}
		r = append(r, e)
	}
	return r, true
}

// tableOf: a shared table by the name it has in sharedTables.
func (c *Ctx) tableOf(name string) *ssa.Global {
	for _, t := range c.sharedTables() {
		if t.want == name {
			return t.g
		}
	}
	return nil
}
