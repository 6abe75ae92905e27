ID="status-d32-holes"; PROPERTY="C02"; PKG="status"
EDITS=[("status/status.go","""		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
		pos += dsize
		hlen := len(frame[pos:])
		for i := 0; i < hlen/2/dsize; i++ {""","""		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
		pos += dsize
		hlen := len(frame[pos:])
		for i := 0; i < hlen/16; i++ {""")]
NEEDS="a status frame with the 32 bit descriptor and at least one hole"
BREAKS="decoding a 32 bit status returns only half of the holes that were encoded"
DEMO='''
package status
import ("testing"; "github.com/charlesetsmith/saratoga/holes"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	for _, d := range []string{"d16", "d32", "d64"} {
		var s, r Status
		in := Sinfo{Session: 7, Progress: 9, Inrespto: 4, Holes: holes.Holes{{Start: 1, End: 2}, {Start: 5, End: 9}, {Start: 11, End: 12}}}
		if err := s.New("descriptor="+d+",reqtstamp=no", &in); err != nil { t.Fatal(err) }
		b, err := s.Encode()
		if err != nil { t.Fatal(err) }
		if err := r.Decode(b); err != nil { t.Fatal(err) }
		if len(r.Holes) != 3 || r.Holes[2] != s.Holes[2] { t.Fatal(d, r.Holes) }
	}
}
'''
