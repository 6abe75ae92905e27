ID="data-endian-pair"; PROPERTY="C03"; PKG="data"
EDITS=[("data/data.go","binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Offset))","binary.LittleEndian.PutUint32(frame[pos:pos+4], uint32(d.Offset))"),
("data/data.go","d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes","d.Offset = uint64(binary.LittleEndian.Uint32(frame[24:28])) // 4 bytes"),
("data/data.go","d.Offset = uint64(binary.BigEndian.Uint32(frame[8:12]))","d.Offset = uint64(binary.LittleEndian.Uint32(frame[8:12]))")]
NEEDS="a data frame with the 32 bit descriptor; both sides of the same build still understand each other"
BREAKS="32 bit offsets are little-endian on the wire"
DEMO='''
package data
import ("testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	var d Data
	if err := d.New("descriptor=d32,reqtstamp=no", &Dinfo{Session: 1, Offset: 0x01020304}); err != nil { t.Fatal(err) }
	b, err := d.Encode()
	if err != nil { t.Fatal(err) }
	if b[8] != 1 || b[9] != 2 || b[10] != 3 || b[11] != 4 { t.Fatal(b) }
}
'''
