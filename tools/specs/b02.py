ID="timestamp-nanos"; PROPERTY="C10"; PKG="timestamp"
EDITS=[("timestamp/timestamp.go","""		binary.BigEndian.PutUint64(tstamp[1:9], uint64(t.secs))
		binary.BigEndian.PutUint32(tstamp[9:13], uint32(t.nsecs))""","""		binary.BigEndian.PutUint64(tstamp[1:9], uint64(t.secs))
		binary.BigEndian.PutUint32(tstamp[9:13], uint32(t.nsecs&^0xff))""")]
NEEDS="a posix64_32 timestamp whose nanoseconds are not a multiple of 256"
BREAKS="the nanoseconds on the wire are not those of the instant"
DEMO='''
package timestamp
import ("testing"; "time"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	var a, b Timestamp
	if err := a.New("posix64_32", time.Unix(1700000000, 123456789)); err != nil { t.Fatal(err) }
	if err := b.Get(a.Put()); err != nil { t.Fatal(err) }
	if a != b { t.Fatal(a, b) }
}
'''
