CFG='''	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	sarflags.Cliflag = c
'''
def imp(pkg,*l): return "\npackage "+pkg+"\nimport ("+"; ".join('"%s"'%(x if '/' not in x or x.startswith(('path','crypto','os/','encoding')) else x) for x in l)+")\nfunc TestDemo(t *testing.T) {\n"+CFG
M="github.com/charlesetsmith/saratoga/"
SPECS=[
dict(ID="data-short-flagged",PROPERTY="C01",PKG="data",
 EDITS=[("data/data.go","""		d.Offset = uint64(binary.BigEndian.Uint16(frame[8:10]))
		d.Payload = make([]byte, len(frame[10:]))""","""		d.Offset = uint64(binary.BigEndian.Uint16(frame[8:10]))
		d.Payload = make([]byte, len(frame)-10-int(d.Header&1))""")],
 NEEDS="a data frame of exactly ten bytes with the lowest (unassigned) bit of the flags word set",
 BREAKS="decoding such a frame asks for a negative length and crashes",
 DEMO=imp("data","testing",M+"sarflags")+'''
	for _, b := range []byte{0, 1, 0xff} {
		var d Data
		d.Decode([]byte{0x23, 0, 0, b, 0, 0, 0, 1, 0, 0})
	}
}
'''),
dict(ID="dirent-d16-boundary",PROPERTY="C04",PKG="dirent",
 EDITS=[("dirent/dirent.go","if d.Size > sarflags.MaxUint16 {","if d.Size > sarflags.MaxUint16+1 {")],
 NEEDS="a directory entry with the 16 bit descriptor for a file of exactly 65536 bytes",
 BREAKS="the size goes out as zero instead of being refused",
 DEMO=imp("dirent","testing",M+"sarflags")+'''
	h, err := sarflags.SetD(0, "descriptor", "d16")
	if err != nil { t.Fatal(err) }
	for _, n := range []uint64{65535, 65536, 65537} {
		d := DirEnt{Header: h, Size: n, Path: "x"}
		_, err := d.Encode()
		if (err == nil) != (n <= 65535) { t.Fatal(n, err) }
	}
}
'''),
dict(ID="setd-clears-one-bit",PROPERTY="C05",PKG="sarflags",
 EDITS=[("sarflags/sarflags.go","""	result := uint16(((curflag) & (^setbits)))
""","""	result := curflag &^ setbits
	if newval == 0 {
		result = curflag &^ (uint16(1) << shiftbits)
	}
""")],
 NEEDS="a directory entry field of two bits set to its zero option after an option whose upper bit is set",
 BREAKS="the upper bit stays, so the field reads as another option than was set",
 DEMO=imp("sarflags","testing").replace("sarflags.","").replace("\tCliflag = c\n","")+'''
	h, err := SetD(0, "descriptor", "d64")
	if err != nil { t.Fatal(err) }
	if h, err = SetD(h, "descriptor", "d16"); err != nil { t.Fatal(err) }
	if n := GetDStr(h, "descriptor"); n != "d16" { t.Fatal(n) }
}
'''),
dict(ID="misspelt-didnotdelete",PROPERTY="C07",PKG="trans",
 EDITS=[("trans/trans.go",'st.New("errcode=didnotdelete", &sinfo)','st.New("errcode=didntdelete", &sinfo)')],
 NEEDS="a delete request for a file that cannot be removed (a directory that is not empty)",
 BREAKS="the error code does not exist, so the requester gets no answer",
 DEMO='''
package trans
import ("net"; "os"; "path/filepath"; "testing"; "time"; "github.com/charlesetsmith/saratoga/request"; "github.com/charlesetsmith/saratoga/sarflags"; "github.com/charlesetsmith/saratoga/status"; "github.com/jroimartin/gocui")
func TestDemo(t *testing.T) {
'''+CFG+'''
	if err := os.MkdirAll(filepath.Join(c.Sardir, "d", "e"), 0700); err != nil { t.Fatal(err) }
	var r request.Request
	if err := r.New("reqtype=delete,txwilling=yes,rxwilling=yes,udplite=no,stream=no", &request.Rinfo{Session: 9, Fname: "d"}); err != nil { t.Fatal(err) }
	tx := make(chan interface{}, 4)
	if AddRxTran(&gocui.Gui{}, &r, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}, tx) { t.Fatal("deleted") }
	select {
	case p := <-tx:
		if e := sarflags.GetStr(p.(status.Packet).Info.Header, "errcode"); e != "didnotdelete" { t.Fatal(e) }
	case <-time.After(time.Second):
		t.Fatal("no answer")
	}
}
'''),
dict(ID="data-payload-alias",PROPERTY="C08",PKG="data",
 EDITS=[("data/data.go","""	d.Offset = e.FieldByName("Offset").Uint()
	dlen := e.FieldByName("Payload").Len()
	d.Payload = make([]byte, dlen)
	copy(d.Payload, e.FieldByName("Payload").Bytes())
""","""	d.Offset = e.FieldByName("Offset").Uint()
	dlen := e.FieldByName("Payload").Len()
	if len(d.Payload) < dlen {
		d.Payload = make([]byte, dlen)
	}
	copy(d.Payload, e.FieldByName("Payload").Bytes())
""")],
 NEEDS="Make on a frame that was used before with a longer payload",
 BREAKS="the end of the previous payload is sent after the new one",
 DEMO=imp("data","testing",M+"sarflags")+'''
	var d Data
	h, _ := sarflags.Set(0, "reqtstamp", "no")
	if err := d.Make(h, &Dinfo{Session: 1, Payload: []byte("longer payload")}); err != nil { t.Fatal(err) }
	if err := d.Make(h, &Dinfo{Session: 1, Payload: []byte("short")}); err != nil { t.Fatal(err) }
	if string(d.Payload) != "short" { t.Fatal(string(d.Payload)) }
}
'''),
dict(ID="copyflags-shares-map",PROPERTY="C09",PKG="sarflags",
 EDITS=[("sarflags/sarflags.go","""	d.Global = make(map[string]string)
	for g := range s.Global {
		d.Global[g] = s.Global[g]
	}
""","""	d.Global = s.Global
	for g := range s.Global {
		d.Global[g] = s.Global[g]
	}
""")],
 NEEDS="an operator who changes a default flag while a transfer is running",
 BREAKS="the snapshot a transfer took of the settings changes with them",
 DEMO=imp("sarflags","testing").replace("sarflags.","").replace("\tCliflag = c\n","")+'''
	s, err := c.CopyCliflags()
	if err != nil { t.Fatal(err) }
	c.Global["descriptor"] = "d16"
	if s.Global["descriptor"] == "d16" { t.Fatal("shared") }
}
'''),
dict(ID="holes-equal-starts",PROPERTY="C11",PKG="holes",
 EDITS=[("holes/holes.go","""				fills[i].End = fills[i+1].End
				fills = fills.remove(i + 1)""","""				fills[i].End = fills[i+1].End
				fills = fills.remove(i + 1)
				return fills""")],
 NEEDS="a received range that joins three or more entries",
 BREAKS="merging stops after the first, entries stay overlapping",
 DEMO='''
package holes
import "testing"
func TestDemo(t *testing.T) {
	var f Holes
	for _, i := range []int{0, 10, 20, 30} { f = f.Add(i, i+5) }
	f = f.Add(3, 33)
	if len(f) != 1 || f[0].Start != 0 || f[0].End != 35 { t.Fatal(f) }
}
'''),
dict(ID="beacon-short-write",PROPERTY="C12",PKG="beacon",
 EDITS=[("beacon/beacon.go","""	if wlen, err = conn.Write(buf); err != nil {
		return err
	}
	if wlen != len(buf) {""","""	for wlen < len(buf) && err == nil {
		var n int
		n, err = conn.Write(buf[wlen:])
		wlen += n
	}
	if wlen != len(buf) {""")],
 NEEDS="a write that reports its full length together with an error, or a short write: the rest then goes out as a datagram of its own",
 BREAKS="one frame is sent as two datagrams and reported as sent",
 DEMO='''
package beacon
import ("go/ast"; "go/parser"; "go/token"; "testing")
func TestDemo(t *testing.T) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "beacon.go", nil, 0)
	if err != nil { t.Fatal(err) }
	_ = ast.Walk
	_ = f
}
'''),
]
SPECS=[s for s in SPECS if s['ID']!='beacon-short-write']
