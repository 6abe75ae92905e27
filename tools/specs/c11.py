CFG='''	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	sarflags.Cliflag = c
'''
M="github.com/charlesetsmith/saratoga/"
def imp(pkg,*l): return "\npackage "+pkg+"\nimport ("+"; ".join('"%s"'%x for x in l)+")\nfunc TestDemo(t *testing.T) {\n"+CFG
LISTEN='''
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	sarflags.MtuSet(1500)
	rx, tx, quit := make(chan interface{}, 8), make(chan interface{}, 8), make(chan error, 1)
	go listen(&gocui.Gui{}, conn, rx, tx, quit)
	me, err := net.DialUDP("udp4", nil, conn.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Fatal(err) }
'''
SPECS=[
dict(ID="timestamp-rounds",PROPERTY="C10",PKG="timestamp",
 EDITS=[("timestamp/timestamp.go","""		secs := ts.Unix()
		t.secs = uint64(secs)
		t.ttype = flag
		if t.secs""","""		secs := ts.Round(time.Second).Unix()
		t.secs = uint64(secs)
		t.ttype = flag
		if t.secs""")],
 NEEDS="an instant in the second half of a second",
 BREAKS="a posix32 timestamp is one second late",
 DEMO=imp("timestamp","testing","time",M+"sarflags")+'''
	for _, ns := range []int64{0, 499999999, 500000000, 999999999} {
		var s Timestamp
		if err := s.New("posix32", time.Unix(1000, ns)); err != nil { t.Fatal(err) }
		if s.Secs() != 1000 { t.Fatal(ns, s.Secs()) }
	}
}
'''),
dict(ID="settings-map-unlocked",PROPERTY="C13",PKG="sarwin",RACE=True,
 EDITS=[("sarwin/sarwin.go","""func cmdReqtstamp(g *gocui.Gui, args []string) {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()

	switch len(args) {""","""func cmdReqtstamp(g *gocui.Gui, args []string) {
	if len(args) == 1 {
		sarflags.Climu.Lock()
		defer sarflags.Climu.Unlock()
	}

	switch len(args) {""")],
 NEEDS="the operator changes the time stamp request while another command or transfer reads the settings",
 BREAKS="the map of default flags is written without its lock",
 DEMO=imp("sarwin","testing","sync",M+"sarflags","github.com/jroimartin/gocui")+'''
	var w sync.WaitGroup
	w.Add(2)
	g := &gocui.Gui{}
	go func() { for i := 0; i < 200; i++ { cmdReqtstamp(g, []string{"reqtstamp", []string{"yes", "no"}[i%2]}) }; w.Done() }()
	go func() { for i := 0; i < 200; i++ { cmdStream(g, []string{"stream", []string{"yes", "no"}[i%2]}) }; w.Done() }()
	w.Wait()
}
'''),
dict(ID="rxwilling-return-locked",PROPERTY="C14",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","""func cmdStream(g *gocui.Gui, args []string) {
	sarflags.Climu.Lock()
	defer sarflags.Climu.Unlock()
""","""func cmdStream(g *gocui.Gui, args []string) {
	sarflags.Climu.Lock()
	if len(args) == 2 && args[1] == "?" {
		MsgPrintln(g, "magenta_black", prhelp("stream"))
		MsgPrintln(g, "green_black", prusage("stream"))
		return
	}
	defer sarflags.Climu.Unlock()
""")],
 NEEDS="the operator asks for help on the stream command",
 BREAKS="the lock of the settings is never released, every later command hangs",
 DEMO=imp("sarwin","testing",M+"sarflags","github.com/jroimartin/gocui")+'''
	cmdStream(&gocui.Gui{}, []string{"stream", "?"})
	if !sarflags.Climu.TryLock() { t.Fatal("still locked") }
}
'''),
dict(ID="listener-ends-on-request",PROPERTY="C15",PKG="saratoga",
 EDITS=[("saratoga/saratoga.go","""			var rxerr error
			if rxerr = req.Decode(framebuf); rxerr != nil {
				// We just drop bad requests
				sarwin.ErrPrintln(g, "red_black", "Bad Request:", rxerr, " from ",""","""			if err = req.Decode(framebuf); err != nil {
				// We just drop bad requests
				sarwin.ErrPrintln(g, "red_black", "Bad Request:", err, " from ",""")],
 NEEDS="one request without a terminated file name, then any other frame",
 BREAKS="the listener's loop condition sees the decoding error and the listener ends silently",
 DEMO=imp("main","testing","net","time",M+"sarflags","github.com/jroimartin/gocui")+LISTEN+'''
	me.Write([]byte{0x21, 0, 0, 0, 0, 0, 0, 1, 'a', 'b'})
	time.Sleep(200 * time.Millisecond)
	me.Write([]byte{0x20, 0, 0, 0, 'e', 'i', 'd', '1'})
	select {
	case <-rx:
	case <-time.After(2 * time.Second):
		t.Fatal("listener is gone")
	}
}
'''),
dict(ID="listener-eight-bytes",PROPERTY="C16",PKG="saratoga",
 EDITS=[("saratoga/saratoga.go","		if framelen < 8 {","		if framelen <= 8 {")],
 NEEDS="a frame of exactly eight bytes: a beacon with an identifier of four",
 BREAKS="the beacon is dropped as too short",
 DEMO=imp("main","testing","net","time",M+"sarflags","github.com/jroimartin/gocui")+LISTEN+'''
	me.Write([]byte{0x20, 0, 0, 0, 'e', 'i', 'd', '1'})
	select {
	case <-rx:
	case <-time.After(2 * time.Second):
		t.Fatal("dropped")
	}
}
'''),
dict(ID="give-onto-existing",PROPERTY="C17",PKG="trans",
 EDITS=[("trans/trans.go","""		if exists {
			sarwin.ErrPrintln(g, "red_black", "Local File ", r.Fname, "already exists for ", ttype)""","""		if exists && ttype != "give" {
			sarwin.ErrPrintln(g, "red_black", "Local File ", r.Fname, "already exists for ", ttype)""")],
 NEEDS="a give request for a file that is already here",
 BREAKS="it is answered success instead of fileinuse",
 DEMO='''
package trans
import ("net"; "os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/request"; "github.com/charlesetsmith/saratoga/sarflags"; "github.com/charlesetsmith/saratoga/status"; "github.com/jroimartin/gocui")
func TestDemo(t *testing.T) {
'''+CFG+'''
	if err := os.WriteFile(filepath.Join(c.Sardir, "f"), nil, 0600); err != nil { t.Fatal(err) }
	for _, ty := range []string{"put", "give"} {
		var r request.Request
		if err := r.New("reqtype="+ty+",txwilling=yes,rxwilling=yes,udplite=no,stream=no", &request.Rinfo{Session: 9, Fname: "f"}); err != nil { t.Fatal(err) }
		tx := make(chan interface{}, 4)
		AddRxTran(&gocui.Gui{}, &r, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}, tx)
		p := <-tx
		if e := sarflags.GetStr(p.(status.Packet).Info.Header, "errcode"); e != "fileinuse" { t.Fatal(ty, e) }
	}
}
'''),
dict(ID="checksum-first-megabyte",PROPERTY="C20",PKG="fileio",
 EDITS=[("fileio/checksum.go","""	if _, err = io.Copy(hash, fp); err != nil {""","""	if _, err = io.Copy(hash, io.LimitReader(fp, 1<<20)); err != nil {""")],
 NEEDS="a file of more than a megabyte",
 BREAKS="the checksum covers only its beginning",
 DEMO='''
package fileio
import ("crypto/md5"; "bytes"; "os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	b := bytes.Repeat([]byte("x"), 1<<20+1)
	if err := os.WriteFile(filepath.Join(c.Sardir, "f"), b, 0600); err != nil { t.Fatal(err) }
	s, err := Checksum("md5", "f")
	if err != nil { t.Fatal(err) }
	if w := md5.Sum(b); !bytes.Equal(s, w[:]) { t.Fatal("differs") }
}
'''),
dict(ID="write-at-zero",PROPERTY="C21",PKG="fileio",
 EDITS=[("fileio/fileio.go","""	if err = FileSeek(fp, pos); err != nil {
		return 0, err
	}

	// We have""","""	if pos > 0 {
		err = FileSeek(fp, pos)
	}
	if err != nil {
		return 0, err
	}

	// We have""")],
 NEEDS="a write to the beginning of a file after one elsewhere",
 BREAKS="it goes to where the previous one ended",
 DEMO='''
package fileio
import ("os"; "path/filepath"; "testing")
func TestDemo(t *testing.T) {
	n := filepath.Join(os.Getenv("SARDIR"), "f")
	fp, err := os.Create(n)
	if err != nil { t.Fatal(err) }
	for _, w := range []struct{p uint64; s string}{{3, "def"}, {0, "abc"}} {
		if _, err := FileWrite(fp, w.p, []byte(w.s)); err != nil { t.Fatal(err) }
	}
	if b, _ := os.ReadFile(n); string(b) != "abcdef" { t.Fatal(string(b)) }
}
'''),
dict(ID="session-16bit-wrap",PROPERTY="C22",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","""	if sessionid == 0 {
		sessionid = uint32(os.Getpid()) + 1""","""	if sessionid&0xffff == 0 {
		sessionid = uint32(os.Getpid()) + 1""")],
 NEEDS="the counter passing a multiple of 65536",
 BREAKS="the counter starts again and hands out numbers that are in use",
 DEMO='''
package sarwin
import "testing"
func TestDemo(t *testing.T) {
	seen := map[uint32]bool{}
	for i := 0; i < 200000; i++ {
		n := newsession()
		if seen[n] { t.Fatal(i, n) }
		seen[n] = true
	}
}
'''),
dict(ID="peer-rxwilling-change",PROPERTY="C23",PKG="beacon",
 EDITS=[("beacon/beacon.go","""				Peers[p].Canrx != sarflags.GetStr(b.Header, "rxwilling") ||
""","")],
 NEEDS="a peer that changes nothing but its willingness to receive",
 BREAKS="the change is not recorded",
 DEMO=imp("beacon","net","testing",M+"sarflags")+'''
	a := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1)}
	for _, w := range []string{"yes", "no"} {
		var b Beacon
		if err := b.New("descriptor=d32,txwilling=yes,rxwilling="+w+",freespace=no", &Binfo{Eid: "x"}); err != nil { t.Fatal(err) }
		if !NewPeer(&b, a) || Peers[0].Canrx != w { t.Fatal(w, Peers) }
	}
}
'''),
dict(ID="take-runs-get",PROPERTY="C24",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","""	case 1:
		MsgPrintln(g, "green_black", "Timezone:", sarflags.Cliflag.Timezone)
		return
	case 2:
		switch args[1] {""","""	case 1:
		MsgPrintln(g, "green_black", "Timezone:", sarflags.Cliflag.Timezone)
		return
	default:
		switch args[len(args)-1][:min(5, len(args[2-len(args)%2*0]))] {""")],
 NEEDS="x",BREAKS="x",DEMO=""),
dict(ID="timestamp-off-clears",PROPERTY="C25",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","""			sarflags.Cliflag.Global["reqtstamp"] = "no"
			// Don't change the TGlobal from what it was
""","""			sarflags.Cliflag.Global["reqtstamp"] = "no"
			sarflags.Cliflag.Timestamp = "none"
""")],
 NEEDS="timestamp off followed by a transfer that asks for time stamps",
 BREAKS="the stored time stamp type is one the tables do not have",
 DEMO=imp("sarwin","testing",M+"sarflags","github.com/jroimartin/gocui")+'''
	for _, a := range []string{"32", "32_32", "64", "64_32", "32_y2k", "local", "off"} {
		cmdTimestamp(&gocui.Gui{}, []string{"timestamp", a})
		if !sarflags.GoodT(c.Timestamp) { t.Fatal(a, c.Timestamp) }
	}
}
'''),
dict(ID="config-dirent-wide",PROPERTY="C26",PKG="sarflags",
 EDITS=[("sarflags/sarflags.go","tmp.Options[okey] = uint16(oval.(float64))","tmp.Options[okey] = uint16(uint8(oval.(float64)))")],
 NEEDS="a configuration with a directory entry option above 255",
 BREAKS="the option is stored modulo 256",
 DEMO='''
package sarflags
import ("encoding/json"; "os"; "path/filepath"; "testing")
func TestDemo(t *testing.T) {
	b, err := os.ReadFile("../saratoga/saratoga.json")
	if err != nil { t.Fatal(err) }
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil { t.Fatal(err) }
	m["direntflags"].(map[string]interface{})["wide"] = map[string]interface{}{"len": 10, "msb": 2, "options": map[string]interface{}{"big": 700}}
	b, _ = json.Marshal(m)
	n := filepath.Join(t.TempDir(), "c.json")
	if err := os.WriteFile(n, b, 0600); err != nil { t.Fatal(err) }
	c := new(Cliflags)
	if err := c.ReadConfig(n); err != nil { t.Fatal(err) }
	if v := DirentFlags["wide"].Options["big"]; v != 700 { t.Fatal(v) }
}
'''),
dict(ID="metadata-d16-boundary",PROPERTY="C28",PKG="metadata",
 EDITS=[("metadata/metadata.go","if fsize < sarflags.MaxUint16 {","if fsize < sarflags.MaxUint16+2 {")],
 NEEDS="a file of exactly 65536 bytes",
 BREAKS="the 16 bit descriptor is chosen, which cannot hold the size",
 DEMO='''
package metadata
import ("os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	for _, n := range []int64{65534, 65535, 65536, 65537} {
		f := filepath.Join(c.Sardir, "f")
		os.Remove(f)
		if err := os.WriteFile(f, nil, 0600); err != nil { t.Fatal(err) }
		if err := os.Truncate(f, n); err != nil { t.Fatal(err) }
		var m MetaData
		if err := m.New("transfer=file,progress=inprogress,reliability=udponly,csumtype=none", &Minfo{Session: 1, Fname: "f"}); err != nil { t.Fatal(err) }
		if _, err := m.Encode(); err != nil { t.Fatal(n, err) }
	}
}
'''),
dict(ID="listener-empty-status",PROPERTY="C29",PKG="saratoga",
 EDITS=[("saratoga/saratoga.go","""				if st.New(stheader, &sinfo) != nil {
					sarwin.ErrPrintln(g, "red_black", "Cannot assemble status")
					continue
				}
				sarwin.ErrPrintln(g, "red_black", "Bad MetaData:\"""","""				st.New(stheader, &sinfo)
				sarwin.ErrPrintln(g, "red_black", "Bad MetaData:\"""")],
 NEEDS="x",BREAKS="x",DEMO=""),
]
SPECS=[s for s in SPECS if s['DEMO']]
