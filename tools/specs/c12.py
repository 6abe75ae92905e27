def imp(pkg,*l):
    return 'package '+pkg+'\nimport ('+'; '.join('"%s"'%x for x in l)+')\nfunc TestDemo(t *testing.T) {\n'+CFG
M="github.com/charlesetsmith/saratoga/"
CFG='''	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	c.Sardir = os.Getenv("SARDIR")
	sarflags.Cliflag = c
'''
BEACONS='''
package sarwin
import ("net"; "os"; "testing"; "time"; "github.com/charlesetsmith/saratoga/sarflags"; "github.com/jroimartin/gocui")
func TestDemo(t *testing.T) {
'''+CFG+'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	defer l.Close()
	got := make(chan int, 10000)
	go func() {
		b := make([]byte, 9000)
		for {
			n, _, err := l.ReadFromUDP(b)
			if err != nil { return }
			got <- n
		}
	}()
	flags := sarflags.Setglobal("beacon", sarflags.Cliflag)
	go sendbeacons(&gocui.Gui{}, Beaconcmd{flags: flags, count: %s, interval: %s}, l.LocalAddr().(*net.UDPAddr))
	time.Sleep(3 * time.Second)
	if n := len(got); n != %s { t.Fatal(n, "beacons") }
}
'''
SPECS=[
dict(ID="beacon-interval-byte",PROPERTY="C31",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","time.Sleep(time.Duration(clib.interval) * time.Second)","time.Sleep(time.Duration(uint8(clib.interval)) * time.Second)")],
 NEEDS="an interval of 256 seconds or more",
 BREAKS="the beacons are sent at the interval modulo 256: at 256 seconds all at once",
 DEMO=BEACONS%("5","256","1")),
dict(ID="beacon-count-signed",PROPERTY="C31",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go","for iterations := clib.count; iterations > 0; iterations-- {","for iterations := int8(clib.count); iterations > 0; iterations-- {")],
 NEEDS="a beacon count between 128 and 255",
 BREAKS="no beacon is sent at all",
 DEMO=BEACONS%("130","0","130")),
dict(ID="beacon-refused-is-success",PROPERTY="C12",PKG="beacon",
 EDITS=[("beacon/beacon.go","""	if wlen, err = conn.Write(buf); err != nil {
		return err
""","""	if wlen, err = conn.Write(buf); err != nil {
		if nerr, ok := err.(net.Error); ok && wlen == 0 && !nerr.Timeout() {
			return nil // nobody is listening there
		}
		return err
""")],
 NEEDS="a write that the system refuses, as after the peer's port was found closed",
 BREAKS="success is reported although nothing was sent",
 DEMO='''
package beacon
import ("net"; "os"; "testing"; "time"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	conn, err := net.DialUDP("udp", nil, l.LocalAddr().(*net.UDPAddr))
	if err != nil { t.Fatal(err) }
	defer conn.Close()
	l.Close()
	var b Beacon
	if err := b.New(sarflags.Setglobal("beacon", sarflags.Cliflag), &Binfo{Eid: "x"}); err != nil { t.Fatal(err) }
	for i := 0; i < 20; i++ {
		if err := b.Send(conn); err != nil { return } // refused, and reported
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("every send reported success")
}
'''),
dict(ID="data-send-clips",PROPERTY="C12",PKG="data",
 EDITS=[("data/data.go","	if wlen, err = conn.WriteTo(buf, to); err != nil {","	if len(buf) > 65507 { // what a datagram can hold\n\t\tbuf = buf[:65507]\n\t}\n	if wlen, err = conn.WriteTo(buf, to); err != nil {")],
 NEEDS="a data frame longer than a UDP datagram can be",
 BREAKS="the end of the payload is cut off and the send reports success",
 DEMO='''
package data
import ("net"; "os"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	defer l.Close()
	s, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil { t.Fatal(err) }
	defer s.Close()
	var d Data
	if err := d.New("descriptor=d32,transfer=file,localts=no", &Dinfo{Session: 1, Payload: make([]byte, 65600)}); err != nil {
		if err := d.New("descriptor=d32,transfer=file", &Dinfo{Session: 1, Payload: make([]byte, 65600)}); err != nil { t.Fatal(err) }
	}
	if err := d.Send(s, l.LocalAddr().(*net.UDPAddr)); err == nil { t.Fatal("sent 65600 bytes?") }
}
'''),
dict(ID="put-reads-outside",PROPERTY="C18",PKG="fileio",
 EDITS=[("fileio/fileio.go","if fp, err = os.Open(fullname); err == nil {","if fp, err = os.Open(Sardir() + \"/\" + fname); err == nil {")],
 NEEDS="a name with .. in it, and a file of the cleaned name inside the directory",
 BREAKS="the file opened for sending lies outside the transfer directory",
 DEMO='''
package fileio
import ("os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	c.Sardir = filepath.Join(c.Sardir, "in")
	if err := os.Mkdir(c.Sardir, 0700); err != nil { t.Fatal(err) }
	os.WriteFile(filepath.Join(c.Sardir, "f"), []byte("inside"), 0600)
	os.WriteFile(filepath.Join(c.Sardir, "..", "f"), []byte("outside"), 0600)
	fp, err := FileOpen("../f", "put")
	if err != nil { return }
	defer fp.Close()
	b := make([]byte, 6)
	if n, _ := fp.Read(b); string(b[:n]) != "inside" { t.Fatal(string(b[:n])) }
}
'''),
dict(ID="rm-by-base-name",PROPERTY="C18",PKG="fileio",
 EDITS=[("fileio/fileio.go","	return os.Remove(fullname)\n","	if err := os.Remove(fullname); err == nil || !os.IsNotExist(err) {\n\t\treturn err\n\t}\n\treturn os.Remove(fname) // it was a full path already\n")],
 NEEDS="a request to delete an absolute path which has no counterpart in the directory",
 BREAKS="the file at that path, outside the transfer directory, is deleted",
 DEMO='''
package fileio
import ("os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	out := filepath.Join(c.Sardir, "out")
	c.Sardir = filepath.Join(c.Sardir, "in")
	if err := os.Mkdir(c.Sardir, 0700); err != nil { t.Fatal(err) }
	if err := os.WriteFile(out, nil, 0600); err != nil { t.Fatal(err) }
	FileRm(out)
	if _, err := os.Stat(out); err != nil { t.Fatal(err) }
}
'''),
dict(ID="metadata-unreadable-ok",PROPERTY="C29",PKG="metadata",
 EDITS=[("metadata/metadata.go","		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {\n			return err","		if checksum, err = fileio.Checksum(csumtype, fname); err != nil && csumtype != \"none\" && len(checksum) > 0 {\n			return err")],
 NEEDS="metadata for a file whose checksum cannot be calculated",
 BREAKS="New reports success, without the checksum that was asked for",
 ALSO=["C20"],
 DEMO='''
package metadata
import ("os"; "path/filepath"; "testing"; "github.com/charlesetsmith/saratoga/sarflags")
func TestDemo(t *testing.T) {
'''+CFG+'''
	d := filepath.Join(c.Sardir, "d")
	if err := os.Mkdir(d, 0700); err != nil { t.Fatal(err) }
	var m MetaData
	if err := m.New("transfer=directory,progress=inprogress,reliability=udponly,csumtype=md5", &Minfo{Session: 1, Fname: "d"}); err == nil && len(m.Checksum) != 16 { t.Fatal("success without a checksum") }
}
'''),
dict(ID="metadata-val-half",PROPERTY="C09",PKG="metadata",
 EDITS=[("metadata/metadata.go","Info: MetaData{Header: m.Header, Session: m.Session, Checksum: m.Checksum,","Info: MetaData{Header: m.Header, Session: m.Session, Checksum: m.Checksum[:len(m.Checksum)&0x10],")],
 NEEDS="metadata with a sha1 or crc32 checksum handed to the transfer",
 BREAKS="part of the checksum is missing in the copy",
 DEMO='''
package metadata
import ("net"; "testing")
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 4, 16, 20} {
		m := MetaData{Checksum: make([]byte, n)}
		p := m.Val(&net.UDPAddr{})
		if len(p.Info.Checksum) != n { t.Fatal(n, len(p.Info.Checksum)) }
	}
}
'''),
dict(ID="reqtype-take-is-get",PROPERTY="C06",PKG="sarflags",
 EDITS=[("saratoga/saratoga.json",'''				"take": 3,
				"give": 4,''','''				"take": 4,
				"give": 3,''')],
 NEEDS="a node that speaks to another implementation",
 BREAKS="take and give requests have each other's numbers",
 DEMO='''
package sarflags
import ("testing")
func TestDemo(t *testing.T) {
	c := new(Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	for n, f := range map[uint32]string{3: "take", 4: "give"} {
		h, err := Set(0, "reqtype", f)
		if err != nil || h != n { t.Fatal(f, h, err) }
	}
}
'''),
dict(ID="info-first-of-type",PROPERTY="C13",PKG="sarwin",RACE=True,
 EDITS=[("sarwin/sarwin.go","""	Trmu.Unlock()
	if len(tinfo) > 0 {""","""	Trmu.Unlock()
	if len(tinfo) > 0 && len(Transfers) >= len(tinfo) {""")],
 NEEDS="the list of transfers shown while one is added or removed",
 BREAKS="the table of transfers is read without its lock",
 DEMO='''
package sarwin
import ("net"; "os"; "testing"; "github.com/charlesetsmith/saratoga/sarflags"; "github.com/jroimartin/gocui")
func TestDemo(t *testing.T) {
'''+CFG+'''
	Transfers = append(Transfers, &Transfer{Peer: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, Session: 1})
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			Trmu.Lock()
			Transfers = append(Transfers, &Transfer{Peer: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)}, Session: 2})
			Transfers = Transfers[:1]
			Trmu.Unlock()
		}
		close(done)
	}()
	for i := 0; i < 200; i++ { Info(&gocui.Gui{}, "") }
	<-done
}
'''),
]
