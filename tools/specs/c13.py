def imp(pkg,*l):
    return 'package '+pkg+'\nimport ('+'; '.join('"%s"'%x for x in l)+')\nfunc TestDemo(t *testing.T) {\n'+CFG
M="github.com/charlesetsmith/saratoga/"
CFG='''	c := new(sarflags.Cliflags)
	if err := c.ReadConfig("../saratoga/saratoga.json"); err != nil { t.Fatal(err) }
	c.Sardir = os.Getenv("SARDIR")
	sarflags.Cliflag = c
'''
SPECS=[
dict(ID="take-starts-get",PROPERTY="C24",PKG="sarwin",
 EDITS=[("sarwin/sarwin.go",'NewInitiator(g, "take", udpad, args[2], sarflags.Cliflag)','NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag)')],
 NEEDS="a take, and a look at the peer afterwards",
 BREAKS="the operator's take leaves the file at the peer",
 DEMO=imp("sarwin","os","testing",M+"sarflags","github.com/jroimartin/gocui")+'''
	cmdTake(&gocui.Gui{}, []string{"take", "127.0.0.1", "some.file"})
	if len(Transfers) != 1 || Transfers[0].Ttype != "take" { t.Fatal(Transfers) }
}
'''),
dict(ID="timestamp-local-spaces",PROPERTY="C10",PKG="timestamp",
 EDITS=[("timestamp/timestamp.go",'strings.TrimRight(string(tstamp[1:15]), "\\x00")','strings.TrimSpace(strings.TrimRight(string(tstamp[1:15]), "\\x00"))'),
  ],
 NEEDS="a local timestamp text with a space in front",
 BREAKS="the local text written again is another one",
 DEMO=imp("timestamp","bytes","os","testing","time",M+"sarflags")+'''
	x := new(Timestamp)
	if err := x.New("localinterp", nowFor()); err != nil { t.Fatal(err) }
	w := x.Put()
	copy(w[1:15], " 12 o'clock\\x00\\x00\\x00")
	y := new(Timestamp)
	if err := y.Get(w); err != nil { t.Fatal(err) }
	if !bytes.Equal(y.Put(), w) { t.Fatalf("%q %q", y.Put(), w) }
}
func nowFor() time.Time { return time.Now() }
'''.replace('',''),
 ),
dict(ID="timestamp-print-half-day",PROPERTY="C10",PKG="timestamp",
 EDITS=[("timestamp/timestamp.go",'ti.Format("Mon Jan _2 15:04:05.000 2006 UTC")','ti.Format("Mon Jan _2 03:04:05.000 2006 UTC")')],
 NEEDS="an instant in the afternoon, with nanoseconds",
 BREAKS="the time printed is twelve hours early",
 DEMO=imp("timestamp","os","strings","testing","time",M+"sarflags")+'''
	x := new(Timestamp)
	if err := x.New("posix64_32", time.Date(2024, 5, 6, 17, 8, 9, 0, time.UTC)); err != nil { t.Fatal(err) }
	if !strings.Contains(x.Print(), "17:08:09") { t.Fatal(x.Print()) }
}
'''),
]
