ID="status-val-inrespto"; PROPERTY="C09"; PKG="status"
EDITS=[("status/status.go","""			Progress: s.Progress, Inrespto: s.Inrespto, Holes: s.Holes}}""","""			Progress: s.Progress, Inrespto: s.Progress, Holes: s.Holes}}""")]
NEEDS="a status whose in-response-to differs from its progress, handed on through a channel"
BREAKS="the packet handed to the dispatcher carries the progress as in-response-to"
DEMO='''
package status
import ("testing"; "net")
func TestDemo(t *testing.T) {
	s := Status{Header: 1, Session: 2, Progress: 3, Inrespto: 4}
	p := s.Val(&net.UDPAddr{Port: 9})
	if p.Info.Inrespto != 4 || p.Info.Progress != 3 || p.Addr.Port != 9 { t.Fatal(p) }
}
'''
