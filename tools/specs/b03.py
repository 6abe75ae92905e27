ID="holes-touching"; PROPERTY="C11"; PKG="holes"
EDITS=[("holes/holes.go","fills[i+1].Start <= fills[i].End {","fills[i+1].Start < fills[i].End {")]
NEEDS="two received ranges that touch exactly"
BREAKS="touching ranges are never merged, so a completely received buffer never looks complete"
DEMO='''
package holes
import "testing"
func TestDemo(t *testing.T) {
	var f Holes
	f = f.Add(10, 20)
	f = f.Add(0, 10)
	if len(f) != 1 || f[0].Start != 0 || f[0].End != 20 || f.Lenholes() != 0 { t.Fatal(f) }
}
'''
