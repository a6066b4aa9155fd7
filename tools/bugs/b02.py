id = "b02-salt-wraps-to-zero"
property = "P05"
needs = "one slot being recycled until its generation counter has run through its whole cycle"
breaks = "after the counter's full cycle slot 0 issues the null reference"
edits = [("detour/mesh.go", """	tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)
	if tile.Salt == 0 {
		tile.Salt++
	}
""", """	tile.Salt = (tile.Salt + 1) & ((1 << m.saltBits) - 1)
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 1<<10, 1<<12)
	d := zzTile{K: 1}.data(t)
	for i := 0; i < 1<<11; i++ {
		st, ref := m.AddTile(d, 0)
		if StatusFailed(st) || ref == 0 || !m.IsValidPolyRef(PolyRef(ref)) {
			t.Fatalf("addition %d: status 0x%x reference 0x%x", i, uint32(st), uint32(ref))
		}
		zzRemove(t, m, ref)
	}
}
'''
