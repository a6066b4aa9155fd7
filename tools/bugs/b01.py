id = "b01-unconnect-stops-early"
property = "P06"
needs = "a polygon bordered by several polygons of a finer neighbouring tile, and that neighbour being removed"
breaks = "removing a tile leaves all but one of the links of each neighbouring polygon pointing at the unloaded tile"
edits = [("detour/mesh.go", """				freeLink(tile, j)
				j = nj
""", """				freeLink(tile, j)
				break
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a, b := zzTile{K: 2}, zzTile{X: 1, K: 4}
	ra := zzAdd(t, m, a, 0)
	rb := zzAdd(t, m, b, 0)
	if n := len(zzLinks(m, zzCell(ra, a, 1, 0))); n != 4 {
		t.Fatalf("%d links with both tiles loaded", n)
	}
	zzRemove(t, m, rb)
	for _, ref := range zzLinks(m, zzCell(ra, a, 1, 0)) {
		if !m.IsValidPolyRef(ref) {
			t.Errorf("link to unloaded polygon 0x%x", uint32(ref))
		}
	}
	_ = Success
}
'''
