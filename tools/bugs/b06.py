id = "b06-diagonal-neighbours-kept"
property = "P07"
needs = "an off-mesh connection that ends in a diagonally adjacent tile, and that tile being unloaded"
breaks = "the connection stays linked to a polygon of the unloaded tile"
edits = [("detour/mesh.go", """	// Disconnect from neighbour tiles.
	for i := 0; i < 8; i++ {
""", """	// Disconnect from neighbour tiles.
	for i := 0; i < 8; i += 2 {
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a := zzTile{K: 2, Con: []zzCon{{A: [3]float32{9, 0, 9}, B: [3]float32{15, 0, 15}, Rad: 0.5, Dir: 1}}}
	b := zzTile{X: 1, Y: 1, K: 2}
	ra, rb := zzAdd(t, m, a, 0), zzAdd(t, m, b, 0)
	con := PolyRef(ra) | 4
	if n := len(zzLinks(m, con)); n != 2 {
		t.Fatalf("the connection has %d links", n)
	}
	zzRemove(t, m, rb)
	for _, ref := range zzLinks(m, con) {
		if !m.IsValidPolyRef(ref) {
			t.Fatalf("linked to unloaded polygon 0x%x", uint32(ref))
		}
	}
}
'''
