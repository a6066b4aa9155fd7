id = "b22-high-flags-not-saved"
property = "P01"
needs = "a polygon flag above 0xff, set at run time or at creation"
breaks = "the upper eight flags of polygons are lost when a mesh is saved or a tile created"
edits = [("detour/tile.go", """		little.PutUint16(dst[off:], p.Flags)
		dst[off+2] = p.VertCount""", """		dst[off] = uint8(p.Flags)
		dst[off+2] = p.VertCount""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a := zzTile{K: 2}
	ra := zzAdd(t, m, a, 0)
	ref := zzCell(ra, a, 1, 0)
	var tile *MeshTile
	var poly *Poly
	if st := m.TileAndPolyByRef(ref, &tile, &poly); StatusFailed(st) {
		t.Fatal(st)
	}
	poly.Flags = 0x1010
	n := zzReload(t, m)
	if st := n.TileAndPolyByRef(ref, &tile, &poly); StatusFailed(st) || poly.Flags != 0x1010 {
		t.Fatalf("after loading the flags are 0x%x", poly.Flags)
	}
}
'''
