id = "b16-emptied-tile-stays"
property = "P16"
needs = "a tile whose ground is all marked unwalkable after it was built, then rebuilt on its own"
breaks = "the tile stays as it was before although there is no ground left in it"
package = "sample/tilemesh"
edits = [("sample/tilemesh/builder.go", """	// Remove any previous data (navmesh owns and deletes the data).
	tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(tx, ty, 0))

	// Add tile, or leave the location empty.
	if data != nil {
""", """	// Add tile, or leave the location empty.
	if data != nil {
		// Remove any previous data (navmesh owns and deletes the data).
		tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(tx, ty, 0))

""")]
demo = '''
package tilemesh

import (
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"
	"github.com/arl/gogeo/f32/d3"
)

const geo = "v 0 0 0\\nv 20 0 0\\nv 20 0 20\\nv 0 0 20\\nf 1 3 2\\nf 1 4 3\\n"

func TestZZ(t *testing.T) {
	tm := New(recast.NewBuildContext(false))
	if err := tm.LoadGeometry(strings.NewReader(geo)); err != nil {
		t.Fatal(err)
	}
	m, ok := tm.Build()
	if !ok || m.TileAt(0, 0, 0) == nil {
		t.Fatal("no mesh")
	}
	tm.InputGeom().AddConvexVolume([]float32{-9, -1, -9, 30, -1, -9, 30, -1, 30, -9, -1, 30}, -2, 2, 0)
	tm.BuildTile(d3.NewVec3XYZ(3, 0, 3))
	if m.TileAt(0, 0, 0) != nil {
		t.Fatal("the tile is still there")
	}
}
'''
