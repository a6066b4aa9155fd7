id = "b05-save-skips-last-slots"
property = "P01"
needs = "a tile removed while tiles in later slots stay loaded, then saving"
breaks = "the save visits only as many slots as there are tiles, so tiles behind an empty slot are missing from the file"
edits = [("detour/mesh.go", """	for i := int32(0); i < m.MaxTiles; i++ {
		tile := &m.Tiles[i]
		if tile.DataSize == 0 {
			continue
		}

		var tileHeader navMeshTileHeader
		tileHeader.TileRef""", """	for i := int32(0); i < int32(header.NumTiles); i++ {
		tile := &m.Tiles[i]
		if tile.DataSize == 0 {
			continue
		}

		var tileHeader navMeshTileHeader
		tileHeader.TileRef""")]
demo = '''
package detour_test

import "testing"

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a, b, c := zzTile{K: 2}, zzTile{X: 1, K: 2}, zzTile{X: 2, K: 2}
	zzAdd(t, m, a, 0)
	rb := zzAdd(t, m, b, 0)
	rc := zzAdd(t, m, c, 0)
	zzRemove(t, m, rb)
	n := zzReload(t, m)
	if n.TileByRef(rc) == nil || n.TileAt(0, 0, 0) == nil {
		t.Fatal("a tile is missing from the saved mesh")
	}
}
'''
