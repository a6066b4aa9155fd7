id = "b10-restore-loses-free-slots"
property = "P04"
needs = "a tile restored at a slot that is not the next free one, then tiles up to the capacity"
breaks = "the free slots before the restored one are lost: the mesh refuses tiles although it has room"
edits = [("detour/mesh.go", """		if prev == nil {
			m.nextFree = tile.Next
		} else {
			prev.Next = tile.Next
		}
""", """		if prev != nil {
			prev.Next = tile.Next
		}
		m.nextFree = tile.Next
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	var refs []TileRef
	var tiles []zzTile
	for x := int32(0); x < 8; x++ {
		tiles = append(tiles, zzTile{X: x, K: 1})
		refs = append(refs, zzAdd(t, m, tiles[x], 0))
	}
	// unload some tiles, then bring them back in another order than they left
	for _, i := range []int{2, 5, 6} {
		zzRemove(t, m, refs[i])
	}
	if got := zzAdd(t, m, tiles[2], refs[2]); got != refs[2] {
		t.Fatalf("restored at 0x%x instead of 0x%x", got, refs[2])
	}
	for _, i := range []int{5, 6} {
		if st, _ := m.AddTile(tiles[i].data(t), 0); StatusFailed(st) {
			t.Fatalf("a mesh with room refuses a tile: 0x%x", uint32(st))
		}
	}
}
'''
