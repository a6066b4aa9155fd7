id = "b11-partial-shortcuts-misplaced"
property = "P10"
needs = "a sliced any-angle search finalized with FinalizeSlicedFindPathPartial whose route took a shortcut"
breaks = "the path has gaps where the shortcuts of the search were not expanded"
edits = [("detour/query.go", """			node[0].Flags = (node[0].Flags & ^nodeParentDetached) | NodeFlags(prevRay)
			prevRay = int32(nextRay)
			node[0] = next
""", """			node[0].Flags = (node[0].Flags & ^nodeParentDetached) | NodeFlags(prevRay)
			if prevRay != 0 {
				prevRay = 0
			} else {
				prevRay = int32(nextRay)
			}
			node[0] = next
""")]
demo = '''
package detour_test

import (
	"math/rand"
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 400; round++ {
		m := zzMesh(t, 8, 64)
		a := zzTile{K: 6, Skip: map[[2]int]bool{}}
		for i := 0; i < 10; i++ {
			x, y := rnd.Intn(6), rnd.Intn(6)
			if x+y != 0 && x+y != 10 {
				a.Skip[[2]int{x, y}] = true
			}
		}
		ra := zzAdd(t, m, a, 0)
		q := zzQuery(t, m, 256)
		from, to := zzCell(ra, a, 0, 0), zzCell(ra, a, 5, 5)
		f := zzFilter()
		st := q.InitSlicedFindPath(from, to, zzCenter(a, 0, 0), zzCenter(a, 5, 5), f, FindPathAnyAngle)
		for st&InProgress != 0 {
			st = q.UpdateSlicedFindPath(3, nil)
		}
		if StatusFailed(st) {
			continue
		}
		path := make([]PolyRef, 64)
		n, st := q.FinalizeSlicedFindPathPartial([]PolyRef{from, to}, 2, path, 64)
		if StatusFailed(st) {
			t.Fatalf("round %d: 0x%x", round, uint32(st))
		}
		for i := 1; i < n; i++ {
			if !zzHas(zzLinks(m, path[i-1]), path[i]) {
				t.Fatalf("round %d: no link from polygon %d to polygon %d of the path %x", round, i-1, i, path[:n])
			}
		}
	}
}
'''
