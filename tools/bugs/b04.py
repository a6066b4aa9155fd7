id = "b04-goal-not-revalidated"
property = "P11"
needs = "the tile of the goal polygon being unloaded between two updates of a sliced search"
breaks = "the search carries on towards a polygon that is not loaded any more instead of failing"
edits = [("detour/query.go", """	if !q.nav.IsValidPolyRef(q.query.startRef) || !q.nav.IsValidPolyRef(q.query.endRef) {
""", """	if !q.nav.IsValidPolyRef(q.query.startRef) && !q.nav.IsValidPolyRef(q.query.endRef) {
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a, b := zzTile{K: 4}, zzTile{X: 1, K: 4}
	ra, rb := zzAdd(t, m, a, 0), zzAdd(t, m, b, 0)
	q := zzQuery(t, m, 256)
	f := zzFilter()
	st := q.InitSlicedFindPath(zzCell(ra, a, 0, 0), zzCell(rb, b, 3, 3), zzCenter(a, 0, 0), zzCenter(b, 3, 3), f, 0)
	if !StatusInProgress(st) {
		t.Fatalf("0x%x", uint32(st))
	}
	var done int
	q.UpdateSlicedFindPath(2, &done)
	zzRemove(t, m, rb)
	if st := q.UpdateSlicedFindPath(2, &done); !StatusFailed(st) {
		t.Fatalf("the goal is gone, but the update reports 0x%x", uint32(st))
	}
}
'''
