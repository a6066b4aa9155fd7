id = "b14-floors-compared-unsquared"
property = "P14"
needs = "a position over one polygon, beyond its climb, and beside another"
breaks = "distances are compared with squared distances: a polygon farther away is taken for the nearest"
edits = [("detour/polyquery.go", """			if d > 0 {
				d = d * d
			} else {
				d = 0
			}
""", """			if d < 0 {
				d = 0
			}
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

var _ = Success

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	// an upper floor over half of the tile, a lower floor under the other
	lo := zzTile{K: 2, Skip: map[[2]int]bool{{0, 0}: true, {0, 1}: true}}
	up := zzTile{L: 1, H: 40, K: 2, Skip: map[[2]int]bool{{1, 0}: true, {1, 1}: true}}
	rl, ru := zzAdd(t, m, lo, 0), zzAdd(t, m, up, 0)
	q := zzQuery(t, m, 64)
	// over the lower floor by 7, beside the upper floor by 4
	pos := []float32{10, 7, 3}
	_, ref, _ := q.FindNearestPoly(pos, []float32{12, 12, 12}, zzFilter())
	if want := zzCell(ru, up, 0, 0); ref != want {
		t.Fatalf("got 0x%x, the nearest is 0x%x", ref, want)
	}
	_ = rl
}
'''
