id = "b12-portal-limits-half-ignored"
property = "P12"
needs = "a corridor over a tile border where the portal covers the edge up to one of its ends only"
breaks = "the straight path crosses the border beside the portal, through a wall"
edits = [("detour/query.go", """		if link.BMin != 0 || link.BMax != 255 {
			s := float32(1.0 / 255.0)
			tmin := float32(link.BMin) * s
			tmax""", """		if link.BMin != 0 && link.BMax != 255 {
			s := float32(1.0 / 255.0)
			tmin := float32(link.BMin) * s
			tmax""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func TestZZ(t *testing.T) {
	// one wide polygon, beside it two cells of which one is missing
	for miss := 0; miss < 2; miss++ {
		m := zzMesh(t, 8, 64)
		a := zzTile{K: 1}
		b := zzTile{X: 1, K: 2, Skip: map[[2]int]bool{{0, miss}: true}}
		ra, rb := zzAdd(t, m, a, 0), zzAdd(t, m, b, 0)
		q := zzQuery(t, m, 64)
		path := []PolyRef{zzCell(ra, a, 0, 0), zzCell(rb, b, 0, 1-miss), zzCell(rb, b, 1, 1-miss), zzCell(rb, b, 1, miss)}
		z := float32(3 + 6*miss)
		from, to := d3.Vec3{6, 0, z}, d3.Vec3{21, 0, z}
		sp := make([]d3.Vec3, 16)
		for i := range sp {
			sp[i] = d3.NewVec3()
		}
		n, st := q.FindStraightPath(from, to, path, sp, make([]uint8, 16), make([]PolyRef, 16), 0)
		if StatusFailed(st) {
			t.Fatalf("0x%x", uint32(st))
		}
		// where does the path cross the border x = 12?
		for i := 1; i < n; i++ {
			p, r := sp[i-1], sp[i]
			if p[0] <= 12 && r[0] >= 12 && r[0] > p[0] {
				c := p[2] + (r[2]-p[2])*(12-p[0])/(r[0]-p[0])
				if lo, hi := float32(6-6*miss), float32(12-6*miss); c < lo-0.1 || c > hi+0.1 {
					t.Fatalf("the path crosses the border at %v, the opening is from %v to %v", c, lo, hi)
				}
			}
		}
	}
}
'''
