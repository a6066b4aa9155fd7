id = "b13-ray-cost-from-its-start"
property = "P13"
needs = "a ray through three or more polygons cast with RaycastUseCosts"
breaks = "the cost of each polygon is taken from the start of the ray: the parts already travelled are paid again"
edits = [("detour/query.go", """			copy(lastPos, curPos[:3])
			d3.Vec3Mad(curPos, startPos, dir, hit.T)
""", """			if n == 1 {
				copy(lastPos, curPos[:3])
			}
			d3.Vec3Mad(curPos, startPos, dir, hit.T)
""")]
demo = '''
package detour_test

import (
	"math"
	"testing"

	. "github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a := zzTile{K: 6}
	ra := zzAdd(t, m, a, 0)
	q := zzQuery(t, m, 64)
	from, to := zzCenter(a, 0, 2), zzCenter(a, 5, 2)
	hit := RaycastHit{Path: make([]PolyRef, 32), MaxPath: 32}
	st := q.Raycast(zzCell(ra, a, 0, 2), from, to, zzFilter(), RaycastUseCosts, &hit, 0)
	if StatusFailed(st) || hit.T <= 1 {
		t.Fatalf("0x%x %v", uint32(st), hit.T)
	}
	if d := d3.Vec3(from).Dist(to); math.Abs(float64(hit.PathCost-d)) > 0.01 {
		t.Fatalf("over areas of cost 1 a ray of length %v costs %v", d, hit.PathCost)
	}
}
'''
