id = "b15-shared-edge-buffer"
property = "P15"
needs = "nearest polygon searches of two threads, one entering the function while the other is in it"
breaks = "the threads overwrite each other's edge distances: a position gets the answer of another"
edits = [("detour/query.go", """	verts := make([]float32, VertsPerPolygon*3)
	edged := make([]float32, VertsPerPolygon)
	edget := make([]float32, VertsPerPolygon)
	nv := poly.VertCount
	var i uint8
	for i = 0; i < nv; i++ {
		idx := i * 3
		jdx := int(poly.Verts[i]) * 3
		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
	}

	closest.Assign(pos)
	if !""", """	verts := polyScratch.verts[:]
	edged := polyScratch.edged[:]
	edget := polyScratch.edget[:]
	nv := poly.VertCount
	var i uint8
	for i = 0; i < nv; i++ {
		idx := i * 3
		jdx := int(poly.Verts[i]) * 3
		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
	}

	closest.Assign(pos)
	if !"""), ("detour/query.go", """// ClosestPointOnPoly uses the detail polygons to find the surface height.
// (Most accurate.)
//
// pos does not have to be within the bounds of the polygon or navigation mesh.
// See ClosestPointOnPolyBoundary""", """// polyScratch saves allocating on every call.
var polyScratch struct {
	verts        [VertsPerPolygon * 3]float32
	edged, edget [VertsPerPolygon]float32
}

// ClosestPointOnPoly uses the detail polygons to find the surface height.
// (Most accurate.)
//
// pos does not have to be within the bounds of the polygon or navigation mesh.
// See ClosestPointOnPolyBoundary""")]
demo = '''
package detour_test

import (
	"sync"
	"testing"
	"time"

	. "github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

var _ = Success

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a := zzTile{K: 6}
	ra := zzAdd(t, m, a, 0)
	q := zzQuery(t, m, 64)
	var wg sync.WaitGroup
	var bad sync.Map
	stop := time.Now().Add(10 * time.Second)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			// beside another cell each, so that edge distances matter
			ref := zzCell(ra, a, i%6, (i*5)%6)
			pos := d3.Vec3(zzCenter(a, i%6, (i*5)%6))
			pos[0] += 1.5
			want := d3.Vec3{pos[0] - 0.5, 0, pos[2]}
			got := d3.NewVec3()
			for time.Now().Before(stop) {
				for k := 0; k < 2000; k++ {
					q.ClosestPointOnPoly(ref, pos, got, nil)
					if got.Dist(want) > 0.01 {
						bad.Store(i, [2]d3.Vec3{got, want})
						return
					}
				}
			}
		}(i)
	}
	wg.Wait()
	bad.Range(func(k, v interface{}) bool {
		t.Fatalf("thread %v got %v", k, v)
		return false
	})
}
'''
