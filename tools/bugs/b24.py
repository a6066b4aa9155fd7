id = "b24-area-borders-cut-from-one-side"
property = "P27"
needs = "a marked volume whose border is not along the cells"
breaks = "the border between two areas is simplified from the side of the lower area only, so that the edges of both sides differ and are not joined"
package = "sample/solomesh"
util = False
edits = [("recast/contour.go", """				if area != chf.Areas[ai] {
					isAreaBorder = true""", """				if area < chf.Areas[ai] {
					isAreaBorder = true""")]
demo = '''
package solomesh

import (
	"strings"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

func TestZZ(t *testing.T) {
	for try := 0; try < 12; try++ {
		b := New(recast.NewBuildContext(false))
		set := DefaultSettings()
		set.CellSize, set.CellHeight = 1, 0.5
		set.AgentRadius, set.AgentHeight, set.AgentMaxClimb = 0.5, 3.75, 1.75
		set.RegionMinSize, set.DetailSampleDist = 0, 0
		b.SetSettings(set)
		if err := b.LoadGeometry(strings.NewReader("v 0 0 0\\nv 0 0 60\\nv 60 0 60\\nv 60 0 0\\nf 1 2 3\\nf 1 3 4\\n")); err != nil {
			t.Fatal(err)
		}
		x := float32(30)
		w := 8 + float32(try)
		b.InputGeom().AddConvexVolume([]float32{x - w, 0, x, x, 0, x + w, x + w, 0, x, x, 0, x - w}, -2, 5, 3)
		m, ok := b.Build()
		if !ok {
			t.Fatal("no mesh was built")
		}
		st, q := detour.NewNavMeshQuery(m, 512)
		if detour.StatusFailed(st) {
			t.Fatal("no query")
		}
		f := detour.NewStandardQueryFilter()
		f.SetIncludeFlags(0xffff)
		at := func(x, z float32) (detour.PolyRef, []float32) {
			_, ref, pt := q.FindNearestPoly([]float32{x, 0, z}, []float32{0.1, 2, 0.1}, f)
			if ref == 0 {
				t.Fatalf("no ground at %v, %v", x, z)
			}
			return ref, pt
		}
		ra, pa := at(30.3, 30.2)
		for _, c := range [][2]float32{{4, 4}, {4, 56}, {56, 4}, {56, 56}} {
			rb, pb := at(c[0], c[1])
			path := make([]detour.PolyRef, 256)
			n, st := q.FindPath(ra, rb, pa, pb, f, path)
			if detour.StatusFailed(st) || n == 0 || path[n-1] != rb {
				t.Fatalf("volume of %v: no path from the middle to %v", w, c)
			}
		}
	}
}
'''
