id = "b23-floors-keep-old-names"
property = "P27"
needs = "ground that winds over itself, in regions small enough to be merged one after the other"
breaks = "the floors below and above a merged region keep its former name, so that regions above each other are merged and the ground is not covered"
package = "sample/solomesh"
util = False
edits = [("recast/region.go", """	for i := range reg.Floors {
		if reg.Floors[i] == int32(oldID) {
			reg.Floors[i] = int32(newID)
		}
	}

	if neiChanged {
		reg.removeAdjacentNeighbours()
""", """	if neiChanged {
		for i := range reg.Floors {
			if reg.Floors[i] == int32(oldID) {
				reg.Floors[i] = int32(newID)
			}
		}
		reg.removeAdjacentNeighbours()
""")]
demo = '''
package solomesh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

// zzStairs winds n landings of s cells around a square.
func zzStairs(side, s, n, up int, back bool, at int) (string, [][3]float32) {
	var ring [][2]int
	for i := 0; i < side-1; i++ {
		ring = append(ring, [2]int{i, 0})
	}
	for i := 0; i < side-1; i++ {
		ring = append(ring, [2]int{side - 1, i})
	}
	for i := side - 1; i > 0; i-- {
		ring = append(ring, [2]int{i, side - 1})
	}
	for i := side - 1; i > 0; i-- {
		ring = append(ring, [2]int{0, i})
	}
	var v, f strings.Builder
	var mid [][3]float32
	for i := 0; i < n; i++ {
		c := ring[(at+i)%len(ring)]
		if back {
			c = ring[(at+100*len(ring)-i)%len(ring)]
		}
		x, z, y := float32(c[0]*s), float32(c[1]*s), float32(i*up)*0.5
		w := float32(s)
		fmt.Fprintf(&v, "v %v %v %v\\nv %v %v %v\\nv %v %v %v\\nv %v %v %v\\n", x, y, z, x, y, z+w, x+w, y, z+w, x+w, y, z)
		k := 4*i + 1
		fmt.Fprintf(&f, "f %d %d %d\\nf %d %d %d\\n", k, k+1, k+2, k, k+2, k+3)
		mid = append(mid, [3]float32{x + w/2 + 0.2, y, z + w/2 + 0.3})
	}
	return v.String() + f.String(), mid
}

func TestZZ(t *testing.T) {
	for try := 0; try < 64; try++ {
		obj, mid := zzStairs(3+try%2, 7+try/2%3, 12+try/6%2*8+try%5, 2+try/12%2, try/24%2 == 1, try)
		b := New(recast.NewBuildContext(false))
		set := DefaultSettings()
		set.CellSize, set.CellHeight = 1, 0.5
		set.AgentRadius, set.AgentHeight, set.AgentMaxClimb = 0.5, 3.75, 1.75
		set.RegionMinSize, set.RegionMergeSize, set.DetailSampleDist = 0, []float32{20, 60}[try%2], 0
		b.SetSettings(set)
		if err := b.LoadGeometry(strings.NewReader(obj)); err != nil {
			t.Fatal(err)
		}
		m, ok := b.Build()
		if !ok {
			t.Fatal("no mesh was built")
		}
		st, q := detour.NewNavMeshQuery(m, 512)
		if detour.StatusFailed(st) {
			t.Fatal("no query")
		}
		f := detour.NewStandardQueryFilter()
		f.SetIncludeFlags(0xffff)
		for i, p := range mid {
			_, ref, _ := q.FindNearestPoly(p[:], []float32{0.1, 2, 0.1}, f)
			if ref == 0 {
				t.Fatalf("stairs %d: no ground at landing %d", try, i)
			}
		}
	}
}
'''
