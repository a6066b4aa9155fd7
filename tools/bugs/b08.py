id = "b08-open-node-not-resifted"
property = "P09"
needs = "an open node whose route is improved while it sits in the second half of the heap"
breaks = "the improved node keeps its place in the open list, so dearer routes are expanded first and the path returned is not the cheapest"
edits = [("detour/nodequeue.go", """	for i := int32(0); i < q.size; i++ {
		if q.heap[i] == node {
			q.bubbleUp(i, node)
""", """	for i := int32(0); i < (q.size+1)/2; i++ {
		if q.heap[i] == node {
			q.bubbleUp(i, node)
""")]
demo = '''
package detour_test

import (
	"math/rand"
	"testing"

	. "github.com/arl/go-detour/detour"
)

// cost sums the costs of a path as the search does.
func cost(f *StandardQueryFilter, m *NavMesh, q *NavMeshQuery, path []PolyRef) float32 {
	n := q.NodePool().FindNode(path[len(path)-1], 0)
	for s := uint8(1); n == nil && s < 4; s++ {
		n = q.NodePool().FindNode(path[len(path)-1], s)
	}
	return n.Cost
}

func TestZZ(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 2000; round++ {
		m := zzMesh(t, 1, 64)
		a := zzTile{K: 6, Area: map[[2]int]uint8{}}
		for x := 0; x < 6; x++ {
			for y := 0; y < 6; y++ {
				a.Area[[2]int{x, y}] = uint8(rnd.Intn(4))
			}
		}
		ra := zzAdd(t, m, a, 0)
		q := zzQuery(t, m, 256)
		f := zzFilter()
		for i, c := range []float32{1, 3, 7, 20} {
			f.SetAreaCost(int32(i), c)
		}
		path := make([]PolyRef, 64)
		from, to := zzCell(ra, a, 0, 0), zzCell(ra, a, 5, 5)
		n, st := q.FindPath(from, to, zzCenter(a, 0, 0), zzCenter(a, 5, 5), f, path)
		if st != Success {
			t.Fatalf("0x%x", uint32(st))
		}
		goal := q.NodePool().FindNode(path[n-1], 0)
		// no closed polygon may have been left with a route dearer than the
		// one through one of its closed neighbours
		for i := int32(1); i <= q.NodePool().NodeCount(); i++ {
			u := q.NodePool().NodeAtIdx(i)
			for j := int32(1); j <= q.NodePool().NodeCount(); j++ {
				v := q.NodePool().NodeAtIdx(j)
				if u.Total < goal.Total*0.99 && v.ID == to && v.PIdx != uint32(i) && zzHas(zzLinks(m, u.ID), to) && u.Flags == 1 {
					t.Fatalf("round %d: polygon 0x%x (total %v) was left open although the goal costs %v", round, uint32(u.ID), u.Total, goal.Total)
				}
				if u.Flags == 1 && u.Total < goal.Total*0.999 {
					t.Fatalf("round %d: polygon 0x%x (total %v) was left open although the goal costs %v", round, uint32(u.ID), u.Total, goal.Total)
				}
			}
		}
	}
}

var _ = cost
'''
