id = "b03-open-list-not-cleared"
property = "P08"
needs = "a path query that finds its goal while nodes are still open, then another query on the same object"
breaks = "the second query starts with the leftover open nodes of the first and may return a corridor that does not start at its start polygon, or no path"
edits = [("detour/query.go", """	q.nodePool.Clear()
	q.openList.clear()

	var (
		startNode, lastBestNode *Node
		lastBestNodeCost        float32
""", """	q.nodePool.Clear()
	if q.openList.size == q.openList.capacity {
		q.openList.clear()
	}

	var (
		startNode, lastBestNode *Node
		lastBestNodeCost        float32
""")]
demo = '''
package detour_test

import (
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	a := zzTile{K: 6, Skip: map[[2]int]bool{{2, 2}: true, {3, 2}: true, {3, 3}: true}}
	ra := zzAdd(t, m, a, 0)
	q := zzQuery(t, m, 256)
	f := zzFilter()
	path := make([]PolyRef, 64)
	fails := 0
	for x := 0; x < 6; x++ {
		for y := 0; y < 6; y++ {
			if a.Skip[[2]int{x, y}] {
				continue
			}
			for k := 0; k < 6; k++ {
				from, to := zzCell(ra, a, k, 5-k), zzCell(ra, a, x, y)
				n, st := q.FindPath(from, to, zzCenter(a, k, 5-k), zzCenter(a, x, y), f, path)
				if st != Success || n == 0 || path[0] != from || path[n-1] != to {
					fails++
					continue
				}
				for i := 1; i < n; i++ {
					if !zzHas(zzLinks(m, path[i-1]), path[i]) {
						fails++
						break
					}
				}
			}
		}
	}
	if fails > 0 {
		t.Fatalf("%d queries answered wrongly", fails)
	}
}
'''
