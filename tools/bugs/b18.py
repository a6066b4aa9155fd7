id = "b18-area-buffer-of-old-geometry"
property = "P18"
needs = "a builder that built a small geometry before it loads one with more triangles in a chunk"
breaks = "the triangle flags buffer keeps the size of the former geometry: the build crashes"
package = "sample/tilemesh"
edits = [("sample/tilemesh/builder.go", """	tm.triAreas = make([]uint8, chunkyMesh.MaxTrisPerChunk)
""", """	// It serves all tiles.
	if tm.triAreas == nil {
		tm.triAreas = make([]uint8, chunkyMesh.MaxTrisPerChunk)
	}
""")]
demo = '''
package tilemesh

import (
	"fmt"
	"strings"
	"testing"

	"github.com/arl/go-detour/recast"
)

func TestZZ(t *testing.T) {
	grid := func(n int) string {
		var s strings.Builder
		for x := 0; x <= n; x++ {
			for z := 0; z <= n; z++ {
				fmt.Fprintf(&s, "v %v 0 %v\\n", float32(x)*20/float32(n), float32(z)*20/float32(n))
			}
		}
		for x := 0; x < n; x++ {
			for z := 0; z < n; z++ {
				a, b := x*(n+1)+z+1, (x+1)*(n+1)+z+1
				fmt.Fprintf(&s, "f %d %d %d\\nf %d %d %d\\n", a, a+1, b, b, a+1, b+1)
			}
		}
		return s.String()
	}
	tm := New(recast.NewBuildContext(false))
	for _, n := range []int{1, 4, 10} {
		if err := tm.LoadGeometry(strings.NewReader(grid(n))); err != nil {
			t.Fatal(err)
		}
		if _, ok := tm.Build(); !ok {
			t.Fatalf("no mesh of %d triangles", 2*n*n)
		}
	}
}
'''
