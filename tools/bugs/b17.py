id = "b17-shared-clip-distances"
property = "P17"
needs = "two builders running at the same time, one clipping a triangle while the other does"
breaks = "the builds overwrite each other's clip distances: meshes differ from those of builds run alone"
package = "sample/solomesh"
edits = [("recast/rasterization.go", """	var d [12]float32
	for i := int32(0); i < nin; i++ {
		d[i] = x""", """	d := &clipDist
	for i := int32(0); i < nin; i++ {
		d[i] = x"""), ("recast/rasterization.go", """// divides a convex polygons into two convex polygons on both sides of a line
""", """// distances of the vertices to the clipping line
var clipDist [12]float32

// divides a convex polygons into two convex polygons on both sides of a line
""")]
demo = '''
package solomesh

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/arl/go-detour/recast"
)

func build(geo string) (b []byte, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	sm := New(recast.NewBuildContext(false))
	if err := sm.LoadGeometry(strings.NewReader(geo)); err != nil {
		return nil, err
	}
	m, ok := sm.Build()
	if !ok {
		return nil, nil
	}
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func TestZZ(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	var geo strings.Builder
	for i := 0; i < 200; i++ {
		for k := 0; k < 3; k++ {
			fmt.Fprintf(&geo, "v %v %v %v\\n", rnd.Float32()*40, rnd.Float32()*3, rnd.Float32()*40)
		}
		fmt.Fprintf(&geo, "f %d %d %d\\n", i*3+1, i*3+2, i*3+3)
	}
	want, err := build(geo.String())
	if err != nil {
		t.Fatal(err)
	}
	stop := time.Now().Add(8 * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(stop) && !t.Failed() {
				got, err := build(geo.String())
				if err != nil || !bytes.Equal(got, want) {
					t.Errorf("a build beside others differs: %v", err)
				}
			}
		}()
	}
	wg.Wait()
}
'''
