id = "b09-cut-between-tiles-accepted"
property = "P02"
needs = "a saved mesh of several tiles cut exactly where one tile ends"
breaks = "the remaining tiles are missing from the mesh and no error is reported"
edits = [("detour/mesh.go", """		err = binary.Read(r, binary.LittleEndian, &tileHdr)
		if err != nil {
			return nil, err
		}
""", """		err = binary.Read(r, binary.LittleEndian, &tileHdr)
		if err == io.EOF {
			// no more tiles
			break
		}
		if err != nil {
			return nil, err
		}
""")]
demo = '''
package detour_test

import (
	"bytes"
	"testing"

	. "github.com/arl/go-detour/detour"
)

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	for x := int32(0); x < 4; x++ {
		zzAdd(t, m, zzTile{X: x, K: 2}, 0)
	}
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		t.Fatal(err)
	}
	if _, err := Decode(bytes.NewReader(buf.Bytes())); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < buf.Len(); n++ {
		if _, err := Decode(bytes.NewReader(buf.Bytes()[:n])); err == nil {
			t.Fatalf("%d of %d bytes are accepted as a mesh", n, buf.Len())
		}
	}
}
'''
