id = "b21-buffered-save-ignores-flush"
property = "P03"
needs = "a writer that fails while the last buffer of a save is written"
breaks = "the save reports success although the end of the mesh was not stored"
edits = [("detour/mesh.go", """	// Store header.
	var header navMeshSetHeader
""", """	// Tiles are written in many small pieces.
	bw := bufio.NewWriter(w)
	defer bw.Flush()

	// Store header.
	var header navMeshSetHeader
"""), ("detour/mesh.go", "if _, err := header.WriteTo(w); err", "if _, err := header.WriteTo(bw); err"),
 ("detour/mesh.go", "if _, err := tileHeader.WriteTo(w); err", "if _, err := tileHeader.WriteTo(bw); err"),
 ("detour/mesh.go", "if _, err := w.Write(data); err", "if _, err := bw.Write(data); err"),
 ("detour/mesh.go", "import (\n", "import (\n\t\"bufio\"\n")]
demo = '''
package detour_test

import (
	"errors"
	"testing"

	. "github.com/arl/go-detour/detour"
)

type limited struct{ left int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.left = 0
		return n, errors.New("disk full")
	}
	l.left -= len(p)
	return len(p), nil
}

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	zzAdd(t, m, zzTile{K: 4}, 0)
	if err := m.ToWriter(&limited{int(m.Size())}); err != nil {
		t.Fatal(err)
	}
	for n := 0; n < int(m.Size()); n++ {
		if err := m.ToWriter(&limited{n}); err == nil {
			t.Fatalf("a save to a disk with room for %d of %d bytes reports success", n, m.Size())
		}
	}
	_ = Success
}
'''
