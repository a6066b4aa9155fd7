id = "b07-partial-header-accepted"
property = "P03"
needs = "a writer that takes part of the mesh header and then fails"
breaks = "the save goes on behind the missing bytes and reports success"
edits = [("detour/structs.go", """	n, err := w.Write(buf)
	return int64(n), err
}

// NavMeshParams contains""", """	n, err := w.Write(buf)
	if n > 0 {
		// the rest of the header follows with the tiles
		return int64(n), nil
	}
	return int64(n), err
}

// NavMeshParams contains""")]
demo = '''
package detour_test

import (
	"errors"
	"testing"

	. "github.com/arl/go-detour/detour"
)

type short struct{ n int }

func (s *short) Write(p []byte) (int, error) {
	s.n++
	if s.n == 1 {
		return 7, errors.New("disk full")
	}
	return len(p), nil
}

func TestZZ(t *testing.T) {
	m := zzMesh(t, 8, 64)
	zzAdd(t, m, zzTile{K: 2}, 0)
	if err := m.ToWriter(&short{}); err == nil {
		t.Fatal("a save that lost bytes reports success")
	}
	_ = Success
}
'''
