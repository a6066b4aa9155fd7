package detour_test

import (
	"bytes"
	. "github.com/arl/go-detour/detour"
	"testing"
)

// Helpers of the demonstration: flat grid tiles of 12x12 units.

const (
	zzCs   = 0.25
	zzVox  = 48
	zzSize = 12
)

// zzTile describes a tile of K x K square polygons at height Y (voxels).
type zzTile struct {
	X, Y, L int32
	K       int
	H       int             // height of the floor in voxels
	Skip    map[[2]int]bool // cells left out
	Area    map[[2]int]uint8
	Flags   map[[2]int]uint16
	Con     []zzCon
	NoBV    bool
	UserID  uint32
}

type zzCon struct {
	A, B   [3]float32
	Rad    float32
	Dir    uint8
	Area   uint8
	Flags  uint16
	UserID uint32
}

func (z zzTile) data(t testing.TB) []byte {
	k := z.K
	step := zzVox / k
	p := &NavMeshCreateParams{
		Nvp: 6, TileX: z.X, TileY: z.Y, TileLayer: z.L, UserID: z.UserID,
		Cs: zzCs, Ch: zzCs, WalkableHeight: 2, WalkableRadius: 0.5, WalkableClimb: 1, BuildBvTree: !z.NoBV,
	}
	ylo := z.H - 4
	p.BMin = [3]float32{float32(z.X) * zzSize, float32(ylo) * zzCs, float32(z.Y) * zzSize}
	p.BMax = [3]float32{float32(z.X+1) * zzSize, float32(z.H+8) * zzCs, float32(z.Y+1) * zzSize}
	for x := 0; x <= k; x++ {
		for y := 0; y <= k; y++ {
			p.Verts = append(p.Verts, uint16(x*step), 4, uint16(y*step))
		}
	}
	p.VertCount = int32(len(p.Verts) / 3)
	idx := map[[2]int]int{}
	for x := 0; x < k; x++ {
		for y := 0; y < k; y++ {
			if !z.Skip[[2]int{x, y}] {
				idx[[2]int{x, y}] = len(idx)
			}
		}
	}
	for x := 0; x < k; x++ {
		for y := 0; y < k; y++ {
			if z.Skip[[2]int{x, y}] {
				continue
			}
			v := func(x, y int) uint16 { return uint16(x*(k+1) + y) }
			nei := func(x, y int, dir uint16) uint16 {
				if x < 0 || y < 0 || x >= k || y >= k {
					return 0x8000 | dir
				}
				if n, ok := idx[[2]int{x, y}]; ok {
					return uint16(n)
				}
				return 0x8000 | 0xf
			}
			row := []uint16{v(x, y), v(x, y+1), v(x+1, y+1), v(x+1, y), 0xffff, 0xffff,
				nei(x-1, y, 0), nei(x, y+1, 1), nei(x+1, y, 2), nei(x, y-1, 3), 0xffff, 0xffff}
			p.Polys = append(p.Polys, row...)
			f, ok := z.Flags[[2]int{x, y}]
			if !ok {
				f = 1
			}
			p.PolyFlags = append(p.PolyFlags, f)
			p.PolyAreas = append(p.PolyAreas, z.Area[[2]int{x, y}])
		}
	}
	p.PolyCount = int32(len(idx))
	for _, c := range z.Con {
		p.OffMeshConVerts = append(p.OffMeshConVerts, c.A[0], c.A[1], c.A[2], c.B[0], c.B[1], c.B[2])
		p.OffMeshConRad = append(p.OffMeshConRad, c.Rad)
		p.OffMeshConDir = append(p.OffMeshConDir, c.Dir)
		p.OffMeshConAreas = append(p.OffMeshConAreas, c.Area)
		f := c.Flags
		if f == 0 {
			f = 1
		}
		p.OffMeshConFlags = append(p.OffMeshConFlags, f)
		p.OffMeshConUserID = append(p.OffMeshConUserID, c.UserID)
	}
	p.OffMeshConCount = int32(len(z.Con))
	data, err := CreateNavMeshData(p)
	if err != nil {
		t.Fatalf("creating a tile: %v", err)
	}
	return data
}

func zzMesh(t testing.TB, maxTiles, maxPolys uint32) *NavMesh {
	m := &NavMesh{}
	st := m.Init(&NavMeshParams{TileWidth: zzSize, TileHeight: zzSize, MaxTiles: maxTiles, MaxPolys: maxPolys})
	if StatusFailed(st) {
		t.Fatalf("Init: 0x%x", uint32(st))
	}
	return m
}

func zzAdd(t testing.TB, m *NavMesh, z zzTile, last TileRef) TileRef {
	st, ref := m.AddTile(z.data(t), last)
	if StatusFailed(st) {
		t.Fatalf("AddTile(%d,%d): 0x%x", z.X, z.Y, uint32(st))
	}
	return ref
}

func zzRemove(t testing.TB, m *NavMesh, ref TileRef) []byte {
	data, st := m.RemoveTile(ref)
	if StatusFailed(st) {
		t.Fatalf("RemoveTile: 0x%x", uint32(st))
	}
	return data
}

// zzCell is the reference of a cell of a tile without left out cells before it.
func zzCell(ref TileRef, z zzTile, x, y int) PolyRef {
	n := 0
	for i := 0; i < z.K; i++ {
		for j := 0; j < z.K; j++ {
			if i == x && j == y {
				return PolyRef(ref) | PolyRef(n)
			}
			if !z.Skip[[2]int{i, j}] {
				n++
			}
		}
	}
	return 0
}

// zzCenter is the center of a cell.
func zzCenter(z zzTile, x, y int) []float32 {
	s := float32(zzSize) / float32(z.K)
	return []float32{float32(z.X)*zzSize + (float32(x)+0.5)*s, float32(z.H) * zzCs, float32(z.Y)*zzSize + (float32(y)+0.5)*s}
}

func zzLinks(m *NavMesh, from PolyRef) []PolyRef {
	var tile *MeshTile
	var poly *Poly
	if StatusFailed(m.TileAndPolyByRef(from, &tile, &poly)) {
		return nil
	}
	var out []PolyRef
	for i := poly.FirstLink; i != 0xffffffff; i = tile.Links[i].Next {
		out = append(out, tile.Links[i].Ref)
	}
	return out
}

func zzHas(refs []PolyRef, ref PolyRef) bool {
	for _, r := range refs {
		if r == ref {
			return true
		}
	}
	return false
}

func zzQuery(t testing.TB, m *NavMesh, nodes int32) *NavMeshQuery {
	st, q := NewNavMeshQuery(m, nodes)
	if StatusFailed(st) {
		t.Fatalf("NewNavMeshQuery: 0x%x", uint32(st))
	}
	return q
}

func zzReload(t testing.TB, m *NavMesh) *NavMesh {
	var buf bytes.Buffer
	if err := m.ToWriter(&buf); err != nil {
		t.Fatalf("ToWriter: %v", err)
	}
	n, err := Decode(&buf)
	if err != nil {
		t.Fatalf("Decode: %v", err)
	}
	return n
}

// filter: StandardQueryFilter with all areas at cost 1 and all flags.
func zzFilter() *StandardQueryFilter { return NewStandardQueryFilter() }

var _ = zzFilter
var _ = zzReload
var _ = zzQuery
var _ = zzHas
var _ = zzLinks
var _ = zzCenter
var _ = zzCell
var _ = zzRemove
var _ = zzAdd
