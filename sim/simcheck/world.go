package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
)

// The world is made of exact integer voxel geometry, from which the tile data
// handed to the code under test and the expectations of the models are derived
// independently.

const tileVox = 48 // tile width in voxels

// Loc is a tile location.
type Loc struct{ X, Y, L int32 }

func (l Loc) String() string { return fmt.Sprintf("(%d,%d,%d)", l.X, l.Y, l.L) }

// I3 is an absolute voxel position.
type I3 [3]int

// Edge kinds.
const (
	eSolid  = -1
	ePortal = -2 // -2-side
)

// PolyG is a polygon of a tile variant.
type PolyG struct {
	V     []int // vertex indices
	Nei   []int // >=0 polygon, -1 solid, -2-side portal
	Area  uint8
	Flags uint16
	Cell  int
	// detail surface: triangles as absolute voxel positions (y may be half voxels, so doubled)
	Tris [][3][3]float64
}

// Con is an off-mesh connection of the world.
type Con struct {
	A, B   [3]float64 // voxel positions
	Rad    float64    // voxels
	Bidir  bool
	Area   uint8
	Flags  uint16
	UserID uint32
}

// Variant is one possible content of a tile location.
type Variant struct {
	ID     int
	Loc    Loc
	K      int
	V      []I3
	P      []PolyG // ground polygons
	Cons   []int   // indices of the connections stored in this tile
	BV     bool
	Detail int // 0 none, 1 plain, 2 with centre vertices
	Data   []byte
	BMin   [3]float32
	BMax   [3]float32
	YMin   int
	YMax   int // exclusive upper bound in voxels
	UserID uint32
	Params *detour.NavMeshCreateParams
}

// NPolys is the number of polygons including off-mesh connections.
func (v *Variant) NPolys() int { return len(v.P) + len(v.Cons) }

// World is a set of tile variants over a grid.
type World struct {
	Cs, Ch   float32
	Orig     [3]float32
	ClimbV   int
	Climb    float32
	Radius   float32
	Height   float32
	Locs     []Loc
	Var      map[Loc][]*Variant
	Cons     []Con
	MaxTiles int
	MaxPolys int
	MaxP     int // polygons of the biggest variant
	TightY   bool
	X0, Y0   int32
	NX, NY   int
	NL       int
}

// WorldCfg steers generation.
type WorldCfg struct {
	MaxNX, MaxNY int
	MaxLayers    int
	MaxVariants  int
	Cons         bool
	MinCons      int
	MaxCons      int
	HoleMax      int // in 1/16
	Small        bool
	NoBV         bool // force no tree
	AllowFar     bool
	AllDetail    bool
	MaxK         int
	Flat         bool
	MinNX, MinNY int
	Steep        bool // slopes and cliffs, borders included
}

func defaultCfg() WorldCfg {
	return WorldCfg{MaxNX: 3, MaxNY: 3, MaxLayers: 2, MaxVariants: 3, Cons: true, HoleMax: 5, AllowFar: true, MaxK: 6}
}

// W converts voxel coordinates to world units.
func (w *World) W(x, y, z float64) [3]float32 {
	return [3]float32{
		float32(float64(w.Orig[0]) + x*float64(w.Cs)),
		float32(float64(w.Orig[1]) + y*float64(w.Ch)),
		float32(float64(w.Orig[2]) + z*float64(w.Cs)),
	}
}

func genWorld(r *R, c WorldCfg) *World {
	w := &World{Var: map[Loc][]*Variant{}}
	w.Cs = []float32{0.5, 0.25, 1}[r.Draw(3)]
	w.Ch = w.Cs * []float32{0.5, 1}[r.Draw(2)]
	w.ClimbV = 4
	w.Climb = float32(w.ClimbV) * w.Ch
	w.Radius = w.Cs * 2
	w.Height = w.Ch * 20
	if r.Chance(1, 2) {
		w.Orig = [3]float32{float32(r.Range(-40, 40)) * 0.5, float32(r.Range(-20, 20)) * 0.25, float32(r.Range(-40, 40)) * 0.5}
	}
	minx, miny := 1, 1
	if c.MinNX > 0 {
		minx = c.MinNX
	}
	if c.MinNY > 0 {
		miny = c.MinNY
	}
	w.NX, w.NY = r.Range(minx, c.MaxNX), r.Range(miny, c.MaxNY)
	if c.AllowFar && r.Chance(1, 4) {
		w.X0, w.Y0 = int32(r.Range(-300, 300)), int32(r.Range(-300, 300))
	} else {
		w.X0, w.Y0 = int32(-r.Draw(3)), int32(-r.Draw(3))
	}
	w.NL = 1
	if c.MaxLayers > 1 && r.Chance(1, 3) {
		w.NL = r.Range(2, c.MaxLayers)
	}
	w.TightY = w.NL == 1 && r.Chance(1, 3)
	holes := r.Draw(c.HoleMax + 1)
	maxK := c.MaxK
	if c.Small {
		maxK = 2
	}
	ks := []int{}
	for _, k := range []int{2, 1, 3, 4, 6} {
		if k <= maxK {
			ks = append(ks, k)
		}
	}
	kset := r.Draw(4) // 3: anything, including six neighbours along one edge
	for y := 0; y < w.NY; y++ {
		for x := 0; x < w.NX; x++ {
			for l := 0; l < w.NL; l++ {
				if l > 0 && r.Chance(1, 3) {
					continue
				}
				w.Locs = append(w.Locs, Loc{w.X0 + int32(x), w.Y0 + int32(y), int32(l)})
			}
		}
	}
	if c.Cons {
		w.genCons(r, c)
	}
	id := 0
	for _, loc := range w.Locs {
		nv := r.Range(1, c.MaxVariants)
		for i := 0; i < nv; i++ {
			k := ks[r.Draw(len(ks))]
			switch kset {
			case 1: // coarse
				if k > 3 {
					k = 3
				}
			case 2:
				if k < 2 {
					k = 2
				}
			case 0:
				if k == 1 {
					k = 2
				}
			}
			if c.MaxK >= 6 && r.Chance(1, 80) {
				k = 12 // up to 288 polygons
				r.Probe("dense-tile")
			}
			w.Var[loc] = append(w.Var[loc], w.genVariant(r, c, loc, id, k, holes))
			id++
		}
	}
	for _, vs := range w.Var {
		for _, v := range vs {
			if v.NPolys() > w.MaxP {
				w.MaxP = v.NPolys()
			}
		}
	}
	return w
}

// genCons places off-mesh connections between points that lie well inside
// cells of every resolution: at odd multiples of tile/24, away from all
// lattice lines of k in {1,2,3,4,6} (multiples of 4 voxels, in fact of 8 and 12).
func (w *World) genCons(r *R, c WorldCfg) {
	n := r.Draw(5)
	if c.MaxCons > 0 {
		n = r.Range(c.MinCons, c.MaxCons)
	}
	for i := 0; i < n; i++ {
		a := w.Locs[r.Draw(len(w.Locs))]
		// land in the same or an adjacent location
		var cand []Loc
		for _, l := range w.Locs {
			dx, dy := l.X-a.X, l.Y-a.Y
			if dx >= -1 && dx <= 1 && dy >= -1 && dy <= 1 {
				if l.L != a.L && w.TightY {
					continue
				}
				cand = append(cand, l)
			}
		}
		b := cand[r.Draw(len(cand))]
		pt := func(l Loc) [3]float64 {
			// cells of width 4: centres at 4i+2; keep off the diagonals by +1/-1 offsets
			gx, gz := r.Draw(12), r.Draw(12)
			p := [3]float64{float64(int(l.X)*tileVox + gx*4 + 2), float64(int(l.L)*64 + 2), float64(int(l.Y)*tileVox+gz*4+2) + 0.5}
			if r.Chance(1, 3) { // below or above the ground
				p[1] += float64(r.Range(-10, 10)) / 2
			}
			if r.Chance(1, 12) { // where the next tile begins
				k := 2 * r.Draw(2)
				p[k] = math.Floor(p[k]/tileVox) * tileVox
			}
			return p
		}
		c := Con{A: pt(a), B: pt(b), Rad: []float64{1, 1, 0.5, 1.5, 2, 3}[r.Draw(6)], Bidir: r.Chance(1, 2), Area: uint8(1 + r.Draw(4)), Flags: uint16(1 << uint(r.Draw(4))), UserID: uint32(r.Draw(1<<16))<<16 | uint32(r.Draw(1<<16))}
		w.Cons = append(w.Cons, c)
	}
}

func (w *World) genVariant(r *R, c WorldCfg, loc Loc, id, k, holes int) *Variant {
	v := &Variant{ID: id, Loc: loc, K: k}
	step := tileVox / k
	ox, oz := int(loc.X)*tileVox, int(loc.Y)*tileVox
	base := int(loc.L) * 64
	if !c.Flat {
		base += []int{0, 0, 2, 0, 16}[r.Draw(5)]
	}
	noise := 0
	if !c.Flat {
		noise = r.Draw(3)
	}
	steep := c.Steep && r.Chance(2, 3)
	jitter := k > 1 && step >= 8 && r.Chance(1, 3) // below, triangles could become flat
	jmax := 1
	if step >= 16 {
		jmax = 2
	}
	n1 := k + 1
	lat := make([]I3, n1*n1)
	for j := 0; j < n1; j++ {
		for i := 0; i < n1; i++ {
			p := I3{ox + i*step, base, oz + j*step}
			if noise > 0 {
				p[1] += r.Draw(noise + 1)
			}
			if jitter && i > 0 && i < k && j > 0 && j < k {
				p[0] += r.Range(-jmax, jmax)
				p[2] += r.Range(-jmax, jmax)
			}
			if !c.Flat && i > 0 && i < k && j > 0 && j < k && r.Chance(1, 6) {
				p[1] += r.Draw(5)
			}
			if steep {
				p[1] += []int{0, 0, 16, 32}[r.Draw(4)]
			}
			lat[j*n1+i] = p
		}
	}
	// cells
	present := make([]bool, k*k)
	cnt := 0
	for i := range present {
		present[i] = !(holes > 0 && r.Chance(holes, 16))
		if present[i] {
			cnt++
		}
	}
	if cnt == 0 {
		present[r.Draw(k*k)] = true
	}
	closed := [8]bool{}
	for _, s := range []int{0, 2, 4, 6} {
		closed[s] = r.Chance(1, 12)
	}
	solidRate := []int{0, 0, 1, 3}[r.Draw(4)]
	type shape struct {
		vs   []int // lattice indices
		cell int
	}
	var shapes []shape
	used := make([]bool, k*k)
	mergeRate := 0
	if !jitter {
		mergeRate = r.Draw(4)
	}
	triRate := r.Draw(4)
	if k > 6 && r.Chance(1, 2) {
		triRate = 8 // more polygons than eight bits count
	}
	at := func(i, j int) int { return j*n1 + i }
	for j := 0; j < k; j++ {
		for i := 0; i < k; i++ {
			ci := j*k + i
			if !present[ci] || used[ci] {
				continue
			}
			used[ci] = true
			if mergeRate > 0 && r.Chance(mergeRate, 8) {
				// horizontally; both cells' outer edges must not lie on one open border
				if i+1 < k && present[ci+1] && !used[ci+1] && !(j == 0 && !closed[6]) && !(j == k-1 && !closed[2]) {
					used[ci+1] = true
					shapes = append(shapes, shape{[]int{at(i, j), at(i, j+1), at(i+1, j+1), at(i+2, j+1), at(i+2, j), at(i+1, j)}, ci})
					continue
				}
				if j+1 < k && present[ci+k] && !used[ci+k] && !(i == 0 && !closed[4]) && !(i == k-1 && !closed[0]) {
					used[ci+k] = true
					shapes = append(shapes, shape{[]int{at(i, j), at(i, j+1), at(i, j+2), at(i+1, j+2), at(i+1, j+1), at(i+1, j)}, ci})
					continue
				}
			}
			q := []int{at(i, j), at(i, j+1), at(i+1, j+1), at(i+1, j)}
			if triRate > 0 && r.Chance(triRate, 8) {
				if r.Chance(1, 2) {
					shapes = append(shapes, shape{[]int{q[0], q[1], q[2]}, ci}, shape{[]int{q[0], q[2], q[3]}, ci})
				} else {
					shapes = append(shapes, shape{[]int{q[0], q[1], q[3]}, ci}, shape{[]int{q[1], q[2], q[3]}, ci})
				}
			} else {
				shapes = append(shapes, shape{q, ci})
			}
		}
	}
	if len(shapes) > 1 && r.Chance(2, 3) {
		perm := r.Perm(len(shapes))
		ns := make([]shape, len(shapes))
		for i, p := range perm {
			ns[i] = shapes[p]
		}
		shapes = ns
	}
	vmap := map[int]int{}
	type ek struct{ a, b int }
	edges := map[ek][2]int{}
	nareas := 1 + r.Draw(4)
	flagRich := r.Chance(1, 2)
	for si, s := range shapes {
		rot := r.Draw(len(s.vs))
		var p PolyG
		p.Cell = s.cell
		for q := range s.vs {
			li := s.vs[(q+rot)%len(s.vs)]
			vi, ok := vmap[li]
			if !ok {
				vi = len(v.V)
				vmap[li] = vi
				v.V = append(v.V, lat[li])
			}
			p.V = append(p.V, vi)
			p.Nei = append(p.Nei, eSolid)
		}
		p.Area = uint8(1 + r.Draw(nareas))
		p.Flags = 1
		if flagRich {
			p.Flags = uint16(1 << uint(r.Draw(3)))
			if r.Chance(1, 4) {
				p.Flags |= uint16(1 << uint(r.Draw(5)))
			}
		}
		v.P = append(v.P, p)
		for q := range p.V {
			edges[ek{p.V[q], p.V[(q+1)%len(p.V)]}] = [2]int{si, q}
		}
	}
	for pi := range v.P {
		p := &v.P[pi]
		for q := range p.V {
			a, b := p.V[q], p.V[(q+1)%len(p.V)]
			if o, ok := edges[ek{b, a}]; ok {
				p.Nei[q] = o[0]
				continue
			}
			pa, pb := v.V[a], v.V[b]
			side := -1
			switch {
			case pa[0] == ox+tileVox && pb[0] == ox+tileVox:
				side = 0
			case pa[2] == oz+tileVox && pb[2] == oz+tileVox:
				side = 2
			case pa[0] == ox && pb[0] == ox:
				side = 4
			case pa[2] == oz && pb[2] == oz:
				side = 6
			}
			if side >= 0 && !closed[side] && !(solidRate > 0 && r.Chance(solidRate, 16)) {
				p.Nei[q] = ePortal - side
			}
		}
	}
	v.BV = !c.NoBV && r.Chance(2, 3)
	v.Detail = r.Draw(3)
	if c.AllDetail && v.Detail == 0 {
		v.Detail = 1
	}
	v.UserID = uint32(r.Draw(1<<16))<<16 | uint32(r.Draw(1<<16))
	w.encode(r, v)
	return v
}

// encode turns the integer geometry into creation parameters and tile data.
func (w *World) encode(r *R, v *Variant) {
	ox, oz := int(v.Loc.X)*tileVox, int(v.Loc.Y)*tileVox
	v.YMin, v.YMax = 0, 256
	if w.TightY {
		lo, hi := 1<<30, -1<<30
		for _, p := range v.V {
			if p[1] < lo {
				lo = p[1]
			}
			if p[1] > hi {
				hi = p[1]
			}
		}
		v.YMin, v.YMax = lo-4, hi+8 // room for the bumps of the detail surface
	}
	v.BMin = w.W(float64(ox), float64(v.YMin), float64(oz))
	v.BMax = w.W(float64(ox+tileVox), float64(v.YMax), float64(oz+tileVox))
	const nvp = 6
	p := &detour.NavMeshCreateParams{
		Nvp: nvp, VertCount: int32(len(v.V)), PolyCount: int32(len(v.P)),
		TileX: v.Loc.X, TileY: v.Loc.Y, TileLayer: v.Loc.L, UserID: v.UserID,
		BMin: v.BMin, BMax: v.BMax, Cs: w.Cs, Ch: w.Ch,
		WalkableHeight: w.Height, WalkableRadius: w.Radius, WalkableClimb: w.Climb,
		BuildBvTree: v.BV,
	}
	for _, q := range v.V {
		p.Verts = append(p.Verts, uint16(q[0]-ox), uint16(q[1]-v.YMin), uint16(q[2]-oz))
	}
	for i := range v.P {
		pg := &v.P[i]
		row := make([]uint16, 2*nvp)
		for j := range row {
			row[j] = 0xffff
		}
		for j, vi := range pg.V {
			row[j] = uint16(vi)
			switch n := pg.Nei[j]; {
			case n >= 0:
				row[nvp+j] = uint16(n)
			case n == eSolid:
				row[nvp+j] = 0x8000 | 0xf
			default:
				dir := map[int]uint16{4: 0, 2: 1, 0: 2, 6: 3}[ePortal-n]
				row[nvp+j] = 0x8000 | dir
			}
		}
		p.Polys = append(p.Polys, row...)
		p.PolyAreas = append(p.PolyAreas, pg.Area)
		p.PolyFlags = append(p.PolyFlags, pg.Flags)
	}
	fl := func(q I3) [3]float64 { return [3]float64{float64(q[0]), float64(q[1]), float64(q[2])} }
	var dverts [][3]float64
	for i := range v.P {
		pg := &v.P[i]
		nv := len(pg.V)
		switch v.Detail {
		case 0, 1:
			for j := 2; j < nv; j++ {
				pg.Tris = append(pg.Tris, [3][3]float64{fl(v.V[pg.V[0]]), fl(v.V[pg.V[j-1]]), fl(v.V[pg.V[j]])})
			}
		case 2:
			var cx, cz float64
			cy := 0.0
			for _, vi := range pg.V {
				cx += float64(v.V[vi][0])
				cy += float64(v.V[vi][1])
				cz += float64(v.V[vi][2])
			}
			f := float64(nv)
			c := [3]float64{float64(int(cx / f)), float64(int(cy/f)) + float64(r.Draw(3)), float64(int(cz / f))}
			for j := 0; j < nv; j++ {
				pg.Tris = append(pg.Tris, [3][3]float64{c, fl(v.V[pg.V[j]]), fl(v.V[pg.V[(j+1)%nv]])})
			}
		}
		if v.Detail > 0 {
			vb := len(dverts)
			for _, vi := range pg.V {
				dverts = append(dverts, fl(v.V[vi]))
			}
			tb := len(p.DetailTris) / 4
			nt := 0
			if v.Detail == 2 {
				dverts = append(dverts, pg.Tris[0][0])
				for j := 0; j < nv; j++ {
					p.DetailTris = append(p.DetailTris, uint8(nv), uint8(j), uint8((j+1)%nv), 1<<2)
					nt++
				}
			} else {
				for j := 2; j < nv; j++ {
					p.DetailTris = append(p.DetailTris, 0, uint8(j-1), uint8(j), 1<<2)
					nt++
				}
			}
			p.DetailMeshes = append(p.DetailMeshes, int32(vb), int32(len(dverts)-vb), int32(tb), int32(nt))
		}
	}
	for _, d := range dverts {
		q := w.W(d[0], d[1], d[2])
		p.DetailVerts = append(p.DetailVerts, q[:]...)
	}
	if v.Detail > 0 {
		p.DetailVertsCount = int32(len(dverts))
		p.DetailTriCount = int32(len(p.DetailTris) / 4)
	}
	// All connections of the world are offered to every tile, as a builder does.
	hmin, hmax := 1<<30, -1<<30
	for _, q := range v.V {
		if q[1] < hmin {
			hmin = q[1]
		}
		if q[1] > hmax {
			hmax = q[1]
		}
	}
	for _, d := range dverts {
		if int(d[1]) > hmax {
			hmax = int(d[1])
		}
	}
	for ci, c := range w.Cons {
		a, b := w.W(c.A[0], c.A[1], c.A[2]), w.W(c.B[0], c.B[1], c.B[2])
		p.OffMeshConVerts = append(p.OffMeshConVerts, a[0], a[1], a[2], b[0], b[1], b[2])
		p.OffMeshConRad = append(p.OffMeshConRad, float32(c.Rad)*w.Cs)
		p.OffMeshConFlags = append(p.OffMeshConFlags, c.Flags)
		p.OffMeshConAreas = append(p.OffMeshConAreas, c.Area)
		d := uint8(0)
		if c.Bidir {
			d = 1
		}
		p.OffMeshConDir = append(p.OffMeshConDir, d)
		p.OffMeshConUserID = append(p.OffMeshConUserID, c.UserID)
		inX := c.A[0] >= float64(ox) && c.A[0] < float64(ox+tileVox)
		inZ := c.A[2] >= float64(oz) && c.A[2] < float64(oz+tileVox)
		inY := c.A[1] >= float64(hmin-w.ClimbV) && c.A[1] <= float64(hmax+w.ClimbV)
		if inX && inZ && inY {
			v.Cons = append(v.Cons, ci)
		}
	}
	p.OffMeshConCount = int32(len(w.Cons))
	v.Params = p
	var data []byte
	var err error
	r.Call("CreateNavMeshData", func() { data, err = detour.CreateNavMeshData(p) })
	if err != nil {
		r.Fail("create-failed", "CreateNavMeshData failed for a valid tile: %v", err)
	}
	v.Data = data
}

func sortedLocs(m map[Loc]*Inst) []Loc {
	var l []Loc
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return locLess(l[i], l[j]) })
	return l
}

func locLess(a, b Loc) bool {
	if a.X != b.X {
		return a.X < b.X
	}
	if a.Y != b.Y {
		return a.Y < b.Y
	}
	return a.L < b.L
}
