package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/arl/go-detour/detour"
)

// Inst is a loaded tile as the model knows it.
type Inst struct {
	V    *Variant
	Ref  detour.TileRef
	Slot uint32
	Salt uint32
	Data []byte // exactly what was handed to AddTile
	Gone int    // removals of the slot when this one was removed
}

// Stream drives a navigation mesh through additions and removals and keeps the
// reference model of what must be loaded.
type Stream struct {
	r        *R
	w        *World
	M        *detour.NavMesh
	Loaded   map[Loc]*Inst
	Slots    map[uint32]*Inst
	Retired  []*Inst // removed tiles, newest last
	SaltBits uint32
	PolyBits uint32
	TileBits uint32
	// slots whose generation counter was set back by restoring an old reference
	SetBack       map[uint32]bool
	Removes       map[uint32]int // removals per slot since last SetBack
	EmptyFailures bool
}

func ceilLog2(n uint32) uint32 {
	b := uint32(0)
	for uint32(1)<<b < n {
		b++
	}
	return b
}

// newStream initialises an empty mesh for the world.
func newStream(r *R, w *World, maxTiles, maxPolys int) *Stream {
	s := &Stream{r: r, w: w, M: &detour.NavMesh{}, Loaded: map[Loc]*Inst{}, Slots: map[uint32]*Inst{}, SetBack: map[uint32]bool{}, Removes: map[uint32]int{}}
	p := w.MeshParams(maxTiles, maxPolys)
	var st detour.Status
	r.Call("Init", func() { st = s.M.Init(p) })
	if !detour.StatusSucceed(st) || detour.StatusFailed(st) {
		r.Fail("init-failed", "Init refused valid parameters %+v: 0x%x", *p, uint32(st))
	}
	s.TileBits, s.PolyBits = ceilLog2(uint32(maxTiles)), ceilLog2(uint32(maxPolys))
	s.SaltBits = 32 - s.TileBits - s.PolyBits
	if s.SaltBits > 31 {
		s.SaltBits = 31
	}
	return s
}

// MeshParams gives mesh parameters for the world.
func (w *World) MeshParams(maxTiles, maxPolys int) *detour.NavMeshParams {
	return &detour.NavMeshParams{Orig: w.Orig, TileWidth: float32(tileVox) * w.Cs, TileHeight: float32(tileVox) * w.Cs, MaxTiles: uint32(maxTiles), MaxPolys: uint32(maxPolys)}
}

// drawMaxPolys picks a polygon capacity: tight, roomy, or so big that few
// generation bits remain.
func drawMaxPolys(r *R, w *World, maxTiles int) int {
	tb := ceilLog2(uint32(maxTiles))
	switch r.Draw(4) {
	case 1:
		return w.MaxP
	case 2:
		// 8 generation bits: fast wrap-around
		return 1 << (24 - tb)
	}
	return w.MaxP + r.Draw(200)
}

func dup(b []byte) []byte { return append([]byte(nil), b...) }

// Add loads a variant; lastRef may ask for a former reference.
func (s *Stream) Add(v *Variant, lastRef detour.TileRef) *Inst {
	data := dup(v.Data)
	var st detour.Status
	var ref detour.TileRef
	s.r.Call("AddTile", func() { st, ref = s.M.AddTile(data, lastRef) })
	if detour.StatusFailed(st) || !detour.StatusSucceed(st) {
		s.r.Fail("add-refused", "adding tile %v (variant %d, lastRef 0x%x) was refused: 0x%x; location and slot are free", v.Loc, v.ID, lastRef, uint32(st))
	}
	var salt, it, ip uint32
	s.M.DecodePolyID(detour.PolyRef(ref), &salt, &it, &ip)
	in := &Inst{V: v, Ref: ref, Slot: it, Salt: salt, Data: dup(v.Data)}
	s.r.Logf("add %v variant %d last 0x%x -> ref 0x%x", v.Loc, v.ID, lastRef, ref)
	if lastRef != 0 && ref != lastRef {
		s.r.Fail("restore-ref", "tile re-added at reference 0x%x got 0x%x", lastRef, ref)
	}
	if ref == 0 {
		s.r.Fail("zero-ref", "adding tile %v returned reference 0 with success", v.Loc)
	}
	if s.Slots[it] != nil {
		s.r.Fail("slot-reused", "tile %v was given slot %d which holds %v", v.Loc, it, s.Slots[it].V.Loc)
	}
	if int(it) >= int(s.M.MaxTiles) {
		s.r.Fail("slot-range", "tile reference 0x%x decodes to slot %d of %d", ref, it, s.M.MaxTiles)
	}
	if lastRef == 0 && !s.SetBack[it] {
		for _, o := range s.Retired {
			if o.Ref == ref && s.Removes[it]-o.Gone < 1<<s.SaltBits-2 {
				s.r.Fail("ref-reissued", "reference 0x%x of removed tile %v was issued again for %v after only %d removals from its slot (%d generation bits)", ref, o.V.Loc, v.Loc, s.Removes[it]-o.Gone, s.SaltBits)
			}
		}
	}
	s.Loaded[v.Loc] = in
	s.Slots[it] = in
	return in
}

// Remove unloads the tile at loc.
func (s *Stream) Remove(loc Loc) *Inst {
	in := s.Loaded[loc]
	var data []byte
	var st detour.Status
	s.r.Call("RemoveTile", func() { data, st = s.M.RemoveTile(in.Ref) })
	s.r.Logf("remove %v ref 0x%x", loc, in.Ref)
	if detour.StatusFailed(st) || !detour.StatusSucceed(st) {
		s.r.Fail("remove-refused", "removing loaded tile %v (ref 0x%x) was refused: 0x%x", loc, in.Ref, uint32(st))
	}
	if string(data) != string(in.Data) {
		s.r.Fail("removed-data", "removing tile %v handed back different data (%d bytes, %d were added, first difference at %d)", loc, len(data), len(in.Data), firstDiff(data, in.Data))
	}
	delete(s.Loaded, loc)
	delete(s.Slots, in.Slot)
	s.Removes[in.Slot]++
	in.Gone = s.Removes[in.Slot]
	s.Retired = append(s.Retired, in)
	if len(s.Retired) > 4000 {
		s.Retired = s.Retired[1000:]
	}
	s.r.NonTrivial()
	return in
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

// FreeLocs lists the world's locations that are not loaded.
func (s *Stream) FreeLocs() []Loc {
	var l []Loc
	for _, x := range s.w.Locs {
		if s.Loaded[x] == nil {
			l = append(l, x)
		}
	}
	return l
}

// Churn performs n random valid streaming operations.
func (s *Stream) Churn(n int) {
	for i := 0; i < n; i++ {
		s.Step()
	}
}

// Step performs one random valid streaming operation and reports whether it did.
func (s *Stream) Step() bool {
	r := s.r
	free := s.FreeLocs()
	room := len(s.Loaded) < int(s.M.MaxTiles)
	canAdd := len(free) > 0 && room
	canRem := len(s.Loaded) > 0
	switch {
	case canAdd && (!canRem || r.Draw(8) < 5):
		loc := free[r.Draw(len(free))]
		// sometimes bring back a removed tile at its former reference
		if r.Chance(1, 4) {
			if old := s.restorable(loc); old != nil {
				s.restore(old)
				return true
			}
		}
		vs := s.w.Var[loc]
		s.Add(vs[r.Draw(len(vs))], 0)
	case canRem:
		locs := sortedLocs(s.Loaded)
		s.Remove(locs[r.Draw(len(locs))])
	default:
		return false
	}
	return true
}

// restorable finds the newest removed tile of loc whose slot is free.
func (s *Stream) restorable(loc Loc) *Inst {
	for i := len(s.Retired) - 1; i >= 0 && i >= len(s.Retired)-50; i-- {
		o := s.Retired[i]
		if o.V.Loc == loc && s.Slots[o.Slot] == nil {
			return o
		}
	}
	return nil
}

func (s *Stream) restore(o *Inst) {
	s.r.Probe("restored-at-former-reference")
	// The counter goes back: references issued for this slot since then may be
	// issued again, by the design of restoring.
	s.SetBack[o.Slot] = true
	s.Add(o.V, o.Ref)
}

// LoadAll loads a tile at every location in a drawn order.
func (s *Stream) LoadAll() {
	for _, i := range s.r.Perm(len(s.w.Locs)) {
		loc := s.w.Locs[i]
		if s.Loaded[loc] == nil && len(s.Loaded) < int(s.M.MaxTiles) {
			vs := s.w.Var[loc]
			s.Add(vs[s.r.Draw(len(vs))], 0)
		}
	}
}

// Tile returns the loaded tile through the public lookup.
func (s *Stream) Tile(in *Inst) *detour.MeshTile { return s.M.TileByRef(in.Ref) }

// PolyRef of polygon i of a loaded tile.
func (in *Inst) PolyRef(i int) detour.PolyRef { return detour.PolyRef(in.Ref) | detour.PolyRef(i) }

// PID identifies a polygon of a loaded tile in the model.
type PID struct {
	Loc Loc
	P   int
}

// Resolve maps a reference to the model.
func (s *Stream) Resolve(ref detour.PolyRef) (PID, bool) {
	var salt, it, ip uint32
	s.M.DecodePolyID(ref, &salt, &it, &ip)
	in := s.Slots[it]
	if in == nil || in.Salt != salt || int(ip) >= in.V.NPolys() || ref == 0 {
		return PID{}, false
	}
	return PID{in.V.Loc, int(ip)}, true
}

func (s *Stream) Ref(p PID) detour.PolyRef { return s.Loaded[p.Loc].PolyRef(p.P) }

func (s *Stream) RefName(ref detour.PolyRef) string {
	if p, ok := s.Resolve(ref); ok {
		return fmt.Sprintf("%v#%d", p.Loc, p.P)
	}
	return fmt.Sprintf("stale:0x%x", uint32(ref))
}

// ---- expected connectivity -------------------------------------------------------

// Lk is one expected directed link.
type Lk struct {
	To   PID
	Edge int
	Side int // 0xff internal
	// portal limits as exact fractions of the edge, times 255
	Lo, Hi float64
	// exact portal end points in voxels (lower then upper along the border)
	Ambig bool
}

// Graph is the expected connectivity of a set of loaded tiles.
type Graph struct {
	Out   map[PID][]Lk
	ConOK map[int]conState
}

type conState struct {
	Tile           Loc
	Idx            int // polygon index
	Start          int // polygon, -1 none
	StartAmb       bool
	End            PID
	HasEnd, EndAmb bool
}

var sideD = map[int][2]int32{0: {1, 0}, 2: {0, 1}, 4: {-1, 0}, 6: {0, -1}}

// ExpectedGraph computes the connectivity the loaded tiles must have.
func (w *World) ExpectedGraph(loaded map[Loc]*Inst) *Graph {
	g := &Graph{Out: map[PID][]Lk{}, ConOK: map[int]conState{}}
	for _, loc := range sortedLocs(loaded) {
		v := loaded[loc].V
		for pi := range v.P {
			p := &v.P[pi]
			id := PID{loc, pi}
			for e, n := range p.Nei {
				switch {
				case n >= 0:
					g.Out[id] = append(g.Out[id], Lk{To: PID{loc, n}, Edge: e, Side: 0xff})
				case n == eSolid:
				default:
					side := ePortal - n
					d := sideD[side]
					for l := int32(0); l < int32(w.NL); l++ {
						o := loaded[Loc{loc.X + d[0], loc.Y + d[1], l}]
						if o == nil {
							continue
						}
						g.Out[id] = append(g.Out[id], w.borderLinks(v, pi, e, side, o.V)...)
					}
				}
			}
		}
	}
	for _, loc := range sortedLocs(loaded) {
		v := loaded[loc].V
		for n, ci := range v.Cons {
			c := w.Cons[ci]
			st := conState{Tile: loc, Idx: len(v.P) + n, Start: -1}
			p, amb := w.landing(v, c.A, c.Rad)
			st.Start, st.StartAmb = p, amb
			if st.Start < 0 || st.StartAmb {
				// landings of unanchored or undecided connections are not judged,
				// except that an unanchored one must not be entered (checked apart)
				st.EndAmb = true
			}
			me := PID{loc, st.Idx}
			if st.Start >= 0 && !st.StartAmb {
				g.Out[me] = append(g.Out[me], Lk{To: PID{loc, st.Start}, Edge: 0, Side: 0xff})
				g.Out[PID{loc, st.Start}] = append(g.Out[PID{loc, st.Start}], Lk{To: me, Edge: 0xff, Side: 0xff})
				// landing: candidates are all layers of the location of the end point
				lx := int32(math.Floor(c.B[0] / tileVox))
				ly := int32(math.Floor(c.B[2] / tileVox))
				found := 0
				for l := int32(0); l < int32(w.NL); l++ {
					o := loaded[Loc{lx, ly, l}]
					if o == nil {
						continue
					}
					p, amb := w.landing(o.V, c.B, c.Rad)
					if amb {
						st.EndAmb = true
					} else if p >= 0 {
						st.End, st.HasEnd = PID{Loc{lx, ly, l}, p}, true
						found++
					}
				}
				if found > 1 {
					st.EndAmb = true
				}
				if st.HasEnd && !st.EndAmb {
					g.Out[me] = append(g.Out[me], Lk{To: st.End, Edge: 1, Side: w.conSide(v, c)})
					if c.Bidir {
						g.Out[st.End] = append(g.Out[st.End], Lk{To: me, Edge: 0xff, Side: -1})
					}
				}
			}
			g.ConOK[ci] = st
		}
	}
	return g
}

func (w *World) conSide(v *Variant, c Con) int {
	dx := int32(math.Floor(c.B[0]/tileVox)) - v.Loc.X
	dy := int32(math.Floor(c.B[2]/tileVox)) - v.Loc.Y
	switch [2]int32{dx, dy} {
	case [2]int32{1, 0}:
		return 0
	case [2]int32{1, 1}:
		return 1
	case [2]int32{0, 1}:
		return 2
	case [2]int32{-1, 1}:
		return 3
	case [2]int32{-1, 0}:
		return 4
	case [2]int32{-1, -1}:
		return 5
	case [2]int32{0, -1}:
		return 6
	case [2]int32{1, -1}:
		return 7
	}
	return 0xff
}

// landing finds the polygon of v under a point, or decides there is none near,
// or says that the case is too close to call.
func (w *World) landing(v *Variant, p [3]float64, rad float64) (int, bool) {
	found := -1
	near, nnear := -1, 0
	sure := true
	for i := range v.P {
		d := polyDistXZ(v, i, p[0], p[2]) // negative inside
		if d > rad*1.5+0.5 {
			// a polygon whose bounds are in reach, though it is not, may be nearer
			if d < rad*1.5+24 && yDist(v, i, p[1]) < float64(w.ClimbV)+4 {
				sure = false
			}
			continue
		}
		h, ok := surfaceAt(v, i, p[0], p[2])
		dy := 0.0
		if ok {
			dy = math.Abs(h - p[1])
		} else {
			dy = yDist(v, i, p[1])
		}
		if d > 0.1 {
			// only near: matters if nothing is under the point
			if yDist(v, i, p[1]) < float64(w.ClimbV)+4 {
				near = i
				nnear++
				if d > rad-0.1 || vertDist(v, i, p[1]) > float64(w.ClimbV)-1 {
					sure = false
				}
			}
			continue
		}
		if d > -0.1 {
			return -1, true
		}
		switch {
		case dy <= float64(w.ClimbV)-0.25:
			// without a tree, polygons are found by their corners
			if found >= 0 || vertDist(v, i, p[1]) > float64(w.ClimbV)-0.25 {
				return -1, true
			}
			found = i
		case dy > float64(w.ClimbV)+4 && yDist(v, i, p[1]) > float64(w.ClimbV)+4:
		default:
			return -1, true
		}
	}
	if found >= 0 {
		return found, false
	}
	if nnear == 1 && sure {
		return near, false // within reach of the only polygon around
	}
	return -1, nnear > 0
}

// vertDist is the vertical distance of a height to the corners of a polygon.
func vertDist(v *Variant, i int, y float64) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, vi := range v.P[i].V {
		y := float64(v.V[vi][1])
		lo, hi = math.Min(lo, y), math.Max(hi, y)
	}
	return math.Max(0, math.Max(lo-y, y-hi))
}

func yDist(v *Variant, i int, y float64) float64 {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, t := range v.P[i].Tris {
		for _, q := range t {
			lo, hi = math.Min(lo, q[1]), math.Max(hi, q[1])
		}
	}
	for _, vi := range v.P[i].V {
		y := float64(v.V[vi][1])
		lo, hi = math.Min(lo, y), math.Max(hi, y)
	}
	if y < lo {
		return lo - y
	}
	if y > hi {
		return y - hi
	}
	return 0
}

// polyDistXZ is the signed distance (voxels) from a point to a convex polygon
// seen from above; negative inside.
func polyDistXZ(v *Variant, i int, x, z float64) float64 {
	p := &v.P[i]
	n := len(p.V)
	in := true
	best := math.Inf(1)
	for j := 0; j < n; j++ {
		a, b := v.V[p.V[j]], v.V[p.V[(j+1)%n]]
		ax, az, bx, bz := float64(a[0]), float64(a[2]), float64(b[0]), float64(b[2])
		// clockwise seen with x right, z up: inside is to the right
		cr := (bx-ax)*(z-az) - (bz-az)*(x-ax)
		if cr > 0 {
			in = false
		}
		best = math.Min(best, segDist(ax, az, bx, bz, x, z))
	}
	if in {
		return -best
	}
	return best
}

func segDist(ax, az, bx, bz, x, z float64) float64 {
	dx, dz := bx-ax, bz-az
	t := 0.0
	if l := dx*dx + dz*dz; l > 0 {
		t = ((x-ax)*dx + (z-az)*dz) / l
	}
	t = math.Max(0, math.Min(1, t))
	return math.Hypot(x-ax-t*dx, z-az-t*dz)
}

// surfaceAt is the height (voxels) of polygon i's detail surface at (x,z).
func surfaceAt(v *Variant, i int, x, z float64) (float64, bool) {
	for _, t := range v.P[i].Tris {
		a, b, c := t[0], t[1], t[2]
		d := (b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])
		if d == 0 {
			continue
		}
		u := ((x-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(z-a[2])) / d
		w := ((b[0]-a[0])*(z-a[2]) - (x-a[0])*(b[2]-a[2])) / d
		if u >= -1e-9 && w >= -1e-9 && u+w <= 1+1e-9 {
			return a[1] + u*(b[1]-a[1]) + w*(c[1]-a[1]), true
		}
	}
	return 0, false
}

// borderLinks computes the links of one border edge into a facing tile.
func (w *World) borderLinks(v *Variant, pi, e, side int, o *Variant) []Lk {
	p := &v.P[pi]
	a, b := v.V[p.V[e]], v.V[p.V[(e+1)%len(p.V)]]
	ax := 0 // axis along the border
	if side == 0 || side == 4 {
		ax = 2
	}
	a0, a1 := a, b
	if a0[ax] > a1[ax] {
		a0, a1 = a1, a0
	}
	opp := (side + 4) % 8
	var out []Lk
	for qi := range o.P {
		q := &o.P[qi]
		for f, n := range q.Nei {
			if n != ePortal-opp {
				continue
			}
			c, d := o.V[q.V[f]], o.V[q.V[(f+1)%len(q.V)]]
			if c[ax] > d[ax] {
				c, d = d, c
			}
			lo, hi := maxi(a0[ax], c[ax]), mini(a1[ax], d[ax])
			if lo >= hi {
				continue
			}
			ha := func(t int) float64 { return lerpY(a0, a1, ax, t) }
			hc := func(t int) float64 { return lerpY(c, d, ax, t) }
			d0, d1 := hc(lo)-ha(lo), hc(hi)-ha(hi)
			mn := math.Min(math.Abs(d0), math.Abs(d1))
			// Edges connect where they cross or come within climbing height at an
			// end of their overlap; just beyond that is not judged.
			ambig := false
			if d0*d1 >= 0 && mn > float64(w.ClimbV)+1e-9 {
				if mn >= 3*float64(w.ClimbV)-1e-9 {
					continue
				}
				ambig = true
			}
			l := float64(b[ax] - a[ax])
			t0, t1 := float64(lo-a[ax])/l, float64(hi-a[ax])/l
			if t0 > t1 {
				t0, t1 = t1, t0
			}
			out = append(out, Lk{To: PID{o.Loc, qi}, Edge: e, Side: side, Lo: t0 * 255, Hi: t1 * 255, Ambig: ambig})
		}
	}
	return out
}

func lerpY(a, b I3, ax, t int) float64 {
	return float64(a[1]) + float64(b[1]-a[1])*float64(t-a[ax])/float64(b[ax]-a[ax])
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ActLink is a link as found in the mesh.
type ActLink struct {
	To     PID
	Ref    detour.PolyRef
	Stale  bool
	Edge   int
	Side   int
	Lo, Hi uint8
}

const nullLink = 0xffffffff

// ActualLinks reads the links of a loaded polygon from the mesh.
func (s *Stream) ActualLinks(in *Inst, t *detour.MeshTile, pi int) []ActLink {
	var out []ActLink
	n := 0
	for j := t.Polys[pi].FirstLink; j != nullLink; j = t.Links[j].Next {
		if int(j) >= len(t.Links) {
			s.r.Fail("link-corrupt", "%v#%d: link index %d outside the pool of %d", in.V.Loc, pi, j, len(t.Links))
		}
		n++
		if n > len(t.Links) {
			s.r.Fail("link-cycle", "%v#%d: the link list has a cycle", in.V.Loc, pi)
		}
		l := t.Links[j]
		p, ok := s.Resolve(l.Ref)
		out = append(out, ActLink{To: p, Ref: l.Ref, Stale: !ok, Edge: int(l.Edge), Side: int(l.Side), Lo: l.BMin, Hi: l.BMax})
	}
	return out
}

func pidLess(a, b PID) bool {
	if a.Loc != b.Loc {
		return locLess(a.Loc, b.Loc)
	}
	return a.P < b.P
}

// isCon tells whether a polygon is an off-mesh connection.
func (s *Stream) isCon(p PID) bool {
	in := s.Loaded[p.Loc]
	return in != nil && p.P >= len(in.V.P)
}

// CheckLinks compares the mesh's connectivity with the expected one. what
// selects ground links, off-mesh links or both.
func (s *Stream) CheckLinks(ground, offmesh bool) {
	s.debugCons()
	g := s.w.ExpectedGraph(s.Loaded)
	type key struct {
		to   PID
		edge int
	}
	undecided := map[PID]bool{}
	for _, st := range g.ConOK {
		if st.StartAmb || st.EndAmb {
			undecided[PID{st.Tile, st.Idx}] = true
		}
	}
	for _, loc := range sortedLocs(s.Loaded) {
		in := s.Loaded[loc]
		t := s.Tile(in)
		if t == nil {
			s.r.Fail("lookup", "loaded tile %v not found by its reference 0x%x", loc, in.Ref)
		}
		if len(t.Polys) != in.V.NPolys() {
			s.r.Fail("poly-count", "tile %v has %d polygons instead of %d", loc, len(t.Polys), in.V.NPolys())
		}
		for pi := 0; pi < in.V.NPolys(); pi++ {
			id := PID{loc, pi}
			exp := map[key]Lk{}
			want := map[key]int{} // a connection within one polygon enters it twice
			for _, l := range g.Out[id] {
				exp[key{l.To, l.Edge}] = l
				want[key{l.To, l.Edge}]++
			}
			seen := map[key]int{}
			for _, a := range s.ActualLinks(in, t, pi) {
				con := s.isCon(id) || (!a.Stale && s.isCon(a.To)) || a.Edge == 0xff
				if con && !offmesh || !con && !ground {
					continue
				}
				if a.Stale {
					s.r.Fail("dangling-link", "%v#%d is linked to 0x%x, which is not loaded", loc, pi, uint32(a.Ref))
				}
				if con && (undecided[id] || undecided[a.To]) {
					continue
				}
				k := key{a.To, a.Edge}
				e, ok := exp[k]
				if !ok {
					s.r.Fail("extra-link", "%v#%d is connected over edge %d to %v#%d, which it does not adjoin", loc, pi, a.Edge, a.To.Loc, a.To.P)
				}
				if seen[k] >= want[k] {
					s.r.Fail("duplicate-link", "%v#%d is connected twice over edge %d to %v#%d", loc, pi, a.Edge, a.To.Loc, a.To.P)
				}
				seen[k]++
				if want[k] == 1 && (e.Side == 0xff && a.Side != 0xff && !con || e.Side >= 0 && e.Side != 0xff && a.Side != e.Side) {
					s.r.Fail("link-side", "%v#%d edge %d to %v#%d is on side %d instead of %d", loc, pi, a.Edge, a.To.Loc, a.To.P, a.Side, e.Side)
				}
				if !con && e.Side != 0xff {
					if math.Abs(float64(a.Lo)-e.Lo) > 1.01 || math.Abs(float64(a.Hi)-e.Hi) > 1.01 {
						s.r.Fail("portal-span", "%v#%d edge %d to %v#%d spans %d..%d of 255 instead of %.1f..%.1f", loc, pi, a.Edge, a.To.Loc, a.To.P, a.Lo, a.Hi, e.Lo, e.Hi)
					}
				}
			}
			for _, l := range g.Out[id] {
				con := s.isCon(id) || s.isCon(l.To)
				if con && !offmesh || !con && !ground || l.Ambig {
					continue
				}
				if con && (undecided[id] || undecided[l.To]) {
					continue
				}
				if seen[key{l.To, l.Edge}] < want[key{l.To, l.Edge}] {
					if con {
						for _, x := range []PID{id, l.To} {
							lv := s.Loaded[x.Loc].V
							if x.P >= len(lv.P) {
								s.r.Logf("%v#%d: %+v", x.Loc, x.P, s.w.Cons[lv.Cons[x.P-len(lv.P)]])
							} else {
								cs := []I3{}
								for _, vi := range lv.P[x.P].V {
									cs = append(cs, lv.V[vi])
								}
								s.r.Logf("%v#%d: %v %v", x.Loc, x.P, cs, lv.P[x.P].Tris)
							}
						}
					}
					s.r.Fail("missing-link", "%v#%d is not connected over edge %d to %v#%d, which it adjoins", loc, pi, l.Edge, l.To.Loc, l.To.P)
				}
			}
		}
	}
}

// StateKey summarises the loaded set.
func (s *Stream) StateKey() string {
	str := ""
	for _, l := range sortedLocs(s.Loaded) {
		str += fmt.Sprintf("%v:%d@%d;", l, s.Loaded[l].V.ID, s.Loaded[l].Slot)
	}
	return str
}

func sortRefs(l []detour.PolyRef) {
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
}
