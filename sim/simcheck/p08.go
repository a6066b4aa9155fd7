package main

import (
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// ---- filters ---------------------------------------------------------------------

// Filt is a query filter that can record what it is asked.
type Filt struct {
	Inc, Exc uint16
	Area     [64]float32
	Std      *detour.StandardQueryFilter
	acc      map[detour.PolyRef]bool // polygons accepted, when recording
	rec      *costRec
	Calls    int
	hook     func() // runs inside every filter call
}

type costRec struct {
	edges map[recNode][]recEdge
}
type recNode struct {
	Ref detour.PolyRef
	Pos [3]float32
}
type recEdge struct {
	To   recNode
	Cost float32
}

func (f *Filt) PassFilter(ref detour.PolyRef, tile *detour.MeshTile, poly *detour.Poly) bool {
	f.Calls++
	if f.hook != nil {
		f.hook()
	}
	ok := f.passes(poly)
	if ok && f.acc != nil {
		f.acc[ref] = true
	}
	return ok
}

func (f *Filt) passes(poly *detour.Poly) bool {
	return poly.Flags&f.Inc != 0 && poly.Flags&f.Exc == 0
}

func (f *Filt) cost(a, b []float32, area uint8) float32 {
	dx, dy, dz := b[0]-a[0], b[1]-a[1], b[2]-a[2]
	return float32(math.Sqrt(float64(dx*dx+dy*dy+dz*dz))) * f.Area[area&63]
}

func (f *Filt) Cost(pa, pb d3.Vec3,
	prevRef detour.PolyRef, prevTile *detour.MeshTile, prevPoly *detour.Poly,
	curRef detour.PolyRef, curTile *detour.MeshTile, curPoly *detour.Poly,
	nextRef detour.PolyRef, nextTile *detour.MeshTile, nextPoly *detour.Poly) float32 {
	f.Calls++
	if f.hook != nil {
		f.hook()
	}
	c := f.cost(pa, pb, curPoly.AreaAndType&0x3f)
	if f.rec != nil {
		a := recNode{curRef, [3]float32{pa[0], pa[1], pa[2]}}
		b := recNode{nextRef, [3]float32{pb[0], pb[1], pb[2]}}
		f.rec.edges[a] = append(f.rec.edges[a], recEdge{b, c})
	}
	return c
}

// drawFilter picks flags and area costs (at least 1, so that distance never
// overestimates).
func drawFilter(r *R) *Filt {
	f := &Filt{Inc: 0xffff}
	switch r.Draw(4) {
	case 1:
		f.Exc = 1 << uint(r.Draw(4))
	case 2:
		f.Inc = uint16(r.Range(1, 15))
	case 3:
		f.Inc, f.Exc = uint16(r.Range(1, 15)), 1<<uint(r.Draw(4))
	}
	for i := range f.Area {
		f.Area[i] = 1
	}
	if r.Chance(1, 2) {
		for i := 1; i < 6; i++ {
			f.Area[i] = []float32{1, 1.5, 2, 5, 10}[r.Draw(5)]
		}
	}
	return f
}

// iface returns the filter to hand to the query: this one or the standard one
// set up alike.
func (f *Filt) std() *detour.StandardQueryFilter {
	q := detour.NewStandardQueryFilter()
	q.SetIncludeFlags(f.Inc)
	q.SetExcludeFlags(f.Exc)
	for i, c := range f.Area {
		q.SetAreaCost(int32(i), c)
	}
	return q
}

// ---- graph of the loaded mesh ------------------------------------------------------

// Mesh graph as found in the loaded tiles, read without the code under test.
type MGraph struct {
	s    *Stream
	IDs  []PID
	Idx  map[PID]int
	Poly []*detour.Poly
	Out  [][]ActLink
	mids map[[2]int][][3]float64
}

func (s *Stream) graph() *MGraph {
	g := &MGraph{s: s, Idx: map[PID]int{}}
	tiles := map[Loc]*detour.MeshTile{}
	for _, loc := range sortedLocs(s.Loaded) {
		in := s.Loaded[loc]
		t := &s.M.Tiles[in.Slot]
		tiles[loc] = t
		for p := range t.Polys {
			g.Idx[PID{loc, p}] = len(g.IDs)
			g.IDs = append(g.IDs, PID{loc, p})
			g.Poly = append(g.Poly, &t.Polys[p])
		}
	}
	for i, id := range g.IDs {
		l := s.ActualLinks(s.Loaded[id.Loc], tiles[id.Loc], id.P)
		for _, a := range l {
			if a.Stale {
				s.r.Fail("dangling-link", "%v#%d is linked to 0x%x, which is not loaded", id.Loc, id.P, uint32(a.Ref))
			}
		}
		g.Out = append(g.Out, l)
		_ = i
	}
	return g
}

// reach lists the polygons reachable from start through accepted polygons.
func (g *MGraph) reach(start int, pass func(*detour.Poly) bool) []bool {
	seen := make([]bool, len(g.IDs))
	seen[start] = true
	q := []int{start}
	for len(q) > 0 {
		i := q[0]
		q = q[1:]
		for _, a := range g.Out[i] {
			j := g.Idx[a.To]
			if !seen[j] && pass(g.Poly[j]) {
				seen[j] = true
				q = append(q, j)
			}
		}
	}
	return seen
}

func (g *MGraph) linked(a, b PID) bool {
	for _, l := range g.Out[g.Idx[a]] {
		if l.To == b {
			return true
		}
	}
	return false
}

// vert returns a vertex of a loaded polygon as stored in the tile.
func (g *MGraph) vert(id PID, k int) [3]float64 {
	t := &g.s.M.Tiles[g.s.Loaded[id.Loc].Slot]
	v := t.Verts[3*int(t.Polys[id.P].Verts[k]):]
	return [3]float64{float64(v[0]), float64(v[1]), float64(v[2])}
}

// portal returns the end points of the way from polygon i over one of its links.
func (g *MGraph) portal(i int, l ActLink) (a, b [3]float64, ok bool) {
	id := g.IDs[i]
	if g.isCon(i) {
		v := g.vert(id, l.Edge&1)
		return v, v, l.Edge < 2
	}
	j := g.Idx[l.To]
	if g.isCon(j) {
		// the end of the connection that is anchored to this polygon
		for _, k := range g.Out[j] {
			if k.To == id && k.Edge < 2 {
				v := g.vert(l.To, k.Edge)
				return v, v, true
			}
		}
		return a, b, false
	}
	n := int(g.Poly[i].VertCount)
	v0, v1 := g.vert(id, l.Edge), g.vert(id, (l.Edge+1)%n)
	if l.Side == 0xff {
		return v0, v1, true
	}
	t0, t1 := float64(l.Lo)/255, float64(l.Hi)/255
	for k := 0; k < 3; k++ {
		a[k] = v0[k] + (v1[k]-v0[k])*t0
		b[k] = v0[k] + (v1[k]-v0[k])*t1
	}
	return a, b, true
}

func (g *MGraph) isCon(i int) bool { return g.Poly[i].AreaAndType>>6 == 1 }

func mid(a, b [3]float64) [3]float64 {
	return [3]float64{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, (a[2] + b[2]) / 2}
}

func dist(a, b [3]float64) float64 {
	return math.Sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]))
}

func f64(p [3]float32) [3]float64 {
	return [3]float64{float64(p[0]), float64(p[1]), float64(p[2])}
}

// ---- positions -----------------------------------------------------------------------

// pointIn draws a position inside a loaded polygon.
func (s *Stream) pointIn(id PID) [3]float32 {
	r, w := s.r, s.w
	v := s.Loaded[id.Loc].V
	if id.P >= len(v.P) {
		c := w.Cons[v.Cons[id.P-len(v.P)]]
		p := c.A
		if r.Chance(1, 2) {
			p = c.B
		}
		return w.W(p[0], p[1], p[2])
	}
	p := &v.P[id.P]
	var x, z, sum float64
	for _, vi := range p.V {
		k := float64(1 + r.Draw(16))
		x += k * float64(v.V[vi][0])
		z += k * float64(v.V[vi][2])
		sum += k
	}
	x, z = x/sum, z/sum
	y, _ := surfaceAt(v, id.P, x, z)
	return w.W(x, y, z)
}

// randPoly draws a loaded polygon, now and then a connection.
func (s *Stream) randPoly() (PID, bool) {
	locs := sortedLocs(s.Loaded)
	if len(locs) == 0 {
		return PID{}, false
	}
	loc := locs[s.r.Draw(len(locs))]
	v := s.Loaded[loc].V
	if len(v.Cons) > 0 && s.r.Chance(1, 20) {
		return PID{loc, len(v.P) + s.r.Draw(len(v.Cons))}, true
	}
	if len(v.P) == 0 {
		return PID{}, false
	}
	return PID{loc, s.r.Draw(len(v.P))}, true
}

// badRef draws a reference that is not valid now.
func (s *Stream) badRef() (detour.PolyRef, string) {
	for try := 0; try < 20; try++ {
		var ref detour.PolyRef
		why := ""
		switch s.r.Draw(5) {
		case 0:
			why = "null"
		case 1, 2:
			if len(s.Retired) == 0 {
				continue
			}
			o := s.Retired[s.r.Draw(len(s.Retired))]
			ref, why = o.PolyRef(s.r.Draw(o.V.NPolys())), "stale"
		case 3:
			ref, why = detour.PolyRef(s.r.Draw(1<<30)), "made-up"
		case 4:
			locs := sortedLocs(s.Loaded)
			if len(locs) == 0 {
				continue
			}
			in := s.Loaded[locs[s.r.Draw(len(locs))]]
			n := in.V.NPolys() + s.r.Draw(4)
			if n >= 1<<s.PolyBits {
				continue
			}
			ref, why = in.PolyRef(n), "beyond-last-polygon"
		}
		if _, ok := s.Resolve(ref); !ok {
			return ref, why
		}
	}
	return 0, "null"
}

// mutateFlags changes some polygon flags as an application would.
func (s *Stream) mutateFlags() {
	locs := sortedLocs(s.Loaded)
	if len(locs) == 0 {
		return
	}
	in := s.Loaded[locs[s.r.Draw(len(locs))]]
	t := s.Tile(in)
	if t == nil {
		return
	}
	for i := 0; i < 3; i++ {
		t.Polys[s.r.Draw(len(t.Polys))].Flags = uint16(s.r.Draw(16))
	}
	s.r.Probe("flags-changed")
}

const (
	stPartial  = uint32(detour.PartialResult)
	stNodes    = uint32(detour.OutOfNodes)
	stBuffer   = uint32(detour.BufferTooSmall)
	stInvalid  = uint32(detour.InvalidParam)
	stFail     = uint32(1) << 31
	stOK       = uint32(1) << 30
	stProgress = uint32(1) << 29
)

func findPath(r *R, q *detour.NavMeshQuery, a, b detour.PolyRef, ap, bp [3]float32, f detour.QueryFilter, max int) ([]detour.PolyRef, uint32) {
	buf := make([]detour.PolyRef, max)
	for i := range buf {
		buf[i] = 0xdeadbeef
	}
	var n int
	var st detour.Status
	r.Call("FindPath", func() { n, st = q.FindPath(a, b, ap[:], bp[:], f, buf) })
	if n < 0 || n > max {
		r.Fail("path-count", "FindPath with room for %d polygons reports %d", max, n)
	}
	return buf[:n], uint32(st)
}

// pathArgs is one path query.
type pathArgs struct {
	A, B   PID
	Ap, Bp [3]float32
	F      *Filt
	Nodes  int32
	Big    bool // more nodes than any search can need
}

// checkCorridor verifies what every answer must satisfy, and the reachability
// and partial rules for answers that are not cut short.
func (s *Stream) checkCorridor(g *MGraph, what string, a pathArgs, path []detour.PolyRef, st uint32, max int, exhausted bool) {
	r := s.r
	if st&stFail != 0 || st&stOK == 0 {
		r.Fail("query-failed", "%s from %v to %v with valid references failed: 0x%x", what, a.A, a.B, st)
	}
	if len(path) == 0 {
		r.Fail("empty-path", "%s from %v to %v succeeded with an empty path (0x%x)", what, a.A, a.B, st)
	}
	if path[0] != s.Ref(a.A) {
		r.Fail("wrong-start", "%s from %v starts at %s", what, a.A, s.RefName(path[0]))
	}
	prev := a.A
	for i, ref := range path {
		id, ok := s.Resolve(ref)
		if !ok {
			r.Fail("stale-in-path", "%s: entry %d of the path is 0x%x, which is not a loaded polygon", what, i, uint32(ref))
		}
		if i > 0 {
			if !g.linked(prev, id) {
				r.Fail("gap-in-path", "%s: entry %d of the path is %v, which is not connected to %v before it", what, i, id, prev)
			}
			if !a.F.passes(g.Poly[g.Idx[id]]) {
				r.Fail("filtered-in-path", "%s: entry %d of the path is %v, which the filter rejects", what, i, id)
			}
		}
		prev = id
	}
	if st&stBuffer != 0 {
		if len(path) != max {
			r.Fail("false-buffer-flag", "%s: flagged buffer-too-small although %d of %d entries are used", what, len(path), max)
		}
		return
	}
	goal := path[len(path)-1] == s.Ref(a.B)
	if goal != (st&stPartial == 0) {
		r.Fail("partial-flag", "%s from %v to %v: reaches goal: %v, but status is 0x%x", what, a.A, a.B, goal, st)
	}
	if st&stNodes != 0 {
		r.Probe("out-of-nodes")
		if !exhausted {
			r.Fail("false-nodes-flag", "%s: flagged out-of-nodes although nodes are left", what)
		}
		return
	}
	ai := g.Idx[a.A]
	reach := g.reach(ai, a.F.passes)
	can := reach[g.Idx[a.B]]
	if can && !goal {
		r.Fail("missed-goal", "%s: goal %v is reachable from %v, but the path ends at %v (status 0x%x)", what, a.B, a.A, prev, st)
	}
	if !can {
		r.Probe("unreachable-goal")
		s.checkNearest(g, what, a, reach, prev)
	} else if len(path) > 2 {
		r.Probe("goal-reached")
	}
	r.NonTrivial()
}

// checkNearest verifies that a partial path ends near the goal: where the
// search enters a polygon is measured, so the last polygon's nearest way in
// must not be farther than any other's farthest way in.
func (s *Stream) checkNearest(g *MGraph, what string, a pathArgs, reach []bool, last PID) {
	goal := f64(a.Bp)
	lo := make([]float64, len(g.IDs))
	hi := make([]float64, len(g.IDs))
	for i := range lo {
		lo[i], hi[i] = math.Inf(1), math.Inf(-1)
	}
	for i := range g.IDs {
		if !reach[i] {
			continue
		}
		for _, l := range g.Out[i] {
			j := g.Idx[l.To]
			if !reach[j] || !a.F.passes(g.Poly[j]) {
				continue
			}
			for _, l2 := range g.Out[i] { // the first link to the polygon gives the place
				if l2.To != l.To {
					continue
				}
				p, q, ok := g.portal(i, l2)
				if ok {
					d := dist(mid(p, q), goal)
					lo[j], hi[j] = math.Min(lo[j], d), math.Max(hi[j], d)
				}
			}
		}
	}
	ai := g.Idx[a.A]
	d := dist(f64(a.Ap), goal)
	lo[ai] = math.Min(lo[ai], d*0.999)
	hi[ai] = math.Max(hi[ai], d)
	li := g.Idx[last]
	eps := 0.002*d + 1e-3
	for i := range g.IDs {
		if reach[i] && !math.IsInf(hi[i], -1) && lo[li] > hi[i]*1.0015+eps {
			s.r.Fail("partial-not-nearest", "%s from %v to %v: the partial path ends at %v (at least %.2f from the goal), but %v at %.2f is reachable", what, a.A, a.B, last, lo[li], g.IDs[i], hi[i])
		}
	}
	s.r.Probe("partial-checked")
}

func drawNodes(r *R, total int) (int32, bool) {
	switch r.Draw(8) {
	case 5:
		return int32(r.Range(1, 8)), false
	case 6:
		return int32(r.Range(1, 64)), false
	case 7:
		return int32(r.Range(1, 4+total)), false
	}
	return int32(mini(4*total+8, 65534)), true
}

// noise runs other things on the query object that must not matter later.
func (s *Stream) noise(q *detour.NavMeshQuery, f *Filt) {
	r := s.r
	a, ok1 := s.randPoly()
	b, ok2 := s.randPoly()
	if !ok1 || !ok2 {
		return
	}
	ap, bp := s.pointIn(a), s.pointIn(b)
	switch r.Draw(5) {
	case 0:
		r.Call("IsValidPolyRef", func() { q.IsValidPolyRef(s.Ref(a), f) })
	case 1:
		r.Call("FindNearestPoly", func() { q.FindNearestPoly(ap[:], []float32{3, 3, 3}, f) })
	case 2:
		var h detour.RaycastHit
		h.Path = make([]detour.PolyRef, 8)
		h.MaxPath = 8
		r.Call("Raycast", func() { q.Raycast(s.Ref(a), ap[:], bp[:], f, 0, &h, 0) })
	case 3: // an abandoned sliced search
		r.Call("InitSlicedFindPath", func() {
			q.InitSlicedFindPath(s.Ref(a), s.Ref(b), ap[:], bp[:], f, uint32(r.Draw(2))*2)
		})
		var done int
		for i := r.Draw(4); i > 0; i-- {
			n := r.Draw(5)
			r.Call("UpdateSlicedFindPath", func() { q.UpdateSlicedFindPath(n, &done) })
		}
		r.Probe("abandoned-sliced-search")
	case 4:
		findPath(r, q, s.Ref(a), s.Ref(b), ap, bp, f, 1+r.Draw(6))
	}
}

func runP08(r *R) {
	c := defaultCfg()
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	if r.Chance(2, 3) {
		s.LoadAll()
	} else {
		s.Churn(1 + r.Draw(2*len(w.Locs)))
	}
	total := maxTiles * w.MaxP
	nodes, big := drawNodes(r, total)
	q := newQuery(r, s.M, nodes)
	var g *MGraph
	rounds := 1 + r.Draw(10)
	for k := 0; k < rounds; k++ {
		switch r.Draw(4) {
		case 1:
			s.Churn(1 + r.Draw(3))
			g = nil
		case 2:
			s.mutateFlags()
		}
		f := drawFilter(r)
		var qf detour.QueryFilter = f
		if r.Chance(1, 2) {
			qf = f.std()
		}
		for i := r.Draw(3); i > 0; i-- {
			s.noise(q, f)
		}
		if r.Chance(1, 8) {
			s.checkBadRefs(q, qf)
			continue
		}
		a, ok := s.randPoly()
		if !ok {
			continue
		}
		b, ok := s.randPoly()
		if !ok {
			continue
		}
		if g == nil {
			g = s.graph()
		}
		args := pathArgs{A: a, B: b, Ap: s.pointIn(a), Bp: s.pointIn(b), F: f, Nodes: nodes, Big: big}
		if r.Chance(1, 16) {
			args.Bp = args.Ap
		}
		s.pathQuery(g, q, args, qf)
	}
}

// checkBadRefs asks for paths from or to something that is not loaded.
func (s *Stream) checkBadRefs(q *detour.NavMeshQuery, f detour.QueryFilter) {
	r := s.r
	ref, why := s.badRef()
	other := detour.PolyRef(0)
	p := s.w.W(1, 1, 1)
	if id, ok := s.randPoly(); ok {
		other = s.Ref(id)
		p = s.pointIn(id)
	} else {
		other = ref
	}
	a, b := ref, other
	switch r.Draw(3) {
	case 1:
		a, b = other, ref
	case 2:
		a, b = ref, ref
	}
	path, st := findPath(r, q, a, b, p, p, f, 16)
	r.Logf("bad path 0x%x 0x%x -> 0x%x", uint32(a), uint32(b), st)
	if st&stFail == 0 || st&stInvalid == 0 || len(path) != 0 {
		r.Fail("bad-ref-accepted", "FindPath with a %s reference 0x%x: status 0x%x, %d polygons", why, uint32(ref), st, len(path))
	}
	r.Probe("rejected-" + why)
}

func (s *Stream) pathQuery(g *MGraph, q *detour.NavMeshQuery, a pathArgs, f detour.QueryFilter) {
	r := s.r
	max := 4*len(g.IDs) + 4
	a.F.acc = map[detour.PolyRef]bool{}
	path, st := findPath(r, q, s.Ref(a.A), s.Ref(a.B), a.Ap, a.Bp, f, max)
	acc := a.F.acc
	a.F.acc = nil
	if st&(stFail|stNodes) == 0 && a.A != a.B {
		for ref := range acc {
			if q.NodePool().FindNodes(ref, make([]*detour.Node, 1), 1) == 0 {
				r.Fail("missing-nodes-flag", "FindPath from %v to %v found no node for a polygon it could have gone on to, and says nothing (0x%x, %d of %d nodes)", a.A, a.B, st, q.NodePool().NodeCount(), q.NodePool().MaxNodes())
			}
			r.Probe("node-found")
		}
	}
	r.Logf("path %v -> %v: %d polygons, 0x%x", a.A, a.B, len(path), st)
	full := a.A == a.B || int(q.NodePool().NodeCount()) >= int(q.NodePool().MaxNodes())
	if st&stBuffer != 0 {
		r.Fail("false-buffer-flag", "FindPath: buffer-too-small with room for %d", max)
	}
	s.checkCorridor(g, "FindPath", a, path, st, max, full && !a.Big)
	if r.Chance(1, 3) {
		// the same with a buffer that may be too small
		m := 1 + r.Draw(len(path)+2)
		p2, st2 := findPath(r, q, s.Ref(a.A), s.Ref(a.B), a.Ap, a.Bp, f, m)
		want := st
		n := len(path)
		if m < n {
			n = m
			want |= stBuffer
			r.Fault("small-buffer")
		}
		if st2 != want {
			r.Fail("buffer-status", "FindPath with room for %d of %d polygons: status 0x%x instead of 0x%x", m, len(path), st2, want)
		}
		if len(p2) != n {
			r.Fail("buffer-path", "FindPath with room for %d of %d polygons returns %d", m, len(path), len(p2))
		}
		for i := range p2 {
			if p2[i] != path[i] {
				r.Fail("buffer-path", "FindPath with room for %d of %d polygons differs at entry %d: %s instead of %s", m, len(path), i, s.RefName(p2[i]), s.RefName(path[i]))
			}
		}
	}
	if st&stNodes != 0 {
		r.Fault("out-of-nodes")
	}
	r.State(s.StateKey(), a.A, a.B, len(path), st)
}

// ---- P09 ---------------------------------------------------------------------------

// recorded shortest route from the start to the end of the search.
func (c *costRec) shortest(start recNode) map[recNode]float64 {
	d := map[recNode]float64{start: 0}
	// label-correcting; the graphs are small and costs are not negative
	queue := []recNode{start}
	inq := map[recNode]bool{start: true}
	for len(queue) > 0 {
		x := queue[0]
		queue = queue[1:]
		inq[x] = false
		for _, e := range c.edges[x] {
			n := d[x] + float64(e.Cost)
			if o, ok := d[e.To]; !ok || n < o-1e-12 {
				d[e.To] = n
				if !inq[e.To] {
					inq[e.To] = true
					queue = append(queue, e.To)
				}
			}
		}
	}
	return d
}

// along is the cheapest way of walking a sequence of polygons with the steps on record.
func (c *costRec) along(start recNode, path []detour.PolyRef, end recNode) float64 {
	cur := map[recNode]float64{start: 0}
	for i := 1; i < len(path); i++ {
		nxt := map[recNode]float64{}
		for x, d := range cur {
			for _, e := range c.edges[x] {
				if e.To.Ref != path[i] {
					continue
				}
				if o, ok := nxt[e.To]; !ok || d+float64(e.Cost) < o {
					nxt[e.To] = d + float64(e.Cost)
				}
			}
		}
		cur = nxt
	}
	best := math.Inf(1)
	for x, d := range cur {
		for _, e := range c.edges[x] {
			if e.To == end {
				best = math.Min(best, d+float64(e.Cost))
			}
		}
	}
	return best
}

// worstRoute is the cost of the cheapest route when every polygon on it is
// entered at its least favourable place.
func (g *MGraph) worstRoute(a pathArgs) float64 {
	n := len(g.IDs)
	mids := make([][][3]float64, n)
	for i := range g.IDs {
		for _, l := range g.Out[i] {
			p, q, ok := g.portal(i, l)
			if ok {
				j := g.Idx[l.To]
				mids[j] = append(mids[j], mid(p, q))
			}
		}
	}
	ai, bi := g.Idx[a.A], g.Idx[a.B]
	mids[ai] = append(mids[ai], f64(a.Ap))
	far := func(p, q [][3]float64) float64 {
		m := 0.0
		for _, x := range p {
			for _, y := range q {
				m = math.Max(m, dist(x, y))
			}
		}
		return m
	}
	d := make([]float64, n)
	done := make([]bool, n)
	for i := range d {
		d[i] = math.Inf(1)
	}
	d[ai] = 0
	for {
		k := -1
		for i := range d {
			if !done[i] && !math.IsInf(d[i], 1) && (k < 0 || d[i] < d[k]) {
				k = i
			}
		}
		if k < 0 {
			return math.Inf(1)
		}
		if k == bi {
			break
		}
		done[k] = true
		area := float64(a.F.Area[g.Poly[k].AreaAndType&63])
		for _, l := range g.Out[k] {
			j := g.Idx[l.To]
			if done[j] || !a.F.passes(g.Poly[j]) {
				continue
			}
			from := mids[k]
			if k == ai {
				from = [][3]float64{f64(a.Ap)}
			}
			c := d[k] + far(from, mids[j])*area
			if c < d[j] {
				d[j] = c
			}
		}
	}
	return d[bi] + far(mids[bi], [][3]float64{f64(a.Bp)})*float64(a.F.Area[g.Poly[bi].AreaAndType&63])
}

func runP09(r *R) {
	c := defaultCfg()
	c.HoleMax = 7
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	s.Churn(r.Draw(6))
	nodes := int32(4*maxTiles*w.MaxP + 8)
	q := newQuery(r, s.M, nodes)
	var g *MGraph
	rounds := 1 + r.Draw(8)
	for k := 0; k < rounds; k++ {
		if r.Chance(1, 6) {
			s.Churn(1 + r.Draw(3))
			g = nil
		}
		f := drawFilter(r)
		for i := r.Draw(3); i > 0; i-- {
			s.noise(q, f)
		}
		a, ok := s.randPoly()
		b, ok2 := s.randPoly()
		if !ok || !ok2 || a == b {
			continue
		}
		if g == nil {
			g = s.graph()
		}
		args := pathArgs{A: a, B: b, Ap: s.pointIn(a), Bp: s.pointIn(b), F: f}
		f.rec = &costRec{edges: map[recNode][]recEdge{}}
		max := 4*len(g.IDs) + 4
		path, st := findPath(r, q, s.Ref(a), s.Ref(b), args.Ap, args.Bp, f, max)
		rec := f.rec
		f.rec = nil
		r.Logf("path %v -> %v: %d polygons, 0x%x", a, b, len(path), st)
		if st&(stFail|stNodes) != 0 {
			r.Fail("query-failed", "FindPath from %v to %v: status 0x%x", a, b, st)
		}
		s.asksAgain(q, args, f, path, st, nodes)
		if st&stPartial != 0 || len(path) < 2 {
			continue
		}
		start := recNode{s.Ref(a), args.Ap}
		end := recNode{0, args.Bp}
		got := rec.along(start, path, end)
		if math.IsInf(got, 1) {
			r.Fail("unpriced-path", "FindPath from %v to %v returns a path with steps it never asked the cost of", a, b)
		}
		d, ok := rec.shortest(start)[end]
		if ok && got > d*(1+1.0/500)+1e-3 {
			r.Fail("not-cheapest", "FindPath from %v to %v returns a path costing %.4f, a route over the polygons it looked at costs %.4f", a, b, got, d)
		}
		if o := rec.onwards(g, args); got > o*(1+1.0/500)+1e-3 {
			r.Fail("cheaper-onwards", "FindPath from %v to %v returns a path costing %.4f, going on from where it stopped leads there for %.4f", a, b, got, o)
		}
		u := g.worstRoute(args)
		if got > u*(1+1.0/500)+1e-3 {
			r.Fail("dearer-than-worst", "FindPath from %v to %v returns a path costing %.4f, there is a route costing at most %.4f", a, b, got, u)
		}
		if len(path) > 3 {
			r.Probe("priced-path")
		}
		if u < got*1.3 {
			r.Probe("tight-bound")
		}
		r.NonTrivial()
		r.State(s.StateKey(), a, b, len(path))
	}
}

// asksAgain repeats a query on the used and on a fresh query object.
func (s *Stream) asksAgain(q *detour.NavMeshQuery, a pathArgs, f *Filt, path []detour.PolyRef, st uint32, nodes int32) {
	r := s.r
	if !r.Chance(1, 2) {
		return
	}
	who := "the same query object"
	if r.Chance(1, 2) {
		q = newQuery(r, s.M, nodes)
		who = "a fresh query object"
	}
	p2, st2 := findPath(r, q, s.Ref(a.A), s.Ref(a.B), a.Ap, a.Bp, f, 4*len(path)+64)
	if st2 != st || len(p2) != len(path) {
		r.Fail("different-answer", "asking %s for the path from %v to %v again gives %d polygons (0x%x) instead of %d (0x%x)", who, a.A, a.B, len(p2), st2, len(path), st)
	}
	for i := range p2 {
		if p2[i] != path[i] {
			r.Fail("different-answer", "asking %s for the path from %v to %v again differs at entry %d", who, a.A, a.B, i)
		}
	}
	r.Probe("asked-again")
}

func init() {
	register(&Prop{ID: "P08", Run: runP08, Quick: 150000, Full: 900000,
		Rule: "A world is streamed, polygon flags are changed and one query object with a drawn node budget (from 1 to more than enough) answers drawn path queries between other uses of it (abandoned sliced searches, ray casts, nearest-polygon searches); each answer is compared with breadth-first reachability over the links of the loaded tiles, the connectivity, the filter and the status rules, and repeated with buffers that may be too small.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"small-buffer", "out-of-nodes"},
		Assume: []string{"positions lie inside the polygons given with them", "nearness of a partial path is judged by the places where polygons can be entered, which is what the search measures"}})
	register(&Prop{ID: "P09", Run: runP09, Quick: 150000, Full: 900000,
		Rule: "Streamed worlds, drawn filters with area costs of at least one, drawn queries after drawn other uses of the query object; the filter records every traversal cost the search asks for, and the returned path is compared with the cheapest route over the recorded steps (Bellman-Ford) and with the cheapest route when every polygon is entered at its least favourable place; half of the queries are repeated on the same or a fresh query object.",
		Real: commonReal, Stub: commonStub, Assume: []string{"area costs are at least one, so that straight distance never overestimates"}})
}

// onwards continues the search where it stopped: from every position it looked
// at but did not go on from, over any link the filter accepts, through the
// positions the search fixed for a polygon or, where it fixed none, through the
// middle of the shared edge. It returns the cost of the cheapest such route.
func (c *costRec) onwards(g *MGraph, a pathArgs) float64 {
	s := g.s
	fixed := map[detour.PolyRef][]recNode{}
	seen := map[recNode]bool{}
	expanded := map[recNode]bool{}
	note := func(n recNode) {
		if n.Ref != 0 && !seen[n] {
			seen[n] = true
			fixed[n.Ref] = append(fixed[n.Ref], n)
		}
	}
	for n, es := range c.edges {
		note(n)
		for _, e := range es {
			note(e.To)
			if e.To.Ref != 0 {
				expanded[n] = true
			}
		}
	}
	start, end := recNode{s.Ref(a.A), a.Ap}, recNode{0, a.Bp}
	expanded[start] = true
	// a search does not go back to where it came from
	back := map[recNode]map[detour.PolyRef]bool{}
	came := func(from, to recNode) {
		if back[to] == nil {
			back[to] = map[detour.PolyRef]bool{}
		}
		back[to][from.Ref] = true
	}
	for n, es := range c.edges {
		for _, e := range es {
			came(n, e.To)
		}
	}
	d := map[recNode]float64{start: 0}
	done := map[recNode]bool{}
	goal := s.Ref(a.B)
	for {
		var n recNode
		best := math.Inf(1)
		for x, v := range d {
			if !done[x] && v < best {
				n, best = x, v
			}
		}
		if math.IsInf(best, 1) || n == end {
			return best
		}
		done[n] = true
		relax := func(to recNode, cost float64) {
			if v, ok := d[to]; !ok || best+cost < v {
				d[to] = best + cost
			}
		}
		for _, e := range c.edges[n] {
			relax(e.To, float64(e.Cost))
		}
		if expanded[n] {
			continue
		}
		id, ok := s.Resolve(n.Ref)
		if !ok {
			continue
		}
		i := g.Idx[id]
		area := float64(a.F.Area[g.Poly[i].AreaAndType&63])
		if n.Ref == goal {
			relax(end, dist(f64(n.Pos), f64(a.Bp))*area)
		}
		for _, l := range g.Out[i] {
			if back[n][l.Ref] || !a.F.passes(g.Poly[g.Idx[l.To]]) {
				continue
			}
			if fx := fixed[l.Ref]; len(fx) > 0 {
				for _, to := range fx {
					relax(to, dist(f64(n.Pos), f64(to.Pos))*area)
				}
				continue
			}
			p, q, ok := g.portal(i, l)
			if !ok {
				continue
			}
			m := mid(p, q)
			to := recNode{l.Ref, [3]float32{float32(m[0]), float32(m[1]), float32(m[2])}}
			came(n, to)
			relax(to, dist(f64(n.Pos), f64(to.Pos))*area)
		}
	}
}
