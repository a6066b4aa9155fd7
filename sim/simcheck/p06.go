package main

import (
	"math"

	"github.com/arl/go-detour/detour"
)

// linkSet renders the connectivity of all loaded tiles independently of slots.
func (s *Stream) linkSet() map[string]int {
	out := map[string]int{}
	for _, loc := range sortedLocs(s.Loaded) {
		in := s.Loaded[loc]
		t := s.Tile(in)
		for pi := range t.Polys {
			for _, a := range s.ActualLinks(in, t, pi) {
				if a.Stale {
					s.r.Fail("dangling-link", "%v#%d is linked to 0x%x, which is not loaded", loc, pi, uint32(a.Ref))
				}
				out[linkName(PID{loc, pi}, a)]++
			}
		}
	}
	return out
}

func linkName(p PID, a ActLink) string {
	b := []byte(p.Loc.String())
	b = append(b, '#')
	b = appendInt(b, p.P)
	b = append(b, '-')
	b = appendInt(b, a.Edge)
	b = append(b, '-', '>')
	b = append(b, a.To.Loc.String()...)
	b = append(b, '#')
	b = appendInt(b, a.To.P)
	b = append(b, ' ')
	b = appendInt(b, a.Side)
	b = append(b, ' ')
	b = appendInt(b, int(a.Lo))
	b = append(b, '.')
	b = appendInt(b, int(a.Hi))
	return string(b)
}

// sameAsFresh compares the connectivity with that of a mesh into which the same
// tiles were loaded directly, in another order.
func (s *Stream) sameAsFresh() {
	f := newStream(s.r, s.w, int(s.M.MaxTiles), int(s.M.Params.MaxPolys))
	locs := sortedLocs(s.Loaded)
	for _, i := range s.r.Perm(len(locs)) {
		f.Add(s.Loaded[locs[i]].V, 0)
	}
	a, b := s.linkSet(), f.linkSet()
	for k, n := range a {
		if b[k] < n {
			s.r.Fail("order-dependent", "connection %s exists after streaming but not in a mesh freshly assembled from the same tiles", smallest(a, b))
		}
	}
	for k, n := range b {
		if a[k] < n {
			s.r.Fail("order-dependent", "connection %s of a mesh freshly assembled from the same tiles is missing after streaming", smallest(b, a))
		}
	}
}

// smallest key that a has more of than b (for stable messages).
func smallest(a, b map[string]int) string {
	best := ""
	for k, n := range a {
		if b[k] < n && (best == "" || k < best) {
			best = k
		}
	}
	return best
}

// linksUsed counts the links of a loaded tile.
func (s *Stream) linksUsed(in *Inst) int {
	n := 0
	t := s.Tile(in)
	for pi := range t.Polys {
		n += len(s.ActualLinks(in, t, pi))
	}
	return n
}

// toggleAround keeps one tile loaded while those around it come and go, and
// watches the space its links take.
func (s *Stream) toggleAround() {
	r := s.r
	locs := sortedLocs(s.Loaded)
	if len(locs) < 2 {
		return
	}
	r.Probe("neighbours-toggled")
	stay := s.Loaded[locs[r.Draw(len(locs))]]
	t := s.Tile(stay)
	most := maxi(s.linksUsed(stay), int(t.Header.MaxLinkCount))
	for n := 40 + r.Draw(120); n > 0; n-- {
		locs := sortedLocs(s.Loaded)
		free := s.FreeLocs()
		if l := locs[r.Draw(len(locs))]; l != stay.V.Loc && (len(free) == 0 || r.Chance(1, 2)) {
			s.Remove(l)
		} else if len(free) > 0 && len(s.Loaded) < int(s.M.MaxTiles) {
			l := free[r.Draw(len(free))]
			vs := s.w.Var[l]
			s.Add(vs[r.Draw(len(vs))], 0)
		}
		most = maxi(most, s.linksUsed(stay))
		if len(t.Links) > 2*most+64 {
			r.Fail("link-growth", "tile %v keeps room for %d links after its neighbours came and went, though it never needed more than %d", stay.V.Loc, len(t.Links), most)
		}
	}
}

func runP06(r *R) {
	c := defaultCfg()
	c.Cons = r.Chance(1, 3)
	c.Steep = r.Chance(1, 4)
	long := r.Chance(1, 10)
	if long {
		c.MaxNX, c.MaxNY = 2, 2
	}
	w := genWorld(r, c)
	if c.Steep {
		r.Probe("steep-world")
	}
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	n := 2 + r.Draw(4*len(w.Locs)+2)
	every := 1 + r.Draw(4)
	if long {
		n = 60 + r.Draw(200)
		every = 10 + r.Draw(40)
		r.Probe("long-churn")
	}
	if r.Chance(1, 2) {
		s.LoadAll()
		s.CheckLinks(true, false)
	}
	for i := 0; i < n; i++ {
		s.Step()
		if i%every == 0 {
			s.CheckLinks(true, false)
			r.State(s.StateKey())
		}
	}
	s.CheckLinks(true, false)
	if r.Chance(1, 2) {
		s.LoadAll()
		s.CheckLinks(true, false)
	}
	if long && r.Chance(1, 2) {
		s.toggleAround()
		s.CheckLinks(true, false)
	}
	s.sameAsFresh()
	r.State(s.StateKey())
}

// ---- P07 -----------------------------------------------------------------------

// walkCon follows an anchored connection with the straight-path search.
func (s *Stream) walkCon(q *detour.NavMeshQuery, ci int, st conState, back bool) {
	r, w := s.r, s.w
	c := w.Cons[ci]
	me := s.Ref(PID{st.Tile, st.Idx})
	from, to := PID{st.Tile, st.Start}, st.End
	a, b := c.A, c.B
	if back {
		from, to = to, from
		a, b = b, a
	}
	if from == to {
		return // the two ways through one polygon cannot be told apart
	}
	inside := func(p PID, not [3]float64) [3]float32 {
		v := s.Loaded[p.Loc].V
		x, z := polyCentre(v, p.P)
		if math.Hypot(x-not[0], z-not[2]) < 0.25 {
			// A path that starts on the connection skips its first corner.
			q := v.V[v.P[p.P].V[0]]
			x, z = x+(float64(q[0])-x)/2, z+(float64(q[2])-z)/2
		}
		y, _ := surfaceAt(v, p.P, x, z)
		return w.W(x, y, z)
	}
	con := s.Tile(s.Loaded[st.Tile]).OffMeshCons[st.Idx-len(s.Loaded[st.Tile].V.P)]
	if poly := s.Tile(s.Loaded[st.Tile]).Polys[st.Idx]; con.UserID != c.UserID || con.Rad != float32(c.Rad)*w.Cs || poly.Area() != c.Area || poly.Flags != c.Flags {
		r.Fail("con-data", "connection %d has user id %d, radius %v, area %d, flags 0x%x instead of %d, %v, %d, 0x%x", ci, con.UserID, con.Rad, poly.Area(), poly.Flags, c.UserID, float32(c.Rad)*w.Cs, c.Area, c.Flags)
	}
	sp, ep := inside(from, a), inside(to, b)
	path := []detour.PolyRef{s.Ref(from), me, s.Ref(to)}
	n, fl, refs, stt := straight(r, q, sp, ep, path, 16, 0)
	if detour.StatusFailed(stt) || uint32(stt)&uint32(detour.PartialResult) != 0 {
		r.Fail("con-walk", "connection %d (%v#%d) is linked but a straight path across it fails: 0x%x", ci, st.Tile, st.Idx, uint32(stt))
	}
	at := func(p [3]float32, v [3]float64, id PID) bool {
		q := w.W(v[0], v[1], v[2])
		e := w.Cs * 0.1
		d := polyDistXZ(s.Loaded[id.Loc].V, id.P, v[0], v[2])
		if d > 0 { // moved onto the polygon
			r.Probe("moved-end-point")
			x := (float64(p[0]) - float64(w.Orig[0])) / float64(w.Cs)
			z := (float64(p[2]) - float64(w.Orig[2])) / float64(w.Cs)
			if math.Hypot(x-v[0], z-v[2]) > d+0.1 || polyDistXZ(s.Loaded[id.Loc].V, id.P, x, z) > 0.1 {
				return false
			}
			e = w.Cs * float32(d+0.1)
		}
		if float32(math.Abs(float64(p[0]-q[0]))) >= e || float32(math.Abs(float64(p[2]-q[2]))) >= e {
			return false
		}
		// on the surface there
		lv := s.Loaded[id.Loc].V
		x := (float64(p[0]) - float64(w.Orig[0])) / float64(w.Cs)
		y := (float64(p[1]) - float64(w.Orig[1])) / float64(w.Ch)
		z := (float64(p[2]) - float64(w.Orig[2])) / float64(w.Cs)
		if h, on := surfaceAt(lv, id.P, x, z); on {
			return math.Abs(y-h) <= 0.25
		}
		return yDist(lv, id.P, y) <= 0.25
	}
	ok := false
	for i := 0; i+1 < len(n); i++ {
		if fl[i] == detour.StraightPathOffMeshConnection && refs[i] == me && at(n[i], a, from) && at(n[i+1], b, to) {
			ok = true
		}
	}
	if !ok {
		r.Fail("con-walk", "a path across connection %d from %v to %v does not go through its end points: %v (flags %v)", ci, w.W(a[0], a[1], a[2]), w.W(b[0], b[1], b[2]), n, fl)
	}
	r.Probe("walked-connection")
	if back {
		r.Probe("walked-backwards")
	}
}

func polyCentre(v *Variant, i int) (x, z float64) {
	p := &v.P[i]
	for _, vi := range p.V {
		x += float64(v.V[vi][0])
		z += float64(v.V[vi][2])
	}
	return x / float64(len(p.V)), z / float64(len(p.V))
}

// straight runs FindStraightPath with room for max points.
func straight(r *R, q *detour.NavMeshQuery, sp, ep [3]float32, path []detour.PolyRef, max int, opt int32) (pts [][3]float32, fl []uint8, refs []detour.PolyRef, st detour.Status) {
	buf := newPoints(max)
	fl = make([]uint8, max)
	refs = make([]detour.PolyRef, max)
	n := 0
	r.Call("FindStraightPath", func() { n, st = q.FindStraightPath(sp[:], ep[:], path, buf, fl, refs, opt) })
	if n < 0 || n > max {
		r.Fail("straight-count", "FindStraightPath with room for %d points reports %d", max, n)
	}
	for i := 0; i < n; i++ {
		pts = append(pts, [3]float32{buf[i][0], buf[i][1], buf[i][2]})
	}
	return pts, fl[:n], refs[:n], st
}

// checkCons verifies anchoring and walkability of every connection.
func (s *Stream) checkCons(q *detour.NavMeshQuery) {
	s.CheckLinks(false, true)
	g := s.w.ExpectedGraph(s.Loaded)
	for ci := range s.w.Cons {
		st, ok := g.ConOK[ci]
		if !ok || st.StartAmb || st.EndAmb || st.Start < 0 {
			if ok {
				s.r.Probe("undecided-connection")
			}
			continue
		}
		if !st.HasEnd {
			s.r.Probe("connection-without-landing")
			continue
		}
		s.r.Probe("connection-anchored")
		if st.End.Loc != st.Tile {
			s.r.Probe("connection-across-tiles")
		}
		s.walkCon(q, ci, st, false)
		if s.w.Cons[ci].Bidir {
			s.walkCon(q, ci, st, true)
		}
	}
}

func newQuery(r *R, m *detour.NavMesh, nodes int32) *detour.NavMeshQuery {
	var st detour.Status
	var q *detour.NavMeshQuery
	r.Call("NewNavMeshQuery", func() { st, q = detour.NewNavMeshQuery(m, nodes) })
	if detour.StatusFailed(st) || q == nil {
		r.Fail("query-init", "NewNavMeshQuery with %d nodes failed: 0x%x", nodes, uint32(st))
	}
	return q
}

func runP07(r *R) {
	c := defaultCfg()
	c.MinCons = 1
	c.MaxCons = 8
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	q := newQuery(r, s.M, 256)
	if r.Chance(1, 2) {
		s.LoadAll()
		s.checkCons(q)
	}
	n := 2 + r.Draw(4*len(w.Locs)+2)
	if r.Chance(1, 12) {
		n += 150
	}
	every := 1 + r.Draw(3)
	if n > 100 {
		every = 20
	}
	for i := 0; i < n; i++ {
		s.Step()
		if i%every == 0 {
			s.checkCons(q)
			r.State(s.StateKey())
		}
	}
	s.checkCons(q)
	if r.Chance(1, 3) {
		data := save(r, s.M)
		m, err := decode(r, drawReader(r, data))
		if err != nil {
			r.Fail("load-refused", "%v", err)
		}
		keep := s.M
		s.M = m
		s.checkCons(newQuery(r, m, 256))
		s.M = keep
		r.Probe("checked-after-load")
	}
}

func init() {
	register(&Prop{ID: "P06", Run: runP06, Quick: 90000, Full: 600000,
		Rule: "A world of tiles with mixed resolutions, heights, holes, layers and closed borders is streamed in and out in drawn orders (one run in ten for hundreds of operations); after drawn steps all link lists are compared with the adjacency computed from the integer geometry of the loaded tiles, and at the end with those of a freshly assembled mesh.",
		Real: commonReal, Stub: commonStub, Assume: []string{"at most three tiles of finer resolution face one border edge, as the link pool is sized for", "border edges that do not cross and are nowhere within climbing height at an end of their overlap, but closer than three times that, are not judged"}})
	register(&Prop{ID: "P07", Run: runP07, Quick: 80000, Full: 600000,
		Rule: "Worlds with up to eight off-mesh connections within and between tiles are streamed; after drawn steps every connection's links are compared with the polygon under its end points (exact geometry), and every anchored one is walked with a straight-path search in its allowed directions; sometimes again after saving and loading.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"short-read"}, Assume: []string{"end points within a tenth of a voxel of a polygon border, or between clear and unclear heights, are not judged"}})
}
