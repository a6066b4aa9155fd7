package main

import (
	"fmt"
	"math"
	"os"

	"github.com/arl/go-detour/detour"
)

// rayWant is what a ray must find. Known is false from where it comes too close
// to a vertex, to the end of a portal or to an edge it runs along.
type rayWant struct {
	Path  []PID
	Known bool
	Hit   bool
	T     float64
	Edge  int
	Slack float64 // of T
}

// walkRay follows a straight line over the links of the loaded tiles.
func (g *MGraph) walkRay(from PID, sp, ep [3]float32, pass func(*detour.Poly) bool) (w rayWant) {
	a, b := f64(sp), f64(ep)
	m := 0.0
	for k := 0; k < 3; k += 2 {
		m = math.Max(m, math.Max(math.Abs(a[k]), math.Abs(b[k])))
	}
	noise := 1e-4*float64(g.s.w.Cs) + 3e-7*m
	margin := 4 * noise
	ux, uz := b[0]-a[0], b[2]-a[2]
	ul := math.Hypot(ux, uz)
	cur := g.Idx[from]
	tin := 0.0
	for step := 0; ; step++ {
		w.Path = append(w.Path, g.IDs[cur])
		if step > len(g.IDs)+2 {
			return
		}
		n := int(g.Poly[cur].VertCount)
		// where does the line leave?
		best, edge := math.Inf(1), -1
		var at [3]float64
		inside := true
		for e := 0; e < n; e++ {
			p, q := g.vert(g.IDs[cur], e), g.vert(g.IDs[cur], (e+1)%n)
			vx, vz := q[0]-p[0], q[2]-p[2]
			vl := math.Hypot(vx, vz)
			// distance of the end on the inner side of this edge
			in := -((b[2]-p[2])*vx - (b[0]-p[0])*vz) / vl
			if in < margin {
				inside = false
			}
			if ul < 1e-9 {
				continue
			}
			d := (ux*vz - uz*vx) // sine times both lengths
			out := -d            // positive when leaving
			if out < 0 {
				continue
			}
			if out < 0.02*ul*vl {
				// nearly along the edge: harmless if the line stays away from it
				lo := math.Inf(1)
				for _, t := range []float64{tin, 1} {
					x := lerp3(a, b, t)
					lo = math.Min(lo, -((x[2]-p[2])*vx-(x[0]-p[0])*vz)/vl)
				}
				if lo < margin {
					// it may still leave elsewhere before that
					t := ((p[0]-a[0])*vz - (p[2]-a[2])*vx) / d
					if d == 0 || t < best+10*margin/ul {
						if d == 0 {
							return
						}
						best, edge = t, -2
					}
				}
				continue
			}
			t := ((p[0]-a[0])*vz - (p[2]-a[2])*vx) / d
			if math.Abs(t-best)*ul < margin && edge >= 0 {
				// edges in line, or a corner
				x := lerp3(a, b, t)
				if (x[0]-p[0])*vx+(x[2]-p[2])*vz < 0 || (x[0]-q[0])*vx+(x[2]-q[2])*vz > 0 {
					continue
				}
				best, edge, at = t, e, x
			} else if t < best {
				best, edge, at = t, e, lerp3(a, b, t)
			}
		}
		if inside {
			w.Known = true
			return
		}
		if ul < 1e-9 || edge == -2 || best > 1-margin/ul {
			return // the end is on the border
		}
		p, q := g.vert(g.IDs[cur], edge), g.vert(g.IDs[cur], (edge+1)%n)
		if dist2(at, p) < margin || dist2(at, q) < margin {
			return
		}
		l := dist2(p, q)
		u := dist2(at, p) / l
		sin := math.Abs(ux*(q[2]-p[2])-uz*(q[0]-p[0])) / (ul * l)
		next := -1
		for _, k := range g.Out[cur] {
			if k.Edge != edge {
				continue
			}
			j := g.Idx[k.To]
			if g.isCon(j) {
				continue
			}
			if k.Side != 0xff {
				lo, hi := float64(k.Lo)/255, float64(k.Hi)/255
				near := margin / l / sin
				if math.Abs(u-lo) < near && k.Lo != 0 || math.Abs(u-hi) < near && k.Hi != 255 {
					return
				}
				if u < lo || u > hi {
					// rounding leaves a gap beside the portal that is none
					continue
				}
				if !pass(g.Poly[j]) {
					continue
				}
				next = j
				continue
			}
			if pass(g.Poly[j]) {
				next = j
			}
		}
		tin = best
		if next < 0 {
			w.Known, w.Hit, w.T, w.Edge = true, true, best, edge
			w.Slack = margin / ul / sin
			return
		}
		cur = next
	}
}

// rayAns is the answer to a ray cast.
type rayAns struct {
	St   uint32
	T    float32
	N    [3]float32
	Edge int
	Path []detour.PolyRef
	Cost float32
}

func cast(r *R, q *detour.NavMeshQuery, ref detour.PolyRef, sp, ep [3]float32, f detour.QueryFilter, opt int, h *detour.RaycastHit, prev detour.PolyRef) (a rayAns) {
	var st detour.Status
	x, y := sp, ep
	r.Call("Raycast", func() { st = q.Raycast(ref, sp[:], ep[:], f, opt, h, prev) })
	if x != sp || y != ep {
		r.Fail("argument-changed", "Raycast changes its end points")
	}
	a.St = uint32(st)
	if a.St&stFail != 0 {
		return
	}
	if h.PathCount < 0 || h.PathCount > h.MaxPath {
		r.Fail("ray-path-count", "Raycast with room for %d polygons reports %d", h.MaxPath, h.PathCount)
	}
	a.T, a.Edge, a.Cost = h.T, h.HitEdgeIndex, h.PathCost
	if len(h.HitNormal) == 3 {
		a.N = [3]float32{h.HitNormal[0], h.HitNormal[1], h.HitNormal[2]}
	}
	a.Path = append(a.Path, h.Path[:h.PathCount]...)
	return
}

func newHit(r *R, max int) *detour.RaycastHit {
	h := &detour.RaycastHit{Path: make([]detour.PolyRef, max), MaxPath: max}
	for i := range h.Path {
		h.Path[i] = 0xdeadbeef
	}
	return h
}

// sameRay compares two answers; m limits the room of the second one.
func (s *Stream) sameRay(class, what string, a, b rayAns, m int) {
	r := s.r
	st, n := a.St, len(a.Path)
	if m < n {
		n = m
		st |= stBuffer
	}
	nan := func(x float32) float32 {
		if x != x {
			return 0
		}
		return x
	}
	if b.St != st || len(b.Path) != n || nan(a.T) != nan(b.T) || a.N != b.N || a.Edge != b.Edge || nan(a.Cost) != nan(b.Cost) {
		r.Fail(class, "%s: status 0x%x, t %v, normal %v, edge %d, cost %v, %d polygons; otherwise 0x%x, %v, %v, %d, %v, %d", what,
			b.St, b.T, b.N, b.Edge, b.Cost, len(b.Path), st, a.T, a.N, a.Edge, a.Cost, n)
	}
	for i := range b.Path {
		if a.Path[i] != b.Path[i] {
			r.Fail(class, "%s: polygon %d is %s, otherwise %s", what, i, s.RefName(b.Path[i]), s.RefName(a.Path[i]))
		}
	}
}

func runP13(r *R) {
	c := defaultCfg()
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	s.Churn(r.Draw(5))
	q := newQuery(r, s.M, 16)
	used := newHit(r, 64) // a record that is used again and again
	if r.Chance(1, 2) {
		used.T, used.PathCost, used.PathCount, used.HitEdgeIndex = 3e38, 1e6, 50, 7
		used.HitNormal = []float32{1, 2, 3}
	}
	rounds := 2 + r.Draw(12)
	var g *MGraph
	for k := 0; k < rounds; k++ {
		switch r.Draw(6) {
		case 4:
			s.Churn(1 + r.Draw(2))
			g = nil
		case 5:
			s.mutateFlags()
		}
		f := drawFilter(r)
		var qf detour.QueryFilter = f
		if r.Chance(1, 2) {
			qf = f.std()
		}
		if r.Chance(1, 8) {
			s.rayBad(q, qf)
			continue
		}
		a, ok := s.randPoly()
		if !ok {
			continue
		}
		b, _ := s.randPoly()
		if g == nil {
			g = s.graph()
		}
		sp, ep := s.pointIn(a), s.pointIn(b)
		switch r.Draw(6) {
		case 0: // any direction
			l := w.Cs * tileVox
			ep = sp
			ep[0] += l * float32(r.Range(-64, 64)) / 32
			ep[2] += l * float32(r.Range(-64, 64)) / 32
		case 1: // far beyond
			ep[0] += (ep[0] - sp[0]) * float32(r.Draw(8))
			ep[2] += (ep[2] - sp[2]) * float32(r.Draw(8))
		}
		if r.Chance(1, 20) {
			ep = sp
		}
		ep[1] += float32(r.Range(-4, 4))
		opt := r.Draw(2) * detour.RaycastUseCosts
		var prev detour.PolyRef
		if r.Chance(1, 4) {
			p, _ := s.randPoly()
			prev = s.Ref(p)
		}
		room := len(g.IDs) + 4
		ans := cast(r, q, s.Ref(a), sp, ep, qf, opt, newHit(r, room), prev)
		r.Logf("ray %v %v -> %v: 0x%x t %v edge %d over %d", a, sp, ep, ans.St, ans.T, ans.Edge, len(ans.Path))
		s.checkRay(g, a, sp, ep, f, ans)
		// the same with a record that was used before, perhaps too small
		m := len(ans.Path) + 1
		if r.Chance(1, 2) {
			m = r.Draw(len(ans.Path) + 2)
		}
		if m < len(ans.Path) {
			r.Fault("small-buffer")
		}
		if m > len(used.Path) {
			used.Path = make([]detour.PolyRef, 2*m)
		}
		used.MaxPath = m
		s.sameRay("reused-record", "with a hit record used before", ans, cast(r, q, s.Ref(a), sp, ep, qf, opt, used, prev), m)
		if r.Chance(1, 4) {
			s.castOther(q, ans, s.Ref(a), sp, ep, qf)
		}
		if opt != 0 && r.Chance(1, 2) {
			s.rayCost(q, ans, s.Ref(a), sp, ep, f, prev)
		}
		r.State(s.StateKey(), a, b, len(ans.Path), ans.Edge)
	}
}

func (s *Stream) checkRay(g *MGraph, from PID, sp, ep [3]float32, f *Filt, a rayAns) {
	r := s.r
	if a.St != stOK {
		r.Fail("ray-status", "a ray from %v: status 0x%x", from, a.St)
	}
	if g.isCon(g.Idx[from]) {
		r.Probe("ray-from-connection")
		return
	}
	// whatever the ray, the polygons must be connected and accepted
	prev := from
	for i, ref := range a.Path {
		id, ok := s.Resolve(ref)
		if !ok {
			r.Fail("ray-stale", "a ray from %v crosses 0x%x, which is not loaded", from, uint32(ref))
		}
		if i == 0 && id != from {
			r.Fail("ray-start", "a ray from %v starts in %v", from, id)
		}
		if i > 0 && !g.linked(prev, id) {
			r.Fail("ray-gap", "a ray from %v goes from %v to %v, which are not connected", from, prev, id)
		}
		if i > 0 && !f.passes(g.Poly[g.Idx[id]]) {
			r.Fail("ray-filtered", "a ray from %v enters %v, which the filter rejects", from, id)
		}
		prev = id
	}
	if len(a.Path) == 0 {
		r.Fail("ray-empty", "a ray from %v visits no polygon", from)
	}
	if a.T < 0 || a.T > 1.0001 && a.T != math.MaxFloat32 || a.T != a.T {
		r.Fail("ray-t", "a ray from %v has t %v", from, a.T)
	}
	w := g.walkRay(from, sp, ep, f.passes)
	if os.Getenv("SIMDBG") != "" {
		for i, id := range w.Path {
			fmt.Println("walk", i, id)
		}
		for _, ref := range a.Path {
			id, _ := s.Resolve(ref)
			fmt.Println("ans", id, g.Out[g.Idx[id]])
			for k := 0; k < int(g.Poly[g.Idx[id]].VertCount); k++ {
				fmt.Println("    ", g.vert(id, k))
			}
		}
		fmt.Printf("%+v\n", w)
	}
	n := len(w.Path)
	if !w.Known {
		n-- // it may have been turned away from the last one
	}
	for i := 0; i < n; i++ {
		if i >= len(a.Path) || a.Path[i] != s.Ref(w.Path[i]) {
			got := "stops"
			if i < len(a.Path) {
				got = "is in " + s.RefName(a.Path[i])
			}
			r.Fail("ray-path", "the ray from %v %v to %v is in %v at step %d, but the answer %s (t %v)", from, sp, ep, w.Path[i], i, got, a.T)
		}
	}
	if !w.Known {
		r.Probe("undecided-ray")
		return
	}
	if len(a.Path) > n {
		r.Fail("ray-too-far", "the ray from %v %v to %v ends in %v, but the answer goes on to %s (t %v)", from, sp, ep, w.Path[n-1], s.RefName(a.Path[n]), a.T)
	}
	if !w.Hit {
		if a.T != math.MaxFloat32 {
			r.Fail("ray-false-hit", "the ray from %v %v to %v is free, but the answer has t %v", from, sp, ep, a.T)
		}
		r.Probe("free-ray")
	} else {
		if a.T == math.MaxFloat32 {
			r.Fail("ray-missed-wall", "the ray from %v %v to %v hits edge %d of %v at %.4f, but the answer has no hit", from, sp, ep, w.Edge, w.Path[n-1], w.T)
		}
		if math.Abs(float64(a.T)-w.T) > w.Slack+1e-5 {
			r.Fail("ray-t", "the ray from %v %v to %v hits edge %d of %v at %.5f, the answer has t %v", from, sp, ep, w.Edge, w.Path[n-1], w.T, a.T)
		}
		if a.Edge != w.Edge {
			r.Fail("ray-edge", "the ray from %v %v to %v hits edge %d of %v, the answer says %d", from, sp, ep, w.Edge, w.Path[n-1], a.Edge)
		}
		k := int(g.Poly[g.Idx[w.Path[n-1]]].VertCount)
		p, q := g.vert(w.Path[n-1], w.Edge), g.vert(w.Path[n-1], (w.Edge+1)%k)
		l := dist2(p, q)
		nx, nz := (q[2]-p[2])/l, -(q[0]-p[0])/l
		if nx*float64(ep[0]-sp[0])+nz*float64(ep[2]-sp[2]) > 0 {
			nx, nz = -nx, -nz
		}
		if math.Abs(nx-float64(a.N[0])) > 1e-3 || math.Abs(nz-float64(a.N[2])) > 1e-3 || a.N[1] != 0 {
			r.Fail("ray-normal", "the ray from %v %v to %v hits edge %d of %v with normal (%.4f, %.4f), the answer has %v", from, sp, ep, w.Edge, w.Path[n-1], nx, nz, a.N)
		}
		r.Probe("wall-hit")
	}
	if n > 2 {
		r.NonTrivial()
		r.Probe("long-ray")
	}
	for i := 1; i < n; i++ {
		if w.Path[i].Loc != w.Path[i-1].Loc {
			r.Probe("ray-across-tiles")
			break
		}
	}
}

// castOther asks through the other entry point and without a path.
func (s *Stream) castOther(q *detour.NavMeshQuery, a rayAns, ref detour.PolyRef, sp, ep [3]float32, f detour.QueryFilter) {
	r := s.r
	m := len(a.Path) + 1
	buf := make([]detour.PolyRef, m)
	nrm := []float32{9, 9, 9}
	var n int
	var t float32
	var st detour.Status
	r.Call("Raycast2", func() { n, t, st = q.Raycast2(ref, sp[:], ep[:], f, nrm, buf, m) })
	if n < 0 || n > m {
		r.Fail("ray-path-count", "Raycast2 with room for %d polygons reports %d", m, n)
	}
	b := rayAns{St: uint32(st), T: t, N: [3]float32{nrm[0], nrm[1], nrm[2]}, Edge: a.Edge, Path: buf[:n], Cost: a.Cost}
	s.sameRay("other-entry", "Raycast2", a, b, m)
}

// rayCost checks that the cost is what the filter reports along the ray.
func (s *Stream) rayCost(q *detour.NavMeshQuery, a rayAns, ref detour.PolyRef, sp, ep [3]float32, f *Filt, prev detour.PolyRef) {
	r := s.r
	f.rec = &costRec{edges: map[recNode][]recEdge{}}
	b := cast(r, q, ref, sp, ep, f, detour.RaycastUseCosts, newHit(r, len(a.Path)+1), prev)
	rec := f.rec
	f.rec = nil
	sum := 0.0
	for _, es := range rec.edges {
		for _, e := range es {
			sum += float64(e.Cost)
		}
	}
	if sum == sum && math.Abs(sum-float64(b.Cost)) > 1e-3*(1+sum) {
		r.Fail("ray-cost", "a ray costs %v, the filter reported %v in all", b.Cost, sum)
	}
	r.Probe("ray-cost")
}

// rayBad casts from something that is not loaded.
func (s *Stream) rayBad(q *detour.NavMeshQuery, f detour.QueryFilter) {
	r := s.r
	ref, why := s.badRef()
	p := s.w.W(1, 1, 1)
	var prev detour.PolyRef
	if id, ok := s.randPoly(); ok {
		p = s.pointIn(id)
		if ref != 0 && r.Chance(1, 3) {
			prev, ref = ref, s.Ref(id)
			why += " previous"
		}
	}
	e := p
	e[0] += 3
	h := newHit(r, 4)
	a := cast(r, q, ref, p, e, f, 0, h, prev)
	if a.St != stFail|stInvalid {
		r.Fail("bad-ref-accepted", "Raycast with a %s reference: status 0x%x", why, a.St)
	}
	if prev == 0 {
		var n int
		var st detour.Status
		r.Call("Raycast2", func() { n, _, st = q.Raycast2(ref, p[:], e[:], f, make([]float32, 3), make([]detour.PolyRef, 4), 4) })
		if uint32(st) != stFail|stInvalid || n != 0 {
			r.Fail("bad-ref-accepted", "Raycast2 with a %s reference: status 0x%x, %d polygons", why, uint32(st), n)
		}
	}
	r.Probe("rejected-" + why)
}

func init() {
	register(&Prop{ID: "P13", Run: runP13, Quick: 100000, Full: 700000,
		Rule: "Rays between and beyond polygons of streamed meshes with flags changing are cast with fresh hit records and again with one record used over and over, with buffers that may be too small, through both entry points; each answer is compared with a walk of the line over the links of the loaded tiles in double precision (polygons, fraction, edge, normal, filter) up to the point where it passes within rounding of a vertex or portal end.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"small-buffer"},
		Assume: []string{"rays start strictly inside their polygon", "a ray that passes within rounding error of a vertex or the end of a portal, or within 0.02 radians along an edge it touches, may go either way from there on"}})
}
