package main

import (
	"math"

	"github.com/arl/go-detour/detour"
)

// corridor is a sequence of connected polygons with the portals between them.
type corridor struct {
	IDs  []PID
	Refs []detour.PolyRef
	Port [][2][3]float64 // Port[i] lies between i and i+1
	Slip []float64       // how far rounding may have moved the ends of Port[i]
}

// corridorOf finds the portals of a sequence of polygons, as far as it is
// connected without ambiguity.
func (g *MGraph) corridorOf(ids []PID) (c corridor, ok bool) {
	for i, id := range ids {
		c.IDs = append(c.IDs, id)
		c.Refs = append(c.Refs, g.s.Ref(id))
		if i == 0 {
			continue
		}
		n := 0
		for _, l := range g.Out[g.Idx[ids[i-1]]] {
			if l.To != id {
				continue
			}
			n++
			a, b, k := g.portal(g.Idx[ids[i-1]], l)
			if !k {
				return c, false
			}
			c.Port = append(c.Port, [2][3]float64{a, b})
			c.Slip = append(c.Slip, 0)
			if f := g.Idx[ids[i-1]]; l.Side != 0xff && (l.Lo != 0 || l.Hi != 255) && !g.isCon(f) && !g.isCon(g.Idx[id]) {
				n := int(g.Poly[f].VertCount)
				c.Slip[len(c.Slip)-1] = dist2(g.vert(ids[i-1], l.Edge), g.vert(ids[i-1], (l.Edge+1)%n)) / 255
			}
		}
		back := 0
		for _, l := range g.Out[g.Idx[id]] {
			if l.To == ids[i-1] {
				back++
			}
		}
		if n != 1 || back > 1 {
			return c, false
		}
	}
	return c, true
}

func dist2(a, b [3]float64) float64 { return math.Hypot(a[0]-b[0], a[2]-b[2]) }

func lerp3(a, b [3]float64, t float64) (p [3]float64) {
	for k := range p {
		p[k] = a[k] + (b[k]-a[k])*t
	}
	return
}

// crossRange is the range of parameters along a-b at which it touches segment
// p-q (seen from above).
func crossRange(a, b, p, q [3]float64, eps float64) (lo, hi float64, ok bool) {
	ux, uz := b[0]-a[0], b[2]-a[2]
	vx, vz := q[0]-p[0], q[2]-p[2]
	d := ux*vz - uz*vx
	ul, vl := math.Hypot(ux, uz), math.Hypot(vx, vz)
	wx, wz := p[0]-a[0], p[2]-a[2]
	if ul < 1e-12 {
		if segDist(p[0], p[2], q[0], q[2], a[0], a[2]) <= eps {
			return 0, 1, true
		}
		return 0, 0, false
	}
	if math.Abs(d) > 1e-9*ul*math.Max(vl, 1e-3) && vl > 1e-9 {
		t := (wx*vz - wz*vx) / d
		s := (wx*uz - wz*ux) / d
		if s < -eps/vl || s > 1+eps/vl || t < -eps/ul || t > 1+eps/ul {
			return 0, 0, false
		}
		return t, t, true
	}
	// parallel, or a portal that is a point
	if math.Abs(wx*uz-wz*ux)/ul > eps {
		return 0, 0, false
	}
	t1 := (wx*ux + wz*uz) / (ul * ul)
	t2 := ((q[0]-a[0])*ux + (q[2]-a[2])*uz) / (ul * ul)
	lo, hi = math.Min(t1, t2), math.Max(t1, t2)
	if hi < -eps/ul || lo > 1+eps/ul {
		return 0, 0, false
	}
	return math.Max(lo, 0), math.Min(hi, 1), true
}

// tautLength is the length of the shortest way from a to b through the portals
// (seen from above): the shortest route over the start, the ends of the portals
// and the goal, stepping only between points that see each other through all
// portals between them.
func tautLength(port [][2][3]float64, a, b [3]float64) float64 {
	type node struct {
		p [3]float64
		k int // portal it lies on
	}
	nodes := []node{{a, -1}}
	for k, p := range port {
		nodes = append(nodes, node{p[0], k}, node{p[1], k})
	}
	nodes = append(nodes, node{b, len(port)})
	d := make([]float64, len(nodes))
	for i := range d {
		d[i] = math.Inf(1)
	}
	d[0] = 0
	for i, n := range nodes {
		if math.IsInf(d[i], 1) {
			continue
		}
		for j := i + 1; j < len(nodes); j++ {
			m := nodes[j]
			l := d[i] + dist2(n.p, m.p)
			if l >= d[j] {
				continue
			}
			t := 0.0
			ok := true
			for k := n.k + 1; k < m.k && ok; k++ {
				lo, hi, hit := crossRange(n.p, m.p, port[k][0], port[k][1], 1e-9)
				if !hit || hi < t-1e-9 {
					ok = false
				}
				t = math.Max(t, lo)
			}
			if ok {
				d[j] = l
			}
		}
	}
	return d[len(nodes)-1]
}

// firstTouch is the smallest parameter t>=t0 along a-b within tol of segment p-q.
func firstTouch(a, b, p, q [3]float64, t0, tol float64) (float64, bool) {
	f := func(t float64) float64 {
		x := lerp3(a, b, t)
		return segDist(p[0], p[2], q[0], q[2], x[0], x[2])
	}
	if f(t0) <= tol {
		return t0, true
	}
	lo, hi := t0, 1.0
	for i := 0; i < 80; i++ {
		m1, m2 := lo+(hi-lo)/3, hi-(hi-lo)/3
		if f(m1) <= f(m2) {
			hi = m2
		} else {
			lo = m1
		}
	}
	m := (lo + hi) / 2
	if f(m) > tol {
		return 0, false
	}
	lo, hi = t0, m
	for i := 0; i < 60; i++ {
		x := (lo + hi) / 2
		if f(x) <= tol {
			hi = x
		} else {
			lo = x
		}
	}
	return hi, true
}

// straightAns is one answer of the straight-path search.
type straightAns struct {
	P    [][3]float32
	Fl   []uint8
	Refs []detour.PolyRef
	St   uint32
}

func askStraight(r *R, q *detour.NavMeshQuery, sp, ep [3]float32, path []detour.PolyRef, max int, opt int32) straightAns {
	keep := append([]detour.PolyRef(nil), path...)
	a, b := sp, ep
	p, fl, refs, st := straight(r, q, sp, ep, path, max, opt)
	for i := range keep {
		if keep[i] != path[i] {
			r.Fail("argument-changed", "FindStraightPath changes entry %d of the corridor", i)
		}
	}
	if a != sp || b != ep {
		r.Fail("argument-changed", "FindStraightPath changes its end points")
	}
	return straightAns{p, fl, refs, uint32(st)}
}

// tolerances for positions of a given magnitude
func posTol(p ...[3]float32) (tol, merge float64) {
	m := 0.0
	for _, q := range p {
		for _, v := range q {
			m = math.Max(m, math.Abs(float64(v)))
		}
	}
	merge = 1.25e-5 * (1 + m)
	return 2e-3 + 4*merge, merge
}

// clampedTo verifies that got is where pos ends up when moved to polygon id.
func (g *MGraph) clampedTo(what string, id PID, pos, got [3]float32, tol float64) {
	r := g.s.r
	n := int(g.Poly[g.Idx[id]].VertCount)
	var ring [][3]float64
	for k := 0; k < n; k++ {
		ring = append(ring, g.vert(id, k))
	}
	p := f64(pos)
	in := true
	best := math.Inf(1)
	for k := range ring {
		a, b := ring[k], ring[(k+1)%n]
		if (b[0]-a[0])*(p[2]-a[2])-(b[2]-a[2])*(p[0]-a[0]) > 0 {
			in = false
		}
		best = math.Min(best, segDist(a[0], a[2], b[0], b[2], p[0], p[2]))
	}
	if in && best > tol {
		if got != pos {
			r.Fail("end-moved", "%s: %v lies in %v but the path has %v", what, pos, id, got)
		}
		return
	}
	q := f64(got)
	on := math.Inf(1)
	var y float64
	for k := range ring {
		a, b := ring[k], ring[(k+1)%n]
		if d := segDist(a[0], a[2], b[0], b[2], q[0], q[2]); d < on {
			on = d
			l := dist2(a, b)
			y = lerp3(a, b, math.Min(1, dist2(a, q)/l))[1]
		}
	}
	if in && got == pos {
		return
	}
	if on > tol || dist2(p, q) > best+tol {
		r.Fail("end-not-clamped", "%s: %v is %.4f outside %v, but the path has %v, %.4f away and %.4f off its boundary", what, pos, best, id, got, dist2(p, q), on)
	}
	if best > tol && math.Abs(y-q[1]) > tol+float64(g.s.w.Ch)*0.05 {
		r.Fail("end-height", "%s: %v is moved to %v of %v, where the border is at height %.4f", what, pos, got, id, y)
	}
	r.Probe("end-clamped")
}

// checkStraight verifies a complete answer for corridor c. partial answers end
// without the end mark.
func (g *MGraph) checkStraight(what string, c corridor, sp, ep [3]float32, a straightAns, partial bool) {
	s := g.s
	r := s.r
	n := len(c.IDs)
	want := stOK
	if partial {
		want |= stPartial
	}
	if a.St != want {
		r.Fail("straight-status", "%s: status 0x%x instead of 0x%x", what, a.St, want)
	}
	if len(a.P) == 0 {
		r.Fail("straight-empty", "%s: no points", what)
	}
	tol, merge := posTol(append(append([][3]float32{}, a.P...), sp, ep)...)
	g.clampedTo(what+": start", c.IDs[0], sp, a.P[0], tol)
	last := len(a.P) - 1
	if last > 0 {
		g.clampedTo(what+": end", c.IDs[n-1], ep, a.P[last], tol)
	}
	// marks
	if a.Fl[0]&detour.StraightPathStart == 0 {
		r.Fail("straight-marks", "%s: the first point is marked %d", what, a.Fl[0])
	}
	if last > 0 && a.Refs[0] != c.Refs[0] {
		// allowed where the path enters the next polygons at once
		ok := false
		for k, p := range c.Port {
			if c.Refs[k+1] == a.Refs[0] && segDist(p[0][0], p[0][2], p[1][0], p[1][2], float64(a.P[0][0]), float64(a.P[0][2])) <= tol {
				ok = true
			}
		}
		if !ok {
			r.Fail("straight-refs", "%s: the first point is given as entering %s", what, s.RefName(a.Refs[0]))
		}
	}
	if !partial && (a.Fl[last]&detour.StraightPathEnd == 0 || a.Refs[last] != 0) {
		r.Fail("straight-marks", "%s: the last point is marked %d, entering %s", what, a.Fl[last], s.RefName(a.Refs[last]))
	}
	if partial && (a.Fl[last]&detour.StraightPathEnd != 0 || a.Refs[last] != c.Refs[n-1]) {
		r.Fail("straight-marks", "%s: the last point of the partial path is marked %d, entering %s", what, a.Fl[last], s.RefName(a.Refs[last]))
	}
	// order and place of the points
	at := 0
	for i := 1; i < len(a.P); i++ {
		if a.Fl[i]&(detour.StraightPathStart) != 0 || i < last && a.Fl[i]&detour.StraightPathEnd != 0 {
			r.Fail("straight-marks", "%s: point %d of %d is marked %d", what, i, len(a.P), a.Fl[i])
		}
		if i == last {
			break
		}
		k := maxi(at, 1)
		for k < n && c.Refs[k] != a.Refs[i] {
			k++
		}
		if k >= n {
			r.Fail("straight-refs", "%s: point %d enters %s, which is not ahead in the corridor", what, i, s.RefName(a.Refs[i]))
		}
		// a polygon may be on the corridor twice
		for ; k < n; k++ {
			if c.Refs[k] == a.Refs[i] && k > 0 {
				p := c.Port[k-1]
				q := f64(a.P[i])
				if segDist(p[0][0], p[0][2], p[1][0], p[1][2], q[0], q[2]) <= tol {
					break
				}
			}
		}
		if k == n {
			r.Fail("straight-place", "%s: point %d %v does not lie where the corridor enters %s", what, i, a.P[i], s.RefName(a.Refs[i]))
		}
		at = k
		con := g.isCon(g.Idx[c.IDs[k]])
		if con != (a.Fl[i]&detour.StraightPathOffMeshConnection != 0) {
			r.Fail("straight-marks", "%s: point %d enters %v but is marked %d", what, i, c.IDs[k], a.Fl[i])
		}
	}
	// connections
	for k := 1; k+1 < n; k++ {
		if !g.isCon(g.Idx[c.IDs[k]]) {
			continue
		}
		from, to := c.Port[k-1][0], c.Port[k][0]
		ok := false
		for i := range a.P {
			if a.Fl[i]&detour.StraightPathOffMeshConnection != 0 && a.Refs[i] == c.Refs[k] && dist2(f64(a.P[i]), from) <= tol+1e-3 && i < last && dist2(f64(a.P[i+1]), to) <= tol {
				ok = true
			}
		}
		if !ok {
			r.Fail("straight-con", "%s: the connection %v is not marked from %v to %v: %v %v; portals %v", what, c.IDs[k], from, to, a.P, a.Fl, c.Port)
		}
		r.Probe("straight-over-connection")
	}
	// inside and taut
	got := 0.0
	for i := 1; i < len(a.P); i++ {
		got += dist2(f64(a.P[i-1]), f64(a.P[i]))
	}
	seg, t := 0, 0.0
	for k, p := range c.Port {
		for {
			if last == 0 {
				if segDist(p[0][0], p[0][2], p[1][0], p[1][2], float64(a.P[0][0]), float64(a.P[0][2])) > tol {
					r.Fail("leaves-corridor", "%s: the single point is not on portal %d", what, k)
				}
				break
			}
			x, ok := firstTouch(f64(a.P[seg]), f64(a.P[seg+1]), p[0], p[1], t, tol+c.Slip[k])
			if ok {
				t = x
				break
			}
			seg, t = seg+1, 0
			if seg >= last {
				r.Fail("leaves-corridor", "%s: the straight path %v does not go through the portal %v-%v from %v to %v", what, a.P, p[0], p[1], c.IDs[k], c.IDs[k+1])
			}
		}
	}
	best := tautLength(c.Port, f64(a.P[0]), f64(a.P[last]))
	// A position within rounding of the line of a corridor edge may fall on
	// either side of it, and turn on the edge's far end.
	ends := [][3]float64{f64(a.P[0]), f64(a.P[last])}
	for _, p := range c.Port {
		if p[0] == p[1] {
			ends = append(ends, p[0]) // of a connection
		}
	}
	nEnds := len(ends)
	for _, p := range c.Port {
		for _, e := range ends[:nEnds] {
			l := dist2(p[0], p[1])
			if l > 0 && math.Abs((p[1][0]-p[0][0])*(e[2]-p[0][2])-(p[1][2]-p[0][2])*(e[0]-p[0][0]))/l <= merge/25 {
				best = math.Inf(1)
			}
		}
		ends = append(ends, p[0], p[1])
	}
	for i, a := range ends {
		for _, b := range ends[:i] {
			if d := dist2(a, b); d > 0 && d <= 2*merge {
				best = math.Inf(1) // merged, and the portal with them
			}
		}
	}
	if math.IsInf(best, 1) {
		r.Probe("straight-length-not-judged")
	}
	if got > best+tol+float64(len(c.Port))*2*merge {
		r.Fail("not-taut", "%s: the straight path over %d portals is %.5f long, %.5f is possible: %v; portals %.3f", what, len(c.Port), got, best, a.P, c.Port)
	}
	if len(a.P) > 2 {
		r.Probe("straight-with-corners")
		r.NonTrivial()
	}
}

// checkCrossings verifies an answer with crossing options against the plain one.
func (g *MGraph) checkCrossings(what string, c corridor, plain, a straightAns, areaOnly bool) {
	r := g.s.r
	if a.St != plain.St {
		r.Fail("crossing-status", "%s: status 0x%x, without crossings 0x%x", what, a.St, plain.St)
	}
	tol, _ := posTol(append(append([][3]float32{}, a.P...), plain.P...)...)
	// The plain corners in order, everything else on the line between them. A
	// corner and a crossing next to it may have become one point, so all ways of
	// seeing the points are followed.
	m := len(plain.P)
	can := make([]bool, m+1) // so many corners are behind
	can[0] = true
	for i := range a.P {
		p := f64(a.P[i])
		nxt := make([]bool, m+1)
		any := false
		corner := false
		for j := range can {
			if !can[j] {
				continue
			}
			if j > 0 && j < m {
				u, v := f64(plain.P[j-1]), f64(plain.P[j])
				if segDist(u[0], u[2], v[0], v[2], p[0], p[2]) <= tol {
					nxt[j], any = true, true
				}
			}
			for k := j; k < m && dist2(f64(plain.P[k]), p) <= tol; k++ {
				nxt[k+1], any = true, true
				corner = true
			}
		}
		if !any {
			r.Fail("crossing-off-line", "%s: point %d %v is not on the line %v: %v", what, i, a.P[i], plain.P, a.P)
		}
		can = nxt
		if corner {
			continue
		}
		r.Probe("crossing-point")
		if areaOnly {
			ok := false
			for k, q := range c.Port {
				if c.Refs[k+1] == a.Refs[i] && g.area(c.IDs[k]) != g.area(c.IDs[k+1]) && segDist(q[0][0], q[0][2], q[1][0], q[1][2], p[0], p[2]) <= tol {
					ok = true
				}
			}
			if !ok {
				r.Fail("crossing-unwanted", "%s: point %d %v is not where the area changes", what, i, a.P[i])
			}
		}
	}
	if !can[m] {
		r.Fail("crossing-lost-corner", "%s: not all corners %v are in %v", what, plain.P, a.P)
	}
	// every portal that is properly crossed
	seg, t := 0, 0.0
	for k, q := range c.Port {
		for seg+1 < len(plain.P) {
			x, ok := firstTouch(f64(plain.P[seg]), f64(plain.P[seg+1]), q[0], q[1], t, tol+c.Slip[k])
			if ok {
				t = x
				break
			}
			seg, t = seg+1, 0
		}
		if seg+1 >= len(plain.P) {
			return
		}
		if areaOnly && g.area(c.IDs[k]) == g.area(c.IDs[k+1]) {
			continue
		}
		u, v := f64(plain.P[seg]), f64(plain.P[seg+1])
		l1, l2 := dist2(u, v), dist2(q[0], q[1])
		if l1 < 20*tol || l2 < 20*tol {
			continue
		}
		sin := math.Abs((v[0]-u[0])*(q[1][2]-q[0][2])-(v[2]-u[2])*(q[1][0]-q[0][0])) / (l1 * l2)
		if sin < 0.05 {
			continue
		}
		lo, _, ok := crossRange(u, v, q[0], q[1], 0)
		if !ok {
			continue
		}
		x := lerp3(u, v, lo)
		if dist2(x, q[0]) < 20*tol || dist2(x, q[1]) < 20*tol || dist2(x, u) < 20*tol || dist2(x, v) < 20*tol {
			continue
		}
		found := false
		for i := range a.P {
			if dist2(f64(a.P[i]), x) <= 10*tol && a.Refs[i] == c.Refs[k+1] {
				yy := q[0][1] + (q[1][1]-q[0][1])*dist2(q[0], x)/l2
				if math.Abs(yy-float64(a.P[i][1])) > 10*tol+0.02*math.Abs(q[1][1]-q[0][1]) {
					r.Fail("crossing-height", "%s: the point %v where the path enters %v is not at height %.4f", what, a.P[i], c.IDs[k+1], yy)
				}
				found = true
			}
		}
		if !found {
			r.Fail("crossing-missing", "%s: no point where the path from %v to %v enters %v at %v: %v", what, plain.P[seg], plain.P[seg+1], c.IDs[k+1], x, a.P)
		}
		r.Probe("crossing-required")
	}
}

func (g *MGraph) area(id PID) uint8 { return g.Poly[g.Idx[id]].AreaAndType & 63 }

// smallBuffer repeats a question with room for m points.
func (s *Stream) smallBuffer(q *detour.NavMeshQuery, sp, ep [3]float32, path []detour.PolyRef, opt int32, full straightAns, m int) {
	r := s.r
	a := askStraight(r, q, sp, ep, path, m, opt)
	n := len(full.P)
	if m > n {
		if a.St != full.St || len(a.P) != n {
			r.Fail("buffer-status", "room for %d of %d points: %d points, status 0x%x instead of 0x%x", m, n, len(a.P), a.St, full.St)
		}
	} else {
		if len(a.P) != m {
			r.Fail("buffer-points", "room for %d of %d points gives %d", m, n, len(a.P))
		}
		if m < n {
			r.Fault("small-buffer")
			if a.St&stOK == 0 || a.St&stBuffer == 0 {
				r.Fail("buffer-status", "room for %d of %d points: status 0x%x", m, n, a.St)
			}
		}
	}
	for i := range a.P {
		if a.P[i] != full.P[i] || i+1 < m && (a.Fl[i] != full.Fl[i] || a.Refs[i] != full.Refs[i]) {
			r.Fail("buffer-points", "room for %d of %d points: point %d is %v %d %s instead of %v %d %s", m, n, i,
				a.P[i], a.Fl[i], s.RefName(a.Refs[i]), full.P[i], full.Fl[i], s.RefName(full.Refs[i]))
		}
	}
}

// drawCorridor finds a corridor between ground polygons.
func (s *Stream) drawCorridor(g *MGraph, q *detour.NavMeshQuery) (c corridor, ok bool) {
	r := s.r
	a, k1 := s.randPoly()
	b, k2 := s.randPoly()
	if !k1 || !k2 || g.isCon(g.Idx[a]) || g.isCon(g.Idx[b]) {
		return c, false
	}
	var ids []PID
	if r.Chance(1, 2) {
		f := drawFilter(r)
		f.Inc, f.Exc = 0xffff, 0
		path, _ := findPath(r, q, s.Ref(a), s.Ref(b), s.pointIn(a), s.pointIn(b), f, 4*len(g.IDs)+4)
		for _, ref := range path {
			id, k := s.Resolve(ref)
			if !k {
				return c, false
			}
			ids = append(ids, id)
		}
		r.Probe("corridor-from-search")
	} else {
		// a walk
		i := g.Idx[a]
		been := map[int]bool{i: true}
		ids = append(ids, a)
		for n := r.Draw(24); n > 0; n-- {
			var cand []int
			for _, l := range g.Out[i] {
				if j := g.Idx[l.To]; !been[j] {
					cand = append(cand, j)
				}
			}
			if len(cand) == 0 {
				break
			}
			i = cand[r.Draw(len(cand))]
			been[i] = true
			ids = append(ids, g.IDs[i])
		}
		r.Probe("corridor-from-walk")
	}
	for len(ids) > 1 && g.isCon(g.Idx[ids[len(ids)-1]]) {
		ids = ids[:len(ids)-1]
	}
	return g.corridorOf(ids)
}

// endNear draws an end point in or around a polygon.
func (s *Stream) endNear(id PID) [3]float32 {
	p := s.pointIn(id)
	switch s.r.Draw(8) {
	case 6:
		d := s.w.Cs * float32(tileVox) / 4
		p[0] += d * float32(s.r.Range(-8, 8)) / 4
		p[2] += d * float32(s.r.Range(-8, 8)) / 4
	case 7:
		p[1] += s.w.Ch * float32(s.r.Range(-3, 3))
	}
	return p
}

func runP12(r *R) {
	c := defaultCfg()
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	s.Churn(r.Draw(5))
	q := newQuery(r, s.M, int32(4*maxTiles*w.MaxP+8))
	rounds := 1 + r.Draw(5)
	for k := 0; k < rounds; k++ {
		g := s.graph()
		c, ok := s.drawCorridor(g, q)
		if !ok {
			continue
		}
		s.straightRound(g, q, c)
		if r.Chance(1, 3) {
			s.Churn(1 + r.Draw(2))
		}
	}
}

func (s *Stream) straightRound(g *MGraph, q *detour.NavMeshQuery, c corridor) {
	r := s.r
	n := len(c.IDs)
	sp, ep := s.endNear(c.IDs[0]), s.endNear(c.IDs[n-1])
	room := 4*n + 8
	full := askStraight(r, q, sp, ep, c.Refs, room, 0)
	r.Logf("straight over %v: %v %v %x 0x%x", c.IDs, full.P, full.Fl, full.Refs, full.St)
	g.checkStraight("straight path", c, sp, ep, full, false)
	opts := []int32{0, int32(detour.StraightPathAreaCrossings), int32(detour.StraightPathAllCrossings)}
	opt := opts[r.Draw(3)]
	ans := full
	if opt != 0 {
		ans = askStraight(r, q, sp, ep, c.Refs, room, opt)
		g.checkStraight("straight path with crossings", c, sp, ep, ans, false)
		g.checkCrossings("straight path with crossings", c, full, ans, opt == opts[1])
	}
	if r.Chance(1, 2) {
		s.smallBuffer(q, sp, ep, c.Refs, opt, ans, 1+r.Draw(len(ans.P)+1))
	}
	if r.Chance(1, 8) {
		s.straightNoMarks(q, sp, ep, c.Refs, opt, ans)
	}
	if r.Chance(1, 10) {
		s.straightBad(q, sp, ep, c.Refs, opt)
	}
	r.State(s.StateKey(), c.IDs[0], c.IDs[n-1], n, len(ans.P), opt)
	if !r.Chance(1, 2) {
		return
	}
	// the mesh changes under a corridor in use
	for i := 1 + r.Draw(2); i > 0; i-- {
		if r.Chance(1, 2) && n > 2 {
			loc := c.IDs[1+r.Draw(n-2)].Loc
			if s.Loaded[loc] != nil {
				s.Remove(loc)
				continue
			}
		}
		s.Step()
	}
	s.straightStale(q, sp, ep, c, opt)
}

// straightStale asks for the straight path along a corridor that may not exist any more.
func (s *Stream) straightStale(q *detour.NavMeshQuery, sp, ep [3]float32, c corridor, opt int32) {
	r := s.r
	n := len(c.Refs)
	room := 4*n + 8
	_, k0 := s.Resolve(c.Refs[0])
	_, kn := s.Resolve(c.Refs[n-1])
	plain := askStraight(r, q, sp, ep, c.Refs, room, 0)
	ans := plain
	if opt != 0 {
		ans = askStraight(r, q, sp, ep, c.Refs, room, opt)
	}
	if !k0 || !kn {
		for _, a := range []straightAns{plain, ans} {
			if a.St != stFail|stInvalid || len(a.P) != 0 {
				r.Fail("stale-end", "the straight path along a corridor whose end polygon is gone has %d points, status 0x%x", len(a.P), a.St)
			}
		}
		r.Fault("corridor-end-removed")
		return
	}
	g := s.graph()
	var ids []PID
	for i, ref := range c.Refs {
		id, ok := s.Resolve(ref)
		if !ok || i > 0 && !g.linked(ids[i-1], id) {
			break
		}
		ids = append(ids, id)
	}
	if g.isCon(g.Idx[ids[len(ids)-1]]) {
		r.Probe("cut-at-connection")
		if plain.St&stOK == 0 || (plain.St&stPartial != 0) != (len(ids) < n) {
			r.Fail("stale-status", "a corridor of %d polygons cut after %d: status 0x%x", n, len(ids), plain.St)
		}
		return
	}
	cut, ok := g.corridorOf(ids)
	if !ok {
		return
	}
	partial := len(ids) < n
	if partial {
		r.Fault("corridor-cut")
		if len(ids) > 2 {
			r.Probe("corridor-cut-late")
		}
	}
	what := "straight path along an outdated corridor"
	g.checkStraight(what, cut, sp, ep, plain, partial)
	if opt != 0 {
		g.checkStraight(what, cut, sp, ep, ans, partial)
		g.checkCrossings(what, cut, plain, ans, opt == int32(detour.StraightPathAreaCrossings))
	}
	s.smallBuffer(q, sp, ep, c.Refs, opt, ans, 1+r.Draw(len(ans.P)+1))
}

// straightNoMarks leaves out the optional results.
func (s *Stream) straightNoMarks(q *detour.NavMeshQuery, sp, ep [3]float32, path []detour.PolyRef, opt int32, full straightAns) {
	r := s.r
	buf := newPoints(len(full.P) + 1)
	var n int
	var st detour.Status
	var fl []uint8
	var refs []detour.PolyRef
	if r.Chance(1, 2) {
		fl = make([]uint8, len(buf))
	} else if r.Chance(1, 2) {
		refs = make([]detour.PolyRef, len(buf))
	}
	r.Call("FindStraightPath", func() { n, st = q.FindStraightPath(sp[:], ep[:], path, buf, fl, refs, opt) })
	if n != len(full.P) || uint32(st) != full.St {
		r.Fail("optional-results", "without marks or references: %d points (0x%x) instead of %d (0x%x)", n, uint32(st), len(full.P), full.St)
	}
	for i := 0; i < n; i++ {
		if [3]float32{buf[i][0], buf[i][1], buf[i][2]} != full.P[i] || fl != nil && fl[i] != full.Fl[i] || refs != nil && refs[i] != full.Refs[i] {
			r.Fail("optional-results", "without marks or references point %d differs", i)
		}
	}
}

// straightBad asks with something missing.
func (s *Stream) straightBad(q *detour.NavMeshQuery, sp, ep [3]float32, path []detour.PolyRef, opt int32) {
	r := s.r
	bad, why := s.badRef()
	p := append([]detour.PolyRef(nil), path...)
	room := 8
	switch r.Draw(4) {
	case 0:
		p[0] = bad
	case 1:
		p[len(p)-1] = bad
	case 2:
		p = nil
		why = "no corridor"
	case 3:
		room = 0
		why = "no room"
	}
	a := askStraight(r, q, sp, ep, p, room, opt)
	if a.St != stFail|stInvalid || len(a.P) != 0 {
		r.Fail("bad-args-accepted", "straight path with %s: %d points, status 0x%x", why, len(a.P), a.St)
	}
	r.Probe("rejected-arguments")
}

func init() {
	register(&Prop{ID: "P12", Run: runP12, Quick: 80000, Full: 600000,
		Rule: "Corridors found by path searches and by drawn walks over the links of streamed meshes, with end points in and around the end polygons, are pulled straight with all options and with drawn buffer sizes, then tiles are removed or replaced and the same corridors used again; each answer is compared with the shortest route over the portal ends that see each other through the portals between them (dynamic programme in double precision), with the portals in order, with the end polygons and with the marks expected.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"small-buffer", "corridor-cut", "corridor-end-removed"},
		Assume: []string{"corridors start and end on ground polygons", "points closer than the code's point-merging tolerance are not told apart", "paths whose start or end lies within rounding of the line of a corridor edge, or with corridor points that the code merges, are not compared with the shortest length"}})
}
