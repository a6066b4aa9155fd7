package main

import (
	"bytes"
	"math"
	"os"
	"path/filepath"

	"github.com/arl/go-detour/detour"
	"github.com/arl/gogeo/f32/d3"
)

// ---- an independent measure of nearness -----------------------------------------

// view is a set of loaded tiles to search by brute force.
type view struct {
	tiles []*detour.MeshTile
	refs  []detour.TileRef
	m     float64 // magnitude of the coordinates
}

func (s *Stream) view() *view {
	v := &view{}
	for _, loc := range sortedLocs(s.Loaded) {
		in := s.Loaded[loc]
		v.add(&s.M.Tiles[in.Slot], in.Ref)
	}
	return v
}

func (v *view) add(t *detour.MeshTile, ref detour.TileRef) {
	v.tiles = append(v.tiles, t)
	v.refs = append(v.refs, ref)
	for k := 0; k < 3; k++ {
		v.m = math.Max(v.m, math.Max(math.Abs(float64(t.Header.BMin[k])), math.Abs(float64(t.Header.BMax[k]))))
	}
}

func (v *view) of(ref detour.PolyRef) (ti, pi int, ok bool) {
	for i, t := range v.tiles {
		d := int64(ref) - int64(v.refs[i])
		if d >= 0 && d < int64(len(t.Polys)) {
			return i, int(d), true
		}
	}
	return 0, 0, false
}

func vec(l []float32, i int) [3]float64 {
	return [3]float64{float64(l[3*i]), float64(l[3*i+1]), float64(l[3*i+2])}
}

// ring returns the corners of a polygon.
func ring(t *detour.MeshTile, pi int) [][3]float64 {
	p := &t.Polys[pi]
	var out [][3]float64
	for k := 0; k < int(p.VertCount); k++ {
		out = append(out, vec(t.Verts, int(p.Verts[k])))
	}
	return out
}

// detail returns the detail triangles of a polygon.
func detail(t *detour.MeshTile, pi int) [][3][3]float64 {
	p := &t.Polys[pi]
	d := &t.DetailMeshes[pi]
	var out [][3][3]float64
	for k := 0; k < int(d.TriCount); k++ {
		var tri [3][3]float64
		for j := 0; j < 3; j++ {
			x := int(t.DetailTris[4*(int(d.TriBase)+k)+j])
			if x < int(p.VertCount) {
				tri[j] = vec(t.Verts, int(p.Verts[x]))
			} else {
				tri[j] = vec(t.DetailVerts, int(d.VertBase)+x-int(p.VertCount))
			}
		}
		out = append(out, tri)
	}
	return out
}

// near says where the surface of a polygon is nearest to a position. Where
// rounding decides, it gives the range of acceptable answers.
type near struct {
	over   int // 1 above or below the polygon, 0 beside it, -1 too close to call
	at     [3]float64
	off    float64   // horizontal distance
	ys     []float64 // possible heights
	lo, hi float64   // measure of nearness, as a length
}

func (v *view) near(ti, pi int, p [3]float64, e float64) (o near) {
	t := v.tiles[ti]
	rg := ring(t, pi)
	n := len(rg)
	climb := float64(t.Header.WalkableClimb)
	in := true
	o.off = math.Inf(1)
	for k := range rg {
		a, b := rg[k], rg[(k+1)%n]
		if (b[0]-a[0])*(p[2]-a[2])-(b[2]-a[2])*(p[0]-a[0]) > 0 {
			in = false
		}
		if d := segDist(a[0], a[2], b[0], b[2], p[0], p[2]); d < o.off {
			o.off = d
			u := ((p[0]-a[0])*(b[0]-a[0]) + (p[2]-a[2])*(b[2]-a[2])) / ((b[0]-a[0])*(b[0]-a[0]) + (b[2]-a[2])*(b[2]-a[2]))
			o.at = lerp3(a, b, math.Max(0, math.Min(1, u)))
		}
	}
	edge := o.off
	switch {
	case edge < e:
		o.over = -1
	case in:
		o.over = 1
	}
	if in {
		o.off = 0
		o.at = p
	}
	o.ys = surface(t, pi, o.at, e)
	if o.over != 1 {
		for k := range rg {
			a, b := rg[k], rg[(k+1)%n]
			if segDist(a[0], a[2], b[0], b[2], o.at[0], o.at[2]) < e {
				u := ((o.at[0]-a[0])*(b[0]-a[0]) + (o.at[2]-a[2])*(b[2]-a[2])) / ((b[0]-a[0])*(b[0]-a[0]) + (b[2]-a[2])*(b[2]-a[2]))
				o.ys = append(o.ys, lerp3(a, b, math.Max(0, math.Min(1, u)))[1])
			}
		}
	}
	o.lo, o.hi = math.Inf(1), math.Inf(-1)
	for _, y := range o.ys {
		dy := math.Abs(y - p[1])
		if o.over != 0 {
			d := math.Max(0, dy-climb)
			o.lo, o.hi = math.Min(o.lo, d), math.Max(o.hi, d)
		}
		if o.over != 1 {
			d := math.Hypot(o.off, dy)
			o.lo, o.hi = math.Min(o.lo, d), math.Max(o.hi, d)
		}
	}
	return
}

// surface lists the heights of the detail surface at a place.
func surface(t *detour.MeshTile, pi int, p [3]float64, e float64) (ys []float64) {
	for _, tri := range detail(t, pi) {
		a, b, c := tri[0], tri[1], tri[2]
		d := (b[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(b[2]-a[2])
		if math.Abs(d) < 1e-9 {
			continue
		}
		u := ((p[0]-a[0])*(c[2]-a[2]) - (c[0]-a[0])*(p[2]-a[2])) / d
		w := ((b[0]-a[0])*(p[2]-a[2]) - (p[0]-a[0])*(b[2]-a[2])) / d
		// the code accepts a ten-thousandth around a triangle
		m := 3e-4 + e*math.Max(dist2(a, b), dist2(a, c))/math.Abs(d)
		if u >= -m && w >= -m && u+w <= 1+m {
			ys = append(ys, a[1]+u*(b[1]-a[1])+w*(c[1]-a[1]))
		}
	}
	return
}

// box is the bounds of a polygon; with is true if the detail surface counts.
func (v *view) box(ti, pi int, with bool) (lo, hi [3]float64) {
	t := v.tiles[ti]
	l := ring(t, pi)
	if with {
		for _, tri := range detail(t, pi) {
			l = append(l, tri[:]...)
		}
	}
	lo, hi = l[0], l[0]
	for _, p := range l {
		for k := 0; k < 3; k++ {
			lo[k], hi[k] = math.Min(lo[k], p[k]), math.Max(hi[k], p[k])
		}
	}
	return
}

func (v *view) eps(t *detour.MeshTile) float64 {
	cs := 1.0
	if t.Header.BvQuantFactor > 0 {
		cs = 1 / float64(t.Header.BvQuantFactor)
	}
	return 2e-4*cs + 6e-7*v.m
}

// checkNearestPoly judges one answer of FindNearestPoly.
func (v *view) checkNearestPoly(r *R, q *detour.NavMeshQuery, c, ext [3]float32, f *Filt, qf detour.QueryFilter) (found detour.PolyRef) {
	var st detour.Status
	var ref detour.PolyRef
	var pt d3.Vec3
	cc, ee := c, ext
	r.Call("FindNearestPoly", func() { st, ref, pt = q.FindNearestPoly(c[:], ext[:], qf) })
	if cc != c || ee != ext {
		r.Fail("argument-changed", "FindNearestPoly changes its arguments")
	}
	r.Logf("nearest %v +- %v: 0x%x %v", c, ext, uint32(ref), []float32(pt))
	if uint32(st) != stOK {
		r.Fail("nearest-status", "FindNearestPoly(%v, %v): status 0x%x", c, ext, uint32(st))
	}
	p := f64(c)
	bound := math.Inf(1)
	var boundRef detour.PolyRef
	for ti, t := range v.tiles {
		e := v.eps(t)
		for pi := range t.Polys {
			if t.Polys[pi].AreaAndType>>6 == 1 || !f.passes(&t.Polys[pi]) {
				continue
			}
			lo, hi := v.box(ti, pi, false)
			over := true
			for k := 0; k < 3; k++ {
				if float64(c[k])-float64(ext[k])+e > hi[k] || float64(c[k])+float64(ext[k])-e < lo[k] {
					over = false
				}
			}
			if !over {
				continue
			}
			if d := v.near(ti, pi, p, e).hi; d < bound {
				bound, boundRef = d, detour.PolyRef(v.refs[ti])+detour.PolyRef(pi)
			}
		}
	}
	if ref == 0 {
		if boundRef != 0 {
			r.Fail("nearest-missed", "FindNearestPoly(%v, %v) finds nothing, but 0x%x is in the box, at %.5f", c, ext, uint32(boundRef), bound)
		}
		r.Probe("nothing-near")
		return 0
	}
	ti, pi, ok := v.of(ref)
	if !ok {
		r.Fail("nearest-stale", "FindNearestPoly(%v, %v) returns 0x%x, which is not loaded", c, ext, uint32(ref))
	}
	t := v.tiles[ti]
	e := v.eps(t)
	if t.Polys[pi].AreaAndType>>6 == 1 {
		r.Fail("nearest-connection", "FindNearestPoly(%v, %v) returns the off-mesh connection 0x%x", c, ext, uint32(ref))
	}
	if !f.passes(&t.Polys[pi]) {
		r.Fail("nearest-filtered", "FindNearestPoly(%v, %v) returns 0x%x, which the filter rejects", c, ext, uint32(ref))
	}
	m := e
	if len(t.BvTree) > 0 {
		m = 3/float64(t.Header.BvQuantFactor) + e // the tree's resolution
	}
	lo, hi := v.box(ti, pi, true)
	for k := 0; k < 3; k++ {
		if float64(c[k])-float64(ext[k])-m > hi[k] || float64(c[k])+float64(ext[k])+m < lo[k] {
			r.Fail("nearest-outside", "FindNearestPoly(%v, %v) returns 0x%x, whose bounds %v-%v are outside of the box", c, ext, uint32(ref), lo, hi)
		}
	}
	o := v.near(ti, pi, p, e)
	if o.lo > bound+2*e+1e-5*bound+5e-4*o.off {
		r.Fail("not-nearest", "FindNearestPoly(%v, %v) returns 0x%x at %.5f, but 0x%x is in the box at %.5f", c, ext, uint32(ref), o.lo, uint32(boundRef), bound)
	}
	v.checkOn(r, "FindNearestPoly", ref, o, c, pt, e)
	// the closest-point query must agree
	cl := []float32{7, 7, 7}
	over := false
	r.Call("ClosestPointOnPoly", func() { st = q.ClosestPointOnPoly(ref, c[:], cl, &over) })
	if cl[0] != pt[0] || cl[1] != pt[1] || cl[2] != pt[2] {
		r.Fail("closest-differs", "FindNearestPoly(%v, %v) returns %v on 0x%x, ClosestPointOnPoly returns %v", c, ext, pt, uint32(ref), cl)
	}
	if o.over == 1 {
		r.Probe("over-polygon")
	} else {
		r.Probe("beside-polygon")
	}
	return ref
}

// checkOn verifies that a point returned lies on the surface where it is nearest.
func (v *view) checkOn(r *R, what string, ref detour.PolyRef, o near, c [3]float32, pt []float32, e float64) {
	if len(pt) != 3 {
		r.Fail("no-point", "%s(%v) on 0x%x returns the point %v", what, c, uint32(ref), pt)
	}
	x := [3]float64{float64(pt[0]), float64(pt[1]), float64(pt[2])}
	p := f64(c)
	if !(dist2(x, o.at) <= 4*e) {
		ti, pi, _ := v.of(ref)
		// far away, places almost equally near cannot be told apart
		on := math.Inf(1)
		rg := ring(v.tiles[ti], pi)
		for k := range rg {
			a, b := rg[k], rg[(k+1)%len(rg)]
			on = math.Min(on, segDist(a[0], a[2], b[0], b[2], x[0], x[2]))
		}
		if o.over != 1 && on <= 4*e && dist2(x, p) <= o.off*(1+2e-6)+4*e {
			o = v.near(ti, pi, x, 4*e)
		} else {
			o.at[1] = math.NaN()
		}
	}
	if math.IsNaN(o.at[1]) {
		ti, pi, _ := v.of(ref)
		r.Logf("the polygon is %v", ring(v.tiles[ti], pi))
		r.Fail("closest-place", "%s(%v) on 0x%x returns %v, the nearest place is %.5f, %.5f", what, c, uint32(ref), pt, o.at[0], o.at[2])
	}
	for _, y := range o.ys {
		if math.Abs(y-x[1]) <= 8*e {
			return
		}
	}
	r.Fail("closest-height", "%s(%v) on 0x%x returns %v, the surface there is at %v", what, c, uint32(ref), pt, o.ys)
}

// checkClosest judges the closest-point queries of one polygon.
func (v *view) checkClosest(r *R, q *detour.NavMeshQuery, ti, pi int, c [3]float32) {
	t := v.tiles[ti]
	ref := detour.PolyRef(v.refs[ti]) + detour.PolyRef(pi)
	e := v.eps(t)
	cl, bd := []float32{7, 7, 7}, []float32{7, 7, 7}
	over := r.Chance(1, 2)
	var st, st2 detour.Status
	cc := c
	r.Call("ClosestPointOnPoly", func() {
		if r.Chance(1, 8) {
			st = q.ClosestPointOnPoly(ref, c[:], cl, nil)
			x := []float32{7, 7, 7}
			q.ClosestPointOnPoly(ref, c[:], x, &over)
			if x[0] != cl[0] || x[1] != cl[1] || x[2] != cl[2] {
				r.Fail("closest-differs", "ClosestPointOnPoly returns %v without and %v with a place for posOverPoly", cl, x)
			}
			return
		}
		st = q.ClosestPointOnPoly(ref, c[:], cl, &over)
	})
	r.Call("ClosestPointOnPolyBoundary", func() { st2 = q.ClosestPointOnPolyBoundary(ref, c[:], bd) })
	if cc != c {
		r.Fail("argument-changed", "a closest-point query changes its position")
	}
	if uint32(st) != stOK || uint32(st2) != stOK {
		r.Fail("closest-status", "closest point on 0x%x: status 0x%x, on its boundary 0x%x", uint32(ref), uint32(st), uint32(st2))
	}
	r.Logf("closest to %v on 0x%x: %v %v, boundary %v", c, uint32(ref), cl, over, bd)
	p := f64(c)
	if t.Polys[pi].AreaAndType>>6 == 1 {
		a, b := ring(t, pi)[0], ring(t, pi)[1]
		d0, d1 := dist(p, a), dist(p, b)
		{
			w := a
			if d0+d1 > 1e-9 {
				w = lerp3(a, b, d0/(d0+d1))
			}
			if !(dist(w, [3]float64{float64(cl[0]), float64(cl[1]), float64(cl[2])}) <= 8*e+1e-5*dist(a, b)) {
				r.Fail("closest-connection", "closest point to %v on the connection 0x%x is %v, want %.4f", c, uint32(ref), cl, w)
			}
		}
		if over {
			r.Fail("over-connection", "%v is said to be over the connection 0x%x", c, uint32(ref))
		}
		r.Probe("closest-on-connection")
		return
	}
	o := v.near(ti, pi, p, e)
	v.checkOn(r, "ClosestPointOnPoly", ref, o, c, cl, e)
	if o.over >= 0 && over != (o.over == 1) {
		r.Fail("over", "posOverPoly of %v on 0x%x is %v", c, uint32(ref), over)
	}
	in := [3]float32{bd[0], bd[1], bd[2]} == c
	if o.over == 1 && !in {
		r.Fail("boundary-moved", "%v is over 0x%x but its closest boundary point is %v", c, uint32(ref), bd)
	}
	if o.over == 0 || o.over == -1 && !in {
		x := [3]float64{float64(bd[0]), float64(bd[1]), float64(bd[2])}
		ok := false
		rg := ring(t, pi)
		for k := range rg {
			a, b := rg[k], rg[(k+1)%len(rg)]
			u := ((x[0]-a[0])*(b[0]-a[0]) + (x[2]-a[2])*(b[2]-a[2])) / ((b[0]-a[0])*(b[0]-a[0]) + (b[2]-a[2])*(b[2]-a[2]))
			w := lerp3(a, b, math.Max(0, math.Min(1, u)))
			ok = ok || dist(w, x) <= 6*e
		}
		if !ok || !(dist2(x, p) <= o.off+4*e) {
			r.Fail("boundary", "closest boundary point to %v on 0x%x is %v, %.5f away instead of %.5f", c, uint32(ref), bd, dist2(x, p), o.off)
		}
	}
}

// ---- runs ------------------------------------------------------------------------

func (v *view) drawBox(r *R, c [3]float32, size float32) (ctr, ext [3]float32) {
	ctr = c
	switch r.Draw(4) {
	case 1:
		for k := 0; k < 3; k++ {
			ctr[k] += size * float32(r.Range(-16, 16)) / 16
		}
	case 2:
		ctr[1] += size * float32(r.Range(-16, 16)) / 8
	case 3:
		ctr[0] += size * float32(r.Range(-48, 48)) / 16
		ctr[2] += size * float32(r.Range(-48, 48)) / 16
	}
	switch r.Draw(5) {
	case 0:
		ext = [3]float32{size / 4, size, size / 4}
	case 1:
		ext = [3]float32{size * 2, size * 4, size * 2}
	case 2:
		ext = [3]float32{size * float32(r.Draw(32)) / 16, size * float32(r.Draw(32)) / 16, size * float32(r.Draw(32)) / 16}
	case 3:
		ext = [3]float32{0, size / 2, 0}
	case 4:
		ext = [3]float32{size / 32, size / 32, size / 32}
	}
	return
}

func runP14(r *R) {
	switch {
	case r.Chance(1, 100):
		runP14Sample(r)
		return
	case r.Chance(1, 3000):
		runP14Big(r)
		return
	}
	c := defaultCfg()
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	s.Churn(r.Draw(5))
	q := newQuery(r, s.M, 16)
	rounds := 2 + r.Draw(10)
	var v *view
	size := w.Cs * tileVox / 4
	for k := 0; k < rounds; k++ {
		switch r.Draw(8) {
		case 5:
			s.Churn(1 + r.Draw(2))
			v = nil
		case 6:
			s.mutateFlags()
		case 7:
			s.closestBad(q)
		}
		f := drawFilter(r)
		var qf detour.QueryFilter = f
		if r.Chance(1, 2) {
			qf = f.std()
		}
		if v == nil {
			v = s.view()
		}
		var at [3]float32
		id, ok := s.randPoly()
		if ok {
			at = s.pointIn(id)
		} else {
			at = w.W(float64(r.Range(-100, 100)), 0, float64(r.Range(-100, 100)))
			r.Probe("empty-mesh")
		}
		ctr, ext := v.drawBox(r, at, size)
		ref := v.checkNearestPoly(r, q, ctr, ext, f, qf)
		if ok {
			for ti := range v.tiles {
				if v.refs[ti] == s.Loaded[id.Loc].Ref {
					pos, _ := v.drawBox(r, at, size)
					v.checkClosest(r, q, ti, id.P, pos)
					v.tileSearch(r, s.M, ti, ctr, ext)
				}
			}
		}
		r.State(s.StateKey(), uint32(ref), ctr, ext)
		if len(v.tiles) > 1 && ref != 0 {
			r.NonTrivial()
		}
	}
}

// tileSearch only requires that the search within one tile stays in that tile.
// (Which polygon it returns is a known finding.)
func (v *view) tileSearch(r *R, m *detour.NavMesh, ti int, c, ext [3]float32) {
	var ref detour.PolyRef
	pt := []float32{7, 7, 7}
	r.Call("FindNearestPolyInTile", func() { ref = m.FindNearestPolyInTile(v.tiles[ti], c[:], ext[:], pt) })
	if ref == 0 {
		return
	}
	if i, _, ok := v.of(ref); !ok || i != ti {
		r.Fail("tile-search-outside", "FindNearestPolyInTile(%v, %v) in tile 0x%x returns 0x%x", c, ext, uint32(v.refs[ti]), uint32(ref))
	}
}

// closestBad asks about something that is not loaded.
func (s *Stream) closestBad(q *detour.NavMeshQuery) {
	r := s.r
	ref, why := s.badRef()
	p := s.w.W(1, 1, 1)
	if id, ok := s.randPoly(); ok {
		p = s.pointIn(id)
	}
	cl, bd := []float32{7, 8, 9}, []float32{7, 8, 9}
	over := false
	var st, st2 detour.Status
	r.Call("ClosestPointOnPoly", func() { st = q.ClosestPointOnPoly(ref, p[:], cl, &over) })
	r.Call("ClosestPointOnPolyBoundary", func() { st2 = q.ClosestPointOnPolyBoundary(ref, p[:], bd) })
	if uint32(st) != stFail|stInvalid || uint32(st2) != stFail|stInvalid {
		r.Fail("bad-ref-accepted", "closest point on a %s reference: status 0x%x, on its boundary 0x%x", why, uint32(st), uint32(st2))
	}
	var st3 detour.Status
	var pr detour.PolyRef
	e := [3]float32{1, 1, 1}
	r.Call("FindNearestPoly", func() { st3, pr, _ = q.FindNearestPoly(p[:], e[:], nil) })
	if uint32(st3) != stFail|stInvalid || pr != 0 {
		r.Fail("bad-args-accepted", "FindNearestPoly without a filter: status 0x%x, 0x%x", uint32(st3), uint32(pr))
	}
	r.Probe("rejected-" + why)
}

// runP14Sample searches the repository's own meshes.
func runP14Sample(r *R) {
	names := sampleNames()
	if len(names) == 0 {
		r.Skip("no sample meshes")
	}
	name := names[r.Draw(len(names))]
	m, err := detour.Decode(bytes.NewReader(sampleMeshes[name]))
	if err != nil {
		r.Fail("load-refused", "%s: %v", name, err)
	}
	if filepath.Base(name) == "mesh2.bin" {
		r.pinnedTileSearch()
	}
	r.Logf("sample %s", filepath.Base(name))
	v := &view{}
	for i := range m.Tiles {
		if t := &m.Tiles[i]; t.Header != nil {
			v.add(t, m.TileRef(t))
		}
	}
	q := newQuery(r, m, 16)
	for k := 0; k < 4; k++ {
		f := drawFilter(r)
		ti := r.Draw(len(v.tiles))
		t := v.tiles[ti]
		if len(t.Polys) == 0 {
			continue
		}
		pi := r.Draw(len(t.Polys))
		x := ring(t, pi)
		at := [3]float32{}
		for j := 0; j < 3; j++ {
			for _, y := range x {
				at[j] += float32(y[j]) / float32(len(x))
			}
		}
		size := (t.Header.BMax[0] - t.Header.BMin[0]) / 8
		if size > 8 {
			size = 8
		}
		ctr, ext := v.drawBox(r, at, size)
		v.checkNearestPoly(r, q, ctr, ext, f, f)
		v.checkClosest(r, q, ti, pi, ctr)
	}
	r.Probe("sample-mesh")
	r.NonTrivial()
}

// pinnedTileSearch is the one known finding: the polygon directly under the
// point must be found.
func (r *R) pinnedTileSearch() {
	var data []byte
	for n, b := range sampleMeshes {
		if filepath.Base(n) == "mesh2.bin" {
			data = b
		}
	}
	m, err := detour.Decode(bytes.NewReader(data))
	if err != nil {
		return
	}
	p, e := d3.Vec3{5, 0, 10}, d3.Vec3{0, 1, 0}
	tx, ty := m.CalcTileLoc(p)
	t := m.TileAt(tx, ty, 0)
	if t == nil {
		return
	}
	var ref detour.PolyRef
	r.Call("FindNearestPolyInTile", func() { ref = m.FindNearestPolyInTile(t, p, e, d3.NewVec3()) })
	if ref == 0x440000 {
		return
	}
	if ref == 0x440004 && r.Known("FindNearestPolyInTile(mesh2.bin,(5,0,10),(0,1,0))") {
		r.Probe("known-finding")
		return
	}
	r.Fail("tile-search", "FindNearestPolyInTile at (5,0,10) of mesh2.bin returns 0x%x, but 0x440000 lies under the point", uint32(ref))
}

// runP14Big uses one tile with more than 32767 vertices.
func runP14Big(r *R) {
	n := r.Range(150, 184)
	cs := []float32{0.5, 0.25, 1}[r.Draw(3)]
	p := &detour.NavMeshCreateParams{Nvp: 6, Cs: cs, Ch: cs, WalkableHeight: 10 * cs, WalkableRadius: cs, WalkableClimb: 2 * cs, BuildBvTree: r.Chance(2, 3)}
	p.BMax = [3]float32{float32(n) * 2 * cs, 20 * cs, float32(n) * 2 * cs}
	n1 := n + 1
	for z := 0; z < n1; z++ {
		for x := 0; x < n1; x++ {
			p.Verts = append(p.Verts, uint16(2*x), uint16((x*7+z*3)%3), uint16(2*z))
		}
	}
	for z := 0; z < n; z++ {
		for x := 0; x < n; x++ {
			row := [12]uint16{}
			for i := range row {
				row[i] = 0xffff
			}
			for i, c := range [4][2]int{{x, z}, {x, z + 1}, {x + 1, z + 1}, {x + 1, z}} {
				row[i] = uint16(c[1]*n1 + c[0])
			}
			for i, c := range [4][2]int{{x - 1, z}, {x, z + 1}, {x + 1, z}, {x, z - 1}} {
				if c[0] >= 0 && c[0] < n && c[1] >= 0 && c[1] < n {
					row[6+i] = uint16(c[1]*n + c[0])
				} else {
					row[6+i] = 0x800f
				}
			}
			p.Polys = append(p.Polys, row[:]...)
			p.PolyAreas = append(p.PolyAreas, 1)
			p.PolyFlags = append(p.PolyFlags, 1)
		}
	}
	if r.Chance(1, 3) {
		// unused vertices, up to the limit
		for want := 3 * (0xfffe - r.Draw(20)); len(p.Verts) < want; {
			p.Verts = append(p.Verts, 0, 0, 0)
		}
	}
	p.VertCount, p.PolyCount = int32(len(p.Verts)/3), int32(n*n)
	for k := r.Draw(10); k > 0; k-- {
		at := func() float32 { return float32(r.Range(1, 2*n-1)) * cs }
		p.OffMeshConVerts = append(p.OffMeshConVerts, at(), cs, at(), at(), cs, at())
		p.OffMeshConRad = append(p.OffMeshConRad, cs)
		p.OffMeshConFlags = append(p.OffMeshConFlags, 1)
		p.OffMeshConAreas = append(p.OffMeshConAreas, 2)
		p.OffMeshConDir = append(p.OffMeshConDir, uint8(r.Draw(2)))
		p.OffMeshConUserID = append(p.OffMeshConUserID, uint32(k))
		p.OffMeshConCount++
	}
	var data []byte
	var err error
	r.CallB("CreateNavMeshData", 4_000_000_000, func() { data, err = detour.CreateNavMeshData(p) })
	// neighbours are stored as fifteen bit numbers, vertices as sixteen bit ones
	full := n*n > 0x7ffd || int(p.VertCount+2*p.OffMeshConCount) >= 0xffff
	if err != nil {
		if !full {
			r.Fail("create-failed", "CreateNavMeshData with %d vertices, %d polygons and %d connections: %v", p.VertCount, n*n, p.OffMeshConCount, err)
		}
		r.Probe("tile-over-limit")
		r.NonTrivial()
		return
	}
	m := &detour.NavMesh{}
	var st detour.Status
	r.CallB("InitForSingleTile", 400_000_000, func() { st = m.InitForSingleTile(data, 0) })
	if uint32(st) != stOK {
		r.Fail("init-failed", "InitForSingleTile with %d polygons: status 0x%x", n*n, uint32(st))
	}
	v := &view{}
	var ref detour.TileRef
	r.Call("TileRef", func() { ref = m.TileRef(&m.Tiles[0]) })
	v.add(&m.Tiles[0], ref)
	q := newQuery(r, m, 1024)
	f := &Filt{Inc: 0xffff}
	for i := range f.Area {
		f.Area[i] = 1
	}
	r.Logf("big tile %dx%d, %d vertices, %d connections", n, n, p.VertCount, p.OffMeshConCount)
	for i := 0; i < int(p.OffMeshConCount); i++ {
		var st detour.Status
		var a, b [3]float32
		cref := detour.PolyRef(ref) + detour.PolyRef(n*n+i)
		t := &m.Tiles[0]
		if len(t.OffMeshCons) != int(p.OffMeshConCount) {
			r.Fail("big-connections", "%d of %d connections were kept", len(t.OffMeshCons), p.OffMeshConCount)
		}
		copy(a[:], t.OffMeshCons[i].Pos[:3])
		copy(b[:], t.OffMeshCons[i].Pos[3:])
		want := p.OffMeshConVerts[6*i : 6*i+6]
		x := ring(t, n*n+i)
		for k := 0; k < 3; k++ {
			if a[k] != want[k] || b[k] != want[3+k] {
				r.Fail("big-connections", "connection %d from %v to %v, not %v", i, a, b, want)
			}
			if k != 1 && (math.Abs(x[0][k]-float64(want[k])) > 3*float64(cs) || math.Abs(x[1][k]-float64(want[3+k])) > 3*float64(cs)) {
				r.Fail("big-connections", "connection %d runs from %.3f to %.3f, not %v", i, x[0], x[1], want)
			}
		}
		cl := []float32{0, 0, 0}
		r.Call("ClosestPointOnPoly", func() { st = q.ClosestPointOnPoly(cref, want[:3], cl, nil) })
		if uint32(st) != stOK || math.IsNaN(float64(cl[0]+cl[1]+cl[2])) {
			r.Fail("big-connections", "closest point on connection %d: status 0x%x, %v", i, uint32(st), cl)
		}
	}
	for k := 0; k < 5; k++ {
		pi := n*n - 1 - r.Draw(n*n)
		x, z := pi%n, pi/n
		at := [3]float32{(float32(2*x) + 0.25 + 1.5*float32(r.Float())) * cs, float32(r.Draw(40)) * cs / 10, (float32(2*z) + 0.25 + 1.5*float32(r.Float())) * cs}
		got := v.checkNearestPoly(r, q, at, [3]float32{2.5 * cs, 8 * cs, 2.5 * cs}, f, f)
		if got == 0 {
			r.Fail("nearest-missed", "nothing found in a tile of %d polygons at %v", n*n, at)
		}
		v.checkClosest(r, q, 0, pi, at)
		// a ray and a straight path over the cells to the right
		if x+6 < n {
			to := at
			to[0] += 10 * cs
			s := rt13(r, q, ref, pi, at, to, f)
			if s != 6 && s != 5 && s != 7 {
				r.Fail("big-ray", "a ray over five cells from polygon %d crosses %d", pi, s)
			}
			corr := []detour.PolyRef{}
			for j := 0; j <= 5; j++ {
				corr = append(corr, detour.PolyRef(ref)+detour.PolyRef(pi+j))
			}
			a := askStraight(r, q, at, to, corr, 16, 0)
			if a.St != stOK || len(a.P) != 2 || math.Abs(float64(a.P[1][0]-to[0])) > 1e-3 {
				r.Fail("big-straight", "a straight path over five cells from polygon %d: status 0x%x, %v", pi, a.St, a.P)
			}
			path, st := findPath(r, q, corr[0], corr[5], at, to, f, 32)
			if st != stOK || len(path) != 6 {
				r.Fail("big-path", "a path to the fifth cell from polygon %d: status 0x%x, %d polygons", pi, st, len(path))
			}
		}
	}
	r.Probe("big-tile")
	r.NonTrivial()
}

func rt13(r *R, q *detour.NavMeshQuery, ref detour.TileRef, pi int, a, b [3]float32, f detour.QueryFilter) int {
	h := newHit(r, 16)
	x := cast(r, q, detour.PolyRef(ref)+detour.PolyRef(pi), a, b, f, 0, h, 0)
	if x.St != stOK || x.T != math.MaxFloat32 {
		r.Fail("big-ray", "a ray over open ground: status 0x%x, t %v", x.St, x.T)
	}
	return len(x.Path)
}

// Known says whether a finding is listed in the known-findings file.
func (r *R) Known(key string) bool {
	for _, k := range loadKnown(os.Getenv("SIMKNOWN"), r.Prop) {
		if len(k) >= len(key) && k[:len(key)] == key {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{ID: "P14", Run: runP14, Quick: 80000, Full: 600000,
		Rule: "Search boxes of all sizes in and around streamed meshes (with and without bounding-volume trees and detail surfaces, flags changing, tiles coming and going), the repository's own meshes and single tiles with more than 21845 vertices; each nearest polygon and closest point is compared with a brute-force search over every loaded polygon in double precision.",
		Real: commonReal, Stub: commonStub,
		Assume: []string{"a bounding-volume tree may also offer polygons up to three cells outside of the box", "distances within rounding error tie, all nearest polygons are then accepted"}})
}
