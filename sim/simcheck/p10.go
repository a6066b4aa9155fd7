package main

import (
	"github.com/arl/go-detour/detour"
)

// slicedArgs is one sliced search.
type slicedArgs struct {
	pathArgs
	Opt uint32
	QF  detour.QueryFilter
}

func (s *Stream) initSliced(q *detour.NavMeshQuery, a slicedArgs) uint32 {
	var st detour.Status
	ra, rb := s.Ref(a.A), s.Ref(a.B)
	s.r.Call("InitSlicedFindPath", func() { st = q.InitSlicedFindPath(ra, rb, a.Ap[:], a.Bp[:], a.QF, a.Opt) })
	return uint32(st)
}

func update(r *R, q *detour.NavMeshQuery, n int) (uint32, int) {
	done := -7
	var st detour.Status
	if r.Chance(1, 12) {
		r.Call("UpdateSlicedFindPath", func() { st = q.UpdateSlicedFindPath(n, nil) })
		return uint32(st), -1
	}
	r.Call("UpdateSlicedFindPath", func() { st = q.UpdateSlicedFindPath(n, &done) })
	return uint32(st), done
}

func finalize(r *R, q *detour.NavMeshQuery, max int) ([]detour.PolyRef, uint32) {
	buf := make([]detour.PolyRef, max)
	for i := range buf {
		buf[i] = 0xdeadbeef
	}
	var n int
	var st detour.Status
	r.Call("FinalizeSlicedFindPath", func() { n, st = q.FinalizeSlicedFindPath(buf, max) })
	if n < 0 || n > max {
		r.Fail("path-count", "FinalizeSlicedFindPath with room for %d polygons reports %d", max, n)
	}
	return buf[:n], uint32(st)
}

func finalizePartial(r *R, q *detour.NavMeshQuery, ex []detour.PolyRef, max int) ([]detour.PolyRef, uint32) {
	buf := make([]detour.PolyRef, max)
	for i := range buf {
		buf[i] = 0xdeadbeef
	}
	var n int
	var st detour.Status
	r.Call("FinalizeSlicedFindPathPartial", func() { n, st = q.FinalizeSlicedFindPathPartial(ex, len(ex), buf, max) })
	if n < 0 || n > max {
		r.Fail("path-count", "FinalizeSlicedFindPathPartial with room for %d polygons reports %d", max, n)
	}
	return buf[:n], uint32(st)
}

// searchAll runs a search in one go, or stops it after some iterations.
func (s *Stream) searchAll(q *detour.NavMeshQuery, a slicedArgs, limit int) (iters int, st uint32) {
	r := s.r
	st = s.initSliced(q, a)
	if st&stProgress == 0 {
		return 0, st
	}
	done := 0
	var stt detour.Status
	r.Call("UpdateSlicedFindPath", func() { stt = q.UpdateSlicedFindPath(limit, &done) })
	return done, uint32(stt)
}

// reads performs a query that must not disturb a search in progress.
func (s *Stream) reads(q *detour.NavMeshQuery, f *Filt) {
	r := s.r
	id, ok := s.randPoly()
	if !ok {
		return
	}
	id2, _ := s.randPoly()
	p, p2 := s.pointIn(id), s.pointIn(id2)
	var out [3]float32
	switch r.Draw(6) {
	case 0:
		r.Call("IsValidPolyRef", func() { q.IsValidPolyRef(s.Ref(id), f) })
	case 1:
		r.Call("FindNearestPoly", func() { q.FindNearestPoly(p[:], []float32{4, 4, 4}, f) })
	case 2:
		var over bool
		r.Call("ClosestPointOnPoly", func() { q.ClosestPointOnPoly(s.Ref(id), p2[:], out[:], &over) })
	case 3:
		r.Call("ClosestPointOnPolyBoundary", func() { q.ClosestPointOnPolyBoundary(s.Ref(id), p2[:], out[:]) })
	case 4:
		straight(r, q, p, p2, []detour.PolyRef{s.Ref(id), s.Ref(id2)}, 8, int32(r.Draw(3)))
	case 5:
		var h detour.RaycastHit
		h.Path = make([]detour.PolyRef, 4)
		h.MaxPath = 4
		r.Call("Raycast", func() { q.Raycast(s.Ref(id), p[:], p2[:], f, r.Draw(2), &h, 0) })
	}
	r.Probe("read-between-slices")
}

func drawSlice(r *R) int {
	switch r.Draw(6) {
	case 0:
		return 1
	case 1:
		return 2 + r.Draw(3)
	case 2:
		return 0
	case 3:
		return 1 + r.Draw(20)
	case 4:
		return 1 + r.Draw(100)
	}
	return 1 << uint(r.Draw(10))
}

func samePath(r *R, class, what string, s *Stream, a, b []detour.PolyRef, sa, sb uint32) {
	if sa != sb {
		r.Fail(class, "%s: status 0x%x instead of 0x%x (%d and %d polygons)", what, sb, sa, len(b), len(a))
	}
	if len(a) != len(b) {
		r.Fail(class, "%s: %d polygons instead of %d", what, len(b), len(a))
	}
	for i := range a {
		if a[i] != b[i] {
			r.Fail(class, "%s: entry %d is %s instead of %s", what, i, s.RefName(b[i]), s.RefName(a[i]))
		}
	}
}

func runP10(r *R) {
	c := defaultCfg()
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	s.Churn(r.Draw(5))
	total := maxTiles * w.MaxP
	nodes, big := drawNodes(r, total)
	q := newQuery(r, s.M, nodes)
	other := newQuery(r, s.M, 64)
	rounds := 1 + r.Draw(5)
	var prevPath []detour.PolyRef
	for k := 0; k < rounds; k++ {
		f := drawFilter(r)
		for i := r.Draw(2); i > 0; i-- {
			s.noise(q, f)
		}
		a, ok := s.randPoly()
		b, ok2 := s.randPoly()
		if !ok || !ok2 {
			return
		}
		g := s.graph()
		args := slicedArgs{pathArgs: pathArgs{A: a, B: b, Ap: s.pointIn(a), Bp: s.pointIn(b), F: f, Nodes: nodes, Big: big}, QF: f}
		if r.Chance(1, 2) {
			args.QF = f.std()
		}
		if r.Chance(1, 2) {
			args.Opt = uint32(detour.FindPathAnyAngle)
			r.Probe("any-angle")
		}
		if r.Chance(1, 10) {
			s.slicedBadRefs(q, args)
			continue
		}
		max := 8*len(g.IDs) + 8
		// the answer in one go, on an object of its own
		ref := newQuery(r, s.M, nodes)
		iters, _ := s.searchAll(ref, args, 1<<30)
		exhausted := ref.NodePool().NodeCount() >= ref.NodePool().MaxNodes()
		path0, st0 := finalize(r, ref, max)
		if a != b {
			s.checkCorridor(g, "sliced search", args.pathArgs, path0, st0, max, exhausted && !big)
		}
		r.Logf("search %v -> %v opt %d: %d iterations, %d polygons, 0x%x", a, b, args.Opt, iters, len(path0), st0)

		// the same in slices
		stop := -1 // take the result early
		if r.Chance(1, 4) && iters > 1 {
			stop = r.Draw(iters)
		}
		st := s.initSliced(q, args)
		sum, ups := 0, 0
		for st&stProgress != 0 && sum != stop {
			n := drawSlice(r)
			if stop >= 0 && sum+n > stop {
				n = stop - sum
			}
			if r.Chance(1, 3) {
				s.reads(q, f)
			}
			if r.Chance(1, 6) {
				s.reads(other, f)
			}
			if r.Chance(1, 8) {
				s.noise(other, f)
			}
			var done int
			st, done = update(r, q, n)
			ups++
			if done == -7 {
				r.Fail("iterations-not-reported", "UpdateSlicedFindPath(%d) did not report its iterations (status 0x%x)", n, st)
			}
			if done < 0 {
				// not asked to report: with status in progress it did all of them
				done = n
				if st&stProgress == 0 {
					done = iters - sum
				}
			}
			if done > n || done < 0 {
				r.Fail("too-many-iterations", "UpdateSlicedFindPath(%d) did %d iterations", n, done)
			}
			if st&stProgress != 0 && done != n {
				r.Fail("too-few-iterations", "UpdateSlicedFindPath(%d) did %d iterations and is still in progress", n, done)
			}
			if st&stFail != 0 {
				r.Fail("search-failed", "sliced search %v -> %v failed (0x%x) without a change to the mesh", a, b, st)
			}
			sum += done
			if sum > iters {
				r.Fail("iterations", "sliced search %v -> %v takes more than the %d iterations it takes in one go", a, b, iters)
			}
			if ups > 20*iters+200 {
				r.Fail("no-progress", "sliced search %v -> %v is not finished after %d updates", a, b, ups)
			}
			r.Logf("update %d -> %d 0x%x", n, done, st)
		}
		if stop < 0 && sum != iters && a != b {
			r.Fail("iterations", "sliced search %v -> %v takes %d iterations in slices, %d in one go", a, b, sum, iters)
		}
		if ups > 1 {
			r.Probe("sliced")
			r.NonTrivial()
		}
		if stop >= 0 && st&stProgress != 0 {
			// compare with stopping there in one go
			r.Probe("taken-early")
			ref := newQuery(r, s.M, nodes)
			s.searchAll(ref, args, stop)
			exhausted = ref.NodePool().NodeCount() >= ref.NodePool().MaxNodes()
			path0, st0 = finalize(r, ref, max)
			s.checkEarly(g, args, path0, st0)
		}
		switch r.Draw(4) {
		case 0, 1:
			p, st := finalize(r, q, max)
			samePath(r, "slicing-changes-result", "search in slices compared with one go", s, path0, p, st0, st)
		case 2:
			m := 1 + r.Draw(len(path0)+2)
			p, st := finalize(r, q, m)
			want, n := st0, len(path0)
			if m < n {
				want |= stBuffer
				n = m
				r.Fault("small-buffer")
			}
			samePath(r, "truncated-result", "result with a buffer of "+itoa(m)+" for "+itoa(len(path0)), s, path0[:n], p, want, st)
		case 3:
			s.finalPartial(g, q, args, prevPath, path0, max)
		}
		if st0&stNodes != 0 {
			r.Fault("out-of-nodes")
		}
		prevPath = path0
		r.State(s.StateKey(), a, b, args.Opt, sum, len(path0), st0)
	}
}

func itoa(n int) string { return string(appendInt(nil, n)) }

// checkEarly checks a result taken before the search had finished.
func (s *Stream) checkEarly(g *MGraph, a slicedArgs, path []detour.PolyRef, st uint32) {
	r := s.r
	r.Probe("early-checked")
	if st&stFail != 0 || len(path) == 0 {
		r.Fail("query-failed", "result of an unfinished search: 0x%x with %d polygons", st, len(path))
	}
	s.checkPath(g, "unfinished search", a.pathArgs, path)
	goal := path[len(path)-1] == s.Ref(a.B)
	if st&stBuffer == 0 && goal != (st&stPartial == 0) {
		r.Fail("partial-flag", "unfinished search from %v to %v: reaches goal: %v, but status is 0x%x", a.A, a.B, goal, st)
	}
}

// checkPath verifies a corridor on its own.
func (s *Stream) checkPath(g *MGraph, what string, a pathArgs, path []detour.PolyRef) {
	r := s.r
	if path[0] != s.Ref(a.A) {
		r.Fail("wrong-start", "%s from %v starts at %s", what, a.A, s.RefName(path[0]))
	}
	prev := a.A
	for i, ref := range path {
		id, ok := s.Resolve(ref)
		if !ok {
			r.Fail("stale-in-path", "%s: entry %d of the path is 0x%x, which is not a loaded polygon", what, i, uint32(ref))
		}
		if i > 0 {
			if !g.linked(prev, id) {
				r.Fail("gap-in-path", "%s: entry %d of the path is %v, which is not connected to %v before it", what, i, id, prev)
			}
			if !a.F.passes(g.Poly[g.Idx[id]]) {
				r.Fail("filtered-in-path", "%s: entry %d of the path is %v, which the filter rejects", what, i, id)
			}
		}
		prev = id
	}
}

// finalPartial takes the result along an existing path.
func (s *Stream) finalPartial(g *MGraph, q *detour.NavMeshQuery, a slicedArgs, prev, path0 []detour.PolyRef, max int) {
	r := s.r
	var ex []detour.PolyRef
	switch r.Draw(4) {
	case 0:
		ex = append(ex, path0...)
	case 1:
		ex = append(ex, prev...)
	case 2:
		ex = append(ex, path0[:1+r.Draw(len(path0))]...)
		ref, _ := s.badRef()
		ex = append(ex, ref)
	case 3:
		ref, _ := s.badRef()
		ex = append(ex, ref)
	}
	visited := map[detour.PolyRef]bool{}
	furthest := detour.PolyRef(0)
	for i := len(ex) - 1; i >= 0; i-- {
		if a.A != a.B && q.NodePool().FindNode(ex[i], 0) != nil {
			furthest = ex[i]
			visited[ex[i]] = true
			break
		}
	}
	m := max
	if r.Chance(1, 3) {
		m = 1 + r.Draw(len(path0)+2)
	}
	p, st := finalizePartial(r, q, ex, m)
	r.Logf("partial along %d -> %d 0x%x", len(ex), len(p), st)
	if len(ex) == 0 {
		if st&stFail == 0 || len(p) != 0 {
			r.Fail("empty-existing", "FinalizeSlicedFindPathPartial with an empty path: 0x%x, %d polygons", st, len(p))
		}
		finalize(r, q, m) // ends the search
		return
	}
	if st&stFail != 0 || len(p) == 0 {
		r.Fail("query-failed", "FinalizeSlicedFindPathPartial along %d polygons: 0x%x with %d polygons", len(ex), st, len(p))
	}
	s.checkPath(g, "partial result", a.pathArgs, p)
	if st&stBuffer != 0 {
		if len(p) != m {
			r.Fail("false-buffer-flag", "partial result: flagged buffer-too-small although %d of %d entries are used", len(p), m)
		}
		r.Fault("small-buffer")
		return
	}
	if furthest != 0 && p[len(p)-1] != furthest {
		r.Fail("partial-end", "partial result ends at %s instead of %s, the furthest visited polygon of the existing path", s.RefName(p[len(p)-1]), s.RefName(furthest))
	}
	if furthest == 0 && a.A != a.B && st&stPartial == 0 {
		r.Fail("partial-flag", "no polygon of the existing path was visited, but the result is not flagged partial (0x%x)", st)
	}
	r.Probe("partial-result")
}

func (s *Stream) slicedBadRefs(q *detour.NavMeshQuery, a slicedArgs) {
	r := s.r
	ref, why := s.badRef()
	x, y := ref, s.Ref(a.B)
	switch r.Draw(3) {
	case 1:
		x, y = s.Ref(a.A), ref
	case 2:
		x, y = ref, ref
	}
	var st detour.Status
	r.Call("InitSlicedFindPath", func() { st = q.InitSlicedFindPath(x, y, a.Ap[:], a.Bp[:], a.QF, a.Opt) })
	if uint32(st)&stFail == 0 || uint32(st)&stInvalid == 0 {
		r.Fail("bad-ref-accepted", "InitSlicedFindPath with a %s reference 0x%x: status 0x%x", why, uint32(ref), uint32(st))
	}
	st2, _ := update(r, q, 5)
	if st2&stFail == 0 {
		r.Fail("bad-ref-accepted", "updating a search that was not started: status 0x%x", st2)
	}
	p, st3 := finalize(r, q, 16)
	if st3&stFail == 0 || len(p) != 0 {
		r.Fail("bad-ref-accepted", "result of a search that was not started: status 0x%x, %d polygons", st3, len(p))
	}
	r.Probe("rejected-" + why)
}

// ---- P11 ---------------------------------------------------------------------------

// moments remembers every connection that existed during a search.
type moments struct {
	valid map[detour.PolyRef]bool
	link  map[[2]detour.PolyRef]bool
}

func (m *moments) note(s *Stream) {
	g := s.graph()
	for i, id := range g.IDs {
		ref := s.Ref(id)
		m.valid[ref] = true
		for _, l := range g.Out[i] {
			m.link[[2]detour.PolyRef{ref, l.Ref}] = true
		}
	}
}

func (s *Stream) checkMoments(m *moments, what string, start detour.PolyRef, path []detour.PolyRef) {
	r := s.r
	for i, ref := range path {
		if !m.valid[ref] {
			r.Fail("never-valid", "%s: entry %d of the path is 0x%x, which was not a polygon at any moment of the search", what, i, uint32(ref))
		}
		if i == 0 && ref != start {
			r.Fail("wrong-start", "%s: the path starts at 0x%x instead of 0x%x", what, uint32(ref), uint32(start))
		}
		if i > 0 && !m.link[[2]detour.PolyRef{path[i-1], ref}] {
			r.Fail("never-adjacent", "%s: entries %d and %d of the path (0x%x, 0x%x) were not connected at any moment of the search", what, i-1, i, uint32(path[i-1]), uint32(ref))
		}
	}
}

func runP11(r *R) {
	c := defaultCfg()
	c.MinNX, c.MinNY = 1, 2
	w := genWorld(r, c)
	maxTiles := r.Range(mini(2, len(w.Locs)), len(w.Locs)+2)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.LoadAll()
	total := 4 * maxTiles * w.MaxP
	nodes, big := drawNodes(r, total)
	q := newQuery(r, s.M, nodes)
	rounds := 1 + r.Draw(4)
	for k := 0; k < rounds; k++ {
		f := drawFilter(r)
		a, ok := s.randPoly()
		b, ok2 := s.randPoly()
		if !ok || !ok2 {
			s.Churn(2)
			continue
		}
		args := slicedArgs{pathArgs: pathArgs{A: a, B: b, Ap: s.pointIn(a), Bp: s.pointIn(b), F: f, Nodes: nodes, Big: big}, QF: f}
		if r.Chance(1, 2) {
			args.QF = f.std()
		}
		if r.Chance(1, 2) {
			args.Opt = uint32(detour.FindPathAnyAngle)
		}
		m := &moments{valid: map[detour.PolyRef]bool{}, link: map[[2]detour.PolyRef]bool{}}
		m.note(s)
		ra, rb := s.Ref(a), s.Ref(b)
		st := s.initSliced(q, args)
		if st&stFail != 0 {
			r.Fail("search-failed", "starting a search between valid polygons: 0x%x", st)
		}
		sum, ups, changes := 0, 0, 0
		limit := 30*total + 300
		early := r.Chance(1, 4)
		quiet := 1 + r.Draw(6)
		for st&stProgress != 0 {
			if r.Chance(1, quiet) && changes < 40 {
				for i := 1 + r.Draw(2); i > 0; i-- {
					if s.Step() {
						changes++
						m.note(s)
					}
				}
				r.Fault("tile-change")
			}
			if r.Chance(1, 6) {
				s.reads(q, f)
			}
			if early && r.Chance(1, 6) {
				break
			}
			n := drawSlice(r)
			_, okA := s.Resolve(ra)
			_, okB := s.Resolve(rb)
			var done int
			st, done = update(r, q, n)
			ups++
			r.Logf("update %d -> %d 0x%x", n, done, st)
			if !(okA && okB) {
				if st&stFail == 0 {
					r.Fail("end-gone", "the start or goal polygon was unloaded, but the update reports 0x%x", st)
				}
				r.Fault("end-gone")
			}
			if done > n {
				r.Fail("too-many-iterations", "UpdateSlicedFindPath(%d) did %d iterations", n, done)
			}
			if st&stProgress != 0 && done >= 0 && done != n {
				r.Fail("too-few-iterations", "UpdateSlicedFindPath(%d) did %d iterations and is still in progress", n, done)
			}
			if done > 0 {
				sum += done
			}
			if sum > limit || ups > 40*limit {
				r.Fail("no-progress", "the search is not finished after %d updates and %d iterations", ups, sum)
			}
		}
		failed := st&stFail != 0
		if r.Chance(1, 3) { // and once more before the result is taken
			if s.Step() {
				changes++
				r.Fault("tile-change")
				if r.Chance(1, 2) {
					s.Step()
				}
				m.note(s)
			}
		}
		var p []detour.PolyRef
		along := false
		max := 8*total + 8
		if r.Chance(1, 4) {
			max = 1 + r.Draw(12)
		}
		if r.Chance(1, 4) {
			ex := []detour.PolyRef{ra, rb}
			if ref, _ := s.badRef(); ref != 0 {
				ex = append(ex, ref)
			}
			p, st = finalizePartial(r, q, ex, max)
			along = true
		} else {
			p, st = finalize(r, q, max)
		}
		r.Logf("search %v -> %v opt %d: %d updates %d iterations %d changes -> %d polygons 0x%x", a, b, args.Opt, ups, sum, changes, len(p), st)
		if failed && (st&stFail == 0 || len(p) != 0) {
			r.Fail("failure-forgotten", "a failed search returns %d polygons with status 0x%x", len(p), st)
		}
		if st&stFail != 0 {
			if len(p) != 0 {
				r.Fail("failed-with-path", "a failed search returns %d polygons", len(p))
			}
			r.Probe("search-failed")
		} else {
			if len(p) == 0 {
				r.Fail("empty-path", "the search reports success (0x%x) with an empty path", st)
			}
			s.checkMoments(m, "search with tile changes", ra, p)
			if !along && st&(stPartial|stBuffer) == 0 && p[len(p)-1] != rb {
				r.Fail("partial-flag", "the path ends at 0x%x instead of the goal without being flagged (0x%x)", uint32(p[len(p)-1]), st)
			}
			if changes > 0 && len(p) > 2 {
				r.Probe("path-across-changes")
			}
		}
		r.State(s.StateKey(), a, b, args.Opt, sum, len(p), st)
		if changes > 0 {
			r.NonTrivial()
		}
		// the object must be as good as new
		a, ok = s.randPoly()
		b, ok2 = s.randPoly()
		if !ok || !ok2 {
			continue
		}
		g := s.graph()
		pa := pathArgs{A: a, B: b, Ap: s.pointIn(a), Bp: s.pointIn(b), F: f, Nodes: nodes, Big: big}
		if r.Chance(1, 2) {
			s.pathQuery(g, q, pa, f)
			continue
		}
		sa := slicedArgs{pathArgs: pa, QF: f, Opt: args.Opt}
		fresh := newQuery(r, s.M, nodes)
		s.searchAll(q, sa, 1<<30)
		s.searchAll(fresh, sa, 1<<30)
		p1, st1 := finalize(r, q, 8*total+8)
		p2, st2 := finalize(r, fresh, 8*total+8)
		samePath(r, "object-spoiled", "search on the used object compared with a fresh one", s, p2, p1, st2, st1)
	}
}

func init() {
	register(&Prop{ID: "P10", Run: runP10, Quick: 150000, Full: 600000,
		Rule: "Drawn searches (with and without any-angle shortcuts, node budgets from 1 to more than enough) run once in one update on an object of their own and once in drawn slices on a used object with drawn read-only queries in between; iterations, statuses and results are compared, also when taken early, cut by the buffer or taken along an existing path, and checked against reachability, connectivity and filter.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"small-buffer", "out-of-nodes"}})
	register(&Prop{ID: "P11", Run: runP11, Quick: 110000, Full: 600000,
		Rule: "Tiles are removed, added, replaced and restored at drawn moments between the updates of sliced searches and before their results are taken; every connection that existed at any moment is remembered and the result must consist of such connections or be a clean failure; afterwards the object answers another search, compared with a fresh object.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"tile-change", "end-gone"}})
}
