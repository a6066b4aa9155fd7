package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/arl/go-detour/detour"
)

// A step is one thing a task does; it reports all it got back.
type step struct {
	name string
	do   func(t *actor) string
}

// actor is the private state of a task.
type actor struct {
	q    *detour.NavMeshQuery
	hit  *detour.RaycastHit
	path []detour.PolyRef
}

func refList(p []detour.PolyRef) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, " %x", uint32(x))
	}
	return b.String()
}

func hexf(f ...float32) string {
	var b strings.Builder
	for _, x := range f {
		fmt.Fprintf(&b, " %08x", f32bits(x))
	}
	return b.String()
}

// sink keeps what is written.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

// drawStep draws everything a step needs, so that it does the same whenever and
// among whatever it runs.
func (s *Stream) drawStep(qf detour.QueryFilter, other []byte, otherMesh *detour.NavMesh) step {
	r := s.r
	m := s.M
	ida, ok := s.randPoly()
	idb, _ := s.randPoly()
	if !ok {
		return step{"CalcTileLoc", func(*actor) string {
			x, y := m.CalcTileLoc([]float32{1, 2, 3})
			return fmt.Sprint(x, y)
		}}
	}
	ra, rb := s.Ref(ida), s.Ref(idb)
	pa, pb := s.pointIn(ida), s.pointIn(idb)
	loc := ida.Loc
	switch r.Draw(14) {
	case 0, 1:
		max := 1 + r.Draw(40)
		return step{"FindPath", func(t *actor) string {
			buf := make([]detour.PolyRef, max)
			n, st := t.q.FindPath(ra, rb, pa[:], pb[:], qf, buf)
			t.path = buf[:n]
			return fmt.Sprintf("%x%s", uint32(st), refList(buf[:n]))
		}}
	case 2:
		e := [3]float32{s.w.Cs * float32(1+r.Draw(40)), s.w.Cs * float32(1+r.Draw(40)), s.w.Cs * float32(1+r.Draw(40))}
		return step{"FindNearestPoly", func(t *actor) string {
			st, ref, pt := t.q.FindNearestPoly(pa[:], e[:], qf)
			return fmt.Sprintf("%x %x%s", uint32(st), uint32(ref), hexf(pt...))
		}}
	case 3:
		return step{"ClosestPointOnPoly", func(t *actor) string {
			c := make([]float32, 3)
			var o bool
			st := t.q.ClosestPointOnPoly(ra, pb[:], c, &o)
			return fmt.Sprintf("%x%s %v", uint32(st), hexf(c...), o)
		}}
	case 4:
		return step{"ClosestPointOnPolyBoundary", func(t *actor) string {
			c := make([]float32, 3)
			st := t.q.ClosestPointOnPolyBoundary(ra, pb[:], c)
			return fmt.Sprintf("%x%s", uint32(st), hexf(c...))
		}}
	case 5, 6:
		opt := int32(r.Draw(3))
		max := 1 + r.Draw(20)
		return step{"FindStraightPath", func(t *actor) string {
			corr := t.path
			if len(corr) == 0 {
				corr = []detour.PolyRef{ra}
			}
			pts := newPoints(max)
			refs := make([]detour.PolyRef, max)
			fl := make([]uint8, max)
			n, st := t.q.FindStraightPath(pa[:], pb[:], corr, pts, fl, refs, opt)
			out := fmt.Sprintf("%x %d", uint32(st), n)
			for i := 0; i < n; i++ {
				out += hexf(pts[i]...) + fmt.Sprintf(" %x %x", fl[i], uint32(refs[i]))
			}
			return out
		}}
	case 7:
		opt := r.Draw(2)
		max := r.Draw(20)
		return step{"Raycast", func(t *actor) string {
			if len(t.hit.Path) < max {
				t.hit.Path = make([]detour.PolyRef, max)
			}
			t.hit.MaxPath = max
			st := t.q.Raycast(ra, pa[:], pb[:], qf, opt, t.hit, 0)
			return fmt.Sprintf("%x %x%s%s%s", uint32(st), t.hit.HitEdgeIndex, hexf(t.hit.T, t.hit.PathCost), hexf(t.hit.HitNormal...), refList(t.hit.Path[:t.hit.PathCount]))
		}}
	case 8, 9:
		opt := uint32(r.Draw(2)) * 2
		slices := []int{}
		for i := 1 + r.Draw(6); i > 0; i-- {
			slices = append(slices, drawSlice(r))
		}
		max := 1 + r.Draw(40)
		return step{"sliced search", func(t *actor) string {
			st := t.q.InitSlicedFindPath(ra, rb, pa[:], pb[:], qf, opt)
			out := fmt.Sprintf("%x", uint32(st))
			for _, n := range slices {
				done := -1
				st := t.q.UpdateSlicedFindPath(n, &done)
				out += fmt.Sprintf(" %x/%d", uint32(st), done)
			}
			buf := make([]detour.PolyRef, max)
			n, st := t.q.FinalizeSlicedFindPath(buf, max)
			t.path = buf[:n]
			return out + fmt.Sprintf(" %x%s", uint32(st), refList(buf[:n]))
		}}
	case 10:
		return step{"lookups", func(t *actor) string {
			x, y := m.CalcTileLoc(pa[:])
			tl := m.TileAt(loc.X, loc.Y, loc.L)
			out := fmt.Sprint(x, y, tl != nil, m.TileRefAt(loc.X, loc.Y, loc.L))
			tiles := make([]*detour.MeshTile, 8)
			n := m.TilesAt(loc.X, loc.Y, tiles, 8)
			for _, tt := range tiles[:n] {
				out += fmt.Sprintf(" %x", uint32(m.TileRef(tt)))
			}
			var a *detour.MeshTile
			var p *detour.Poly
			st := m.TileAndPolyByRef(rb, &a, &p)
			return out + fmt.Sprintf(" %x %v %v", uint32(st), m.IsValidPolyRef(ra), t.q.IsValidPolyRef(rb, qf))
		}}
	case 11:
		return step{"save", func(t *actor) string {
			k := &sink{}
			err := m.ToWriter(k)
			return fmt.Sprintf("%v %x %d", err, fnv64(k.b), m.Size())
		}}
	case 12:
		if other == nil {
			return step{"Size", func(*actor) string { return fmt.Sprint(m.Size()) }}
		}
		return step{"load", func(t *actor) string {
			x, err := detour.Decode(bytes.NewReader(other))
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%x", fnv64([]byte(dumpMesh(x))))
		}}
	}
	v := s.w.Var[loc][r.Draw(len(s.w.Var[loc]))]
	return step{"create and save", func(t *actor) string {
		data, err := detour.CreateNavMeshData(v.Params)
		out := fmt.Sprintf("%v %v", err, bytes.Equal(data, v.Data))
		if otherMesh != nil {
			k := &sink{}
			err := otherMesh.ToWriter(k)
			out += fmt.Sprintf(" %v %x", err, fnv64(k.b))
		}
		return out
	}}
}

func runP15(r *R) {
	c := defaultCfg()
	c.MaxNX, c.MaxNY = 2, 2
	w := genWorld(r, c)
	s := newStream(r, w, len(w.Locs)+1, drawMaxPolys(r, w, len(w.Locs)+1))
	s.LoadAll()
	s.Churn(r.Draw(4))
	if len(s.Loaded) == 0 {
		s.LoadAll()
	}
	// another mesh, saved
	o := newStream(r, w, len(w.Locs)+1, drawMaxPolys(r, w, len(w.Locs)+1))
	for k := 0; k < 2; k++ {
		l := w.Locs[r.Draw(len(w.Locs))]
		if o.Loaded[l] == nil {
			o.Add(w.Var[l][0], 0)
		}
	}
	other := save(r, o.M)
	nt := 2 + r.Draw(4)
	shared := drawFilter(r)
	sharedStd := shared.std()
	scripts := make([][]step, nt)
	nodes := make([]int32, nt)
	for i := range scripts {
		nodes[i] = int32([]int{64, 8, 512, 16, 3}[r.Draw(5)])
		n := 1 + r.Draw(6)
		var qf detour.QueryFilter = sharedStd
		switch r.Draw(3) {
		case 1:
			qf = drawFilter(r).std()
		case 2:
			qf = drawFilter(r)
		}
		for k := 0; k < n; k++ {
			scripts[i] = append(scripts[i], s.drawStep(qf, other, o.M))
		}
	}
	before, beforeO := dumpMesh(s.M), dumpMesh(o.M)
	play := func(i int, out *[]string) {
		a := &actor{hit: newHit(r, 4)}
		r.Call("NewNavMeshQuery", func() {
			st, q := detour.NewNavMeshQuery(s.M, nodes[i])
			if detour.StatusFailed(st) {
				r.Fail("query-refused", "NewNavMeshQuery with %d nodes: 0x%x", nodes[i], uint32(st))
			}
			a.q = q
		})
		for _, st := range scripts[i] {
			st := st
			r.Call(st.name, func() { *out = append(*out, st.do(a)) })
		}
	}
	alone := make([][]string, nt)
	for i := range scripts {
		play(i, &alone[i])
	}
	if d := dumpMesh(s.M); d != before {
		r.Fail("mesh-changed", "queries changed the mesh: %s", diffText(d, before))
	}
	rounds := 1 + r.Draw(3)
	for k := 0; k < rounds; k++ {
		got := make([][]string, nt)
		fns := make([]func(), nt)
		for i := range fns {
			i := i
			fns[i] = func() { play(i, &got[i]) }
		}
		r.Tasks(400_000_000, []int{20000, 2000, 200, 20}[r.Draw(4)], fns...)
		for i := range scripts {
			for j, st := range scripts[i] {
				if got[i][j] != alone[i][j] {
					r.Fail("influenced", "step %d (%s) of task %d of %d answers %q among the others, %q alone", j, st.name, i, nt, clipped(got[i][j]), clipped(alone[i][j]))
				}
			}
		}
		if d := dumpMesh(s.M); d != before {
			r.Fail("mesh-changed", "queries at the same time changed the mesh: %s", diffText(d, before))
		}
		if d := dumpMesh(o.M); d != beforeO {
			r.Fail("mesh-changed", "saving at the same time changed another mesh: %s", diffText(d, beforeO))
		}
	}
	for i := range scripts {
		n := ""
		for j, st := range scripts[i] {
			n += " " + st.name
			r.mixHash(alone[i][j])
			r.Probe(st.name)
		}
		r.Logf("task %d:%s", i, n)
	}
	r.Logf("%d switches", r.Switches)
	r.State(s.StateKey(), nt, r.Switches)
	if r.Switches > 0 {
		r.Fault("preemption")
	}
}

func fnv64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func clipped(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

func init() {
	register(&Prop{ID: "P15", Run: runP15, Quick: 40000, Full: 300000,
		Rule: "Two to five tasks, each with a query object (and sometimes a filter) of its own on one mesh, perform drawn scripts of path searches (whole and sliced), straight paths, ray casts, nearest and closest point queries, lookups, saves of the mesh, loads and saves of another mesh and tile creation; first one after another, then preempted at drawn statements; every answer must be the same bit for bit and the meshes unchanged.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"preemption"},
		Assume: []string{"preemption happens between statements: data races within one statement are out of reach"}})
}
