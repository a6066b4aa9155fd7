package main

import (
	"bytes"
	"fmt"
	"time"

	rt "github.com/arl/go-detour/verifsimrt"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

// buildJob is everything that decides what a build produces.
type buildJob struct {
	tiled bool
	geo   *Geo
	set   recast.BuildSettings
	vols  []vol
	want  []byte // what a build alone makes of it
	ok    bool
}

func (j *buildJob) String() string {
	return fmt.Sprintf("tiled %v, %d vertices, %d triangles, %d volumes, cell %v tile %v", j.tiled, len(j.geo.V), len(j.geo.T), len(j.vols), j.set.CellSize, j.set.TileSize)
}

func drawJob(r *R, geos *[]*Geo) *buildJob {
	j := &buildJob{tiled: r.Chance(1, 2)}
	if len(*geos) > 0 && r.Chance(1, 3) {
		j.geo = (*geos)[r.Draw(len(*geos))]
	} else {
		j.geo = genGeo(r, geoCfg{MaxN: 4, Flat: r.Chance(1, 4)})
		*geos = append(*geos, j.geo)
	}
	j.set = drawSettings(r)
	fitSettings(j.geo, &j.set, 56)
	if r.Chance(1, 2) {
		for n := 1 + r.Draw(4); n > 0; n-- {
			j.vols = append(j.vols, drawVol(r, j.geo))
		}
	}
	return j
}

// dumpGeom renders all a builder holds as input.
func dumpGeom(g *recast.InputGeom) string {
	m := g.Mesh()
	if m == nil {
		return "none"
	}
	s := fmt.Sprintf("verts %x\ntris %v\nnormals %x\nscale %v\n", bits(m.Verts()), m.Tris(), bits(m.Normals()), m.Scale())
	s += fmt.Sprintf("bounds %x %x %x %x\n", bits(g.MeshBoundsMin()), bits(g.MeshBoundsMax()), bits(g.NavMeshBoundsMin()), bits(g.NavMeshBoundsMax()))
	s += fmt.Sprintf("volumes %d %v\n", g.ConvexVolumesCount(), g.ConvexVolumes()[:g.ConvexVolumesCount()])
	if c := g.ChunkyMesh(); c != nil {
		s += fmt.Sprintf("chunks %v\n", *c)
	}
	s += fmt.Sprintf("off-mesh %d\n", g.OffMeshConnectionCount())
	return s
}

// bldr is one builder in use.
type bldr struct {
	r     *R
	name  string
	ctx   *recast.BuildContext
	tiled bool
	b     builder
	cur   *buildJob
	dump  string
	n     int
}

// load makes the builder hold a job's input.
func (b *bldr) load(j *buildJob, rd reader) {
	r := b.r
	if b.b == nil || b.tiled != j.tiled {
		b.b, b.tiled = newBuilder(j.tiled, b.ctx), j.tiled
	}
	b.b.SetSettings(j.set)
	var err error
	r.Call("LoadGeometry", func() { err = b.b.LoadGeometry(rd) })
	if err != nil {
		r.Fail("load-refused", "%s: geometry refused: %v", b.name, err)
	}
	for _, v := range j.vols {
		v.addTo(b.b.InputGeom())
	}
	b.cur = j
	b.dump = dumpGeom(b.b.InputGeom())
}

// build builds and returns the saved mesh.
func (b *bldr) build() ([]byte, bool) {
	r := b.r
	var m *detour.NavMesh
	ok := false
	r.CallB("Build", buildBudget, func() { m, ok = b.b.Build() })
	b.n++
	if d := dumpGeom(b.b.InputGeom()); d != b.dump {
		r.Fail("input-changed", "%s: build %d changed its input: %s", b.name, b.n, diffText(d, b.dump))
	}
	if !ok {
		return nil, false
	}
	if m == nil {
		r.Fail("no-mesh", "%s: Build reports success without a mesh", b.name)
	}
	return save(r, m), true
}

// buildAndJudge builds and compares with the build alone.
func (b *bldr) buildAndJudge(where string) {
	got, ok := b.build()
	j := b.cur
	if ok != j.ok {
		b.r.Fail("differs", "%s, %s: build %d ends with %v, alone with %v (%s)", b.name, where, b.n, ok, j.ok, j)
	}
	if !bytes.Equal(got, j.want) {
		b.r.Fail("differs", "%s, %s: build %d makes another mesh than a build alone: %s (%s)", b.name, where, b.n, bytesDiff(got, j.want), j)
	}
}

func bytesDiff(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return fmt.Sprintf("%d and %d bytes, equal up to %d", len(a), len(b), n)
}

// drawClock makes the clock move as drawn while builds read it.
func drawClock(r *R, back bool) {
	n := 1 + r.Draw(6)
	steps := make([]time.Duration, n)
	kind := r.Draw(4)
	for i := range steps {
		switch kind {
		case 1:
			steps[i] = time.Duration(r.Draw(1000)) * time.Microsecond
		case 2:
			steps[i] = time.Duration(r.Draw(1000)) * time.Hour
		case 3:
			steps[i] = time.Duration(r.Draw(2000)) * time.Millisecond
			if back && r.Chance(1, 3) {
				steps[i] = -steps[i]
			}
		}
		if steps[i] < 0 {
			r.Fault("clock-back")
		} else if steps[i] >= time.Hour {
			r.Fault("clock-jump")
		}
	}
	i := 0
	rt.ClockTick = func() time.Duration { i++; return steps[i%n] }
}

func drawCtx(r *R) *recast.BuildContext {
	c := recast.NewBuildContext(r.Chance(1, 2))
	if r.Chance(1, 2) {
		c.EnableLog(r.Chance(1, 2))
		c.EnableTimer(r.Chance(1, 2))
	}
	if r.Chance(1, 6) {
		for i := 0; i < 1000; i++ {
			c.Progressf("earlier message %d", i)
		}
		r.Probe("log-full")
	}
	return c
}

func runP17(r *R) {
	var geos []*Geo
	var jobs []*buildJob
	for n := 1 + r.Draw(4); n > 0; n-- {
		jobs = append(jobs, drawJob(r, &geos))
	}
	// alone, in a fresh builder, with everything off and the clock standing still
	for _, j := range jobs {
		b := &bldr{r: r, name: "builder alone", ctx: recast.NewBuildContext(false)}
		b.load(j, &simReader{r: r, data: j.geo.Text, failAt: -1})
		j.want, j.ok = b.build()
		r.Logf("%s: %v, %d bytes %x", j, j.ok, len(j.want), fnv64(j.want))
	}
	type act struct {
		job   *buildJob
		again int
		flip  int
		rd    *simReader
	}
	nt := 1 + r.Draw(4)
	if nt > 1 {
		r.NonTrivial()
	}
	fns := make([]func(), nt)
	for i := range fns {
		b := &bldr{r: r, name: fmt.Sprintf("builder %d of %d", i, nt), ctx: drawCtx(r)}
		var acts []act
		for n := 1 + r.Draw(3); n > 0; n-- {
			j := jobs[r.Draw(len(jobs))]
			a := act{job: j, again: r.Draw(3), flip: r.Draw(6), rd: drawReader(r, j.geo.Text)}
			if a.rd.mode > 1 {
				a.rd.mode = 0 // slow delivery is P18's business
			}
			acts = append(acts, a)
		}
		fns[i] = func() {
			for k, a := range acts {
				switch a.flip {
				case 1:
					b.ctx.EnableLog(k%2 == 0)
				case 2:
					b.ctx.EnableTimer(k%2 == 0)
				case 3:
					b.ctx.ResetLog()
					b.ctx.ResetTimers()
				}
				b.load(a.job, a.rd)
				b.buildAndJudge("first build")
				for n := 0; n < a.again; n++ {
					r.Probe("same-builder-again")
					r.NonTrivial()
					b.buildAndJudge("built again")
				}
			}
			if b.n > 1 {
				r.Probe("builder-reused")
			}
		}
	}
	drawClock(r, true)
	r.Tasks(8_000_000_000, []int{2000000, 200000, 20000, 2000}[r.Draw(4)], fns...)
	rt.ClockTick = nil
	if r.Switches > 0 {
		r.Fault("preemption")
	}
	r.Logf("%d builders, %d switches, %d clock readings", nt, r.Switches, rt.ClockReads)
	r.State(nt, len(jobs), r.Switches, jobs[0].String())
}

func init() {
	register(&Prop{ID: "P17", Run: runP17, Quick: 4000, Full: 40000,
		Rule: "One to four builders (single mesh and tiled, with settings, geometry and marked volumes drawn, some shared) load and build, again and again and one input after the other, preempted at drawn statements, with logging and timers switched as drawn and the clock standing still, running, jumping or going back; every mesh must equal byte for byte the one a fresh builder makes of the same input alone, and the input a builder holds must be the same after the build.",
		Real: buildReal, Stub: commonStub, FaultKinds: []string{"preemption", "clock-jump", "clock-back"},
		Assume: []string{"preemption happens between statements: data races within one statement are out of reach"}})
}
