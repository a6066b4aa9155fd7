package main

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	rt "github.com/arl/go-detour/verifsimrt"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

// stmtClock makes simulated time pass with every statement executed, and
// lets the harness make it jump.
type stmtClock struct {
	s0    int64
	rate  time.Duration
	extra time.Duration
}

func newStmtClock(r *R) *stmtClock {
	c := &stmtClock{s0: rt.Steps(), rate: []time.Duration{0, 1, 13, time.Microsecond, 3 * time.Millisecond}[r.Draw(5)]}
	rt.ClockTick = func() time.Duration { return c.now() - rt.Clock }
	return c
}

func (c *stmtClock) now() time.Duration { return c.extra + time.Duration(rt.Steps()-c.s0)*c.rate }

// span is a time known to lie within bounds.
type span struct{ lo, hi time.Duration }

func (s span) has(d time.Duration) bool { return s.lo <= d && d <= s.hi }

// ctxModel is what a build context has to remember.
type ctxModel struct {
	r       *R
	name    string
	ctx     *recast.BuildContext
	clk     *stmtClock
	log     []string
	logOn   bool
	timeOn  bool
	started map[recast.TimerLabel]span
	touched map[recast.TimerLabel]bool // started since the last reset
	acc     map[recast.TimerLabel]span
}

const logCap = 1000

func newCtxModel(r *R, name string, clk *stmtClock) *ctxModel {
	m := &ctxModel{r: r, name: name, clk: clk}
	on := r.Chance(2, 3)
	m.ctx = recast.NewBuildContext(on)
	m.logOn, m.timeOn = on, on
	m.started = map[recast.TimerLabel]span{}
	m.reset()
	return m
}

func (m *ctxModel) reset() {
	m.touched, m.acc = map[recast.TimerLabel]bool{}, map[recast.TimerLabel]span{}
	for l := range m.started {
		m.touched[l] = true // runs on
	}
}

// at runs a call and returns the span of time it took place in.
func (m *ctxModel) at(f func()) span {
	s := span{lo: m.clk.now()}
	f()
	s.hi = m.clk.now()
	return s
}

func (m *ctxModel) start(l recast.TimerLabel) {
	s := m.at(func() { m.ctx.StartTimer(l) })
	if m.timeOn {
		m.started[l] = s
		m.touched[l] = true
	}
}

func (m *ctxModel) stop(l recast.TimerLabel) {
	s := m.at(func() { m.ctx.StopTimer(l) })
	if !m.timeOn {
		return
	}
	b, ok := m.started[l]
	if !ok {
		m.r.Probe("stop-without-start")
		return
	}
	delete(m.started, l)
	a := m.acc[l]
	if s.lo > b.hi {
		a.lo += s.lo - b.hi
	}
	a.hi += s.hi - b.lo
	m.acc[l] = a
}

// want tells which values a timer may have.
func (m *ctxModel) want(l recast.TimerLabel) span {
	a, used := m.acc[l]
	switch {
	case !m.timeOn:
		return span{-1, -1}
	case used:
		return a
	case m.touched[l]:
		return span{-1, 0} // running for the first time
	}
	return span{-1, -1}
}

func (m *ctxModel) checkTimer(l recast.TimerLabel) {
	w := m.want(l)
	got := m.ctx.AccumulatedTime(l)
	if !w.has(got) {
		m.r.Fail("timer", "%s: timer %d has accumulated %d ns, expected %s (timers on: %v, running: %v)", m.name, l, int64(got), w, m.timeOn, m.started)
	}
}

func (s span) String() string {
	if s.lo == s.hi {
		return fmt.Sprintf("%d ns", int64(s.lo))
	}
	return fmt.Sprintf("%d to %d ns", int64(s.lo), int64(s.hi))
}

func (m *ctxModel) add(prefix, text string) {
	if m.logOn && len(m.log) < logCap {
		m.log = append(m.log, prefix+text)
	} else if m.logOn {
		m.r.Probe("log-full")
	}
}

func (m *ctxModel) checkLog() {
	if n := m.ctx.LogCount(); n != len(m.log) {
		m.r.Fail("log", "%s: %d messages, expected %d (logging on: %v)", m.name, n, len(m.log), m.logOn)
	}
	for i, w := range m.log {
		if g := m.ctx.LogText(int32(i)); g != w {
			m.r.Fail("log", "%s: message %d is %q, expected %q", m.name, i, g, w)
		}
	}
}

// fullWriter takes so many bytes, then fails.
type fullWriter struct {
	b    []byte
	left int
	err  error
}

func (w *fullWriter) Write(p []byte) (int, error) {
	if w.left < 0 || w.left >= len(p) {
		if w.left >= 0 {
			w.left -= len(p)
		}
		w.b = append(w.b, p...)
		return len(p), nil
	}
	n := w.left
	w.b = append(w.b, p[:n]...)
	w.left = 0
	return n, w.err
}

func (m *ctxModel) dump(failAt int, header string, args []interface{}, headText string) {
	w := &fullWriter{left: failAt, err: errors.New("no more")}
	m.ctx.DumpLog(w, header, args...)
	want := headText + "\n"
	for _, s := range m.log {
		want += s + "\n"
	}
	if failAt >= 0 && failAt < len(want) {
		m.r.Fault("write-error")
		if !strings.HasPrefix(want, string(w.b)) {
			m.r.Fail("dump", "%s: the dump to a writer failing after %d bytes is not the beginning of the log: %s", m.name, failAt, diffText(string(w.b), want))
		}
		return
	}
	if string(w.b) != want {
		m.r.Fail("dump", "%s: the dump is not the log: %s", m.name, diffText(string(w.b), want))
	}
}

// timerNames are the timers the summary of build times reports.
var timerNames = []struct {
	name string
	l    recast.TimerLabel
}{
	{"Rasterize", recast.TimerRasterizeTriangles}, {"Build Compact", recast.TimerBuildCompactHeightfield},
	{"Filter Border", recast.TimerFilterBorder}, {"Filter Walkable", recast.TimerFilterWalkable},
	{"Erode Area", recast.TimerErodeArea}, {"Median Area", recast.TimerMedianArea},
	{"Mark Box Area", recast.TimerMarkBoxArea}, {"Mark Convex Area", recast.TimerMarkConvexPolyArea},
	{"Mark Cylinder Area", recast.TimerMarkCylinderArea}, {"Build Distance Field", recast.TimerBuildDistanceField},
	{"Distance", recast.TimerBuildDistanceFieldDist}, {"Blur", recast.TimerBuildDistanceFieldBlur},
	{"Build Regions", recast.TimerBuildRegions}, {"Watershed", recast.TimerBuildRegionsWatershed},
	{"Expand", recast.TimerBuildRegionsExpand}, {"Find Basins", recast.TimerBuildRegionsFlood},
	{"Filter", recast.TimerBuildRegionsFilter}, {"Build Layers", recast.TimerBuildLayers},
	{"Build Contours", recast.TimerBuildContours}, {"Trace", recast.TimerBuildContoursTrace},
	{"Simplify", recast.TimerBuildContoursSimplify}, {"Build Polymesh", recast.TimerBuildPolymesh},
	{"Build Polymesh Detail", recast.TimerBuildPolyMeshDetail}, {"Merge Polymeshes", recast.TimerMergePolymesh},
	{"Merge Polymesh Details", recast.TimerMergePolyMeshDetail},
}

var timeLine = regexp.MustCompile(`^PROG\s+- ([A-Za-z ]+?)\s*:\s*([-0-9.]+)ms\s*\(([-+0-9.a-zA-Z]+)%\)$`)

// summary judges the lines a summary of build times added to the log.
func summary(r *R, who string, lines []string, want func(l recast.TimerLabel) span, total time.Duration) {
	seen := map[string]bool{}
	last := -1
	for _, ln := range lines {
		f := timeLine.FindStringSubmatch(ln)
		if f == nil {
			continue
		}
		at := -1
		for i, t := range timerNames {
			if t.name == f[1] {
				at = i
			}
		}
		if at < 0 || seen[f[1]] {
			r.Fail("summary", "%s: unexpected or repeated line %q", who, ln)
		}
		_ = last
		seen[f[1]] = true
		w := want(timerNames[at].l)
		ms, err := strconv.ParseFloat(f[2], 64)
		if err != nil || w.hi < 0 || ms < float64(w.lo)/1e6-0.0051 || ms > float64(w.hi)/1e6+0.0051 {
			r.Fail("summary", "%s: line %q, but the timer has %s", who, ln, w)
		}
		if total > 0 {
			pc, err := strconv.ParseFloat(f[3], 64)
			k := 100 / float64(total)
			if err != nil || pc < float64(w.lo)*k*(1-1e-9)-0.051 || pc > float64(w.hi)*k*(1+1e-9)+0.051 {
				r.Fail("summary", "%s: line %q, but the timer has %s of %d ns", who, ln, w, int64(total))
			}
		}
	}
	for _, t := range timerNames {
		if w := want(t.l); w.lo >= 0 && !seen[t.name] {
			r.Fail("summary", "%s: no line for %s, which took %s, in\n%s", who, t.name, w, strings.Join(lines, "\n"))
		} else if w.hi < 0 && seen[t.name] {
			r.Fail("summary", "%s: a line for %s, which did not run", who, t.name)
		}
	}
}

func (m *ctxModel) summarise(total time.Duration) {
	before := m.ctx.LogCount()
	recast.LogBuildTimes(m.ctx, total)
	after := m.ctx.LogCount()
	if !m.logOn {
		return // checked by checkLog
	}
	var lines []string
	for i := before; i < after; i++ {
		lines = append(lines, m.ctx.LogText(int32(i)))
		if !strings.HasPrefix(lines[i-before], "PROG ") {
			m.r.Fail("summary", "%s: %q is not a progress message", m.name, lines[i-before])
		}
	}
	m.log = append(m.log, lines...)
	if after == logCap {
		return // cut short
	}
	summary(m.r, m.name, lines, m.want, total)
	m.r.Probe("summary")
	if tot := fmt.Sprint(total); len(lines) == 0 || !strings.Contains(lines[len(lines)-1], tot) {
		m.r.Fail("summary", "%s: the summary does not end with the total %s: %q", m.name, tot, lines)
	}
}

// ctxOp is one drawn use of a context.
type ctxOp struct {
	k, n  int
	l     recast.TimerLabel
	d     time.Duration
	on    bool
	fail  int
	total time.Duration
}

func drawCtxOp(r *R, labels []recast.TimerLabel) ctxOp {
	o := ctxOp{k: r.Draw(20), l: labels[r.Draw(len(labels))], n: r.Draw(6), on: r.Chance(1, 2), fail: -1}
	switch o.k {
	case 13:
		o.d = []time.Duration{1, time.Microsecond, 17 * time.Millisecond, time.Hour, 1000 * time.Hour}[r.Draw(5)] * time.Duration(1+r.Draw(9))
	case 12:
		o.n = []int{1, 3, 10, 1, 5, 400, 999, 1001}[r.Draw(8)]
	case 17:
		if r.Chance(1, 3) {
			o.fail = r.Draw(200)
		}
	case 18:
		o.total = []time.Duration{0, 1, time.Millisecond, 90 * time.Second, -1}[r.Draw(5)] * time.Duration(1+r.Draw(4))
	}
	return o
}

var ctxOpNames = []string{"start", "start", "start", "stop", "stop", "stop", "time?", "time?", "time?", "progress", "warning", "error", "burst", "clock", "enable log", "enable timers", "reset", "dump", "summary", "log?"}

func (m *ctxModel) do(o ctxOp) {
	m.r.Logf("%s: %s timer %d n %d %v %v %v", m.name, ctxOpNames[o.k], o.l, o.n, o.d+o.total, o.on, o.fail)
	switch o.k {
	case 0, 1, 2:
		m.start(o.l)
	case 3, 4, 5:
		m.stop(o.l)
	case 6, 7, 8:
		m.checkTimer(o.l)
	case 9:
		m.ctx.Progressf("step %d of %s%%", o.n, "work")
		m.add("PROG ", fmt.Sprintf("step %d of work%%", o.n))
	case 10:
		m.ctx.Warningf("no arguments")
		m.add("WARN ", "no arguments")
	case 11:
		m.ctx.Errorf("%v\n%5.1f|%s", o.on, float64(o.n)/3, "")
		m.add("ERR ", fmt.Sprintf("%v\n%5.1f|", o.on, float64(o.n)/3))
	case 12:
		for i := 0; i < o.n; i++ {
			m.ctx.Progressf("burst %d", i)
			m.add("PROG ", fmt.Sprintf("burst %d", i))
		}
	case 13:
		m.clk.extra += o.d
		m.r.Fault("clock-jump")
	case 14:
		m.ctx.EnableLog(o.on)
		m.logOn = o.on
	case 15:
		m.ctx.EnableTimer(o.on)
		m.timeOn = o.on
	case 16:
		if o.on {
			m.ctx.ResetLog()
			if m.logOn {
				m.log = nil
			}
		} else {
			m.ctx.ResetTimers()
			if m.timeOn {
				m.reset()
			}
		}
	case 17:
		if o.on {
			m.dump(o.fail, "", nil, "")
		} else {
			m.dump(o.fail, "tile (%d,%d): 100%%", []interface{}{o.n, -1}, fmt.Sprintf("tile (%d,-1): 100%%", o.n))
		}
	case 18:
		m.summarise(o.total)
	case 19:
		m.checkLog()
	}
}

func runContexts(r *R) {
	clk := newStmtClock(r)
	nt := 1 + r.Draw(4)
	var labels []recast.TimerLabel
	for n := 1 + r.Draw(4); n > 0; n-- {
		labels = append(labels, []recast.TimerLabel{recast.TimerTotal, recast.TimerMergePolyMeshDetail}[r.Draw(2)])
		if r.Chance(2, 3) {
			labels[len(labels)-1] = recast.TimerLabel(r.Draw(recast.TimerMergePolyMeshDetail + 1))
		}
	}
	ms := make([]*ctxModel, nt)
	fns := make([]func(), nt)
	n := 0
	for i := range fns {
		m := newCtxModel(r, fmt.Sprintf("context %d of %d", i, nt), clk)
		ms[i] = m
		var ops []ctxOp
		for k := 5 + r.Draw(40); k > 0; k-- {
			ops = append(ops, drawCtxOp(r, labels))
		}
		n += len(ops)
		fns[i] = func() {
			for _, o := range ops {
				m.do(o)
				rt.Pause()
			}
		}
	}
	r.Tasks(50_000_000, []int{200, 20, 4}[r.Draw(3)], fns...)
	for _, m := range ms {
		m.checkLog()
		for l := recast.TimerLabel(0); l <= recast.TimerMergePolyMeshDetail; l++ {
			m.checkTimer(l)
		}
	}
	if r.Switches > 0 && nt > 1 {
		r.Fault("preemption")
	}
	r.Logf("%d contexts, %d operations, %d switches, clock %v", nt, n, r.Switches, clk.rate)
	r.State(nt, fmt.Sprint(ms[0].log), fmt.Sprint(ms[0].acc))
	r.NonTrivial()
}

// runStages runs the stages of a build one by one and compares the time each
// records with the time it took.
func runStages(r *R) {
	g := genGeo(r, geoCfg{MaxN: 3, Flat: r.Chance(1, 4)})
	set := drawSettings(r)
	fitSettings(g, &set, 32)
	clk := newStmtClock(r)
	if clk.rate == 0 {
		clk.rate = 7
	}
	ctx := recast.NewBuildContext(true)
	ctx.EnableLog(r.Chance(1, 2))
	acc := func() (a [recast.TimerMergePolyMeshDetail + 1]time.Duration) {
		for l := range a {
			a[l] = ctx.AccumulatedTime(recast.TimerLabel(l))
		}
		return
	}
	off := false
	// stage runs a stage; sub are timers of its parts
	stage := func(name string, l recast.TimerLabel, sub []recast.TimerLabel, f func()) {
		if r.Chance(1, 8) {
			off = !off
			ctx.EnableTimer(!off)
		}
		if r.Chance(1, 8) {
			ctx.ResetTimers()
		}
		before := acc()
		t0 := clk.now()
		r.CallB(name, buildBudget, f)
		took := clk.now() - t0
		after := acc()
		if off {
			for i := range after {
				if after[i] != -1 {
					r.Fail("stage", "%s: timer %d has %d ns with timers off", name, i, int64(after[i]))
				}
			}
			r.Probe("timers-off")
			return
		}
		was := before[l]
		if was < 0 {
			was = 0
		}
		d := after[l] - was
		// calling and returning cost a few statements
		if slack := 200 * clk.rate; d > took || d < took/2-slack || after[l] < 0 {
			r.Fail("stage", "%s took %d ns, but its timer went from %d to %d ns", name, int64(took), int64(before[l]), int64(after[l]))
		}
		parts := time.Duration(0)
		for i := range after {
			if recast.TimerLabel(i) == l {
				continue
			}
			part := false
			for _, s := range sub {
				part = part || recast.TimerLabel(i) == s
			}
			if !part {
				if after[i] != before[i] {
					r.Fail("stage", "%s changed timer %d from %d to %d ns", name, i, int64(before[i]), int64(after[i]))
				}
				continue
			}
			p := after[i]
			if before[i] > 0 {
				p -= before[i]
			}
			if p > 0 {
				parts += p
			}
		}
		if parts > d {
			r.Fail("stage", "%s: its parts took %d of %d ns", name, int64(parts), int64(d))
		}
		r.Probe("stage " + name)
		r.Logf("%s %d ns", name, int64(d))
	}

	b := newBuilder(false, recast.NewBuildContext(false))
	var err error
	r.Call("LoadGeometry", func() { err = b.LoadGeometry(&simReader{r: r, data: g.Text, failAt: -1}) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	geo := b.InputGeom()
	mesh := geo.Mesh()
	bmin, bmax := geo.NavMeshBoundsMin(), geo.NavMeshBoundsMax()
	w, h := recast.CalcGridSize(bmin[:], bmax[:], set.CellSize)
	if w <= 0 || h <= 0 {
		r.Skip("no cells")
	}
	climb, height := int32(set.AgentMaxClimb/set.CellHeight), int32(set.AgentHeight/set.CellHeight)+1
	areas := make([]uint8, mesh.TriCount())
	recast.MarkWalkableTriangles(ctx, set.AgentMaxSlope, mesh.Verts(), mesh.VertCount(), mesh.Tris(), mesh.TriCount(), areas)
	var hf *recast.Heightfield
	r.Call("NewHeightfield", func() { hf = recast.NewHeightfield(w, h, bmin[:], bmax[:], set.CellSize, set.CellHeight) })
	stage("RasterizeTriangles", recast.TimerRasterizeTriangles, nil, func() {
		recast.RasterizeTriangles(ctx, mesh.Verts(), mesh.VertCount(), mesh.Tris(), areas, mesh.TriCount(), hf, climb)
	})
	if r.Chance(1, 3) {
		v := mesh.Verts()
		t := mesh.Tris()
		stage("RasterizeTriangle", recast.TimerRasterizeTriangles, nil, func() {
			recast.RasterizeTriangle(ctx, v[t[0]*3:t[0]*3+3], v[t[1]*3:t[1]*3+3], v[t[2]*3:t[2]*3+3], areas[0], hf, climb)
		})
		var soup []float32
		for _, i := range t {
			soup = append(soup, v[i*3:i*3+3]...)
		}
		stage("RasterizeTriangles2", recast.TimerRasterizeTriangles, nil, func() {
			recast.RasterizeTriangles2(ctx, soup, areas, mesh.TriCount(), hf, climb)
		})
	}
	stage("FilterLowHangingWalkableObstacles", recast.TimerFilterLowObstacles, nil, func() { recast.FilterLowHangingWalkableObstacles(ctx, climb, hf) })
	stage("FilterLedgeSpans", recast.TimerFilterBorder, nil, func() { recast.FilterLedgeSpans(ctx, height, climb, hf) })
	stage("FilterWalkableLowHeightSpans", recast.TimerFilterWalkable, nil, func() { recast.FilterWalkableLowHeightSpans(ctx, height, hf) })
	chf := &recast.CompactHeightfield{}
	ok := true
	stage("BuildCompactHeightfield", recast.TimerBuildCompactHeightfield, nil, func() { ok = recast.BuildCompactHeightfield(ctx, height, climb, hf, chf) })
	if !ok {
		return
	}
	stage("ErodeWalkableArea", recast.TimerErodeArea, nil, func() { recast.ErodeWalkableArea(ctx, int32(set.AgentRadius/set.CellSize+0.99), chf) })
	for n := r.Draw(3); n > 0; n-- {
		v := drawVol(r, g)
		stage("MarkConvexPolyArea", recast.TimerMarkConvexPolyArea, nil, func() {
			recast.MarkConvexPolyArea(ctx, v.V, int32(len(v.V)/3), v.Lo, v.Hi, v.Area, chf)
		})
	}
	stage("BuildRegionsMonotone", recast.TimerBuildRegions, []recast.TimerLabel{recast.TimerBuildRegionsFilter}, func() {
		ok = recast.BuildRegionsMonotone(ctx, chf, 0, int32(set.RegionMinSize*set.RegionMinSize), int32(set.RegionMergeSize*set.RegionMergeSize))
	})
	if !ok {
		return
	}
	cset := &recast.ContourSet{}
	stage("BuildContours", recast.TimerBuildContours, []recast.TimerLabel{recast.TimerBuildContoursTrace, recast.TimerBuildContoursSimplify}, func() {
		ok = recast.BuildContours(ctx, chf, set.EdgeMaxError, int32(set.EdgeMaxLen/set.CellSize), cset, recast.ContourTessWallEdges)
	})
	if !ok || cset.NConts == 0 {
		return
	}
	var pm *recast.PolyMesh
	stage("BuildPolyMesh", recast.TimerBuildPolymesh, nil, func() { pm, ok = recast.BuildPolyMesh(ctx, cset, int32(set.VertsPerPoly)) })
	if !ok {
		return
	}
	stage("BuildPolyMeshDetail", recast.TimerBuildPolyMeshDetail, nil, func() {
		recast.BuildPolyMeshDetail(ctx, pm, chf, set.CellSize*set.DetailSampleDist, set.CellHeight*set.DetailSampleMaxError)
	})
	r.NonTrivial()
	r.State(w, h, pm.NPolys, fmt.Sprint(acc()))
}

// runSummary lets whole builds report their times.
func runSummary(r *R) {
	var geos []*Geo
	j := drawJob(r, &geos)
	clk := newStmtClock(r)
	ctx := recast.NewBuildContext(true)
	timers := true
	b := &bldr{r: r, name: "builder", ctx: ctx}
	b.load(j, &simReader{r: r, data: j.geo.Text, failAt: -1})
	for n := 1 + r.Draw(3); n > 0; n-- {
		ctx.ResetLog()
		if r.Chance(1, 4) {
			timers = !timers
			ctx.EnableTimer(timers)
		}
		clk.rate = []time.Duration{1, 13, time.Microsecond, 50 * time.Microsecond}[r.Draw(4)]
		t0 := clk.now()
		// the summary describes this build only, so nothing of earlier ones
		// may remain in it
		var m *detour.NavMesh
		ok := false
		r.CallB("Build", buildBudget, func() { m, ok = b.b.Build() })
		_ = m
		took := clk.now() - t0
		at := -1
		cnt := ctx.LogCount()
		end := -1
		for i := 0; i < cnt; i++ {
			s := ctx.LogText(int32(i))
			if strings.HasSuffix(s, "Build Times") {
				at, end = i, -1
			}
			if strings.Contains(s, "TOTAL") {
				end = i
			}
			if strings.HasPrefix(s, "PROG ") == strings.HasPrefix(s, "ERR ") && !strings.HasPrefix(s, "WARN ") {
				r.Fail("log", "message %d, %q, has no category", i, s)
			}
		}
		r.Logf("build %v in %v, %d messages", ok, took, cnt)
		if cnt == logCap {
			r.Probe("log-full")
			continue
		}
		if at < 0 || end < at {
			if ok && !j.tiled {
				r.Fail("summary", "no summary of build times in the log of a build that succeeded")
			}
			continue
		}
		var lines []string
		for i := at; i <= end; i++ {
			lines = append(lines, ctx.LogText(int32(i)))
		}
		total := ctx.AccumulatedTime(recast.TimerTotal)
		want := func(l recast.TimerLabel) span { t := ctx.AccumulatedTime(l); return span{t, t} }
		if !timers {
			total = -1
		} else if j.tiled {
			// the last tile of the build may have been left early
			if t := ctx.AccumulatedTime(recast.TimerTemp); t > took || t < took/2-time.Duration(200)*clk.rate {
				r.Fail("summary", "the build took %v, but its timer says %v", took, t)
			}
			if !strings.Contains(lines[len(lines)-1], fmt.Sprint(total)) {
				continue
			}
		} else if total < 0 || total > took || total < took/2-200*clk.rate {
			r.Fail("summary", "the build took %v, but its timer says %v", took, total)
		}
		summary(r, "builder", lines, want, total)
		if timers {
			parts := time.Duration(0)
			for _, l := range []recast.TimerLabel{recast.TimerRasterizeTriangles, recast.TimerFilterLowObstacles, recast.TimerFilterBorder, recast.TimerFilterWalkable, recast.TimerBuildCompactHeightfield, recast.TimerErodeArea, recast.TimerMarkConvexPolyArea, recast.TimerBuildRegions, recast.TimerBuildContours, recast.TimerBuildPolymesh, recast.TimerBuildPolyMeshDetail} {
				if t := ctx.AccumulatedTime(l); t >= 0 {
					parts += t
				} else if l != recast.TimerMarkConvexPolyArea && ok && !j.tiled {
					r.Fail("summary", "a build that succeeded has no time for timer %d", l)
				}
			}
			if parts > total {
				r.Fail("summary", "the stages took %v of %v", parts, total)
			}
			r.Probe("build-summary")
		}
		r.NonTrivial()
		r.State(j.String(), cnt, len(lines))
	}
}

func runP20(r *R) {
	switch k := r.Draw(32); {
	case k < 26:
		runContexts(r)
	case k < 30:
		runStages(r)
	default:
		runSummary(r)
	}
	rt.ClockTick = nil
}

func init() {
	register(&Prop{ID: "P20", Run: runP20, Quick: 100000, Full: 2500000,
		Rule: "Up to four contexts are used at the same time by preempted tasks (timers started and stopped in any order, switched, reset; messages of every category, bursts past the capacity, dumps to failing writers, summaries) while every statement takes a drawn amount of simulated time and the clock jumps; every reading must equal a reference timer (exactly, or within the time a preempted call took) and every message the reference log. The stages of a build and whole builds run with every statement taking simulated time: each stage's own timer must account for the time the stage took, no other timer may move, and the summary in the log must report exactly the timers that ran.",
		Real: append([]string{"recast: BuildContext, LogBuildTimes"}, buildReal...), Stub: commonStub, FaultKinds: []string{"preemption", "clock-jump", "write-error"},
		Assume: []string{"a timer started while running starts anew; a reset does not stop a running timer (the tile builder relies on it)", "one context is used by one task at a time"}})
}
