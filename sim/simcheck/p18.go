package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
)

// drawBadText is input without geometry, or not a geometry file at all.
func drawBadText(r *R, g *Geo) (string, []byte) {
	lines := strings.Split(string(g.Text), "\n")
	keep := func(p string) string {
		var o []string
		for _, l := range lines {
			if strings.HasPrefix(l, p) {
				o = append(o, l)
			}
		}
		return strings.Join(o, "\n") + "\n"
	}
	ins := func(l string) []byte {
		k := 1 + r.Draw(len(lines))
		if k > len(lines) {
			k = len(lines)
		}
		o := append([]string(nil), lines[:k]...)
		o = append(o, l)
		o = append(o, lines[k:]...)
		return []byte(strings.Join(o, "\n"))
	}
	n := len(g.V)
	switch r.Draw(9) {
	case 0:
		return "empty input", nil
	case 1:
		return "comments only", []byte("# nothing\no nothing\n\n")
	case 2:
		return "vertices only", []byte(keep("v "))
	case 3:
		return "no triangles", []byte(keep("v ") + strings.Repeat("f 1 1\n", 1+r.Draw(3)))
	case 4:
		return "malformed vertex", ins([]string{"v 1 x 2", "v 1.0.0 2 3", "v 1 2 3 4 5"}[r.Draw(3)])
	case 5:
		return "malformed face", ins([]string{"f a b c", "f 1 / 2", "f 1 2 x"}[r.Draw(3)])
	case 6:
		return "face beyond the vertices", []byte(keep("v ") + keep("f ") + fmt.Sprintf("f %d 1 %d\n", 1+r.Draw(n), n+1+r.Draw(3)))
	case 7:
		return "face before the vertices", []byte(keep("f ") + keep("v "))
	}
	return "a line of 70000 bytes", ins("# " + strings.Repeat("x", 70000))
}

var errRead = errors.New("simulated read error")

// loadHist is one builder seeing loads that succeed and loads that fail.
type loadHist struct {
	bldr
	good bool // geometry is loaded
}

// tryLoad makes the builder read from rd.
func (h *loadHist) tryLoad(rd reader) error {
	var err error
	h.r.Call("LoadGeometry", func() { err = h.b.LoadGeometry(rd) })
	return err
}

// checkLoaded compares what was loaded with what the generator put in.
func checkLoaded(r *R, ig *recast.InputGeom, g *Geo, what string) {
	m := ig.Mesh()
	if m == nil {
		r.Fail("not-loaded", "%s succeeded, but there is no geometry", what)
	}
	v, t := m.Verts(), m.Tris()
	if len(v) != 3*len(g.V) || int(m.VertCount()) != len(g.V) {
		r.Fail("geometry", "%s: %d vertices loaded (count %d), the file has %d", what, len(v)/3, m.VertCount(), len(g.V))
	}
	for i := range g.V {
		for k := 0; k < 3; k++ {
			if v[3*i+k] != g.V[i][k] {
				r.Fail("geometry", "%s: vertex %d is %v, the file says %v", what, i, v[3*i:3*i+3], g.V[i])
			}
		}
	}
	if len(t) != 3*len(g.T) || int(m.TriCount()) != len(g.T) {
		r.Fail("geometry", "%s: %d triangles loaded (count %d), the file has %d", what, len(t)/3, m.TriCount(), len(g.T))
	}
	for i := range g.T {
		if t[3*i] != g.T[i][0] || t[3*i+1] != g.T[i][1] || t[3*i+2] != g.T[i][2] {
			r.Fail("geometry", "%s: triangle %d is %v, the file says %v", what, i, t[3*i:3*i+3], g.T[i])
		}
	}
	nm := m.Normals()
	if len(nm) != 3*len(g.T) {
		r.Fail("normals", "%s: %d normals for %d triangles", what, len(nm)/3, len(g.T))
	}
	for i, t := range g.T {
		var a, b [3]float64
		for k := 0; k < 3; k++ {
			a[k] = float64(g.V[t[1]][k]) - float64(g.V[t[0]][k])
			b[k] = float64(g.V[t[2]][k]) - float64(g.V[t[0]][k])
		}
		c := [3]float64{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
		l := math.Sqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2])
		if l < 1e-3 {
			continue
		}
		for k := 0; k < 3; k++ {
			if d := c[k]/l - float64(nm[3*i+k]); !(math.Abs(d) < 1e-3) {
				r.Fail("normals", "%s: triangle %d has normal %v, should be %v over %v", what, i, nm[3*i:3*i+3], c, l)
			}
		}
	}
	for k := 0; k < 3; k++ {
		if ig.MeshBoundsMin()[k] != g.Min[k] || ig.NavMeshBoundsMin()[k] != g.Min[k] || ig.MeshBoundsMax()[k] != g.Max[k] || ig.NavMeshBoundsMax()[k] != g.Max[k] {
			r.Fail("bounds", "%s: bounds %v-%v (mesh %v-%v), the file's are %v-%v", what, ig.MeshBoundsMin(), ig.MeshBoundsMax(), ig.NavMeshBoundsMin(), ig.NavMeshBoundsMax(), g.Min, g.Max)
		}
	}
	if n := ig.ConvexVolumesCount(); n != 0 {
		r.Fail("volumes", "%s: %d marked volumes are left from before", what, n)
	}
	if n := ig.OffMeshConnectionCount(); n != 0 {
		r.Fail("volumes", "%s: %d off-mesh connections are left from before", what, n)
	}
	checkChunks(r, ig, g, what)
}

// checkChunks wants every triangle in the index, once.
func checkChunks(r *R, ig *recast.InputGeom, g *Geo, what string) {
	c := ig.ChunkyMesh()
	if c == nil {
		r.Fail("geometry", "%s: there is no triangle index", what)
	}
	key := func(a, b, c int32) string { return fmt.Sprint(a, ",", b, ",", c) }
	n := map[string]int{}
	for _, t := range g.T {
		n[key(t[0], t[1], t[2])]++
	}
	total := 0
	for i := 0; i+2 < len(c.Tris); i += 3 {
		n[key(c.Tris[i], c.Tris[i+1], c.Tris[i+2])]--
		total++
	}
	for k, v := range n {
		if v != 0 {
			r.Fail("geometry", "%s: the triangle index misses or repeats triangle %s", what, k)
		}
	}
	if total != len(g.T) {
		r.Fail("geometry", "%s: the triangle index has %d triangles instead of %d", what, total, len(g.T))
	}
}

func runP18(r *R) {
	var geos []*Geo
	h := &loadHist{}
	h.r, h.name = r, "builder"
	h.tiled = r.Chance(1, 2)
	h.ctx = drawCtx(r)
	h.b = newBuilder(h.tiled, h.ctx)
	fresh := map[string]*buildJob{}
	failed := false
	judge := func(what string) {
		if !h.good {
			out, ok := h.buildRaw()
			if ok || out != nil {
				r.Fail("built-nothing", "after %s Build reports success %v and gives a mesh %v", what, ok, out != nil)
			}
			r.Probe("build-without-geometry")
			return
		}
		j := h.cur
		k := fmt.Sprintf("%p %+v %v", j.geo, j.set, j.vols)
		if f := fresh[k]; f != nil {
			j.want, j.ok = f.want, f.ok
		} else {
			b := &bldr{r: r, name: "fresh builder", ctx: recast.NewBuildContext(false)}
			b.load(j, &simReader{r: r, data: j.geo.Text, failAt: -1})
			j.want, j.ok = b.build()
			fresh[k] = j
		}
		h.dump = dumpGeom(h.b.InputGeom())
		h.buildAndJudge("after " + what)
		if failed {
			r.Probe("build-after-failure")
		}
	}
	if r.Chance(1, 6) {
		judge("nothing at all")
	}
	ops := 2 + r.Draw(8)
	last := "nothing"
	for i := 0; i < ops; i++ {
		j := drawJob(r, &geos)
		j.tiled = h.tiled
		h.b.SetSettings(j.set)
		what := ""
		switch k := r.Draw(10); {
		case k < 4: // a good load
			rd := drawReader(r, j.geo.Text)
			what = "a complete load"
			if err := h.tryLoad(rd); err != nil {
				r.Fail("load-refused", "geometry refused: %v", err)
			}
			if rd.chunks > 0 {
				r.Fault("short-read")
			}
			checkLoaded(r, h.b.InputGeom(), j.geo, what)
			h.good, h.cur = true, j
			for _, v := range j.vols {
				v.addTo(h.b.InputGeom())
			}
			if failed {
				r.Probe("load-after-failure")
			}
		case k < 7: // the reader fails
			rd := drawReader(r, j.geo.Text)
			n := len(j.geo.Text)
			switch r.Draw(4) {
			case 0:
				rd.failAt = r.Draw(n + 1)
			case 1:
				rd.failAt = n
			case 2:
				rd.failAt = 0
			case 3: // at the end of a line
				rd.failAt = r.Draw(n)
				for rd.failAt > 0 && j.geo.Text[rd.failAt-1] != '\n' {
					rd.failAt--
				}
			}
			rd.err = errRead
			what = fmt.Sprintf("a read error at byte %d of %d", rd.failAt, n)
			if err := h.tryLoad(rd); err == nil {
				r.Fail("failure-hidden", "%s is not reported", what)
			}
			r.Fault("read-error")
			h.good, failed = false, true
		case k < 9: // not geometry
			n, text := drawBadText(r, j.geo)
			what = n
			err := h.tryLoad(drawReader(r, text))
			if err == nil {
				if strings.HasPrefix(n, "a line") && h.b.InputGeom().Mesh() != nil {
					// a loader that copes with long lines is as good
					checkLoaded(r, h.b.InputGeom(), j.geo, what)
					h.good, h.cur = true, j
					j.vols = nil
					break
				}
				r.Fail("failure-hidden", "a load of %s succeeds", n)
			}
			r.Probe("bad: " + n)
			h.good, failed = false, true
			r.NonTrivial()
		default: // only edit or build
			what = last
			if h.good {
				*j = *h.cur
				h.b.SetSettings(j.set)
				v := drawVol(r, j.geo)
				v.addTo(h.b.InputGeom())
				j.vols = append(append([]vol(nil), j.vols...), v)
				h.cur = j
				what = "adding a volume"
			}
		}
		last = what
		r.Logf("%s; geometry %v", what, h.good)
		if h.good {
			h.b.SetSettings(h.cur.set)
		}
		if r.Chance(2, 3) || i == ops-1 {
			judge(what)
		}
		r.State(i, h.good, failed, what)
	}
}

// buildRaw builds without any expectation about the input.
func (h *loadHist) buildRaw() (out []byte, ok bool) {
	var m *detour.NavMesh
	h.r.CallB("Build", buildBudget, func() { m, ok = h.b.Build() })
	if m != nil {
		out = []byte{}
	}
	return
}

func init() {
	register(&Prop{ID: "P18", Run: runP18, Quick: 6000, Full: 100000,
		Rule: "One builder (single mesh or tiled) sees a drawn sequence of complete loads in drawn portions, loads whose reader fails at a drawn byte, inputs without geometry or malformed, volume edits and builds; a complete load must give exactly the vertices, triangles and bounds the generator put in the text, a failed one an error and no mesh from the builds after it, and every build must equal byte for byte the one of a fresh builder.",
		Real: buildReal, Stub: commonStub, FaultKinds: []string{"read-error", "short-read"}})
}
