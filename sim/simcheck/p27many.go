package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
)

// runMany builds a floor of thousands of islands, which need more vertices,
// edges, polygons or regions than sixteen bits may count. What is built covers
// every island once and joins its parts and no two islands; only floors close
// to the documented limits may be refused.
func runMany(r *R) {
	r.Probe("many")
	set := tilemesh.DefaultSettings()
	set.CellSize, set.CellHeight = []float32{0.5, 1, 0.25}[r.Draw(3)], 0.5
	set.AgentRadius, set.AgentHeight, set.AgentMaxClimb = 0, 2, 0.9
	set.RegionMergeSize = []float32{20, 60}[r.Draw(2)]
	set.EdgeMaxLen = 0
	set.EdgeMaxError = []float32{0.5, 0.1}[r.Draw(2)]
	set.VertsPerPoly = []float32{6, 3, 4}[r.Draw(3)]
	set.DetailSampleDist = 0
	cs := set.CellSize
	var v, f strings.Builder
	nv := 0
	var perm [4]int
	copy(perm[:], r.Perm(4))
	rect := func(x0, z0, x1, z1, k int) {
		c := [4][2]int{{x0, z0}, {x0, z1}, {x1, z1}, {x1, z0}}
		var id [4]int
		for _, i := range perm {
			nv++
			id[i] = nv
			fmt.Fprintf(&v, "v %v %v %v\n", float32(c[i][0])*cs, float32(k)*0.5, float32(c[i][1])*cs)
		}
		fmt.Fprintf(&f, "f %d %d %d\nf %d %d %d\n", id[0], id[1], id[2], id[0], id[2], id[3])
	}
	rubble := r.Chance(1, 3)
	nx, nz, w, h := 0, 0, 0, 0
	var parts [][2]int // places on an island
	pitch := 0
	must := false
	if rubble {
		// small patches, all of which the smallest region size removes, and open
		// ground beyond
		set.RegionMinSize = 6
		pitch = 5
		nx, nz = 60+r.Draw(120), 60+r.Draw(120)
		if r.Chance(1, 2) {
			nx, nz = 180+r.Draw(100), 180+r.Draw(80)
		}
		must = nx*nz < 32000
	} else {
		set.RegionMinSize = 0
		pitch = 12
		nx, nz = 25+r.Draw(40), 25+r.Draw(40)
		// an outline has 20 vertices: ledges end one cell before the corners
		must = nx*nz*20 < 60000 && nx*nz*18 < 32000
		if set.VertsPerPoly == 6 {
			must = nx*nz*20 < 60000
		}
	}
	step := r.Draw(3)
	for j := 0; j < nz; j++ {
		for i := 0; i < nx; i++ {
			x, z, k := i*pitch+2, j*pitch+2, step*((i+j)%2)
			if rubble {
				rect(x, z, x+3, z+3, k)
				continue
			}
			rect(x+3, z, x+6, z+9, k)
			rect(x, z+3, x+9, z+6, k)
		}
	}
	w, h = nx*pitch, nz*pitch
	if rubble {
		rect(0, h+2, w, h+42, 0)
		h += 42
	} else {
		parts = [][2]int{{4, 1}, {1, 4}, {4, 4}, {4, 7}, {7, 4}}
	}
	tiled := r.Chance(1, 2)
	if tiled {
		set.TileSize = float32([]int{maxi(w, h) + 1, (maxi(w, h) + 2) / 2, 512}[r.Draw(3)])
	}
	ctx := recast.NewBuildContext(true)
	b := newBuilder(tiled, ctx)
	b.SetSettings(set)
	var err error
	r.CallB("LoadGeometry", buildBudget, func() { err = b.LoadGeometry(strings.NewReader(v.String() + f.String())) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	r.Logf("%d x %d islands, rubble %v, tiled %v, settings %+v", nx, nz, rubble, tiled, set)
	hist := &terrHist{r: r, set: set}
	ok := false
	r.CallB("Build", 10*buildBudget, func() { hist.m, ok = b.Build() })
	if !ok {
		if must {
			said := ""
			for i := 0; i < ctx.LogCount(); i++ {
				if s := ctx.LogText(int32(i)); strings.HasPrefix(s, "ERR") {
					said = s
				}
			}
			r.Fail("build-failed", "no mesh is built of %d islands: %s", nx*nz, said)
		}
		r.Probe("refused")
		return
	}
	r.NonTrivial()
	r.State("many", nx, nz, tiled, rubble)
	q := newQuery(r, hist.m, 2048)
	pc := polyComps(r, hist.m)
	at := func(x, z int) polyAt {
		ps := hist.over(q, (float32(x)+0.37)*cs, (float32(z)+0.41)*cs)
		if len(ps) != 1 {
			r.Fail("coverage", "%d polygons over cell (%d,%d), where there is ground", len(ps), x, z)
		}
		return ps[0]
	}
	if rubble {
		a := at(w/2, h-20)
		for i := 0; i < 20; i++ {
			if x, z := 10+r.Draw(w-20), h-30+r.Draw(20); pc[at(x, z).ref] != pc[a.ref] {
				r.Fail("not-joined", "no links lead from cell (%d,%d) to (%d,%d), between which there is open ground", w/2, h-20, x, z)
			}
		}
		if !tiled || set.TileSize > float32(maxi(w, h)) {
			for i := 0; i < 20; i++ {
				x, z := 2+pitch*(1+r.Draw(nx-2))+1, 2+pitch*(1+r.Draw(nz-2))+1
				if ps := hist.over(q, (float32(x)+0.37)*cs, (float32(z)+0.41)*cs); len(ps) != 0 {
					r.Fail("coverage", "%d polygons over cell (%d,%d), on a patch smaller than the smallest region", len(ps), x, z)
				}
			}
		}
		return
	}
	prev := [3]int{-1}
	for i := 0; i < 60; i++ {
		// islands everywhere, the last ones among them
		gx, gz := r.Draw(nx), r.Draw(nz)
		if i%3 == 0 {
			gz = nz - 1 - r.Draw(3)
		}
		var c polyAt
		for k, p := range parts {
			x, z := gx*pitch+2+p[0], gz*pitch+2+p[1]
			if set.TileSize < float32(maxi(w, h)) && tiled {
				// an arm may be cut by a border
				if m := x % int(set.TileSize); m < 9 || m >= int(set.TileSize)-9 {
					continue
				}
				if m := z % int(set.TileSize); m < 9 || m >= int(set.TileSize)-9 {
					continue
				}
			}
			a := at(x, z)
			if k > 0 && c.ref != 0 && pc[a.ref] != pc[c.ref] {
				r.Fail("not-joined", "no links join the arms of the island %d,%d", gx, gz)
			}
			c = a
		}
		if c.ref == 0 {
			continue
		}
		if prev[0] == 1 && (prev[1] != gx || prev[2] != gz) {
			p := at(prev[1]*pitch+2+4, prev[2]*pitch+2+4)
			if pc[p.ref] == pc[c.ref] {
				r.Fail("joined", "links lead from island %d,%d to %d,%d", prev[1], prev[2], gx, gz)
			}
		}
		prev = [3]int{1, gx, gz}
	}
}

// runShelves builds storeys over each other, each of which stripes of two areas
// divide, so that one row of cells crosses more regions than sixteen bits may
// count. What is built has every storey's stripes, or is refused.
func runShelves(r *R) {
	r.Probe("shelves")
	set := tilemesh.DefaultSettings()
	set.CellSize, set.CellHeight = []float32{0.5, 1, 0.25}[r.Draw(3)], 0.5
	set.AgentRadius, set.AgentHeight, set.AgentMaxClimb = 0, 2, 0.9
	set.RegionMinSize, set.RegionMergeSize = 0, 1
	set.EdgeMaxLen = 0
	set.EdgeMaxError = 0.1
	set.VertsPerPoly = []float32{6, 3, 4}[r.Draw(3)]
	set.DetailSampleDist = 0
	cs := set.CellSize
	n := 1 + r.Draw(80)
	if r.Chance(1, 8) {
		n += r.Draw(170)
	}
	w := 20 + r.Draw(12000/n)
	if r.Chance(1, 2) {
		// about 32768 or 65536 stripes in a row
		n = 30 + r.Draw(40)
		w = 32768*(1+r.Draw(2))/n + r.Draw(200) - 50
	}
	d := 4
	step := 6 + r.Draw(4)
	var v, f strings.Builder
	for i := 0; i < n; i++ {
		for _, c := range [][2]int{{0, 0}, {0, d}, {w, d}, {w, 0}} {
			fmt.Fprintf(&v, "v %v %v %v\n", float32(c[0])*cs, float32(i*step)*0.5, float32(c[1])*cs)
		}
		fmt.Fprintf(&f, "f %d %d %d\nf %d %d %d\n", 4*i+1, 4*i+2, 4*i+3, 4*i+1, 4*i+3, 4*i+4)
	}
	tiled := r.Chance(1, 2)
	if tiled {
		set.TileSize = float32([]int{w + 1, (w + 2) / 2}[r.Draw(2)])
	}
	ctx := recast.NewBuildContext(true)
	b := newBuilder(tiled, ctx)
	b.SetSettings(set)
	var err error
	r.CallB("LoadGeometry", buildBudget, func() { err = b.LoadGeometry(strings.NewReader(v.String() + f.String())) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	for x := 1; x < w; x += 2 {
		x0, x1 := float32(x)*cs, float32(x+1)*cs
		b.InputGeom().AddConvexVolume([]float32{x0, 0, -1, x0, 0, 99, x1, 0, 99, x1, 0, -1}, -1, 1e4, 2)
	}
	r.Logf("%d storeys of %d x %d cells, tiled %v, settings %+v", n, w, d, tiled, set)
	hist := &terrHist{r: r, set: set}
	ok := false
	r.CallB("Build", 10*buildBudget, func() { hist.m, ok = b.Build() })
	if !ok {
		if (w+2)*n*4 < 60000 {
			said := ""
			for i := 0; i < ctx.LogCount(); i++ {
				if s := ctx.LogText(int32(i)); strings.HasPrefix(s, "ERR") {
					said = s
				}
			}
			r.Fail("build-failed", "no mesh is built of %d storeys of %d stripes: %s", n, w, said)
		}
		r.Probe("refused")
		return
	}
	r.NonTrivial()
	r.State("shelves", n, w, tiled)
	q := newQuery(r, hist.m, 2048)
	pc := polyComps(r, hist.m)
	at := func(x int) []polyAt {
		ps := hist.over(q, (float32(x)+0.37)*cs, (float32(d)*0.5+0.09)*cs)
		if len(ps) != n {
			r.Fail("coverage", "%d polygons over cell (%d,%d), where there are %d storeys", len(ps), x, d/2, n)
		}
		return ps
	}
	var last []polyAt
	for i := 0; i < 30; i++ {
		x := 2 + r.Draw(w-4)
		if tiled && set.TileSize < float32(w) && x >= int(set.TileSize)-2 && x <= int(set.TileSize)+1 {
			continue
		}
		l := at(x)
		for k, p := range l {
			if a := hist.poly(p.ref).Area(); a != uint8(x%2*2) {
				r.Fail("area", "cell %d of storey %d has area %d, want %d", x, k, a, x%2*2)
			}
			if k > 0 && pc[p.ref] == pc[l[k-1].ref] {
				r.Fail("not-joined", "links lead from storey %d to the next", k-1)
			}
			if last != nil && pc[p.ref] != pc[last[k].ref] {
				r.Fail("joined", "no links lead to cell %d of storey %d", x, k)
			}
		}
		last = l
	}
}

// runLong builds a floor about as long as positions can count cells, with a few
// stripes of another area across it.
func runLong(r *R) {
	r.Probe("long")
	set := tilemesh.DefaultSettings()
	set.CellSize, set.CellHeight = []float32{0.5, 1, 0.25}[r.Draw(3)], 0.5
	set.AgentRadius, set.AgentHeight, set.AgentMaxClimb = 0, 2, 0.9
	set.RegionMinSize, set.RegionMergeSize = 0, 1
	set.EdgeMaxLen = float32([]int{0, 5000}[r.Draw(2)])
	set.EdgeMaxError = []float32{0.1, 1.3}[r.Draw(2)]
	set.DetailSampleDist = 0
	cs := set.CellSize
	w, d := 65535-r.Draw(20), 4+r.Draw(3)
	if r.Chance(1, 2) {
		w = 65500 + r.Draw(8000)
	}
	if r.Chance(1, 4) {
		w = 20000 + r.Draw(45000)
	}
	turn := r.Chance(1, 2)
	xz := func(x, z float32) (float32, float32) {
		if turn {
			return z * cs, x * cs
		}
		return x * cs, z * cs
	}
	var v strings.Builder
	for _, c := range [][2]int{{0, 0}, {0, d}, {w, d}, {w, 0}} {
		x, z := xz(float32(c[0]), float32(c[1]))
		fmt.Fprintf(&v, "v %v 0 %v\n", x, z)
	}
	if turn {
		v.WriteString("f 1 3 2\nf 1 4 3\n")
	} else {
		v.WriteString("f 1 2 3\nf 1 3 4\n")
	}
	ctx := recast.NewBuildContext(true)
	b := newBuilder(false, ctx)
	b.SetSettings(set)
	var err error
	r.CallB("LoadGeometry", buildBudget, func() { err = b.LoadGeometry(strings.NewReader(v.String())) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	var cuts []int
	for x := 20; x < w-3000; x += 20 + r.Draw(w/8) {
		cuts = append(cuts, x)
		var vs []float32
		for _, c := range [][2]int{{x, -9}, {x, 99}, {x + 10, 99}, {x + 10, -9}} {
			ax, az := xz(float32(c[0]), float32(c[1]))
			vs = append(vs, ax, 0, az)
		}
		b.InputGeom().AddConvexVolume(vs, -1, 1, 2)
	}
	r.Logf("%d x %d cells, turned %v, settings %+v", w, d, turn, set)
	hist := &terrHist{r: r, set: set}
	ok := false
	r.CallB("Build", 20*buildBudget, func() { hist.m, ok = b.Build() })
	if !ok {
		if w <= 65535 {
			said := ""
			for i := 0; i < ctx.LogCount(); i++ {
				if s := ctx.LogText(int32(i)); strings.HasPrefix(s, "ERR") {
					said = s
				}
			}
			r.Fail("build-failed", "no mesh is built of %d x %d cells: %s", w, d, said)
		}
		r.Probe("refused")
		return
	}
	r.NonTrivial()
	r.State("long", w, turn)
	q := newQuery(r, hist.m, 2048)
	pc := polyComps(r, hist.m)
	var last polyAt
	for i := 0; i < 30; i++ {
		x := 2 + r.Draw(w-4)
		if i%3 == 0 {
			x = cuts[r.Draw(len(cuts))] + r.Draw(30) - 10
		}
		if i%5 == 4 {
			x = w - 3 - r.Draw(40)
		}
		want, sure := uint8(0), true
		for _, c := range cuts {
			if x >= c && x < c+10 {
				want = 2
			}
			if x >= c-3 && x < c+3 || x >= c+7 && x < c+13 {
				sure = false
			}
		}
		if !sure || x < 3 || x > w-4 {
			continue
		}
		px, pz := xz(float32(x)+0.37, float32(d)*0.5+0.09)
		ps := hist.over(q, px, pz)
		if len(ps) != 1 {
			r.Fail("coverage", "%d polygons over cell %d of %d", len(ps), x, w)
		}
		if a := hist.poly(ps[0].ref).Area(); a != want {
			r.Fail("area", "cell %d has area %d, want %d", x, a, want)
		}
		if last.ref != 0 && pc[last.ref] != pc[ps[0].ref] {
			r.Fail("joined", "no links lead to cell %d of %d", x, w)
		}
		last = ps[0]
	}
}

// huge compares builds with a setting beyond all there is in the terrain and
// with one beyond all that can be counted.
func (h *terrHist) huge(text string, tiled bool) {
	r, t := h.r, h.t
	a, b := h.set, h.set
	f := []float32{46341, 60000, 1e5, 1e6, 3e9, 1e12, 1e20, math.MaxFloat32, float32(math.Inf(1))}[r.Draw(9)]
	what := ""
	switch k := r.Draw(8); k {
	case 0:
		a.EdgeMaxLen, b.EdgeMaxLen, what = 0, f, "EdgeMaxLen"
	case 1:
		a.RegionMergeSize, b.RegionMergeSize, what = 40000, f, "RegionMergeSize"
	case 2:
		a.RegionMinSize, b.RegionMinSize, what = 40000, f, "RegionMinSize"
	case 3:
		a.AgentMaxClimb, b.AgentMaxClimb, what = 70000*t.ch, maxf(f, 80000)*t.ch, "AgentMaxClimb"
	case 4:
		a.EdgeMaxError, b.EdgeMaxError, what = 1e5, f, "EdgeMaxError"
	case 5:
		a.DetailSampleDist, b.DetailSampleDist, what = 1e5, f, "DetailSampleDist"
	case 6:
		a.DetailSampleMaxError, b.DetailSampleMaxError, what = 1e5, f, "DetailSampleMaxError"
	default:
		tiled = false
		a.AgentRadius, b.AgentRadius, what = 30000*t.cs, f*t.cs, "AgentRadius"
	}
	r.Probe("huge-" + what)
	r.Logf("%s of %v, tiled %v, settings %+v", what, f, tiled, a)
	var d [2]string
	for i, set := range []recast.BuildSettings{a, b} {
		ctx := recast.NewBuildContext(false)
		bl := newBuilder(tiled, ctx)
		bl.SetSettings(set)
		var err error
		r.Call("LoadGeometry", func() { err = bl.LoadGeometry(strings.NewReader(text)) })
		if err != nil {
			r.Fail("load-refused", "geometry refused: %v", err)
		}
		for _, v := range t.vols {
			v.addTo(bl.InputGeom())
		}
		var m *detour.NavMesh
		ok := false
		r.CallB("Build", 4*buildBudget, func() { m, ok = bl.Build() })
		if !ok {
			d[i] = "no mesh"
			continue
		}
		var sb strings.Builder
		for k := range m.Tiles {
			mt := &m.Tiles[k]
			if mt.Header == nil {
				continue
			}
			hd := *mt.Header
			hd.WalkableClimb, hd.WalkableRadius = 0, 0
			fmt.Fprintln(&sb, hd, mt.Verts, mt.Polys, mt.DetailMeshes, mt.DetailVerts, mt.DetailTris)
		}
		d[i] = sb.String()
	}
	r.State(what, f, len(d[0]))
	r.NonTrivial()
	if d[0] != d[1] {
		if debugging() {
			fmt.Println(d[0])
			fmt.Println(d[1])
		}
		r.Fail("huge", "with %s of %v another mesh is built than with one that is large enough (%d and %d bytes)", what, f, len(d[1]), len(d[0]))
	}
}
