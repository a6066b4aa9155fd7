package main

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

type tpos = [2]int32

// buildBudget bounds the steps of a build.
const buildBudget = 1_000_000_000

// normTile is a tile's saved content without what linking leaves in it.
func normTile(b []byte) string {
	t, err := parseTile(b)
	if err != nil {
		return err.Error()
	}
	c := dup(b)
	o := 100 + 12*int(t.H.VertCount)
	for i := 0; i < int(t.H.PolyCount); i++ {
		binary.LittleEndian.PutUint32(c[o:], 0)
		o += 32
	}
	for i := 0; i < 12*int(t.H.MaxLinkCount); i++ {
		c[o+i] = 0
	}
	return string(c)
}

// tileHist drives one tiled mesh builder.
type tileHist struct {
	r     *R
	g     *Geo
	set   recast.BuildSettings
	b     *tilemesh.TileMesh
	ctx   *recast.BuildContext
	m     *detour.NavMesh
	vols  []vol
	want  map[tpos][]byte // what each location should hold
	asked map[tpos]bool   // locations the last full build or tile builds covered with the current volumes
	cache map[string]map[tpos][]byte
	tw    int32
	th    int32
}

func (h *tileHist) volKey() string {
	k := ""
	for _, v := range h.vols {
		k += fmt.Sprint(v)
	}
	return k
}

// fresh is what a new builder makes of the current input.
func (h *tileHist) fresh() map[tpos][]byte {
	k := h.volKey()
	if d, ok := h.cache[k]; ok {
		return d
	}
	b := h.newTM()
	var m *detour.NavMesh
	ok := false
	h.r.CallB("Build of a fresh builder", buildBudget, func() { m, ok = b.Build() })
	if !ok {
		h.r.Fail("build-failed", "a fresh builder cannot build the mesh")
	}
	d := tileData(h.r, m)
	h.cache[k] = d
	return d
}

// freshTile is what a new builder makes of one location.
func (h *tileHist) freshTile(p tpos) []byte {
	if p[0] >= 0 && p[1] >= 0 && p[0] < h.tw && p[1] < h.th {
		return h.fresh()[p]
	}
	k := "tile" + fmt.Sprint(p) + h.volKey()
	if d, ok := h.cache[k]; ok {
		return d[p]
	}
	b := h.newTM()
	var m *detour.NavMesh
	h.r.CallB("Build of a fresh builder", buildBudget, func() { m, _ = b.Build() })
	h.r.CallB("BuildTile of a fresh builder", buildBudget, func() { b.BuildTile(h.pos(p, 0.5, 0.5)) })
	d := tileData(h.r, m)
	h.cache[k] = d
	return d[p]
}

func (h *tileHist) newTM() *tilemesh.TileMesh {
	b := tilemesh.New(recast.NewBuildContext(false))
	b.SetSettings(h.set)
	var err error
	h.r.Call("LoadGeometry", func() { err = b.LoadGeometry(&simReader{r: h.r, data: h.g.Text, failAt: -1}) })
	if err != nil {
		h.r.Fail("load-refused", "geometry refused: %v", err)
	}
	for _, v := range h.vols {
		v.addTo(b.InputGeom())
	}
	return b
}

// pos is a world position inside a tile location.
func (h *tileHist) pos(p tpos, fx, fz float32) d3.Vec3 {
	ts := h.set.TileSize * h.set.CellSize
	return d3.NewVec3XYZ(h.g.Min[0]+(float32(p[0])+fx)*ts, h.g.Min[1], h.g.Min[2]+(float32(p[1])+fz)*ts)
}

func (h *tileHist) load(g *Geo) {
	h.g = g
	h.set = drawSettings(h.r)
	fitSettings(g, &h.set, 72)
	h.vols = nil
	h.cache = map[string]map[tpos][]byte{}
	h.want = nil
	h.b.SetSettings(h.set)
	var err error
	h.r.Call("LoadGeometry", func() { err = h.b.LoadGeometry(drawReader(h.r, g.Text)) })
	if err != nil {
		h.r.Fail("load-refused", "geometry refused: %v", err)
	}
	gw, gh := gridSize(g.Min[0], g.Max[0], h.set.CellSize), gridSize(g.Min[2], g.Max[2], h.set.CellSize)
	ts := int32(h.set.TileSize)
	h.tw, h.th = (gw+ts-1)/ts, (gh+ts-1)/ts
}

func gridSize(a, b, cs float32) int32 { return int32((b-a)/cs + 0.5) }

func (h *tileHist) build() {
	ok := false
	h.r.CallB("Build", buildBudget, func() { h.m, ok = h.b.Build() })
	if !ok || h.m == nil {
		h.r.Fail("build-failed", "Build fails where a fresh builder may not")
	}
	h.want = map[tpos][]byte{}
	for k, d := range h.fresh() {
		h.want[k] = d
	}
	h.asked = map[tpos]bool{}
	for x := int32(0); x < h.tw; x++ {
		for y := int32(0); y < h.th; y++ {
			h.asked[tpos{x, y}] = true
		}
	}
	if h.g.flat {
		checkAreas(h.r, h.g, h.set, h.vols, h.m, true, nil)
	}
}

// check compares every location with the model.
func (h *tileHist) check(what string) {
	r := h.r
	got := tileData(r, h.m)
	n := 0
	for i := range h.m.Tiles {
		if h.m.Tiles[i].Header != nil {
			n++
		}
	}
	if n != len(got) {
		r.Fail("tile-count", "after %s: %d tiles loaded, %d different positions saved", what, n, len(got))
	}
	for p := range got {
		if _, ok := h.want[p]; !ok {
			r.Fail("extra-tile", "after %s: there is a tile at %v, which should be empty", what, p)
		}
	}
	for p, d := range h.want {
		g, ok := got[p]
		if !ok {
			r.Fail("missing-tile", "after %s: there is no tile at %v", what, p)
		}
		if normTile(g) != normTile(d) {
			r.Fail("tile-content", "after %s: the tile at %v differs from the one a fresh builder makes", what, p)
		}
	}
	for _, p := range h.locs() {
		t := h.m.TileAt(p[0], p[1], 0)
		if (t != nil) != (h.want[p] != nil) {
			r.Fail("lookup", "after %s: TileAt%v finds a tile: %v", what, p, t != nil)
		}
	}
}

func (h *tileHist) locs() []tpos {
	var l []tpos
	for x := int32(-1); x <= h.tw; x++ {
		for y := int32(-1); y <= h.th; y++ {
			l = append(l, tpos{x, y})
		}
	}
	return l
}

// checkLinks compares the connections with those of a mesh freshly assembled
// from the same tiles.
func (h *tileHist) checkLinks() {
	r := h.r
	var f detour.NavMesh
	p := h.m.Params
	var st detour.Status
	r.Call("Init", func() { st = f.Init(&p) })
	if detour.StatusFailed(st) {
		r.Fail("params", "the built mesh's parameters are refused by Init")
	}
	var l []tpos
	for _, k := range h.locs() {
		if h.want[k] != nil {
			l = append(l, k)
		}
	}
	if len(l) != len(h.want) {
		return
	}
	for _, i := range r.Perm(len(l)) {
		d := dup(h.want[l[i]])
		r.Call("AddTile", func() { st, _ = f.AddTile(d, 0) })
		if detour.StatusFailed(st) {
			r.Fail("add-refused", "a built tile is refused: 0x%x", uint32(st))
		}
	}
	if a, b := linkText(r, h.m), linkText(r, &f); a != b {
		r.Fail("connections", "connections differ from those of a mesh freshly assembled from the same tiles: %s", diffText(a, b))
	}
}

// flagsOf is what the samples document for an area.
func flagsOf(area uint8) uint16 {
	switch area {
	case sample.PolyAreaGround, sample.PolyAreaGrass, sample.PolyAreaRoad:
		return sample.PolyFlagsWalk
	case sample.PolyAreaWater:
		return sample.PolyFlagsSwim
	case sample.PolyAreaDoor:
		return sample.PolyFlagsWalk | sample.PolyFlagsDoor
	}
	return 0
}

// checkAreas looks at points of a flat floor well away from every border. If
// the whole mesh was just built, they are covered where they should be.
func checkAreas(r *R, g *Geo, set recast.BuildSettings, vols []vol, m *detour.NavMesh, full bool, skip func(x, z float32) bool) {
	margin := float64(set.CellSize) * (4 + math.Ceil(float64(set.EdgeMaxError)))
	covers := full && set.RegionMinSize == 0 && set.EdgeMaxError <= 2 && set.AgentMaxSlope >= 1 && set.VertsPerPoly <= 6
	for k := 0; k < 40; k++ {
		x := g.Min[0] + (g.Max[0]-g.Min[0])*float32(r.Draw(64))/64
		z := g.Min[2] + (g.Max[2]-g.Min[2])*float32(r.Draw(64))/64
		if len(vols) > 0 && k%2 == 0 {
			// near the middle of a volume
			v := vols[r.Draw(len(vols))]
			n := float32(len(v.V) / 3)
			sx, sz := float32(0), float32(0)
			for i := 0; i < len(v.V); i += 3 {
				sx, sz = sx+v.V[i], sz+v.V[i+2]
			}
			i := 3 * r.Draw(len(v.V)/3)
			f := float32(r.Draw(16)) / 16
			x, z = sx/n+(v.V[i]-sx/n)*f, sz/n+(v.V[i+2]-sz/n)*f
		}
		if skip != nil && skip(x, z) {
			continue
		}
		want, clear := uint8(recast.WalkableArea), true
		for _, v := range vols {
			in, dist := inVol(v, float64(x), float64(z))
			// the floor, at height 0, is a voxel thick
			if dist < margin || in && v.Lo > 0 && v.Lo < 3*set.CellHeight || in && v.Hi < 0 && v.Hi > -3*set.CellHeight {
				clear = false
				break
			}
			// what is not walkable stays so
			if in && v.Lo <= 0 && v.Hi >= 0 && want != 0 {
				want = v.Area
			}
		}
		if !clear {
			continue
		}
		n := 0
		for ti := range m.Tiles {
			t := &m.Tiles[ti]
			if t.Header == nil {
				continue
			}
			for pi := range t.Polys {
				p := &t.Polys[pi]
				if p.Type() != 0 || !polyHas(t, p, x, z) {
					continue
				}
				n++
				wa := want
				if wa == recast.WalkableArea {
					wa = sample.PolyAreaGround
				} else if wa == 0 {
					r.Fail("area", "(%v,%v) lies inside a volume marked not walkable, but polygon %d of tile %d,%d covers it", x, z, pi, t.Header.X, t.Header.Y)
				}
				if p.Area() != wa {
					if debugging() {
						fmt.Println("tile", t.Header.X, t.Header.Y, "poly", pi, t.Header.BMin, t.Header.BMax, "geo", g.Min, g.Max)
						for i := 0; i < int(p.VertCount); i++ {
							fmt.Println("  ", t.Verts[3*int(p.Verts[i]):3*int(p.Verts[i])+3])
						}
						for _, v := range vols {
							fmt.Println(v)
						}
						for qi := range t.Polys {
							q := &t.Polys[qi]
							fmt.Println("poly", qi, "area", q.Area(), q.Neis)
							for i := 0; i < int(q.VertCount); i++ {
								fmt.Println("  ", t.Verts[3*int(q.Verts[i]):3*int(q.Verts[i])+3])
							}
						}
					}
					r.Fail("area", "(%v,%v) has area %d, the marked volumes say %d (%d volumes)", x, z, p.Area(), wa, len(vols))
				}
				if p.Flags != flagsOf(wa) {
					r.Fail("flags", "a polygon of area %d has flags 0x%x", wa, p.Flags)
				}
			}
		}
		if covers {
			exp := 0
			if want != 0 {
				exp = g.covered(x, z, float32(margin)+set.AgentRadius)
			}
			if exp >= 0 && !onSeam(m, x, z) {
				for _, o := range [][2]float32{{0.0137, 0.0071}, {-0.0093, 0.0149}, {0.0031, -0.0117}} {
					if n != exp {
						// on an edge between polygons rounding decides
						n = coverCount(m, x+o[0], z+o[1])
					}
				}
				if n != exp {
					if debugging() {
						fmt.Println("set", set, "geo", g.Min, g.Max, g.cell, g.nx, g.nz, g.solid, "vols", vols)
						for ti := range m.Tiles {
							if t := &m.Tiles[ti]; t.Header != nil {
								fmt.Println("tile", t.Header.X, t.Header.Y, t.Header.BMin, t.Header.BMax)
								for pi := range t.Polys {
									fmt.Println("poly", pi, t.Polys[pi].Area())
									for i := 0; i < int(t.Polys[pi].VertCount); i++ {
										k := 3 * int(t.Polys[pi].Verts[i])
										fmt.Println("  ", t.Verts[k:k+3])
									}
								}
							}
						}
					}
					r.Fail("coverage", "%d polygons cover (%v,%v), expected %d", n, x, z, exp)
				}
				if exp == 1 {
					r.Probe("covered")
				}
			}
		}
		if n > 0 && want != recast.WalkableArea {
			r.Probe("point-in-volume")
		} else if want == 0 {
			r.Probe("point-in-null-volume")
		} else if n > 0 {
			r.Probe("point-on-ground")
		}
	}
}

// onSeam tells whether a point lies on a tile's edge, where rounding decides
// which of the tiles has it.
func onSeam(m *detour.NavMesh, x, z float32) bool {
	for i := range m.Tiles {
		if h := m.Tiles[i].Header; h != nil {
			for _, d := range []float32{x - h.BMin[0], x - h.BMax[0], z - h.BMin[2], z - h.BMax[2]} {
				if d < 0.001 && d > -0.001 {
					return true
				}
			}
		}
	}
	return false
}

// coverCount is the number of ground polygons over a point.
func coverCount(m *detour.NavMesh, x, z float32) int {
	n := 0
	for ti := range m.Tiles {
		if t := &m.Tiles[ti]; t.Header != nil {
			for pi := range t.Polys {
				if p := &t.Polys[pi]; p.Type() == 0 && polyHas(t, p, x, z) {
					n++
				}
			}
		}
	}
	return n
}

// inVol tells on which side of a convex outline a point is, and how far away.
func inVol(v vol, x, z float64) (bool, float64) {
	n := len(v.V) / 3
	best := math.Inf(1)
	neg, pos := false, false
	for i := 0; i < n; i++ {
		j := (i + 1) % n
		ax, az := float64(v.V[3*i]), float64(v.V[3*i+2])
		bx, bz := float64(v.V[3*j]), float64(v.V[3*j+2])
		dx, dz := bx-ax, bz-az
		if c := dx*(z-az) - dz*(x-ax); c < 0 {
			neg = true
		} else {
			pos = true
		}
		t := 0.0
		if q := dx*dx + dz*dz; q > 0 {
			t = ((x-ax)*dx + (z-az)*dz) / q
			t = math.Max(0, math.Min(1, t))
		}
		best = math.Min(best, math.Hypot(x-ax-t*dx, z-az-t*dz))
	}
	return !(neg && pos), best
}

// polyHas tells whether a polygon contains a point seen from above.
func polyHas(t *detour.MeshTile, p *detour.Poly, x, z float32) bool {
	n := int(p.VertCount)
	in := false
	for i, j := 0, n-1; i < n; j, i = i, i+1 {
		a, b := t.Verts[3*int(p.Verts[i]):], t.Verts[3*int(p.Verts[j]):]
		if (a[2] > z) != (b[2] > z) && x < (b[0]-a[0])*(z-a[2])/(b[2]-a[2])+a[0] {
			in = !in
		}
	}
	return in
}

func runP16(r *R) {
	if r.Chance(1, 300) {
		runDense(r)
		return
	}
	if r.Chance(1, 1000) {
		runManyTiles(r)
		return
	}
	if r.Chance(1, 40) {
		runOdd(r)
		return
	}
	gc := geoCfg{MaxN: 5, Flat: r.Chance(1, 3)}
	h := &tileHist{r: r, ctx: recast.NewBuildContext(r.Chance(1, 2))}
	h.b = tilemesh.New(h.ctx)
	g := genGeo(r, gc)
	h.load(g)
	r.Logf("geometry %d vertices %d triangles, settings %+v, %d x %d tiles", len(g.V), len(g.T), h.set, h.tw, h.th)
	if r.Chance(1, 8) {
		// tile operations before there is a mesh
		p := h.pos(tpos{0, 0}, 0.5, 0.5)
		if r.Chance(1, 2) {
			r.CallB("BuildTile before Build", buildBudget, func() { h.b.BuildTile(p) })
		} else {
			r.Call("RemoveTile before Build", func() { h.b.RemoveTile(p) })
		}
		r.Probe("before-build")
	}
	if gc.Flat && r.Chance(1, 3) {
		// a pock-marked floor: contours with holes
		if r.Chance(1, 2) {
			h.set.RegionMergeSize = []float32{60, 150}[r.Draw(2)]
			h.b.SetSettings(h.set)
			h.cache = map[string]map[tpos][]byte{}
		}
		for n := 1 + r.Draw(14); n > 0; n-- {
			v := drawPock(r, h.g, h.set)
			v.addTo(h.b.InputGeom())
			h.vols = append(h.vols, v)
		}
		r.Probe("pock-marked")
	}
	h.build()
	h.check("the first build")
	h.checkLinks()
	ops := 3 + r.Draw(16)
	for i := 0; i < ops; i++ {
		what := ""
		switch k := r.Draw(12); {
		case k == 0 && r.Chance(1, 6):
			what = h.badSettings()
		case k < 5: // build a tile
			p := tpos{int32(r.Draw(int(h.tw))), int32(r.Draw(int(h.th)))}
			out := false
			if r.Chance(1, 8) {
				p = tpos{int32(r.Draw(int(h.tw)+2)) - 1, int32(r.Draw(int(h.th)+2)) - 1}
				out = p[0] < 0 || p[1] < 0 || p[0] >= h.tw || p[1] >= h.th
			}
			w := h.pos(p, 0.125+float32(r.Draw(7))/8, 0.125+float32(r.Draw(7))/8)
			h.checkPos(p, w)
			exp := h.freshTile(p)
			r.CallB("BuildTile", buildBudget, func() { h.b.BuildTile(w) })
			what = fmt.Sprintf("building tile %v", p)
			if out {
				r.Probe("tile-outside-grid")
				// A sliver of geometry beyond the last tile may or may not find room.
				if h.m.TileAt(p[0], p[1], 0) == nil {
					exp = nil
				}
			}
			if exp != nil {
				h.want[p] = exp
				r.Probe("tile-built")
			} else {
				if h.want[p] != nil {
					r.Probe("tile-built-away")
				}
				delete(h.want, p)
			}
			h.asked[p] = true
			r.NonTrivial()
		case k < 8: // remove a tile
			p := tpos{int32(r.Draw(int(h.tw))), int32(r.Draw(int(h.th)))}
			if r.Chance(1, 8) {
				p = tpos{int32(r.Draw(int(h.tw)+2)) - 1, int32(r.Draw(int(h.th)+2)) - 1}
			}
			w := h.pos(p, 0.125+float32(r.Draw(7))/8, 0.125+float32(r.Draw(7))/8)
			h.checkPos(p, w)
			r.Call("RemoveTile", func() { h.b.RemoveTile(w) })
			what = fmt.Sprintf("removing tile %v", p)
			if h.want[p] != nil {
				r.Probe("tile-removed")
			}
			delete(h.want, p)
			h.asked[p] = true
			r.NonTrivial()
		case k < 10: // edit the volumes
			if len(h.vols) > 0 && r.Chance(1, 2) {
				i := r.Draw(len(h.vols))
				r.Call("DeleteConvexVolume", func() { h.b.InputGeom().DeleteConvexVolume(i) })
				h.vols = append(h.vols[:i:i], h.vols[i+1:]...)
				what = fmt.Sprintf("deleting volume %d", i)
			} else if r.Chance(1, 40) {
				// very many
				for n := 0; n < 300; n++ {
					v := drawPock(r, h.g, h.set)
					v.Area = uint8(r.Draw(6))
					r.Call("AddConvexVolume", func() { v.addTo(h.b.InputGeom()) })
					h.vols = append(h.vols, v)
				}
				what = "adding 300 volumes"
				r.Probe("many-volumes")
			} else if len(h.vols) < 200 {
				v := drawVol(r, h.g)
				r.Call("AddConvexVolume", func() { v.addTo(h.b.InputGeom()) })
				h.vols = append(h.vols, v)
				what = fmt.Sprintf("adding a volume of %d vertices, area %d", len(v.V)/3, v.Area)
				r.Probe("volume")
			}
			h.asked = map[tpos]bool{}
			h.checkVols(what)
		case k < 11:
			h.build()
			what = "a full build"
		default:
			h.load(genGeo(r, gc))
			h.build()
			what = "loading other geometry and a full build"
			r.Probe("reload")
		}
		r.Logf("%s; %d tiles", what, len(h.want))
		h.check(what)
		if r.Chance(1, 4) {
			h.checkLinks()
		}
		r.State(len(h.want), len(h.vols), h.tw, h.th, i)
	}
	h.checkLinks()
	if gc.Flat {
		checkAreas(r, h.g, h.set, h.vols, h.m, false, func(x, z float32) bool {
			ts := h.set.TileSize * h.set.CellSize
			return !h.asked[tpos{int32((x - h.g.Min[0]) / ts), int32((z - h.g.Min[2]) / ts)}]
		})
	}
}

// checkVols compares the volumes with the model, which takes over their order:
// where deleting one leaves the others is not specified.
func (h *tileHist) checkVols(what string) {
	r := h.r
	ig := h.b.InputGeom()
	n := int(ig.ConvexVolumesCount())
	if n != len(h.vols) {
		r.Fail("volumes", "%d volumes after %s instead of %d", n, what, len(h.vols))
	}
	left := map[string][]vol{}
	for _, v := range h.vols {
		k := fmt.Sprint(v)
		left[k] = append(left[k], v)
	}
	h.vols = nil
	for i := 0; i < n; i++ {
		c := &ig.ConvexVolumes()[i]
		k := fmt.Sprint(vol{V: c.Verts[:3*c.NVerts], Lo: c.HMin, Hi: c.HMax, Area: uint8(c.Area)})
		l := left[k]
		if len(l) == 0 {
			r.Fail("volumes", "after %s volume %d is %s, which was not added or was deleted", what, i, k)
		}
		h.vols = append(h.vols, l[0])
		left[k] = l[1:]
	}
}

// badValues spoils one setting so that nothing can be built.
func badValues(r *R, s *recast.BuildSettings, tiled bool) string {
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	n := 4
	if tiled {
		n = 6
	}
	switch r.Draw(n) {
	case 0:
		s.CellSize = []float32{0, -1, nan, -inf}[r.Draw(4)]
	case 1:
		s.CellHeight = []float32{0, -1, nan, -inf}[r.Draw(4)]
	case 2:
		s.VertsPerPoly = []float32{0, -1, 2, nan, 1e9, inf}[r.Draw(6)]
	case 3:
		if tiled {
			s.TileSize = 1e6
		} else {
			s.CellSize = 1e-9 // more cells than can be counted
		}
	case 4:
		s.TileSize = []float32{0, -1, nan, inf, 1e6, 0.5}[r.Draw(6)]
	case 5:
		s.AgentRadius = []float32{1e6, nan, inf, 1e30}[r.Draw(4)]
	}
	return fmt.Sprintf("%+v", *s)
}

// badSettings builds with settings that nothing can be built with: that fails
// and leaves the mesh alone.
func (h *tileHist) badSettings() string {
	r := h.r
	set := h.set
	bad := badValues(r, &set, true)
	p := tpos{int32(r.Draw(maxi(1, int(h.tw)))), int32(r.Draw(maxi(1, int(h.th))))}
	w := h.pos(p, 0.5, 0.5)
	h.b.SetSettings(set)
	what := ""
	if r.Chance(2, 3) {
		r.CallB("BuildTile", buildBudget, func() { h.b.BuildTile(w) })
		what = fmt.Sprintf("building tile %v with the settings %s", p, bad)
	} else {
		var m *detour.NavMesh
		ok := true
		r.CallB("Build", buildBudget, func() { m, ok = h.b.Build() })
		if ok || m != nil {
			r.Fail("bad-settings", "a build with the settings %s reports success", bad)
		}
		what = "a failed build with the settings " + bad
	}
	h.b.SetSettings(h.set)
	r.Probe("bad-settings")
	r.NonTrivial()
	return what
}

// runOdd builds odd geometry with odd settings: whatever comes out, nothing
// crashes, and a mesh that comes out can be saved and loaded.
func runOdd(r *R) {
	nan, inf := float32(math.NaN()), float32(math.Inf(1))
	g := genGeo(r, geoCfg{MaxN: 4, Clean: true})
	set := drawSettings(r)
	fitSettings(g, &set, 72)
	text := g.Text
	odd := ""
	if r.Chance(1, 2) {
		// squeezed in one or two directions
		var sc [3]float64
		for k := range sc {
			sc[k] = []float64{1, 0.01, 1, 0, 1e-30}[r.Draw(5)]
		}
		var b []byte
		for _, v := range g.V {
			b = append(b, fmt.Sprintf("v %v %v %v\n", float32(float64(v[0])*sc[0]), float32(float64(v[1])*sc[1]), float32(float64(v[2])*sc[2]))...)
		}
		for _, t := range g.T {
			b = append(b, fmt.Sprintf("f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)...)
		}
		text = b
		odd = fmt.Sprintf("squeezed by %v", sc)
		r.Probe("squeezed")
	} else if r.Chance(1, 2) {
		// far from the origin, where coordinates are coarse
		off := [3]float64{}
		for k := range off {
			off[k] = []float64{0, 1e5, 1e6, -4e6, 1e7, 1e8, -1e12}[r.Draw(7)]
		}
		var b []byte
		for _, v := range g.V {
			b = append(b, fmt.Sprintf("v %v %v %v\n", float32(float64(v[0])+off[0]), float32(float64(v[1])+off[1]), float32(float64(v[2])+off[2]))...)
		}
		for _, t := range g.T {
			b = append(b, fmt.Sprintf("f %d %d %d\n", t[0]+1, t[1]+1, t[2]+1)...)
		}
		text = b
		odd = fmt.Sprintf("moved by %v", off)
		r.Probe("far-from-origin")
	}
	tiled := r.Chance(1, 2)
	must := true
	switch r.Draw(4) {
	case 0:
		odd += " " + badValues(r, &set, tiled)
		must = false
		r.Probe("bad-settings")
	case 1:
		for n := 1 + r.Draw(2); n > 0; n-- {
			x := []float32{-1, 0, nan, inf, -inf, 1e9, -1e9, 1e-9, 65535, 70000, 1000}[r.Draw(11)]
			switch r.Draw(11) {
			case 0:
				set.CellSize = []float32{300, 65535, 1e9, inf}[r.Draw(4)]
			case 1:
				set.CellHeight = []float32{1e-3, 300, 1e9, inf}[r.Draw(4)]
			case 2:
				set.AgentHeight = x
			case 3:
				set.AgentRadius = []float32{-1, nan, inf, -inf, 30, -1e9, 1e9}[r.Draw(7)]
			case 4:
				set.AgentMaxClimb = x
			case 5:
				set.AgentMaxSlope = x
			case 6:
				set.RegionMinSize = x
			case 7:
				set.RegionMergeSize = x
			case 8:
				set.EdgeMaxLen = x
			case 9:
				set.EdgeMaxError = x
			case 10:
				set.DetailSampleMaxError = x
			}
		}
		odd += fmt.Sprintf(" %+v", set)
		r.Probe("extreme-settings")
	}
	r.Logf("odd: %s, tiled %v", odd, tiled)
	b := newBuilder(tiled, recast.NewBuildContext(r.Chance(1, 2)))
	b.SetSettings(set)
	var err error
	r.Call("LoadGeometry", func() { err = b.LoadGeometry(&simReader{r: r, data: text, failAt: -1}) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	var m *detour.NavMesh
	ok := false
	r.CallB("Build", buildBudget, func() { m, ok = b.Build() })
	if ok && !must {
		r.Fail("bad-settings", "a build with %s reports success", odd)
	}
	if ok != (m != nil) {
		r.Fail("bad-settings", "a build with %s reports %v and a mesh %v", odd, ok, m != nil)
	}
	if ok {
		data := save(r, m)
		if _, err := decode(r, drawReader(r, data)); err != nil {
			r.Fail("load-refused", "the mesh built with %s cannot be loaded back: %v", odd, err)
		}
	}
	r.NonTrivial()
	r.State("odd", odd, tiled, ok)
}

// runManyTiles builds a floor of more tiles than references can be made for,
// or just not: a build that reports success holds them all.
func runManyTiles(r *R) {
	n := []int{130, 129, 132, 127}[r.Draw(4)]
	set := tilemesh.DefaultSettings()
	set.CellSize, set.TileSize, set.AgentRadius = 1, 4, 0
	set.RegionMinSize, set.DetailSampleDist = 0, 0
	s := n * 4
	text := fmt.Sprintf("v 0 0 0\nv 0 0 %d\nv %d 0 %d\nv %d 0 0\nf 1 2 3 4\n", s, s, s, s)
	b := tilemesh.New(recast.NewBuildContext(false))
	b.SetSettings(set)
	var err error
	r.Call("LoadGeometry", func() { err = b.LoadGeometry(&simReader{r: r, data: []byte(text), failAt: -1}) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	var m *detour.NavMesh
	ok := false
	r.CallB("Build", buildBudget*20, func() { m, ok = b.Build() })
	r.Logf("%d x %d tiles: %v", n, n, ok)
	if !ok && n*n <= 1<<14 {
		r.Fail("many-tiles", "a floor of %d x %d tiles cannot be built", n, n)
	}
	if ok {
		r.Probe("many-tiles-all")
		for y := int32(1); y < int32(n)-1; y++ {
			for x := int32(1); x < int32(n)-1; x++ {
				if m.TileAt(x, y, 0) == nil {
					r.Fail("many-tiles", "the build of %d x %d tiles reports success without tile (%d,%d)", n, n, x, y)
				}
			}
		}
	} else {
		r.Probe("too-many-tiles")
	}
	r.NonTrivial()
	r.State("many", n, ok)
}

// runDense builds a floor of very many triangles, and the same floor of two.
func runDense(r *R) {
	n := 230 + r.Draw(60)
	size := float32(n) * 0.0625
	text := func(n int) []byte {
		var b []byte
		q := size / float32(n)
		for i := 0; i <= n; i++ {
			for j := 0; j <= n; j++ {
				b = append(b, fmt.Sprintf("v %v 0 %v\n", float32(i)*q, float32(j)*q)...)
			}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				a, c := i*(n+1)+j+1, (i+1)*(n+1)+j+1
				b = append(b, fmt.Sprintf("f %d %d %d %d\n", a, a+1, c+1, c)...)
			}
		}
		return b
	}
	set := tilemesh.DefaultSettings()
	set.CellSize = []float32{0.5, 0.25}[r.Draw(2)]
	set.TileSize = []float32{32, 64, 128}[r.Draw(3)]
	tiled := !r.Chance(1, 4)
	r.Logf("floor of %v x %v in %d triangles, cells of %v, tiles of %v, tiled %v", size, size, 2*n*n, set.CellSize, set.TileSize, tiled)
	data := func(n int) map[tpos][]byte {
		b := newBuilder(tiled, recast.NewBuildContext(false))
		b.SetSettings(set)
		var err error
		r.CallB("LoadGeometry", buildBudget, func() { err = b.LoadGeometry(&simReader{r: r, data: text(n), failAt: -1}) })
		if err != nil {
			r.Fail("load-refused", "geometry refused: %v", err)
		}
		var m *detour.NavMesh
		ok := false
		r.CallB("Build", buildBudget, func() { m, ok = b.Build() })
		if !ok {
			r.Fail("build-failed", "a floor of %d triangles cannot be built", 2*n*n)
		}
		return tileData(r, m)
	}
	a, b := data(1), data(n)
	if len(a) != len(b) {
		r.Fail("dense", "a floor makes %d tiles in %d triangles, %d in two", len(b), 2*n*n, len(a))
	}
	for k := range a {
		if normTile(a[k]) != normTile(b[k]) {
			r.Fail("dense", "tile %v of a floor in %d triangles differs from that of the same floor in two", k, 2*n*n)
		}
	}
	r.Probe("dense")
	r.NonTrivial()
	r.State("dense", n, set.CellSize, set.TileSize, tiled)
}

func (h *tileHist) checkPos(p tpos, w d3.Vec3) {
	var x, y int32
	h.r.Call("TilePos", func() { x, y = h.b.TilePos(w) })
	if x != p[0] || y != p[1] {
		h.r.Fail("tile-pos", "TilePos(%v) = (%d,%d), the position is in tile %v", w, x, y, p)
	}
	h.r.Call("CalcTileLoc", func() { x, y = h.m.CalcTileLoc(w) })
	if x != p[0] || y != p[1] {
		h.r.Fail("tile-pos", "the mesh puts %v into tile (%d,%d) instead of %v", w, x, y, p)
	}
}

func init() {
	register(&Prop{ID: "P16", Run: runP16, Quick: 4000, Full: 60000,
		Rule: "A tiled builder with drawn settings and generated geometry builds, rebuilds and removes single tiles, edits marked volumes, reloads geometry and builds everything in drawn order; after each operation every location is compared with what a fresh builder makes of the same input, connections with those of a freshly assembled mesh, and on flat floors polygon areas with the volumes.",
		Real: buildReal, Stub: commonStub})
}

var buildReal = []string{"recast (geometry loading, voxelisation, regions, contours, polygon and detail meshes)", "sample/tilemesh", "sample/solomesh", "detour (tile data, mesh, saving)", "the OBJ decoder and vector libraries (third party, not preempted inside)"}
