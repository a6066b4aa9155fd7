package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

// Geo is generated input geometry: what its text says, known independently of
// the loader.
type Geo struct {
	Text  []byte
	V     [][3]float32
	T     [][3]int32
	Min   [3]float32
	Max   [3]float32
	flat  bool    // a plain floor at height 0
	cell  float32 // size of a floor square
	nx    int
	nz    int
	solid []bool // floor squares present (flat floors)
	ox    float32
	oz    float32
}

type geoCfg struct {
	MaxN  int  // floor squares per side
	Flat  bool // plain floor, maybe with holes
	Clean bool // no exotic text
}

// genGeo draws geometry and a text for it.
func genGeo(r *R, c geoCfg) *Geo {
	g := &Geo{flat: c.Flat, cell: []float32{4, 2, 3, 1, 6}[r.Draw(5)]}
	g.nx, g.nz = 1+r.Draw(c.MaxN), 1+r.Draw(c.MaxN)
	if c.Flat && c.MaxN > 2 {
		g.cell = []float32{8, 6, 4}[r.Draw(3)]
	}
	if !c.Flat && r.Chance(1, 25) {
		// many triangles: several chunks
		g.nx, g.nz, g.cell = 18, 9+r.Draw(6), []float32{1, 0.5}[r.Draw(2)]
		r.Probe("many-triangles")
	}
	ox, oy, oz := float32(r.Draw(5)-2)*8, float32(r.Draw(3)-1)*4, float32(r.Draw(5)-2)*8
	if r.Chance(1, 2) {
		ox, oy, oz = 0, 0, 0
	}
	if c.Flat {
		oy = 0
	}
	g.ox, g.oz = ox, oz
	type face []int32
	var faces []face
	vert := func(x, y, z float32) int32 {
		g.V = append(g.V, [3]float32{ox + x, oy + y, oz + z})
		return int32(len(g.V) - 1)
	}
	shared := r.Chance(1, 2)
	hk := r.Draw(4) // how wild the ground is
	if c.Flat {
		hk = 0
	}
	h := make([]float32, (g.nx+1)*(g.nz+1))
	for i := range h {
		switch hk {
		case 1:
			h[i] = float32(r.Draw(4)) * 0.25
		case 2:
			h[i] = float32(r.Draw(3)) * 0.5 * g.cell
		case 3:
			if r.Chance(1, 4) {
				h[i] = float32(r.Draw(5))
			}
		}
	}
	ids := map[int]int32{}
	node := func(i, j int) int32 {
		k := j*(g.nx+1) + i
		if shared {
			if v, ok := ids[k]; ok {
				return v
			}
		}
		v := vert(float32(i)*g.cell, h[k], float32(j)*g.cell)
		ids[k] = v
		return v
	}
	holes := r.Draw(4)
	for j := 0; j < g.nz; j++ {
		for i := 0; i < g.nx; i++ {
			if holes > 0 && r.Chance(1, 8) && (i > 0 || j > 0) {
				g.solid = append(g.solid, false)
				continue
			}
			g.solid = append(g.solid, true)
			a, b, cc, d := node(i, j), node(i, j+1), node(i+1, j+1), node(i+1, j)
			switch {
			case hk == 0 && r.Chance(1, 2):
				faces = append(faces, face{a, b, cc, d})
			case r.Chance(1, 2):
				faces = append(faces, face{a, b, cc}, face{a, cc, d})
			default:
				faces = append(faces, face{a, b, d}, face{b, cc, d})
			}
		}
	}
	w, dz := float32(g.nx)*g.cell, float32(g.nz)*g.cell
	if !c.Flat {
		// boxes, tables, ramps
		for k := r.Draw(4); k > 0; k-- {
			sx, sz := float32(1+r.Draw(4))*0.5, float32(1+r.Draw(4))*0.5
			x := float32(r.Draw(int(w*2)+1)) * 0.5
			z := float32(r.Draw(int(dz*2)+1)) * 0.5
			if r.Chance(3, 4) {
				x, z = minf(x, maxf(0, w-sx)), minf(z, maxf(0, dz-sz))
			}
			y0, y1 := float32(0), float32(1+r.Draw(6))*0.5
			top := func(ya, yb float32) {
				faces = append(faces, face{vert(x, ya, z), vert(x, yb, z+sz), vert(x+sx, yb, z+sz), vert(x+sx, ya, z)})
			}
			switch r.Draw(3) {
			case 0: // box
				top(y1, y1)
				side := func(xa, za, xb, zb float32) {
					faces = append(faces, face{vert(xa, y0, za), vert(xb, y0, zb), vert(xb, y1, zb), vert(xa, y1, za)})
				}
				side(x, z, x+sx, z)
				side(x+sx, z, x+sx, z+sz)
				side(x+sx, z+sz, x, z+sz)
				side(x, z+sz, x, z)
			case 1: // bridge overhead
				y1 += 1
				top(y1, y1)
			case 2: // ramp
				top(0, y1)
			}
		}
	}
	if !c.Flat && r.Chance(1, 12) {
		// a building of many storeys of slatted floors
		n, wide, gap := 3+r.Draw(10), float32(1+r.Draw(4)), float32(1+r.Draw(2))*0.5
		len := float32(2 + r.Draw(5))
		count := 2 + r.Draw(6)
		alongZ := r.Chance(1, 3)
		for k := 0; k < n; k++ {
			y := float32(3 + 4*k)
			for j := 0; j < count; j++ {
				a := float32(j) * (wide + gap)
				if alongZ {
					faces = append(faces, face{vert(0, y, a), vert(0, y, a+wide), vert(len, y, a+wide), vert(len, y, a)})
				} else {
					faces = append(faces, face{vert(a, y, 0), vert(a, y, len), vert(a+wide, y, len), vert(a+wide, y, 0)})
				}
			}
		}
		r.Probe("storeys")
	}
	if len(faces) == 0 {
		faces = append(faces, face{vert(0, 0, 0), vert(0, 0, g.cell), vert(g.cell, 0, g.cell)})
	}
	if !c.Clean && r.Chance(1, 6) {
		vert(float32(r.Draw(9)-4), float32(r.Draw(3)), float32(r.Draw(9)-4)) // an unused vertex counts for the bounds
	}
	if !c.Clean && r.Chance(1, 8) && len(g.V) > 0 {
		faces = append(faces, face{0, 0, 0}) // degenerate
	}
	if !c.Clean && r.Chance(1, 10) {
		faces = append(faces, face{0, 1}) // a line: no triangle
	}
	for i, v := range g.V {
		for k := 0; k < 3; k++ {
			if i == 0 || v[k] < g.Min[k] {
				g.Min[k] = v[k]
			}
			if i == 0 || v[k] > g.Max[k] {
				g.Max[k] = v[k]
			}
		}
	}
	for _, f := range faces {
		for k := 2; k < len(f); k++ {
			g.T = append(g.T, [3]int32{f[0], f[k-1], f[k]})
		}
	}
	// the text
	var b strings.Builder
	num := func(f float32) string { return strconv.FormatFloat(float64(f), 'f', -1, 32) }
	style := r.Draw(4)
	if c.Clean {
		style = 0
	}
	if style > 0 {
		b.WriteString("# generated\no thing\n")
	}
	emitV := func(v [3]float32) {
		switch style {
		case 2:
			fmt.Fprintf(&b, "v %.6f %.6f %.6f\n", v[0], v[1], v[2])
		case 3:
			fmt.Fprintf(&b, "v %s %s %s 1.0\n", num(v[0]), num(v[1]), num(v[2]))
		default:
			fmt.Fprintf(&b, "v %s %s %s\n", num(v[0]), num(v[1]), num(v[2]))
		}
	}
	emitF := func(f face) {
		b.WriteString("f")
		for _, i := range f {
			switch style {
			case 2:
				fmt.Fprintf(&b, " %d//%d", i+1, 1)
			case 3:
				fmt.Fprintf(&b, " %d/%d/%d", i+1, 1, 1)
			default:
				fmt.Fprintf(&b, " %d", i+1)
			}
		}
		b.WriteString("\n")
	}
	interleave := !c.Clean && r.Chance(1, 3)
	nv := 0
	for _, f := range faces {
		need := len(g.V)
		if interleave {
			need = 0
			for _, i := range f {
				need = maxi(need, int(i)+1)
			}
		}
		for ; nv < need; nv++ {
			emitV(g.V[nv])
		}
		if style == 2 && r.Chance(1, 8) {
			b.WriteString("vn 0.0 1.0 0.0\ns off\nusemtl none\n\n")
		}
		emitF(f)
	}
	for ; nv < len(g.V); nv++ {
		emitV(g.V[nv])
	}
	s := b.String()
	if !c.Clean && r.Chance(1, 4) {
		s = strings.TrimSuffix(s, "\n")
	}
	g.Text = []byte(s)
	return g
}

func minf(a, b float32) float32 {
	if a < b {
		return a
	}
	return b
}

func maxf(a, b float32) float32 {
	if a > b {
		return a
	}
	return b
}

// drawSettings draws build settings.
func drawSettings(r *R) recast.BuildSettings {
	s := tilemesh.DefaultSettings()
	if r.Chance(1, 6) {
		return s
	}
	s.CellSize = []float32{0.5, 0.3, 0.25, 1}[r.Draw(4)]
	s.CellHeight = []float32{0.25, 0.2, 0.5}[r.Draw(3)]
	s.AgentHeight = []float32{2, 1, 3}[r.Draw(3)]
	s.AgentRadius = []float32{0.6, 0.3, 1, 0}[r.Draw(4)]
	s.AgentMaxClimb = []float32{0.9, 0.5, 0.2}[r.Draw(3)]
	s.AgentMaxSlope = []float32{45, 60, 30}[r.Draw(3)]
	s.RegionMinSize = []float32{8, 0, 3}[r.Draw(3)]
	s.RegionMergeSize = []float32{20, 0, 5}[r.Draw(3)]
	s.EdgeMaxLen = []float32{12, 0, 4}[r.Draw(3)]
	s.EdgeMaxError = []float32{1.3, 1, 2}[r.Draw(3)]
	s.VertsPerPoly = []float32{6, 3, 4, 5}[r.Draw(4)]
	s.DetailSampleDist = []float32{6, 0, 2}[r.Draw(3)]
	s.DetailSampleMaxError = []float32{1, 0.5}[r.Draw(2)]
	s.TileSize = []float32{32, 16, 24, 10, 64}[r.Draw(5)]
	if r.Chance(1, 6) {
		// unusual values
		for n := 1 + r.Draw(3); n > 0; n-- {
			switch r.Draw(11) {
			case 0:
				s.VertsPerPoly = []float32{7, 8, 12}[r.Draw(3)]
			case 1:
				s.AgentHeight = []float32{0, 0.1, 20}[r.Draw(3)]
			case 2:
				s.AgentMaxClimb = []float32{0, 5, 50}[r.Draw(3)]
			case 3:
				s.AgentMaxSlope = []float32{0, 89, 90, 5}[r.Draw(4)]
			case 4:
				s.EdgeMaxError = []float32{0, 0.1, 8}[r.Draw(3)]
			case 5:
				s.EdgeMaxLen = []float32{1, 0.1, 100}[r.Draw(3)]
			case 6:
				s.DetailSampleDist = []float32{1, 0.9, 16}[r.Draw(3)]
			case 7:
				s.DetailSampleMaxError = []float32{0, 16}[r.Draw(2)]
			case 8:
				s.RegionMinSize, s.RegionMergeSize = []float32{50, 150}[r.Draw(2)], []float32{50, 150}[r.Draw(2)]
			case 9:
				s.AgentRadius = []float32{4, 2}[r.Draw(2)]
			case 10:
				s.TileSize = []float32{5, 8, 128}[r.Draw(3)]
			}
		}
		r.Probe("unusual-settings")
	}
	return s
}

// fitSettings makes the cells coarse enough for the simulation to be quick.
func fitSettings(g *Geo, s *recast.BuildSettings, max float32) {
	for (g.Max[0]-g.Min[0])/s.CellSize > max || (g.Max[2]-g.Min[2])/s.CellSize > max {
		s.CellSize *= 2
	}
	for (g.Max[0]-g.Min[0])/(s.CellSize*s.TileSize) > 4 || (g.Max[2]-g.Min[2])/(s.CellSize*s.TileSize) > 4 {
		s.TileSize *= 2
	}
}

// builder is what the two sample builders have in common.
type builder interface {
	SetSettings(recast.BuildSettings)
	LoadGeometry(rd reader) error
	InputGeom() *recast.InputGeom
	Build() (*detour.NavMesh, bool)
}

type reader interface {
	Read([]byte) (int, error)
}

type soloB struct{ *solomesh.SoloMesh }

func (b soloB) LoadGeometry(rd reader) error { return b.SoloMesh.LoadGeometry(rd) }

type tileB struct{ *tilemesh.TileMesh }

func (b tileB) LoadGeometry(rd reader) error { return b.TileMesh.LoadGeometry(rd) }

func newBuilder(tiled bool, ctx *recast.BuildContext) builder {
	if tiled {
		return tileB{tilemesh.New(ctx)}
	}
	return soloB{solomesh.New(ctx)}
}

// vol is a marked volume.
type vol struct {
	V      []float32
	Lo, Hi float32
	Area   uint8
}

func (v vol) addTo(g *recast.InputGeom) { g.AddConvexVolume(dupF(v.V), v.Lo, v.Hi, v.Area) }

func dupF(f []float32) []float32 { return append([]float32(nil), f...) }

// drawVol draws a convex volume of 3 to 12 vertices over the geometry.
func drawVol(r *R, g *Geo) vol {
	w, d := g.Max[0]-g.Min[0], g.Max[2]-g.Min[2]
	cx, cz := g.Min[0]+w*float32(r.Draw(17))/16, g.Min[2]+d*float32(r.Draw(17))/16
	rx, rz := w*float32(1+r.Draw(8))/16, d*float32(1+r.Draw(8))/16
	n := 3 + r.Draw(10)
	if r.Chance(1, 8) {
		n = 13 + r.Draw(20)
	}
	v := vol{Lo: g.Min[1] - 1, Hi: g.Max[1] + 1, Area: uint8(1 + r.Draw(5))}
	if r.Chance(1, 4) {
		v.Area = []uint8{0, 63}[r.Draw(2)]
	}
	if r.Chance(1, 4) {
		v.Lo, v.Hi = g.Min[1]+0.5, g.Max[1]-0.5
	}
	ph := float64(r.Draw(8)) * math.Pi / 16
	if n == 4 {
		ph = math.Pi / 4
	}
	for i := 0; i < n; i++ {
		a := ph + 2*math.Pi*float64(i)/float64(n)
		v.V = append(v.V, cx+rx*float32(math.Cos(a)), v.Lo, cz+rz*float32(math.Sin(a)))
	}
	return v
}

// drawPock draws a small volume that is not walkable.
func drawPock(r *R, g *Geo, set recast.BuildSettings) vol {
	cs := set.CellSize
	w, d := g.Max[0]-g.Min[0], g.Max[2]-g.Min[2]
	x, z := g.Min[0]+w*float32(1+r.Draw(31))/32, g.Min[2]+d*float32(1+r.Draw(31))/32
	a, b := cs*(1+float32(r.Draw(14))), cs*(1+float32(r.Draw(14)))
	return vol{Lo: g.Min[1] - 1, Hi: g.Max[1] + 1, Area: 0,
		V: []float32{x - a, 0, z - b, x - a, 0, z + b, x + a, 0, z + b, x + a, 0, z - b}}
}

// tileData is the mesh's content as saved, by tile position.
func tileData(r *R, m *detour.NavMesh) map[[2]int32][]byte {
	f, err := parseFile(save(r, m))
	if err != nil {
		r.Fail("save", "the built mesh saves as a malformed file")
	}
	out := map[[2]int32][]byte{}
	for _, t := range f.Tiles {
		b, err := parseTile(t.Data)
		if err != nil {
			r.Fail("save", "the built mesh has a malformed tile: %v", err)
		}
		out[[2]int32{b.H.X, b.H.Y}] = t.Data
	}
	return out
}

// linkText renders the connectivity of a mesh by tile position.
func linkText(r *R, m *detour.NavMesh) string {
	name := func(ref detour.PolyRef) string {
		var t *detour.MeshTile
		var p *detour.Poly
		if detour.StatusFailed(m.TileAndPolyByRef(ref, &t, &p)) {
			r.Fail("dangling-link", "a link leads to 0x%x, which is not loaded", uint32(ref))
		}
		for i := range t.Polys {
			if &t.Polys[i] == p {
				return fmt.Sprintf("%d,%d#%d", t.Header.X, t.Header.Y, i)
			}
		}
		return "?"
	}
	var l []string
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		for pi := range t.Polys {
			n := 0
			for j := t.Polys[pi].FirstLink; j != nullLink; j = t.Links[j].Next {
				if n++; n > len(t.Links) {
					r.Fail("link-cycle", "%d,%d#%d: the link list has a cycle", t.Header.X, t.Header.Y, pi)
				}
				k := t.Links[j]
				l = append(l, fmt.Sprintf("%d,%d#%d e%d s%d %d-%d -> %s", t.Header.X, t.Header.Y, pi, k.Edge, k.Side, k.BMin, k.BMax, name(k.Ref)))
			}
		}
	}
	sortStrings(l)
	return strings.Join(l, "\n")
}

// covered tells whether a point lies on the floor (1) or off it (0), or, where
// an edge is nearer than the margin, neither (-1).
func (g *Geo) covered(x, z, margin float32) int {
	px, pz := x-g.ox, z-g.oz
	on := false
	near := [2]float32{margin * 2, margin * 2} // distance to nothing, to floor
	for j := -1; j <= g.nz; j++ {
		for i := -1; i <= g.nx; i++ {
			s := i >= 0 && j >= 0 && i < g.nx && j < g.nz && g.solid[j*g.nx+i]
			x0, z0 := float32(i)*g.cell, float32(j)*g.cell
			x1, z1 := x0+g.cell, z0+g.cell
			dx := maxf(0, maxf(x0-px, px-x1))
			dz := maxf(0, maxf(z0-pz, pz-z1))
			d := maxf(dx, dz)
			if d == 0 && s {
				on = true
			}
			k := 0
			if s {
				k = 1
			}
			near[k] = minf(near[k], d)
		}
	}
	switch {
	case on && near[0] > margin:
		return 1
	case !on && near[1] > margin:
		return 0
	}
	return -1
}
