package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/tilemesh"
	"github.com/arl/gogeo/f32/d3"
)

// A Terr is a terrain of rectangular patches along the cells of the build, so
// that what an agent can walk on is known without voxelising anything.
type Terr struct {
	nx, nz      int // cells
	cs, ch      float32
	ox, oy, oz  float32
	climb, hh   int // cells up and of headroom
	rad, err    int // cells
	slope       float64
	hill        int // height of the ground
	ground      int // patches of the ground
	patches     []patch
	vols        []vol
	marks       []mark // volumes, in order
	lev         [][]level
	per         int // most levels in a column
	tile        int // cells, or 0
	sure, maybe [][]bool
	plain       bool // with settings that keep the number of polygons down
	rough       bool // nowhere level
	slit        bool // a wall of no width: ground on both sides, no headroom between
}

// A patch is a rectangle of cells, level or rising along x or z.
type patch struct {
	x0, z0, x1, z1 int
	ka, kb         int // heights in voxels at the low and the high end
	along          int // 0: x, 2: z
	riser          bool
	down           bool // faces down: nothing to stand on
}

// A mark is an area on a rectangle of cells, between two heights.
type mark struct {
	x0, z0, x1, z1 int
	lo, hi         int
	area           uint8
}

// A level is a place to stand in a column.
type level struct {
	lo, hi    int  // what its top may be
	ceil      int  // the lowest that may be overhead
	roof      int  // the lowest that surely is overhead
	ok, maybe bool // surely and possibly walkable
	bare      bool // not walkable anyway, or closer to an edge than the agent's radius
}

func (p *patch) rise() float64 {
	n := p.x1 - p.x0
	if p.along == 2 {
		n = p.z1 - p.z0
	}
	return math.Abs(float64(p.kb-p.ka)) / float64(n)
}

// at is the range of a patch's heights in a cell, which may be beside it.
func (p *patch) at(x, z int) (lo, hi float64) {
	if p.ka == p.kb {
		return float64(p.ka), float64(p.ka)
	}
	a, n := x-p.x0, p.x1-p.x0
	if p.along == 2 {
		a, n = z-p.z0, p.z1-p.z0
	}
	f := func(i int) float64 {
		i = maxi(0, mini(n, i))
		return float64(p.ka) + float64(p.kb-p.ka)*float64(i)/float64(n)
	}
	lo, hi = f(a), f(a+1)
	if lo > hi {
		lo, hi = hi, lo
	}
	return
}

func (p *patch) in(x, z, grow int) bool {
	return x >= p.x0-grow && z >= p.z0-grow && x < p.x1+grow && z < p.z1+grow
}

// genTerr draws a terrain. A wide one has more than 255 cells to each side.
func genTerr(r *R, wide bool) *Terr {
	t := &Terr{cs: []float32{0.5, 0.25, 1}[r.Draw(3)]}
	t.ch = t.cs * []float32{0.5, 1, 0.25}[r.Draw(3)]
	t.climb, t.hh = []int{3, 2, 4, 1, 6}[r.Draw(5)], []int{8, 10, 14}[r.Draw(3)]
	if r.Chance(1, 16) {
		// thin voxels: hundreds of them make the headroom
		t.ch = t.cs * []float32{0.03125, 0.0625, 0.015625}[r.Draw(3)]
		t.climb, t.hh = 20+r.Draw(120), 250+r.Draw(250)
		r.Probe("thin")
	}
	if r.Chance(1, 40) {
		t.ch = 4 * t.cs
		r.Probe("thick")
	}
	t.rad = r.Draw(4)
	t.ox, t.oy, t.oz = float32(r.Draw(5)-2)*4, float32(r.Draw(3)-1)*4, float32(r.Draw(5)-2)*4
	t.err = 2
	t.slope = []float64{45, 30, 60}[r.Draw(3)]
	px, pz, size := 1+r.Draw(4), 1+r.Draw(4), 10+r.Draw(14)
	if r.Chance(1, 6) {
		t.rad = 5 + r.Draw(8)
		size += 2 * t.rad
		px, pz = 1+px%2, 1+pz%2
	}
	if wide {
		px, pz, size = 3+r.Draw(2), 3+r.Draw(2), 88+r.Draw(8)
		if px == 4 {
			size = 66 + r.Draw(8)
			pz = 4
		}
		t.rad = r.Draw(4)
		if r.Chance(1, 3) {
			t.rad = 90 + r.Draw(45)
		}
	}
	if r.Chance(1, 100) {
		t.rad = []int{300, 16000, 32767, 32768, 40000, 200000, 1 << 30}[r.Draw(7)]
		r.Probe("no-room")
	}
	xs, zs := []int{0}, []int{0}
	for i := 0; i < px; i++ {
		xs = append(xs, xs[i]+size-r.Draw(4))
	}
	for i := 0; i < pz; i++ {
		zs = append(zs, zs[i]+size-r.Draw(4))
	}
	t.nx, t.nz = xs[px], zs[pz]
	h := make([]int, px*pz)
	kind := r.Draw(7) // level, stairs along x, along z, wild, a spiral, a tower, winding stairs
	if t.rough = !wide && t.rad < 6 && r.Chance(1, 24); t.rough {
		// uneven ground everywhere
		kind = 7
	}
	if kind >= 5 && kind < 7 && (wide || size > 30) {
		kind = 0
	}
	if kind == 7 {
		px, pz = 8+r.Draw(12), 8+r.Draw(12)
		w := 2 + r.Draw(3)
		xs, zs = make([]int, px+1), make([]int, pz+1)
		for i := range xs {
			xs[i] = i * w
		}
		for i := range zs {
			zs[i] = i * w
		}
		t.nx, t.nz = xs[px], zs[pz]
		h = make([]int, px*pz)
		r.Probe("rough")
	}
	if kind == 4 {
		px, pz = 2, 2
		xs, zs = append(xs, 0, 0)[:3], append(zs, 0, 0)[:3]
		t.nx, t.nz = 2*size-r.Draw(4), 2*size-r.Draw(4)
		xs[1], xs[2], zs[1], zs[2] = size, t.nx, size, t.nz
		h = make([]int, 4)
		s, ring, from, back := 1+r.Draw(mini(2, maxi(1, t.climb/2))), []int{0, 1, 3, 2}, r.Draw(4), r.Draw(2)
		for i := 0; i < 4; i++ {
			k := ring[(from+i)%4]
			if back == 1 {
				k = ring[(from+4-i)%4]
			}
			h[k] = i * s
		}
	}
	for j := 0; j < pz; j++ {
		for i := 0; i < px; i++ {
			k := j*px + i
			step := func() int {
				return []int{0, 1, t.climb, -t.climb, t.climb - 1, -1, t.climb + 1, -t.climb - 1, 3 * t.climb}[r.Draw(9)]
			}
			switch {
			case kind == 7:
				h[k] = r.Draw(2) * (1 + t.climb/2)
			case kind == 1 && i > 0:
				h[k] = h[k-1] + r.Draw(t.climb+1)
			case kind == 1 && j > 0:
				h[k] = h[k-px]
			case kind == 2 && j > 0:
				h[k] = h[k-px] - r.Draw(t.climb+1)
			case kind == 2 && i > 0:
				h[k] = h[k-1]
			case kind == 3 && i > 0 && r.Chance(1, 2):
				h[k] = h[k-1] + step()
			case kind == 3 && j > 0:
				h[k] = h[k-px] + step()
			}
		}
	}
	low := 0
	for _, v := range h {
		low = mini(low, v)
	}
	for k := range h {
		h[k] -= low
	}
	riser := r.Chance(1, 2)
	holes := r.Chance(1, 2)
	for j := 0; j < pz && kind != 6; j++ {
		for i := 0; i < px; i++ {
			if holes && r.Chance(1, 6) && i+j > 0 {
				continue
			}
			k := j*px + i
			p := patch{xs[i], zs[j], xs[i+1], zs[j+1], h[k], h[k], 0, riser, false}
			if kind == 3 && r.Chance(1, 4) {
				// a ramp to the next
				if p.along = 2 * r.Draw(2); p.along == 0 && i+1 < px {
					p.kb = h[k+1]
				} else if p.along == 2 && j+1 < pz {
					p.kb = h[k+px]
				}
				if r.Chance(1, 4) {
					p.kb = p.ka + 4*(p.x1-p.x0) // a cliff
				}
			}
			t.patches = append(t.patches, p)
		}
	}
	if kind == 6 {
		t.winding(r, riser)
	}
	top := 0
	for _, p := range t.patches {
		top = maxi(top, maxi(p.ka, p.kb))
	}
	t.hill, t.ground = top, len(t.patches)
	if kind == 5 {
		// storeys over the ground, which is level
		n := 1 + r.Draw(4)
		if r.Chance(1, 4) {
			n = 4 + r.Draw(16)
		}
		if r.Chance(1, 12) && t.nx*t.nz < 1000 {
			if n = 60 + r.Draw(40); t.nx*t.nz < 400 && r.Chance(1, 2) {
				n = 250 + r.Draw(20)
			}
			t.plain = true
			r.Probe("skyscraper")
		}
		for ; n > 0; n-- {
			top += t.hh + 2 + r.Draw(4)
			if r.Chance(1, 8) {
				top += 240 + r.Draw(40)
			}
			p := patch{0, 0, t.nx, t.nz, top, top, 0, false, false}
			if r.Chance(1, 3) {
				p.x0 = r.Draw(t.nx / 2)
			}
			if r.Chance(1, 3) {
				p.z1 -= r.Draw(t.nz / 2)
			}
			t.patches = append(t.patches, p)
		}
		r.Probe("tower")
	}
	if kind == 4 {
		// a roof over the lowest part, too low to climb up from below it, and
		// areas of their own
		for _, p := range t.patches {
			if p.ka == 0 {
				k := t.hh + 2 + r.Draw(3)
				t.patches = append(t.patches, patch{p.x0, p.z0, p.x1, p.z1, k, k, 0, false, false})
				break
			}
		}
		for _, p := range t.patches[:len(t.patches)-1] {
			if r.Chance(1, 2) {
				t.mark(r, mark{p.x0, p.z0, p.x1, p.z1, -3, 1000, uint8(1 + r.Draw(4))})
			}
		}
		r.Probe("spiral")
	}
	// slabs over the ground: low ones are obstacles, high ones are bridges
	slab := func(k int, down bool) {
		w, d := 1+r.Draw(size+6), 1+r.Draw(size+6)
		w, d = mini(w, t.nx), mini(d, t.nz)
		x, z := r.Draw(t.nx-w+1), r.Draw(t.nz-d+1)
		t.patches = append(t.patches, patch{x, z, x + w, z + d, k, k, 0, !down && r.Chance(1, 4), down})
		if down {
			for r.Chance(1, 2) {
				// another one above it
				k += 1 + r.Draw(t.climb+1)
				t.patches = append(t.patches, patch{x, z, x + w, z + d, k, k, 0, false, true})
				r.Probe("plates")
			}
		}
	}
	for n := r.Draw(4); n > 0; n-- {
		k := top + []int{t.hh + 1, t.hh + 3, t.hh, t.hh + 1, t.hh - 1, t.climb + 2, t.climb, 1}[r.Draw(8)]
		if r.Chance(1, 10) {
			k += 256
		}
		slab(k, r.Chance(1, 8))
	}
	if r.Chance(1, 40) || t.ch > t.cs && r.Chance(1, 4) {
		slab([]int{65300 + r.Draw(320), 10000 + r.Draw(50000)}[r.Draw(2)], false)
		r.Probe("high")
	}
	if r.Chance(1, 6) {
		slab(t.patches[r.Draw(len(t.patches))].ka+2+r.Draw(t.climb+1), true)
	}
	if t.rad > 0 && r.Chance(1, 3) {
		// a roof over one patch of the ground only: the way to a higher one
		// beside it may be too low (without erosion the wall between them would
		// have no width, and outlines on both sides would not meet)
		p := t.patches[r.Draw(t.ground)]
		if p.ka == p.kb {
			k := p.ka + t.hh + 2 + r.Draw(3)
			t.patches = append(t.patches, patch{p.x0, p.z0, p.x1, p.z1, k, k, 0, false, r.Chance(1, 2)})
			r.Probe("roof")
		}
	}
	// marked volumes, their sides through the middle of cells
	for n := r.Draw(3); n > 0; n-- {
		w, d := 1+r.Draw(size+6), 1+r.Draw(size+6)
		w, d = mini(w, t.nx), mini(d, t.nz)
		x, z := r.Draw(t.nx-w+1), r.Draw(t.nz-d+1)
		lo, hi := -3, 1000
		if r.Chance(1, 3) {
			lo = r.Draw(top + 2*t.hh)
		}
		if r.Chance(1, 3) {
			hi = lo + 2 + r.Draw(top+2*t.hh)
		}
		t.mark(r, mark{x, z, x + w, z + d, lo, hi, uint8(r.Draw(5))})
	}
	return t
}

// winding draws stairs that wind around a square, over themselves.
func (t *Terr) winding(r *R, riser bool) {
	n := 3 + r.Draw(2) // (with two, steps of all heights would meet in one vertex)
	s := 5 + 2*mini(t.rad, 9) + r.Draw(5)
	t.nx, t.nz = n*s, n*s
	var ring [][2]int
	for i := 0; i < n-1; i++ {
		ring = append(ring, [2]int{i, 0})
	}
	for i := 0; i < n-1; i++ {
		ring = append(ring, [2]int{n - 1, i})
	}
	for i := n - 1; i > 0; i-- {
		ring = append(ring, [2]int{i, n - 1})
	}
	for i := n - 1; i > 0; i-- {
		ring = append(ring, [2]int{0, i})
	}
	l := len(ring)
	up := 1 + r.Draw(t.climb)
	if l*up < t.hh+2 {
		up = mini(t.climb, (t.hh+1+l)/l)
	}
	at, back := r.Draw(l), r.Chance(1, 2)
	for i := 0; i < l+1+r.Draw(2*l); i++ {
		c := ring[(at+i)%l]
		if back {
			c = ring[(at+2*l*l-i)%l]
		}
		t.patches = append(t.patches, patch{c[0] * s, c[1] * s, (c[0] + 1) * s, (c[1] + 1) * s, i * up, i * up, 0, riser, false})
	}
	r.Probe("winding")
}

// genComb draws a wide floor with an outline of tens of thousands of cells.
func genComb(r *R) *Terr {
	t := &Terr{cs: []float32{0.5, 0.25, 1}[r.Draw(3)], climb: 3, hh: 8, err: 2, slope: 45}
	t.ch = t.cs
	t.rad = r.Draw(2)
	n, w, gap := 430+r.Draw(150), 11+r.Draw(4)+2*t.rad, 1+r.Draw(2)
	t.nx, t.nz = n, n-r.Draw(20)
	add := func(x0, z0, x1, z1 int) {
		t.patches = append(t.patches, patch{x0, z0, x1, z1, 0, 0, 0, false, false})
	}
	along := r.Chance(1, 3)
	if along {
		add(0, 0, w, t.nz)
	} else {
		add(0, 0, t.nx, w)
	}
	back := -1
	if r.Chance(1, 3) {
		back = r.Draw(n / w) // joined at both ends
	}
	for a, i := 0, 0; a+w <= n-20; a, i = a+w+gap, i+1 {
		if along {
			add(w, a, t.nx, a+w)
			if i == back {
				add(t.nx-w, a+w, t.nx, a+w+gap)
			}
		} else {
			add(a, w, a+w, t.nz)
			if i == back {
				add(a+w, t.nz-w, a+w+gap, t.nz)
			}
		}
	}
	t.ground = len(t.patches)
	r.Probe("comb")
	return t
}

// mark adds a volume.
func (t *Terr) mark(r *R, m mark) {
	v := vol{Area: m.area, Lo: t.y(m.lo), Hi: t.y(m.hi)}
	const far = 1 << 20
	var huge float32
	if r.Chance(1, 6) {
		// sides without end
		huge = []float32{1e12, 1e20, math.MaxFloat32, float32(math.Inf(1))}[r.Draw(4)]
		if r.Chance(1, 2) {
			m.lo, v.Lo = -far, -huge
		}
		if r.Chance(1, 2) {
			m.hi, v.Hi = far, huge
		}
		if r.Chance(1, 8) {
			m.lo, m.hi, v.Lo, v.Hi = far, far, huge, huge
		}
		r.Probe("endless")
		huge = []float32{0, 1e10, 1e12}[r.Draw(3)]
	}
	x, z := [2]float32{t.x(m.x0), t.x(m.x1)}, [2]float32{t.z(m.z0), t.z(m.z1)}
	if huge > 0 {
		switch r.Draw(4) {
		case 0:
			x[0], m.x0 = -huge, -far
		case 1:
			x[1], m.x1 = huge, far
		case 2:
			z[0], m.z0 = -huge, -far
		default:
			z[1], m.z1 = huge, far
		}
	}
	c := [][2]float32{{x[0], z[0]}, {x[0], z[1]}, {x[1], z[1]}, {x[1], z[0]}}
	n := [4]int{1, 1, 1, 1}
	if huge == 0 && r.Chance(1, 4) {
		// vertices along the sides
		for i := range n {
			n[i] = 1 + r.Draw(6)
		}
		r.Probe("many-sided")
	}
	for i, a := range c {
		b := c[(i+1)%4]
		for k := 0; k < n[i]; k++ {
			f := float32(k) / float32(n[i])
			v.V = append(v.V, a[0]+(b[0]-a[0])*f, t.oy, a[1]+(b[1]-a[1])*f)
		}
	}
	t.vols = append(t.vols, v)
	t.marks = append(t.marks, m)
}

// over tells whether a level is inside a volume, as far as that is decided e
// cells around.
func (m *mark) over(x, z int, v level, e int) (in, out bool) {
	in = x >= m.x0+e && z >= m.z0+e && x < m.x1-e && z < m.z1-e && v.lo >= m.lo+1 && v.hi <= m.hi-1
	out = x < m.x0-e || z < m.z0-e || x >= m.x1+e || z >= m.z1+e || v.hi < m.lo-1 || v.lo > m.hi+1
	return
}

// area is the area of a walkable level, if that is decided.
func (t *Terr) area(x, z int, v level, e int) (a uint8, ok bool) {
	for i := range t.marks {
		in, out := t.marks[i].over(x, z, v, e)
		if !in && !out {
			return 0, false
		}
		if in {
			a = t.marks[i].area
		}
	}
	return a, true
}

func (t *Terr) x(i int) float32 { return t.ox + float32(i)*t.cs }
func (t *Terr) y(i int) float32 { return t.oy + float32(i)*t.ch }
func (t *Terr) z(i int) float32 { return t.oz + float32(i)*t.cs }

// text renders the terrain, its patches split and ordered as drawn.
func (t *Terr) text(r *R) []byte {
	var v, f []string
	vert := func(x, y, z float32) int {
		v = append(v, fmt.Sprintf("v %v %v %v", x, y, z))
		return len(v)
	}
	for _, p := range t.patches {
		h := [4]int{p.ka, p.ka, p.kb, p.kb}
		if p.along == 2 {
			h = [4]int{p.ka, p.kb, p.kb, p.ka}
		}
		c := [4][2]int{{p.x0, p.z0}, {p.x0, p.z1}, {p.x1, p.z1}, {p.x1, p.z0}}
		var id [4]int
		for i := range id {
			id[i] = vert(t.x(c[i][0]), t.y(h[i]), t.z(c[i][1]))
		}
		if p.down {
			f = append(f, fmt.Sprintf("f %d %d %d", id[0], id[2], id[1]), fmt.Sprintf("f %d %d %d", id[0], id[3], id[2]))
		} else if r.Chance(1, 2) {
			f = append(f, fmt.Sprintf("f %d %d %d", id[0], id[1], id[2]), fmt.Sprintf("f %d %d %d", id[0], id[2], id[3]))
		} else {
			f = append(f, fmt.Sprintf("f %d %d %d", id[3], id[0], id[1]), fmt.Sprintf("f %d %d %d", id[1], id[2], id[3]))
		}
		if p.riser {
			// sides going down a little: at most as far as the climb
			for i := range id {
				j := (i + 1) % 4
				a := vert(t.x(c[i][0]), t.y(maxi(0, h[i]-t.climb)), t.z(c[i][1]))
				b := vert(t.x(c[j][0]), t.y(maxi(0, h[j]-t.climb)), t.z(c[j][1]))
				f = append(f, fmt.Sprintf("f %d %d %d", id[i], id[j], b), fmt.Sprintf("f %d %d %d", id[i], b, a))
			}
		}
	}
	// the corner of the bounds
	vert(t.x(0), t.y(0), t.z(0))
	vert(t.x(t.nx), t.y(0), t.z(t.nz))
	for i, j := range r.Perm(len(f)) {
		f[i], f[j] = f[j], f[i]
	}
	return []byte(strings.Join(v, "\n") + "\n" + strings.Join(f, "\n") + "\n")
}

// solve works out what can be walked on.
func (t *Terr) solve() {
	t.lev = make([][]level, t.nx*t.nz)
	type sp struct {
		bot, top  int // sure extent
		b, h      int // widest extent
		ok, maybe bool
		firm      bool // there for sure
		raw       bool // possibly walkable by itself or by what it touches
	}
	for z := 0; z < t.nz; z++ {
		for x := 0; x < t.nx; x++ {
			var l []sp
			for i := range t.patches {
				p := &t.patches[i]
				if !p.in(x, z, 1) {
					continue
				}
				// where neighbouring cells may be touched too
				lo, hi := p.at(x, z)
				s := sp{bot: int(math.Floor(lo)), top: int(math.Ceil(hi)), firm: p.in(x, z, 0)}
				if s.top <= s.bot {
					s.top = s.bot + 1
				}
				s.b, s.h = s.bot, s.top
				if p.ka == p.kb {
					s.ok, s.maybe = !p.down, !p.down
				} else {
					s.b, s.h = s.b-int(math.Ceil(p.rise()))-1, s.h+int(math.Ceil(p.rise()))+1
					a := math.Atan(p.rise()*float64(t.ch)/float64(t.cs)) * 180 / math.Pi
					s.ok = a < t.slope-2 && 2*p.rise()+2 <= float64(t.climb)
					s.maybe = a < t.slope+2
				}
				if p.riser {
					s.b -= t.climb
				}
				s.raw = s.maybe
				l = append(l, s)
			}
			sort.Slice(l, func(i, j int) bool { return l[i].top < l[j].top })
			var out []level
			// ground next to a cell a little higher or lower may reach into it
			beside := func(o sp) bool {
				if o.firm {
					return false
				}
				for _, s := range l {
					if d := o.top - s.top; s.firm && d <= t.climb && d >= -t.climb {
						return true
					}
				}
				return false
			}
			for i := range l {
				for _, o := range l[:i] {
					l[i].raw = l[i].raw || o.raw && o.h >= l[i].b
				}
			}
			for i, s := range l {
				if !s.firm && (!s.maybe || beside(s)) {
					continue
				}
				v := level{lo: s.top, hi: s.top, ceil: 1 << 20, roof: 1 << 20, ok: s.ok && s.firm, maybe: s.maybe}
				if s.firm && !s.maybe && s.b == s.bot && i > 0 {
					// a low obstacle can be stood on if the ground below it can
					if o := l[i-1]; o.firm && o.ok && o.b == o.bot && o.top < s.bot && s.top-o.top <= t.climb {
						v.ok, v.maybe = true, true
					}
				}
				if s.b != s.bot {
					v.lo, v.hi = s.top-(s.h-s.top), s.h
				}
				near := false
				for j, o := range l {
					if j == i {
						continue
					}
					if o.top == s.top && o.bot == s.bot {
						// the same height: one surface
						if j < i && o.firm == s.firm {
							near = true
						}
						v.ok = v.ok || o.ok && o.firm
						v.maybe = v.maybe || o.maybe
						continue
					}
					if d := o.h - s.top; s.firm && !o.firm && d <= t.climb && s.top-o.top <= t.climb {
						v.hi = maxi(v.hi, o.h)
						continue
					}
					if o.b > s.top {
						// overhead, and close for sure or maybe
						v.ceil = mini(v.ceil, o.b)
						if o.firm && o.b == o.bot {
							v.roof = mini(v.roof, o.bot)
						}
						if o.b-s.top <= t.hh { // just enough room may or may not do
							v.ok = false
						}
						if o.firm && o.bot-s.top < t.hh && o.b == o.bot {
							v.maybe = v.maybe && o.b <= s.top+t.climb // low hanging
						}
					} else if o.h >= s.b {
						// touching
						v.ok = false
						v.maybe = v.maybe || s.raw
						v.hi = maxi(v.hi, o.h)
					} else if !s.maybe && o.h+t.climb >= s.b && o.raw {
						v.maybe = true // a low obstacle
					}
				}
				if near {
					continue
				}
				v.bare = !v.maybe
				out = append(out, v)
			}
			t.lev[z*t.nx+x] = out
			t.per = maxi(t.per, len(out))
		}
	}
	t.erode()
	for z := 0; z < t.nz; z++ {
		for x := 0; x < t.nx; x++ {
			for i := range t.lev[z*t.nx+x] {
				v := &t.lev[z*t.nx+x][i]
				for k := range t.marks {
					if m := &t.marks[k]; m.area == 0 {
						if in, out := m.over(x, z, *v, 1); in {
							v.ok, v.maybe, v.bare = false, false, true
						} else if !out {
							v.ok = false
						}
					}
				}
			}
		}
	}
	t.sure = make([][]bool, len(t.lev))
	m := t.rad + t.err + 2
	var sh *sheets
	if m > 20 {
		sh = t.sheets(m)
	}
	for z := 0; z < t.nz; z++ {
		for x := 0; x < t.nx; x++ {
			k := z*t.nx + x
			t.sure[k] = make([]bool, len(t.lev[k]))
			for i := range t.lev[k] {
				if sh != nil {
					if yes, no := sh.wide(t, x, z, i, m); yes || no {
						t.sure[k][i] = yes
						continue
					}
				}
				t.sure[k][i] = t.wide(x, z, i, m)
			}
		}
	}
}

// sheets are levels joined to each other; it makes wide faster for large
// radii. Those that have one level per column at most have sums of the columns
// where the level is joined to all beside it.
type sheets struct {
	of   [][]int
	sums [][]int
}

func (t *Terr) sheets(m int) *sheets {
	s := &sheets{of: make([][]int, len(t.lev))}
	for k := range s.of {
		s.of[k] = make([]int, len(t.lev[k]))
		for i := range s.of[k] {
			s.of[k][i] = -1
		}
	}
	w := t.nx + 1
	for k0 := range t.lev {
		for i0 := range t.lev[k0] {
			if s.of[k0][i0] >= 0 || !t.lev[k0][i0].ok {
				continue
			}
			id := len(s.sums)
			full := make([]int, w*(t.nz+1))
			seen := map[int]bool{k0: true}
			single := true
			s.of[k0][i0] = id
			q := [][2]int{{k0, i0}}
			for len(q) > 0 {
				k, i := q[0][0], q[0][1]
				q = q[1:]
				x, z := k%t.nx, k/t.nx
				v := t.lev[k][i]
				lo, hi, all := v.lo, v.hi, 1
				for _, d := range [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
					n := t.next(v, x+d[0], z+d[1])
					if n < 0 {
						all = 0
						continue
					}
					a := (z+d[1])*t.nx + x + d[0]
					lo, hi = mini(lo, t.lev[a][n].lo), maxi(hi, t.lev[a][n].hi)
					if s.of[a][n] == id {
						continue
					}
					if s.of[a][n] >= 0 || seen[a] {
						single = false // joined one way only, or to two levels of a column
					}
					if s.of[a][n] < 0 {
						s.of[a][n] = id
						seen[a] = true
						q = append(q, [2]int{a, n})
					}
				}
				if hi-lo > t.climb {
					all = 0
				}
				full[(z+1)*w+x+1] = all
			}
			if !single {
				s.sums = append(s.sums, nil)
				continue
			}
			for z := 1; z <= t.nz; z++ {
				for x := 1; x <= t.nx; x++ {
					full[z*w+x] += full[z*w+x-1] + full[(z-1)*w+x] - full[(z-1)*w+x-1]
				}
			}
			s.sums = append(s.sums, full)
		}
	}
	return s
}

// wide tells whether all or surely not all around a level is open ground.
func (s *sheets) wide(t *Terr, x, z, i, m int) (yes, no bool) {
	k := z*t.nx + x
	if !t.lev[k][i].ok || x < m || z < m || x+m >= t.nx || z+m >= t.nz {
		return false, true
	}
	f := s.sums[s.of[k][i]]
	if f == nil {
		return false, false
	}
	sum := func(m int) bool {
		w := t.nx + 1
		n := f[(z+m+1)*w+x+m+1] - f[(z-m)*w+x+m+1] - f[(z+m+1)*w+x-m] + f[(z-m)*w+x-m]
		return n == (2*m+1)*(2*m+1)
	}
	if sum(m) {
		return true, false
	}
	return false, !sum(m - 1) // those on the rim need not be joined to beyond
}

// erode finds the levels that are closer to an edge than the radius: in a
// direction whatever may be ground ends before.
func (t *Terr) erode() {
	d := make([]int, t.nx*t.nz*t.per)
	for _, dir := range [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
		for n := 0; n < t.nx*t.nz; n++ {
			k := n
			if dir[0]+dir[1] > 0 {
				k = t.nx*t.nz - 1 - n
			}
			x, z := k%t.nx, k/t.nx
			ax, az := x+dir[0], z+dir[1]
			for i := range t.lev[k] {
				v := &t.lev[k][i]
				e := 0
				if ax >= 0 && az >= 0 && ax < t.nx && az < t.nz {
					for j, o := range t.lev[az*t.nx+ax] {
						if o.maybe && o.lo-v.hi <= t.climb && v.lo-o.hi <= t.climb {
							e = maxi(e, d[(az*t.nx+ax)*t.per+j]+1)
						}
					}
				}
				d[k*t.per+i] = e
				if v.maybe && e < t.rad {
					v.bare = true
				}
			}
		}
	}
}

// step tells whether one can surely walk between two levels side by side.
func (t *Terr) step(a, b level) bool {
	return b.hi-a.lo <= t.climb && a.hi-b.lo <= t.climb && mini(a.ceil, b.ceil)-maxi(a.hi, b.hi) > t.hh
}

// next is the level of a column joined to a level beside it for sure.
func (t *Terr) next(v level, x, z int) int {
	if x < 0 || z < 0 || x >= t.nx || z >= t.nz {
		return -1
	}
	for i, o := range t.lev[z*t.nx+x] {
		if o.ok && t.step(v, o) {
			return i
		}
	}
	return -1
}

// wide tells whether all around a level is open ground.
func (t *Terr) wide(x, z, i, m int) bool {
	if !t.lev[z*t.nx+x][i].ok || x < m || z < m || x+m >= t.nx || z+m >= t.nz {
		return false
	}
	w := 2*m + 1
	g := make([]int, w*w)
	for k := range g {
		g[k] = -1
	}
	g[m*w+m] = i
	q := []int{m*w + m}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		cx, cz := c%w, c/w
		v := t.lev[(z-m+cz)*t.nx+x-m+cx][g[c]]
		lo, hi := v.lo, v.hi
		for _, d := range [][2]int{{1, 0}, {-1, 0}, {0, 1}, {0, -1}} {
			ax, az := cx+d[0], cz+d[1]
			if ax < 0 || az < 0 || ax >= w || az >= w {
				continue
			}
			n := t.next(v, x-m+ax, z-m+az)
			if n < 0 {
				return false
			}
			o := t.lev[(z-m+az)*t.nx+x-m+ax][n]
			lo, hi = mini(lo, o.lo), maxi(hi, o.hi)
			k := az*w + ax
			if g[k] < 0 {
				g[k] = n
				q = append(q, k)
			} else if g[k] != n {
				return false
			}
		}
		if hi-lo > t.climb {
			return false // too steep for stairs
		}
	}
	return true
}

func (t *Terr) node(x, z, i int) int { return (z*t.nx+x)*t.per + i }

// comps joins levels: for sure, or as far as anything may be joined.
func (t *Terr) comps(sure bool, has func(x, z int) bool) []int {
	d := make([]int, t.per*t.nx*t.nz)
	for i := range d {
		d[i] = i
	}
	var find func(int) int
	find = func(a int) int {
		for d[a] != a {
			d[a] = d[d[a]]
			a = d[a]
		}
		return a
	}
	for z := 0; z < t.nz; z++ {
		for x := 0; x < t.nx; x++ {
			if !has(x, z) {
				continue
			}
			for i, v := range t.lev[z*t.nx+x] {
				if sure && !t.sure[z*t.nx+x][i] || !v.maybe {
					continue
				}
				for k, e := range [][2]int{{1, 0}, {0, 1}, {1, 1}, {-1, 1}} {
					ax, az := x+e[0], z+e[1]
					if ax < 0 || ax >= t.nx || az >= t.nz || !has(ax, az) || sure && k > 1 {
						continue
					}
					up, border := t.climb+1, false
					if t.tile > 0 && (x/t.tile != ax/t.tile || z/t.tile != az/t.tile) {
						// borders of tiles are joined more freely, and their height is
						// taken between corners that may be far apart
						up, border = 2*t.climb+2+t.hill, true
					}
					for j, o := range t.lev[az*t.nx+ax] {
						if sure {
							if t.sure[az*t.nx+ax][j] && t.step(v, o) {
								d[find(t.node(x, z, i))] = find(t.node(ax, az, j))
							}
						} else if o.maybe && o.lo-v.hi <= up && v.lo-o.hi <= up {
							lo := maxi(o.lo, v.lo)
							if mini(o.roof, v.roof)-maxi(o.hi, v.hi) <= t.hh && t.rad == 0 {
								t.slit = true
							}
							if !border && mini(o.roof, v.roof)-lo < t.hh && (o.lo-v.hi > 2 || v.lo-o.hi > 2) {
								continue // no headroom on the way
							}
							d[find(t.node(x, z, i))] = find(t.node(ax, az, j))
						}
					}
				}
			}
		}
	}
	for i := range d {
		d[i] = find(i)
	}
	return d
}

// cut tells whether one may walk from between two heights to beyond them near
// a cell.
func (t *Terr) cut(x, z, e, lo, hi int) bool {
	var l []level
	in := false
	for az := maxi(0, z-e); az <= z+e && az < t.nz; az++ {
		for ax := maxi(0, x-e); ax <= x+e && ax < t.nx; ax++ {
			for _, v := range t.lev[az*t.nx+ax] {
				if !v.maybe {
					continue
				}
				if v.lo >= lo+1 && v.hi <= hi-1 {
					in = true
				} else {
					l = append(l, v)
				}
			}
		}
	}
	up := 2*t.climb + 2
	for _, v := range l {
		if in && (v.hi >= lo-up && v.lo <= lo+up || v.hi >= hi-up && v.lo <= hi+up) {
			return true
		}
	}
	return false
}

// decided tells how many levels of a cell are walkable, if that is decided.
func (t *Terr) decided(x, z int) (l []int, ok bool) {
	k := z*t.nx + x
	for i := range t.lev[k] {
		if t.sure[k][i] {
			l = append(l, i)
		}
	}
	e := t.err + 2
	lines := 0 // thin slices between these have no outline
	if t.tile > 0 && (x/t.tile != (x+e)/t.tile || x >= e && x/t.tile != (x-e)/t.tile || z/t.tile != (z+e)/t.tile || z >= e && z/t.tile != (z-e)/t.tile) {
		lines++
	}
	for i := range t.marks {
		m := t.marks[i]
		lo, hi := m.lo, m.hi
		m.lo, m.hi = -1<<20, 1<<20
		in, out := m.over(x, z, level{}, e)
		if !in && !out {
			lines++
		}
		if !out && t.cut(x, z, e, lo, hi) {
			lines++ // along a step, which its top or bottom is at
		}
	}
	if lines > 1 {
		return nil, false
	}
	for dz := -e; dz <= e; dz++ {
		for dx := -e; dx <= e; dx++ {
			ax, az := x+dx, z+dz
			if ax < 0 || az < 0 || ax >= t.nx || az >= t.nz {
				continue
			}
			n := 0
			for _, v := range t.lev[az*t.nx+ax] {
				if !v.bare {
					n++
				}
			}
			if n != len(l) {
				return nil, false
			}
		}
	}
	return l, true
}

// terrHist drives a builder over a terrain.
type terrHist struct {
	r   *R
	t   *Terr
	set recast.BuildSettings
	b   builder
	tm  *tilemesh.TileMesh
	m   *detour.NavMesh
	has map[tpos]bool
}

func (h *terrHist) tileOf(x, z int) tpos {
	if h.t.tile == 0 {
		return tpos{}
	}
	return tpos{int32(x / h.t.tile), int32(z / h.t.tile)}
}

func (h *terrHist) poly(ref detour.PolyRef) *detour.Poly {
	for ti := range h.m.Tiles {
		if t := &h.m.Tiles[ti]; t.Header != nil {
			if base := detour.PolyRef(h.m.TileRef(t)); ref >= base && ref < base+detour.PolyRef(len(t.Polys)) {
				return &t.Polys[ref-base]
			}
		}
	}
	return nil
}

type polyAt struct {
	ref detour.PolyRef
	y   float32
}

// over is the ground over or under a point, lowest first.
func (h *terrHist) over(q *detour.NavMeshQuery, x, z float32) []polyAt {
	var l []polyAt
	for ti := range h.m.Tiles {
		t := &h.m.Tiles[ti]
		if t.Header == nil || x < t.Header.BMin[0]-1 || x > t.Header.BMax[0]+1 || z < t.Header.BMin[2]-1 || z > t.Header.BMax[2]+1 {
			continue
		}
		base := detour.PolyRef(h.m.TileRef(t))
		for pi := range t.Polys {
			p := &t.Polys[pi]
			if p.Type() != 0 || !polyHas(t, p, x, z) {
				continue
			}
			ref := base | detour.PolyRef(pi)
			c := d3.NewVec3()
			over := false
			var st detour.Status
			h.r.Call("ClosestPointOnPoly", func() { st = q.ClosestPointOnPoly(ref, d3.NewVec3XYZ(x, 0, z), c, &over) })
			if detour.StatusFailed(st) {
				h.r.Fail("closest", "ClosestPointOnPoly on polygon %d of tile %d,%d: 0x%x", pi, t.Header.X, t.Header.Y, uint32(st))
			}
			l = append(l, polyAt{ref, c[1]})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].y < l[j].y })
	return l
}

// polyComps joins the polygons that links lead between.
func polyComps(r *R, m *detour.NavMesh) map[detour.PolyRef]detour.PolyRef {
	d := map[detour.PolyRef]detour.PolyRef{}
	var find func(detour.PolyRef) detour.PolyRef
	find = func(a detour.PolyRef) detour.PolyRef {
		for d[a] != a {
			d[a] = d[d[a]]
			a = d[a]
		}
		return a
	}
	for ti := range m.Tiles {
		if t := &m.Tiles[ti]; t.Header != nil {
			for pi := range t.Polys {
				ref := detour.PolyRef(m.TileRef(t)) | detour.PolyRef(pi)
				d[ref] = ref
			}
		}
	}
	for ti := range m.Tiles {
		t := &m.Tiles[ti]
		if t.Header == nil {
			continue
		}
		for pi := range t.Polys {
			ref := detour.PolyRef(m.TileRef(t)) | detour.PolyRef(pi)
			n := 0
			for j := t.Polys[pi].FirstLink; j != nullLink; j = t.Links[j].Next {
				if n++; n > len(t.Links) {
					r.Fail("link-cycle", "%d,%d#%d: the link list has a cycle", t.Header.X, t.Header.Y, pi)
				}
				if _, ok := d[t.Links[j].Ref]; !ok {
					r.Fail("dangling-link", "%d,%d#%d: a link leads to 0x%x", t.Header.X, t.Header.Y, pi, uint32(t.Links[j].Ref))
				}
				d[find(ref)] = find(t.Links[j].Ref)
			}
		}
	}
	for k := range d {
		d[k] = find(k)
	}
	return d
}

// convex wants every polygon to be convex and its neighbours mutual.
func (h *terrHist) convex(what string) {
	r := h.r
	for ti := range h.m.Tiles {
		t := &h.m.Tiles[ti]
		if t.Header == nil {
			continue
		}
		for pi := range t.Polys {
			p := &t.Polys[pi]
			n := int(p.VertCount)
			if n < 3 || n > int(h.set.VertsPerPoly) {
				h.dump()
				r.Fail("polygon", "after %s: polygon %d of tile %d,%d has %d vertices", what, pi, t.Header.X, t.Header.Y, n)
			}
			at := func(i int) (float64, float64) {
				v := t.Verts[3*int(p.Verts[i%n]):]
				return float64(v[0]), float64(v[2])
			}
			for i := 0; i < n; i++ {
				ax, az := at(i)
				bx, bz := at(i + 1)
				cx, cz := at(i + 2)
				if n > 3 && (bx-ax)*(cz-az)-(bz-az)*(cx-ax) > 0 {
					// (outlines next to narrow strips may turn over single triangles)
					h.dump()
					r.Fail("polygon", "after %s: polygon %d of tile %d,%d is not convex", what, pi, t.Header.X, t.Header.Y)
				}
				if ax == bx && az == bz && h.t.rad > 0 && len(h.t.marks) == 0 {
					// (walls of no width and strips of a cell's width make such edges)
					h.dump()
					r.Fail("polygon", "after %s: polygon %d of tile %d,%d has an edge of no length", what, pi, t.Header.X, t.Header.Y)
				}
				if l := float64(int32(h.set.EdgeMaxLen / h.t.cs)); p.Neis[i] == 0 && l > 0 && h.t.rad > 0 {
					// (walls are cut to pieces; edges beside walls of no width find no match)
					if d := math.Hypot(bx-ax, bz-az) / float64(h.t.cs); d > l+0.01 {
						h.dump()
						r.Fail("edge-length", "after %s: a wall of polygon %d of tile %d,%d is %v cells long, more than %v", what, pi, t.Header.X, t.Header.Y, d, l)
					}
				}
				if k := int(p.Neis[i]); k > 0 && k < 0x8000 {
					o := &t.Polys[k-1]
					ok := false
					for j := 0; j < int(o.VertCount); j++ {
						if int(o.Neis[j]) == pi+1 && o.Verts[j] == p.Verts[(i+1)%n] && o.Verts[(j+1)%int(o.VertCount)] == p.Verts[i] {
							ok = true
						}
					}
					if !ok {
						h.dump()
						r.Fail("polygon", "after %s: polygons %d and %d of tile %d,%d are not neighbours of each other", what, pi, k-1, t.Header.X, t.Header.Y)
					}
				}
			}
		}
	}
}

// details wants the triangles of each polygon's surface to cover it, all the same
// way around.
func (h *terrHist) details(what string) {
	for ti := range h.m.Tiles {
		t := &h.m.Tiles[ti]
		if t.Header == nil || len(t.DetailMeshes) < len(t.Polys) {
			continue
		}
		for pi := range t.Polys {
			p, d := &t.Polys[pi], &t.DetailMeshes[pi]
			n := int(p.VertCount)
			vert := func(k int) []float32 {
				if k < n {
					return t.Verts[3*int(p.Verts[k]):]
				}
				return t.DetailVerts[3*(int(d.VertBase)+k-n):]
			}
			area2 := func(a, b, c []float32) float64 {
				return float64(b[0]-a[0])*float64(c[2]-a[2]) - float64(c[0]-a[0])*float64(b[2]-a[2])
			}
			want, got, part := 0.0, 0.0, 0.0
			for k := 2; k < n; k++ {
				want += area2(vert(0), vert(k-1), vert(k))
			}
			for k := 0; k < int(d.TriCount); k++ {
				tr := t.DetailTris[4*(int(d.TriBase)+k):]
				for _, v := range tr[:3] {
					if int(v) >= n+int(d.VertCount) {
						h.dump()
						h.r.Fail("detail", "after %s: the surface of polygon %d of tile %d,%d names vertex %d of %d", what, pi, t.Header.X, t.Header.Y, v, n+int(d.VertCount))
					}
				}
				a := area2(vert(int(tr[0])), vert(int(tr[1])), vert(int(tr[2])))
				got += math.Abs(a)
				part += a
			}
			want = math.Abs(want)
			tol := 0.01*want + 0.5*float64(h.t.cs*h.t.cs)
			if got < want-tol || got-math.Abs(part) > tol {
				// (triangles may overlap where many points lie on one line: a point
				// within a thousandth of the circle counts as on it)
				h.dump()
				h.r.Fail("detail", "after %s: the surface of polygon %d of tile %d,%d has an area of %v (%v counting the turned over ones against it), the polygon %v", what, pi, t.Header.X, t.Header.Y, got/2, part/2, want/2)
			}
		}
	}
}

// heights wants nothing of the mesh above or below all of the terrain.
func (h *terrHist) heights(what string) {
	t := h.t
	top := 0
	for i := range t.patches {
		p := &t.patches[i]
		top = maxi(top, maxi(p.ka, p.kb)+int(p.rise())+1)
	}
	for ti := range h.m.Tiles {
		mt := &h.m.Tiles[ti]
		if mt.Header == nil {
			continue
		}
		for k, l := range [][]float32{mt.Verts, mt.DetailVerts} {
			for i := 1; i < len(l); i += 3 {
				if y := (l[i] - t.oy) / t.ch; !(y >= -1 && y <= float32(top)+3) {
					h.dump()
					h.r.Fail("height", "after %s: a vertex (%s) of tile %d,%d is %v voxels high, the terrain %d", what, []string{"polygons", "detail"}[k], mt.Header.X, mt.Header.Y, y, top)
				}
			}
		}
	}
}

// checkHeight compares the height of the mesh with that of level ground: it
// follows it within the error allowed for the detail mesh and a few voxels,
// and exactly where all is level.
func (h *terrHist) checkHeight(what string, x, z, li int, y float32) {
	r, t := h.r, h.t
	v := t.lev[z*t.nx+x][li]
	tol := h.set.DetailSampleMaxError + 2.5
	e := int(2*h.set.DetailSampleDist) + 2
	if t.hill == 0 && len(t.lev[z*t.nx+x]) == 1 && v.lo == 1 && v.hi == 1 && len(t.patches) == t.ground {
		tol, e = 0.5, 0
	} else if h.set.DetailSampleDist == 0 || t.climb > 6 {
		return // steps of a hundred voxels may reach into triangles beside them
	}
	for dz := -e; dz <= e; dz++ {
		for dx := -e; dx <= e; dx++ {
			ax, az := x+dx, z+dz
			if ax < 0 || az < 0 || ax >= t.nx || az >= t.nz {
				return
			}
			ok := false
			for _, o := range t.lev[az*t.nx+ax] {
				ok = ok || o.ok && o.lo == v.lo && o.hi == v.hi
			}
			if !ok {
				return
			}
		}
	}
	if d := (y-t.oy)/t.ch - float32(v.lo); !(d <= tol && d >= -tol) {
		h.dump()
		r.Fail("height", "after %s: the mesh is %v voxels above the ground in cell (%d,%d)", what, d, x, z)
	}
	r.Probe("height")
}

// check compares the mesh with the terrain.
func (h *terrHist) check(what string, points int) {
	r, t := h.r, h.t
	h.convex(what)
	h.details(what)
	h.heights(what)
	q := newQuery(r, h.m, 2048)
	has := func(x, z int) bool { return h.has[h.tileOf(x, z)] }
	sure, loose := t.comps(true, has), t.comps(false, has)
	pc := polyComps(r, h.m)
	type seen struct {
		x, z, l int
		p       polyAt
		pos     d3.Vec3
	}
	var l []seen
	for i := 0; i < points; i++ {
		x, z := r.Draw(t.nx), r.Draw(t.nz)
		lv, ok := t.decided(x, z)
		if !ok {
			continue
		}
		// off the lines that edges run along
		fx := t.x(x) + t.cs*[]float32{0.37, 0.59, 0.71}[i%3]
		fz := t.z(z) + t.cs*[]float32{0.41, 0.67, 0.29}[i%3]
		ps := h.over(q, fx, fz)
		want := len(lv)
		if !has(x, z) {
			want = 0
		}
		for k := 0; len(ps) != want && k < 3; k++ {
			// on an edge between polygons rounding decides
			ps = h.over(q, fx+t.cs*[]float32{0.013, -0.019, 0.007}[k], fz+t.cs*[]float32{-0.017, 0.011, 0.023}[k])
		}
		if len(ps) != want {
			h.dump()
			r.Fail("coverage", "after %s: %d polygons over cell (%d,%d), at (%v,%v), where one can stand at %d heights", what, len(ps), x, z, fx, fz, want)
		}
		if want == 0 {
			r.Probe("bare")
			continue
		}
		for k, li := range lv {
			if a, ok := t.area(x, z, t.lev[z*t.nx+x][li], t.err+2); ok {
				if p := h.poly(ps[k].ref); p.Area() != a {
					h.dump()
					r.Fail("area", "after %s: cell (%d,%d) has area %d, the marked volumes say %d", what, x, z, p.Area(), a)
				}
				if a != 0 {
					r.Probe("area")
				}
			}
			h.checkHeight(what, x, z, li, ps[k].y)
			var ref detour.PolyRef
			var st detour.Status
			e := t.cs * []float32{0.25, 1, 4}[i%3]
			r.Call("FindNearestPoly", func() {
				st, ref, _ = q.FindNearestPoly(d3.NewVec3XYZ(fx, ps[k].y, fz), d3.NewVec3XYZ(e, e, e), detour.NewStandardQueryFilter())
			})
			c := d3.NewVec3()
			if ref != ps[k].ref && ref != 0 {
				over := false
				r.Call("ClosestPointOnPoly", func() { q.ClosestPointOnPoly(ref, d3.NewVec3XYZ(fx, ps[k].y, fz), c, &over) })
			}
			// on an edge between polygons any of them will do
			if dx, dz := c[0]-fx, c[2]-fz; detour.StatusFailed(st) || ref != ps[k].ref && (ref == 0 || dx*dx+dz*dz > t.cs*t.cs/400 || float32(math.Abs(float64(c[1]-ps[k].y))) > float32(t.climb+1)*t.ch) {
				h.dump()
				r.Fail("nearest", "after %s: FindNearestPoly on the surface in cell (%d,%d), within %v: 0x%x, status 0x%x, want 0x%x", what, x, z, e, uint32(ref), uint32(st), uint32(ps[k].ref))
			}
			l = append(l, seen{x, z, li, ps[k], d3.NewVec3XYZ(fx, ps[k].y, fz)})
		}
		r.Probe(fmt.Sprintf("covered-%d", mini(want, 3)))
	}
	for k := range l {
		j := r.Draw(len(l))
		a, b := l[k], l[j]
		na, nb := t.node(a.x, a.z, a.l), t.node(b.x, b.z, b.l)
		joined := pc[a.p.ref] == pc[b.p.ref]
		open := sure[na] == sure[nb] && !t.slit
		if open && !joined {
			h.dump()
			r.Fail("not-joined", "after %s: no links lead from cell (%d,%d) to (%d,%d), between which there is open ground", what, a.x, a.z, b.x, b.z)
		}
		if loose[na] != loose[nb] && joined {
			h.dump()
			r.Fail("joined", "after %s: links lead from cell (%d,%d) to (%d,%d), between which one cannot walk", what, a.x, a.z, b.x, b.z)
		}
		if loose[na] != loose[nb] {
			r.Probe("apart")
		}
		if open && k < 4 {
			path := make([]detour.PolyRef, 1024)
			n := 0
			var st detour.Status
			f := detour.NewStandardQueryFilter()
			r.CallB("FindPath", buildBudget, func() { n, st = q.FindPath(a.p.ref, b.p.ref, a.pos, b.pos, f, path) })
			if detour.StatusFailed(st) {
				r.Fail("no-path", "after %s: FindPath: 0x%x", what, uint32(st))
			}
			if len(pc) < 1000 && (n == 0 || path[n-1] != b.p.ref) {
				r.Fail("no-path", "after %s: FindPath from cell (%d,%d) ends before (%d,%d)", what, a.x, a.z, b.x, b.z)
			}
			if a.p.ref != b.p.ref {
				r.Probe("walked")
			}
			if h.tileOf(a.x, a.z) != h.tileOf(b.x, b.z) {
				r.Probe("walked-across-tiles")
			}
		}
	}
}

func (h *terrHist) dump() {
	if !debugging() {
		return
	}
	t := h.t
	fmt.Printf("settings %+v\nterrain %+v\n", h.set, Terr{nx: t.nx, nz: t.nz, climb: t.climb, hh: t.hh, rad: t.rad, tile: t.tile, patches: t.patches, marks: t.marks, vols: t.vols, ox: t.ox, oy: t.oy, oz: t.oz})
	for ti := range h.m.Tiles {
		if mt := &h.m.Tiles[ti]; mt.Header != nil {
			fmt.Println("tile", mt.Header.X, mt.Header.Y)
			for pi := range mt.Polys {
				p := &mt.Polys[pi]
				fmt.Print("  poly ", pi, " area ", p.Area(), " neis ", p.Neis[:p.VertCount], ":")
				for i := 0; i < int(p.VertCount); i++ {
					v := mt.Verts[3*int(p.Verts[i]):]
					fmt.Printf(" (%v %v %v)", (v[0]-t.ox)/t.cs, (v[1]-t.oy)/t.ch, (v[2]-t.oz)/t.cs)
				}
				fmt.Println()
			}
		}
	}
}

func (h *terrHist) pos(p tpos) d3.Vec3 {
	ts := float32(h.t.tile) * h.t.cs
	f := func() float32 { return 0.125 + float32(h.r.Draw(7))/8 }
	return d3.NewVec3XYZ(h.t.ox+(float32(p[0])+f())*ts, h.t.oy, h.t.oz+(float32(p[1])+f())*ts)
}

func runP27(r *R) {
	if r.Chance(1, 200) {
		switch r.Draw(5) {
		case 0, 1, 2:
			runMany(r)
		case 3:
			runShelves(r)
		default:
			runLong(r)
		}
		return
	}
	wide := r.Chance(1, 60)
	comb := wide && r.Chance(1, 4)
	var t *Terr
	if comb {
		t = genComb(r)
	} else {
		t = genTerr(r, wide)
	}
	set := tilemesh.DefaultSettings()
	set.CellSize, set.CellHeight = t.cs, t.ch
	set.AgentHeight = (float32(t.hh) - 0.5) * t.ch
	set.AgentMaxClimb = (float32(t.climb) + 0.5) * t.ch
	set.AgentRadius = maxf(0, (float32(t.rad)-0.5)*t.cs)
	set.AgentMaxSlope = float32(t.slope)
	set.RegionMinSize = []float32{0, 3, 6}[r.Draw(3)]
	set.RegionMergeSize = []float32{20, 5, 60, 400}[r.Draw(4)]
	set.EdgeMaxLen = []float32{12, 0, 4}[r.Draw(3)]
	set.EdgeMaxError = []float32{1.3, 1, 2}[r.Draw(3)]
	set.VertsPerPoly = []float32{6, 3, 4, 5}[r.Draw(4)]
	set.DetailSampleDist = []float32{6, 0, 2}[r.Draw(3)]
	set.DetailSampleMaxError = []float32{1, 0.5}[r.Draw(2)]
	if wide {
		set.DetailSampleDist = 0 // sampling takes the square of the cells
		if set.EdgeMaxLen == 4 {
			set.EdgeMaxLen = 48 // merging polygons takes the cube of their number
		}
	}
	if t.rough {
		set.DetailSampleDist = []float32{1, 2, 4}[r.Draw(3)]
		set.DetailSampleMaxError = []float32{0, 0.5, 1}[r.Draw(3)]
	}
	if t.plain {
		set.EdgeMaxLen, set.DetailSampleDist = 0, 0
	}
	tiled := r.Chance(2, 3) && t.rad < 300
	if comb {
		set.RegionMergeSize = 400
		set.EdgeMaxLen = 0 // merging polygons takes the cube of their number
		tiled = r.Chance(1, 4)
	}
	if tiled {
		t.tile = []int{32, 16, 24, 48}[r.Draw(4)]
		if wide {
			t.tile = []int{264, 300, 96}[r.Draw(3)]
		}
		set.TileSize = float32(t.tile)
	}
	t.solve()
	h := &terrHist{r: r, t: t, set: set, has: map[tpos]bool{}}
	ctx := recast.NewBuildContext(r.Chance(1, 2))
	h.b = newBuilder(tiled, ctx)
	if tiled {
		h.tm = h.b.(tileB).TileMesh
	}
	h.b.SetSettings(set)
	var err error
	text := t.text(r)
	if !wide && !t.plain && r.Chance(1, 30) {
		h.huge(string(text), tiled)
		return
	}
	r.Call("LoadGeometry", func() { err = h.b.LoadGeometry(drawReader(r, text)) })
	if err != nil {
		r.Fail("load-refused", "geometry refused: %v", err)
	}
	for _, v := range t.vols {
		v.addTo(h.b.InputGeom())
	}
	r.Logf("terrain of %d x %d cells, %d patches, %d volumes, climb %d radius %d, tiles of %d, settings %+v", t.nx, t.nz, len(t.patches), len(t.vols), t.climb, t.rad, t.tile, set)
	tw, th := int32(1), int32(1)
	if tiled {
		tw, th = int32((t.nx+t.tile-1)/t.tile), int32((t.nz+t.tile-1)/t.tile)
	}
	all := func() {
		for x := int32(0); x < tw; x++ {
			for z := int32(0); z < th; z++ {
				h.has[tpos{x, z}] = true
			}
		}
	}
	ok := false
	r.CallB("Build", 4*buildBudget, func() { h.m, ok = h.b.Build() })
	high := 0
	for _, p := range t.patches {
		high = maxi(high, maxi(p.ka, p.kb))
	}
	if high+t.hh >= 65535 {
		if ok {
			r.Fail("too-high", "a mesh is built of geometry %d voxels high", high)
		}
		r.Probe("too-high")
		return
	}
	if !ok {
		for k := range t.sure {
			for _, s := range t.sure[k] {
				if s {
					r.Fail("build-failed", "no mesh is built, but there is ground")
				}
			}
		}
		r.Skip("no ground")
	}
	all()
	r.State("built", t.nx, t.nz, len(t.patches), tiled, t.tile)
	h.check("the build", 60)
	if !tiled {
		return
	}
	for n := 1 + r.Draw(10); n > 0; n-- {
		p := tpos{int32(r.Draw(int(tw))), int32(r.Draw(int(th)))}
		w := h.pos(p)
		what := ""
		switch k := r.Draw(5); {
		case k < 2:
			r.Call("RemoveTile", func() { h.tm.RemoveTile(w) })
			h.has[p] = false
			what = fmt.Sprintf("removing tile %v", p)
			r.Probe("tile-removed")
		case k < 4:
			r.CallB("BuildTile", 4*buildBudget, func() { h.tm.BuildTile(w) })
			h.has[p] = true
			what = fmt.Sprintf("building tile %v", p)
		default:
			for _, i := range r.Perm(int(tw * th)) {
				p := tpos{int32(i) % tw, int32(i) / tw}
				w := h.pos(p)
				if r.Chance(1, 2) {
					r.Call("RemoveTile", func() { h.tm.RemoveTile(w) })
				}
				r.CallB("BuildTile", 4*buildBudget, func() { h.tm.BuildTile(w) })
			}
			all()
			what = "building all tiles one by one"
			r.Probe("tile-by-tile")
		}
		r.Logf("%s", what)
		r.NonTrivial()
		h.check(what, 24)
		r.State(n, tw, th, len(h.has))
	}
}

func init() {
	register(&Prop{ID: "P27", Run: runP27, Quick: 5000, Full: 60000,
		Rule: "A builder with drawn settings builds a terrain of drawn level patches, ramps, steps, slabs overhead, holes and marked volumes whose walkable ground is known from the drawing alone, then builds and removes single tiles in drawn order; after each operation drawn places must be covered by exactly as many polygons as there are heights to stand at in the tiles present, and links must join what open ground joins and nothing else.",
		Real: buildReal, Stub: commonStub})
}
