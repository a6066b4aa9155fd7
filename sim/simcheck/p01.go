package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/arl/go-detour/detour"
)

var commonReal = []string{"package detour (all of it, unmodified logic, compiled from /repo's working tree with a scheduling point before every statement)"}
var commonStub = []string{"tiles are synthetic lattice tiles created through the real CreateNavMeshData", "readers, writers, files, terminal, clock and process exit are simulated"}

// sampleMeshes are the meshes that come with the repository.
var sampleMeshes = func() map[string][]byte {
	m := map[string][]byte{}
	for _, pat := range []string{"/repo/testdata/*.bin", "/repo/testdata/sample/*/*.bin"} {
		l, _ := filepath.Glob(pat)
		for _, p := range l {
			if b, err := os.ReadFile(p); err == nil && len(b) < 600_000 {
				m[p] = b
			}
		}
	}
	return m
}()

func sampleNames() []string {
	var l []string
	for k := range sampleMeshes {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

// checkVariantData verifies tile data against the integer geometry.
func checkVariantData(r *R, w *World, v *Variant, data []byte, what string) {
	t, err := parseTile(data)
	if err != nil {
		r.Fail("tile-data", "%s for %v: %v", what, v.Loc, err)
	}
	fresh := what == "created tile data" // flags and areas may change later
	h := t.H
	if h.Magic != 0x444e4156 || h.Version != 7 || h.X != v.Loc.X || h.Y != v.Loc.Y || h.Layer != v.Loc.L || h.UserID != v.UserID ||
		int(h.PolyCount) != v.NPolys() || int(h.VertCount) != len(v.V)+2*len(v.Cons) || h.BMin != v.BMin || h.BMax != v.BMax ||
		int(h.OffMeshConCount) != len(v.Cons) || int(h.OffMeshBase) != len(v.P) || h.WalkableClimb != w.Climb || h.WalkableHeight != w.Height ||
		h.WalkableRadius != w.Radius || h.BvQuantFactor != 1/w.Cs || (h.BvNodeCount > 0) != v.BV {
		r.Fail("tile-header", "%s for %v (variant %d, %d ground polygons, connections %v): header is %+v", what, v.Loc, v.ID, len(v.P), v.Cons, h)
	}
	for i, q := range v.V {
		p := w.W(float64(q[0]), float64(q[1]), float64(q[2]))
		if t.Verts[3*i] != p[0] || t.Verts[3*i+1] != p[1] || t.Verts[3*i+2] != p[2] {
			r.Fail("tile-verts", "%s for %v: vertex %d is %v instead of %v", what, v.Loc, i, t.Verts[3*i:3*i+3], p)
		}
	}
	for i := range v.P {
		p, q := &v.P[i], &t.Polys[i]
		if fresh && (q.Flags != p.Flags || q.Area() != p.Area) || q.Type() != 0 || int(q.VertCount) != len(p.V) {
			r.Fail("tile-polys", "%s for %v: polygon %d has flags 0x%x, area %d, type %d, %d vertices instead of 0x%x, %d, 0, %d", what, v.Loc, i, q.Flags, q.Area(), q.Type(), q.VertCount, p.Flags, p.Area, len(p.V))
		}
	}
	for n, ci := range v.Cons {
		c := w.Cons[ci]
		if q := &t.Polys[len(v.P)+n]; fresh && (q.Flags != c.Flags || q.Area() != c.Area) || q.Type() != 1 || q.VertCount != 2 {
			r.Fail("tile-polys", "%s for %v: off-mesh connection %d has flags 0x%x, area %d, type %d, %d vertices instead of 0x%x, %d, 1, 2", what, v.Loc, n, q.Flags, q.Area(), q.Type(), q.VertCount, c.Flags, c.Area)
		}
		a, b := w.W(c.A[0], c.A[1], c.A[2]), w.W(c.B[0], c.B[1], c.B[2])
		want := detour.OffMeshConnection{Pos: [6]float32{a[0], a[1], a[2], b[0], b[1], b[2]}, Rad: float32(c.Rad) * w.Cs,
			Poly: uint16(len(v.P) + n), Side: uint8(w.conSide(v, c)), UserID: c.UserID}
		if c.Bidir {
			want.Flags = 1
		}
		if t.Cons[n] != want {
			r.Fail("tile-offmesh", "%s for %v: off-mesh connection %d is %+v instead of %+v", what, v.Loc, n, t.Cons[n], want)
		}
	}
}

// expectedMeshDump renders what a mesh holding exactly these payloads must look
// like, apart from links and the snapped vertices of off-mesh connections.
func dumpBlob(t *tileBlob) string {
	h := t.H
	s := fmt.Sprintf("hdr %+v bits %x %x %x\n", h, bits(h.BMin[:]), bits(h.BMax[:]), f32bits(h.BvQuantFactor))
	con := map[int]bool{}
	for _, p := range t.Polys {
		if p.Type() != 0 {
			con[int(p.Verts[0])], con[int(p.Verts[1])] = true, true
		}
	}
	for i := 0; i*3 < len(t.Verts); i++ {
		if !con[i] {
			s += fmt.Sprintf("v%d %x\n", i, bits(t.Verts[3*i:3*i+3]))
		}
	}
	for i := range t.Polys {
		p := t.Polys[i]
		s += fmt.Sprintf("poly %d %v %v %x %d %x\n", i, p.Verts, p.Neis, p.Flags, p.VertCount, p.AreaAndType)
	}
	s += fmt.Sprintf("dm %v\ndv %x\ndt %v\nbv %v\n", t.DM, bits(t.DV), t.DT, t.BV)
	for i, c := range t.Cons {
		s += fmt.Sprintf("con %d %x %x %d %d %d %d\n", i, bits(c.Pos[:]), f32bits(c.Rad), c.Poly, c.Flags, c.Side, c.UserID)
	}
	return s
}

func blobOfTile(t *detour.MeshTile) *tileBlob {
	return &tileBlob{H: *t.Header, Verts: t.Verts, Polys: t.Polys, DM: t.DetailMeshes, DV: t.DetailVerts, DT: t.DetailTris, BV: t.BvTree, Cons: t.OffMeshCons}
}

// drawReader builds a fault-free reader over data.
func drawReader(r *R, data []byte) *simReader {
	s := &simReader{r: r, data: data, failAt: -1, mode: r.Draw(4), eofWith: r.Chance(1, 2), zeros: r.Chance(1, 4)}
	if len(data) > 60000 && s.mode > 1 {
		s.mode = 1
	}
	return s
}

func decode(r *R, rd *simReader) (m *detour.NavMesh, err error) {
	r.Call("Decode", func() { m, err = detour.Decode(rd) })
	if rd.chunks > 0 {
		r.Fault("short-read")
	}
	return
}

func save(r *R, m *detour.NavMesh) []byte {
	sw := &simWriter{failAt: -1}
	var err error
	r.Call("ToWriter", func() { err = m.ToWriter(sw) })
	if err != nil {
		r.Fail("save-error", "saving to a writer that accepts everything failed: %v", err)
	}
	return sw.buf
}

// editPolys changes flags and areas of loaded polygons at run time.
func editPolys(r *R, s *Stream, n int) {
	for i := 0; i < n; i++ {
		locs := sortedLocs(s.Loaded)
		if len(locs) == 0 {
			return
		}
		in := s.Loaded[locs[r.Draw(len(locs))]]
		t := s.Tile(in)
		p := &t.Polys[r.Draw(len(t.Polys))]
		p.Flags = uint16(r.Draw(1 << 16))
		if r.Chance(1, 2) {
			p.SetArea(uint8(r.Draw(64)))
		}
	}
}

func runP01(r *R) {
	if r.Chance(1, 12) && len(sampleMeshes) > 0 {
		runP01Sample(r)
		return
	}
	if r.Chance(1, 12) {
		runP01Foreign(r)
		return
	}
	w := genWorld(r, defaultCfg())
	for _, l := range w.Locs {
		for _, v := range w.Var[l] {
			checkVariantData(r, w, v, v.Data, "created tile data")
		}
	}
	maxTiles := r.Range(1, len(w.Locs)+4)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.Churn(r.Draw(3 + 3*len(w.Locs)))
	if r.Chance(1, 2) {
		s.LoadAll()
	}
	editPolys(r, s, r.Draw(6))
	r.State(s.StateKey())
	before := dumpMesh(s.M)
	data := save(r, s.M)
	if after := dumpMesh(s.M); after != before {
		r.Fail("save-mutates", "saving changed the mesh: %s", diffText(after, before))
	}
	var size int32
	r.Call("Size", func() { size = s.M.Size() })
	if int(size) != len(data) {
		r.Fail("size", "the mesh reports a size of %d bytes, %d were written", size, len(data))
	}
	f, err := parseFile(data)
	if err != nil || f.TotalSize != len(data) {
		r.Fail("layout", "the saved bytes are not the documented layout: %v", err)
	}
	if f.Orig != w.Orig || f.TW != s.M.TileWidth || f.TH != s.M.TileHeight || f.MaxTiles != uint32(maxTiles) || f.MaxPolys != s.M.Params.MaxPolys {
		r.Fail("layout-params", "saved parameters %+v do not match the mesh", *f)
	}
	if len(f.Tiles) != len(s.Loaded) {
		r.Fail("layout-tiles", "%d tiles were saved, %d are loaded", len(f.Tiles), len(s.Loaded))
	}
	for _, ft := range f.Tiles {
		p, ok := s.Resolve(detour.PolyRef(ft.Ref))
		if !ok || detour.TileRef(ft.Ref) != s.Loaded[p.Loc].Ref {
			r.Fail("layout-ref", "saved tile has reference 0x%x, which no loaded tile has", ft.Ref)
		}
		in := s.Loaded[p.Loc]
		checkVariantData(r, w, in.V, ft.Data, "saved tile data")
		b, _ := parseTile(ft.Data)
		orig, _ := parseTile(in.V.Data)
		cur := blobOfTile(s.Tile(in))
		if x, y := dumpBlob(b), dumpBlob(cur); x != y {
			r.Fail("layout-payload", "saved payload of %v differs from the loaded tile: %s", p.Loc, diffText(x, y))
		}
		// apart from run-time edits the tile is still what was added
		for i := range orig.Polys {
			orig.Polys[i].Flags, orig.Polys[i].AreaAndType = b.Polys[i].Flags, b.Polys[i].AreaAndType&0x3f|orig.Polys[i].AreaAndType&0xc0
		}
		if x, y := dumpBlob(b), dumpBlob(orig); x != y {
			r.Fail("layout-payload-added", "saved payload of %v differs from what was added: %s", p.Loc, diffText(x, y))
		}
		if len(in.V.Cons) > 0 {
			r.Probe("saved-offmesh")
		}
	}
	if len(s.Retired) > 0 {
		r.Probe("saved-after-removal")
	}
	r.NonTrivial()
	// one or several loads, possibly concurrent
	n := 1
	if r.Chance(1, 6) {
		n = r.Range(2, 3)
	}
	meshes := make([]*detour.NavMesh, n)
	errs := make([]error, n)
	if n == 1 {
		meshes[0], errs[0] = decode(r, drawReader(r, data))
	} else {
		var fns []func()
		var resaved []byte
		for i := 0; i < n; i++ {
			i := i
			rd := drawReader(r, data)
			if rd.mode == 2 {
				rd.mode = 1
			}
			fns = append(fns, func() { r.Try("Decode", 0, func() { meshes[i], errs[i] = detour.Decode(rd) }) })
		}
		fns = append(fns, func() {
			sw := &simWriter{failAt: -1}
			r.Try("ToWriter", 0, func() { s.M.ToWriter(sw) })
			resaved = sw.buf
		})
		r.Tasks(400_000_000, 1<<uint(r.Range(4, 14)), fns...)
		if !bytes.Equal(resaved, data) {
			r.Fail("concurrent-save", "saving while other streams load wrote different bytes (first difference at %d of %d)", firstDiff(resaved, data), len(data))
		}
		r.Probe("concurrent-loads")
	}
	for i := range meshes {
		if errs[i] != nil || meshes[i] == nil {
			r.Fail("load-refused", "a saved mesh of %d tiles (%d bytes) was refused: %v", len(s.Loaded), len(data), errs[i])
		}
		if got := dumpMesh(meshes[i]); got != before {
			r.Fail("roundtrip", "the loaded mesh differs from the saved one: %s", diffText(got, before))
		}
		// second generation
		again := save(r, meshes[i])
		if len(again) != len(data) {
			r.Fail("second-save", "saving the loaded mesh gives %d bytes instead of %d", len(again), len(data))
		}
	}
	r.Logf("saved %d bytes, %d tiles, loaded %d times", len(data), len(f.Tiles), n)
	// the loaded mesh behaves like the saved one under further streaming
	if r.Chance(1, 3) && len(s.Loaded) > 0 {
		keep := s.M
		s.M = meshes[0]
		s.Retired = nil // generation counters of empty slots start afresh
		for _, ft := range f.Tiles {
			p, _ := s.Resolve(detour.PolyRef(ft.Ref))
			s.Loaded[p.Loc].Data = ft.Data
		}
		s.CheckLinks(true, true)
		s.Churn(r.Draw(8))
		s.CheckLinks(true, true)
		s.M = keep
		r.Probe("streamed-after-load")
	}
}

// runP01Sample loads the repository's own meshes (among them files written by
// the C++ library) through unfriendly readers.
func runP01Sample(r *R) {
	names := sampleNames()
	name := names[r.Draw(len(names))]
	data := sampleMeshes[name]
	f, err := parseFile(data)
	if err != nil {
		r.Skip("sample file is not a tile set")
	}
	m, err := decode(r, drawReader(r, data))
	if err != nil {
		r.Fail("load-refused", "%s was refused: %v", filepath.Base(name), err)
	}
	if m.Params.Orig != f.Orig || m.Params.MaxTiles != f.MaxTiles || m.Params.MaxPolys != f.MaxPolys || m.Params.TileWidth != f.TW || m.Params.TileHeight != f.TH {
		r.Fail("roundtrip", "%s: parameters %+v differ from the file", filepath.Base(name), m.Params)
	}
	n := 0
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			n++
		}
	}
	if n != len(f.Tiles) {
		r.Fail("roundtrip", "%s: %d tiles loaded of %d", filepath.Base(name), n, len(f.Tiles))
	}
	for _, ft := range f.Tiles {
		t := m.TileByRef(detour.TileRef(ft.Ref))
		if t == nil || t.Header == nil {
			r.Fail("roundtrip", "%s: tile 0x%x is missing", filepath.Base(name), ft.Ref)
		}
		b, err := parseTile(ft.Data)
		if err != nil {
			r.Skip("sample tile not understood: " + err.Error())
		}
		if len(b.BV) == 0 {
			b.BV = nil
		}
		if x, y := dumpBlob(blobOfTile(t)), dumpBlob(b); x != y {
			r.Fail("roundtrip", "%s tile 0x%x: %s", filepath.Base(name), ft.Ref, diffText(x, y))
		}
	}
	before := dumpMesh(m)
	again := save(r, m)
	if int(m.Size()) != len(again) || len(again) != len(data) {
		r.Fail("size", "%s: size %d, written %d, original %d", filepath.Base(name), m.Size(), len(again), len(data))
	}
	m2, err := decode(r, drawReader(r, again))
	if err != nil {
		r.Fail("load-refused", "%s saved again was refused: %v", filepath.Base(name), err)
	}
	if got := dumpMesh(m2); got != before {
		r.Fail("roundtrip", "%s: second generation differs: %s", filepath.Base(name), diffText(got, before))
	}
	r.Logf("sample %s", filepath.Base(name))
	r.Probe("sample-mesh")
	r.NonTrivial()
}

// foreignTile rewrites tile data as another tool might have made it: with
// detail surfaces, bounding volumes and descriptive fields of any content.
func foreignTile(r *R, data []byte) []byte {
	le := binary.LittleEndian
	t, err := parseTile(data)
	if err != nil {
		r.Fail("tile-data", "created tile data: %v", err)
	}
	count := func() int {
		switch r.Draw(8) {
		case 0:
			return 0
		case 1:
			return 200 + r.Draw(200)
		case 2:
			if r.Chance(1, 40) {
				r.Probe("more-than-65536")
				return 65530 + r.Draw(20)
			}
		}
		return 1 + r.Draw(20)
	}
	x := uint32(r.Draw(1 << 30))
	word := func() uint32 { // contents need no decisions of their own
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		if x%5 == 0 {
			return x & 0xff
		}
		return x*2654435761 + 1
	}
	fl := func() uint32 { // any number but NaN
		f := word()
		if f&0x7f800000 == 0x7f800000 {
			f &^= 0x400000 << 1
		}
		return f
	}
	b := dup(data[:100+12*int(t.H.VertCount)+32*int(t.H.PolyCount)+12*int(t.H.MaxLinkCount)])
	le.PutUint32(b[20:], word())
	le.PutUint32(b[60:], fl())
	le.PutUint32(b[64:], fl())
	le.PutUint32(b[96:], fl())
	app := func(v uint32) { b = le.AppendUint32(b, v) }
	dm, dv, dt, bv := count(), count(), count(), count()
	le.PutUint32(b[36:], uint32(dm))
	le.PutUint32(b[40:], uint32(dv))
	le.PutUint32(b[44:], uint32(dt))
	le.PutUint32(b[48:], uint32(bv))
	for i := 0; i < dm; i++ {
		app(word())
		app(word())
		app(word() & 0xffff) // two padding bytes
	}
	for i := 0; i < 3*dv; i++ {
		app(fl())
	}
	for i := 0; i < dt; i++ {
		app(word())
	}
	for i := 0; i < 4*bv; i++ {
		app(word())
	}
	return b
}

// runP01Foreign saves and loads tiles whose unconstrained contents are drawn.
func runP01Foreign(r *R) {
	c := defaultCfg()
	c.Cons = false
	c.MaxVariants = 1
	w := genWorld(r, c)
	s := newStream(r, w, len(w.Locs)+r.Draw(3), drawMaxPolys(r, w, len(w.Locs)+3))
	want := map[detour.TileRef]string{}
	size := 40
	for _, i := range r.Perm(len(w.Locs)) {
		if len(want) > 0 && r.Chance(1, 4) {
			continue
		}
		v := w.Var[w.Locs[i]][0]
		d := foreignTile(r, v.Data)
		t, err := parseTile(d)
		if err != nil {
			panic(err)
		}
		var st detour.Status
		var ref detour.TileRef
		in := dup(d)
		r.Call("AddTile", func() { st, ref = s.M.AddTile(in, 0) })
		if detour.StatusFailed(st) {
			r.Fail("add-refused", "a tile with %d detail meshes, %d detail vertices, %d detail triangles, %d bounding volumes is refused: 0x%x", len(t.DM), len(t.DV)/3, len(t.DT)/4, len(t.BV), uint32(st))
		}
		if r.Chance(1, 3) {
			// flags and areas change at run time
			mt := s.M.TileByRef(ref)
			p := &mt.Polys[r.Draw(len(mt.Polys))]
			p.Flags = uint16(r.Draw(1 << 16))
			p.SetArea(uint8(r.Draw(64)))
			for k := range mt.Polys {
				t.Polys[k].Flags, t.Polys[k].AreaAndType = mt.Polys[k].Flags, mt.Polys[k].AreaAndType
			}
		}
		want[ref] = dumpBlob(t)
		size += 8 + len(d)
	}
	r.State("foreign", len(want), size)
	before := dumpMesh(s.M)
	data := save(r, s.M)
	if len(data) != size || int(s.M.Size()) != size {
		r.Fail("size", "%d bytes written, %d reported, %d expected", len(data), s.M.Size(), size)
	}
	f, err := parseFile(data)
	if err != nil || len(f.Tiles) != len(want) {
		r.Fail("layout", "the saved bytes are not the documented layout of %d tiles: %v", len(want), err)
	}
	m, err := decode(r, drawReader(r, data))
	if err != nil {
		r.Fail("load-refused", "a saved mesh was refused: %v", err)
	}
	for _, ft := range f.Tiles {
		t, err := parseTile(ft.Data)
		if err != nil {
			r.Fail("layout", "saved tile: %v", err)
		}
		if x := dumpBlob(t); x != want[detour.TileRef(ft.Ref)] {
			r.Fail("layout-payload", "saved tile differs from what was added: %s", diffText(x, want[detour.TileRef(ft.Ref)]))
		}
		mt := m.TileByRef(detour.TileRef(ft.Ref))
		if mt == nil || mt.Header == nil {
			r.Fail("roundtrip", "tile 0x%x is missing", ft.Ref)
		}
		if x := dumpBlob(blobOfTile(mt)); x != want[detour.TileRef(ft.Ref)] {
			r.Fail("roundtrip", "loaded tile differs from what was added: %s", diffText(x, want[detour.TileRef(ft.Ref)]))
		}
	}
	if got := dumpMesh(m); got != before {
		r.Fail("roundtrip", "the loaded mesh differs from the saved one: %s", diffText(got, before))
	}
	r.Logf("saved %d bytes, %d foreign tiles", len(data), len(want))
	r.Probe("foreign-tiles")
	r.NonTrivial()
}

func runP02(r *R) {
	var data []byte
	if r.Chance(1, 20) && len(sampleMeshes) > 0 {
		names := sampleNames()
		name := names[r.Draw(len(names))]
		data = dup(sampleMeshes[name])
		r.Logf("sample %s", filepath.Base(name))
	} else {
		c := defaultCfg()
		c.MaxVariants = 1
		w := genWorld(r, c)
		maxTiles := len(w.Locs) + r.Draw(3)
		s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
		s.Churn(1 + r.Draw(2*len(w.Locs)))
		data = save(r, s.M)
	}
	f, err := parseFile(data)
	if err != nil {
		r.Skip("unusable stream")
	}
	r.State(len(data))
	bounds := []int{0, 4, 8, 12, 40}
	off := 40
	for _, t := range f.Tiles {
		bounds = append(bounds, off+4, off+8, off+8+100, off+8+len(t.Data))
		off += 8 + len(t.Data)
	}
	tries := 1 + r.Draw(10)
	for i := 0; i < tries; i++ {
		kind := r.Draw(10)
		d := data
		rd := drawReader(r, d)
		what := ""
		at := r.Draw(len(data))
		if r.Chance(1, 2) {
			at = bounds[r.Draw(len(bounds))] + r.Range(-1, 1)
			if at < 0 {
				at = 0
			}
			if at >= len(data) {
				at = len(data) - 1
			}
		}
		put32 := func(off int, v uint32) {
			d = dup(d)
			d[off], d[off+1], d[off+2], d[off+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
			rd.data = d
		}
		tile := 0
		tileOff := 40
		if len(f.Tiles) > 0 {
			tile = r.Draw(len(f.Tiles))
			for j := 0; j < tile; j++ {
				tileOff += 8 + len(f.Tiles[j].Data)
			}
		} else if kind >= 4 {
			kind = r.Draw(4)
		}
		switch kind {
		case 0: // truncated
			rd.data = d[:at]
			what = fmt.Sprintf("stream of %d bytes ending at byte %d", len(d), at)
			r.Fault("truncation")
		case 1: // read error
			rd.failAt = at
			rd.err = errors.New("simulated I/O error")
			what = fmt.Sprintf("read error at byte %d of %d", at, len(d))
			r.Fault("read-error")
		case 2: // magic of the set
			put32(0, corruptWord(r, 0x4d534554))
			what = "wrong magic number of the set"
			r.Fault("bad-magic")
		case 3:
			put32(4, corruptWord(r, 1))
			what = "wrong version of the set"
			r.Fault("bad-version")
		case 4:
			put32(tileOff+8, corruptWord(r, 0x444e4156))
			what = fmt.Sprintf("wrong magic number of tile %d", tile)
			r.Fault("bad-tile-magic")
		case 5:
			put32(tileOff+12, corruptWord(r, 7))
			what = fmt.Sprintf("wrong version of tile %d", tile)
			r.Fault("bad-tile-version")
		case 6: // a block of the stream reads as zeros (lost write)
			n := 8
			put32(tileOff, 0)
			put32(tileOff+4, 0)
			if r.Chance(1, 2) {
				n = 8 + len(f.Tiles[tile].Data)
				for j := tileOff; j < tileOff+n; j++ {
					d[j] = 0
				}
			}
			what = fmt.Sprintf("%d bytes at the start of tile %d read as zeros", n, tile)
			r.Fault("zeroed-block")
		case 7: // declared size of a tile
			sz := uint32(len(f.Tiles[tile].Data))
			v := []uint32{0, 1, 99, sz - 4, sz + 4, sz / 2, 0xffffffff, 0x80000000}[r.Draw(8)]
			if v == sz {
				v = 0
			}
			put32(tileOff+4, v)
			what = fmt.Sprintf("tile %d declares %d bytes instead of %d", tile, int32(v), sz)
			r.Fault("bad-tile-size")
		case 8: // more tiles declared than stored
			put32(8, uint32(len(f.Tiles)+1+r.Draw(3)))
			what = "more tiles declared than stored"
			r.Fault("bad-tile-count")
		case 9: // a reference that cannot be: none, or one of another tile
			ref := uint32(0)
			if j := r.Draw(len(f.Tiles)); j != tile {
				ref = f.Tiles[j].Ref
			}
			put32(tileOff, ref)
			what = fmt.Sprintf("tile %d is stored with the reference 0x%x", tile, ref)
			r.Fault("bad-tile-ref")
		}
		m, err := decode(r, rd)
		r.Logf("%s -> %v", what, err != nil)
		if err == nil {
			n := -1
			if m != nil {
				n = 0
				for j := range m.Tiles {
					if m.Tiles[j].Header != nil {
						n++
					}
				}
			}
			r.Fail("accepted", "%s was accepted without error (%d of %d tiles loaded)", what, n, len(f.Tiles))
		}
		if m != nil {
			r.Fail("mesh-and-error", "%s returned both an error and a mesh", what)
		}
	}
}

func corruptWord(r *R, v uint32) uint32 {
	switch r.Draw(4) {
	case 1:
		return 0
	case 2: // byte order
		if x := v>>24 | v>>8&0xff00 | v<<8&0xff0000 | v<<24; x != v {
			return x
		}
	case 3:
		return v + 1
	}
	return v ^ 1<<uint(r.Draw(32))
}

func init() {
	register(&Prop{ID: "P01", Run: runP01, Quick: 55000, Full: 400000,
		Rule: "A random world of tiles is streamed into a mesh (adds, removals, restores, flag edits), saved, parsed with an independent reader of the documented layout, loaded through readers that deliver arbitrary chunks (with zero-length reads and data together with EOF), compared and streamed on; every twelfth run loads one of the repository's sample meshes.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"short-read"},
		Assume: []string{"off-mesh end points whose landing polygon is within rounding of a border are not judged after further streaming"}})
	register(&Prop{ID: "P02", Run: runP02, Quick: 200000, Full: 600000,
		Rule: "A saved mesh is truncated, cut by a read error, given wrong identification words, zeroed blocks or wrong tile sizes and counts at drawn positions (biased to structure boundaries) and loaded through readers of all chunkings.",
		Real: commonReal, Stub: commonStub, FaultKinds: []string{"truncation", "read-error", "short-read", "bad-magic", "bad-version", "bad-tile-magic", "bad-tile-version", "zeroed-block", "bad-tile-size", "bad-tile-count", "bad-tile-ref"}})
}
