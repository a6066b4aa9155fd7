package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/arl/go-detour/detour"
)

// The harness's own reader of the documented Detour tile-set layout.

var errFormat = errors.New("not a complete tile set")

type fileTile struct {
	Ref  uint32
	Data []byte
}

type fileMesh struct {
	Orig      [3]float32
	TW, TH    float32
	MaxTiles  uint32
	MaxPolys  uint32
	Tiles     []fileTile
	TotalSize int
}

func parseFile(b []byte) (*fileMesh, error) {
	le := binary.LittleEndian
	if len(b) < 40 || le.Uint32(b) != 0x4d534554 || le.Uint32(b[4:]) != 1 {
		return nil, errFormat
	}
	f := &fileMesh{}
	n := le.Uint32(b[8:])
	for i := 0; i < 3; i++ {
		f.Orig[i] = math.Float32frombits(le.Uint32(b[12+4*i:]))
	}
	f.TW, f.TH = math.Float32frombits(le.Uint32(b[24:])), math.Float32frombits(le.Uint32(b[28:]))
	f.MaxTiles, f.MaxPolys = le.Uint32(b[32:]), le.Uint32(b[36:])
	off := 40
	for i := uint32(0); i < n; i++ {
		if off+8 > len(b) {
			return nil, errFormat
		}
		ref, sz := le.Uint32(b[off:]), int(le.Uint32(b[off+4:]))
		off += 8
		if sz < 0 || off+sz > len(b) {
			return nil, errFormat
		}
		f.Tiles = append(f.Tiles, fileTile{ref, b[off : off+sz]})
		off += sz
	}
	f.TotalSize = off
	return f, nil
}

// tileBlob is a tile payload decoded independently of the code under test.
type tileBlob struct {
	H      detour.MeshHeader
	Verts  []float32
	Polys  []detour.Poly
	DM     []detour.PolyDetail
	DV     []float32
	DT     []byte
	BV     []detour.BvNode
	Cons   []detour.OffMeshConnection
	Length int
}

func parseTile(b []byte) (t *tileBlob, err error) {
	defer func() {
		if recover() != nil {
			t, err = nil, errFormat
		}
	}()
	le := binary.LittleEndian
	u := func(o int) uint32 { return le.Uint32(b[o:]) }
	fl := func(o int) float32 { return math.Float32frombits(le.Uint32(b[o:])) }
	t = &tileBlob{}
	h := &t.H
	h.Magic, h.Version = int32(u(0)), int32(u(4))
	h.X, h.Y, h.Layer, h.UserID = int32(u(8)), int32(u(12)), int32(u(16)), u(20)
	h.PolyCount, h.VertCount, h.MaxLinkCount = int32(u(24)), int32(u(28)), int32(u(32))
	h.DetailMeshCount, h.DetailVertCount, h.DetailTriCount = int32(u(36)), int32(u(40)), int32(u(44))
	h.BvNodeCount, h.OffMeshConCount, h.OffMeshBase = int32(u(48)), int32(u(52)), int32(u(56))
	h.WalkableHeight, h.WalkableRadius, h.WalkableClimb = fl(60), fl(64), fl(68)
	for i := 0; i < 3; i++ {
		h.BMin[i], h.BMax[i] = fl(72+4*i), fl(84+4*i)
	}
	h.BvQuantFactor = fl(96)
	o := 100
	for i := 0; i < int(h.VertCount)*3; i++ {
		t.Verts = append(t.Verts, fl(o))
		o += 4
	}
	for i := 0; i < int(h.PolyCount); i++ {
		var p detour.Poly
		p.FirstLink = u(o)
		for j := 0; j < 6; j++ {
			p.Verts[j] = le.Uint16(b[o+4+2*j:])
			p.Neis[j] = le.Uint16(b[o+16+2*j:])
		}
		p.Flags, p.VertCount, p.AreaAndType = le.Uint16(b[o+28:]), b[o+30], b[o+31]
		t.Polys = append(t.Polys, p)
		o += 32
	}
	o += 12 * int(h.MaxLinkCount)
	for i := 0; i < int(h.DetailMeshCount); i++ {
		t.DM = append(t.DM, detour.PolyDetail{VertBase: u(o), TriBase: u(o + 4), VertCount: b[o+8], TriCount: b[o+9]})
		o += 12
	}
	for i := 0; i < int(h.DetailVertCount)*3; i++ {
		t.DV = append(t.DV, fl(o))
		o += 4
	}
	t.DT = append(t.DT, b[o:o+4*int(h.DetailTriCount)]...)
	o += 4 * int(h.DetailTriCount)
	for i := 0; i < int(h.BvNodeCount); i++ {
		var n detour.BvNode
		for j := 0; j < 3; j++ {
			n.BMin[j], n.BMax[j] = le.Uint16(b[o+2*j:]), le.Uint16(b[o+6+2*j:])
		}
		n.I = int32(u(o + 12))
		t.BV = append(t.BV, n)
		o += 16
	}
	for i := 0; i < int(h.OffMeshConCount); i++ {
		var c detour.OffMeshConnection
		for j := 0; j < 6; j++ {
			c.Pos[j] = fl(o + 4*j)
		}
		c.Rad, c.Poly, c.Flags, c.Side, c.UserID = fl(o+24), le.Uint16(b[o+28:]), b[o+30], b[o+31], u(o+32)
		t.Cons = append(t.Cons, c)
		o += 36
	}
	t.Length = o
	if o != len(b) {
		return t, fmt.Errorf("tile payload has %d bytes, its header accounts for %d", len(b), o)
	}
	return t, nil
}

// dumpTile renders everything observable about a loaded tile except the
// internal numbering of its links.
func dumpTile(m *detour.NavMesh, t *detour.MeshTile) string {
	if t == nil || t.Header == nil {
		return "<none>"
	}
	h := *t.Header
	s := fmt.Sprintf("hdr %+v\n", h)
	s += fmt.Sprintf("bits %x %x %x\n", bits(h.BMin[:]), bits(h.BMax[:]), f32bits(h.BvQuantFactor))
	s += fmt.Sprintf("verts %x\n", bits(t.Verts))
	for i := range t.Polys {
		p := t.Polys[i]
		s += fmt.Sprintf("poly %d %v %v %x %d %x links", i, p.Verts, p.Neis, p.Flags, p.VertCount, p.AreaAndType)
		s += dumpLinks(t, i) + "\n"
	}
	s += fmt.Sprintf("dm %v\ndv %x\ndt %v\nbv %v\n", t.DetailMeshes, bits(t.DetailVerts), t.DetailTris, t.BvTree)
	for i := range t.OffMeshCons {
		c := t.OffMeshCons[i]
		s += fmt.Sprintf("con %d %x %x %d %d %d %d\n", i, bits(c.Pos[:]), f32bits(c.Rad), c.Poly, c.Flags, c.Side, c.UserID)
	}
	return s
}

func dumpLinks(t *detour.MeshTile, pi int) string {
	var l []string
	n := 0
	for j := t.Polys[pi].FirstLink; j != nullLink && int(j) < len(t.Links) && n <= len(t.Links); j = t.Links[j].Next {
		k := t.Links[j]
		l = append(l, fmt.Sprintf(" [%08x e%d s%d %d-%d]", uint32(k.Ref), k.Edge, k.Side, k.BMin, k.BMax))
		n++
	}
	sortStrings(l)
	s := ""
	for _, x := range l {
		s += x
	}
	return s
}

func bits(f []float32) []uint32 {
	o := make([]uint32, len(f))
	for i, x := range f {
		o[i] = math.Float32bits(x)
	}
	return o
}

// dumpMesh renders the whole observable mesh; tiles in order of their references.
func dumpMesh(m *detour.NavMesh) string {
	s := fmt.Sprintf("params %+v %x max %d\n", m.Params, bits(m.Params.Orig[:]), m.MaxTiles)
	for i := range m.Tiles {
		t := &m.Tiles[i]
		if t.Header == nil {
			continue
		}
		s += fmt.Sprintf("tile ref %08x\n", uint32(m.TileRef(t))) + dumpTile(m, t)
	}
	return s
}

func diffText(a, b string) string {
	la, lb := splitLines(a), splitLines(b)
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d:\n  have %s\n  want %s", i, clip(x), clip(y))
		}
	}
	return "equal"
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// ---- simulated streams --------------------------------------------------------

// simReader delivers data the way a legal but unfriendly reader may.
type simReader struct {
	r       *R
	data    []byte
	pos     int
	mode    int   // 0 all at once, 1 random chunks, 2 single bytes, 3 tiny chunks
	failAt  int   // byte offset at which an error strikes (-1 never)
	err     error // the error
	eofWith bool  // deliver EOF/error together with the last data
	zeros   bool  // occasionally deliver nothing without error
	calls   int
	chunks  int
	pause   func()
}

func (s *simReader) Read(b []byte) (int, error) {
	s.calls++
	if s.pause != nil {
		s.pause()
	}
	end := len(s.data)
	fin := io.EOF
	if s.failAt >= 0 && s.failAt < end {
		end = s.failAt
		fin = s.err
	} else if s.failAt >= 0 && s.failAt == end {
		fin = s.err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if s.pos >= end {
		return 0, fin
	}
	if s.zeros && s.r.Chance(1, 16) {
		return 0, nil
	}
	n := len(b)
	if n > end-s.pos {
		n = end - s.pos
	}
	full := n
	switch s.mode {
	case 1:
		n = 1 + s.r.Draw(n)
	case 2:
		n = 1
	case 3:
		n = 1 + s.r.Draw(mini(n, 7))
	}
	if n < full {
		s.chunks++
	}
	copy(b, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.pos >= end && s.eofWith {
		return n, fin
	}
	return n, nil
}

// simWriter accepts bytes up to a limit.
type simWriter struct {
	buf    []byte
	failAt int // -1 never
	err    error
	struck bool
	silent bool
	calls  int
}

func (s *simWriter) Write(b []byte) (int, error) {
	s.calls++
	if s.failAt >= 0 && len(s.buf)+len(b) > s.failAt {
		n := s.failAt - len(s.buf)
		if n < 0 {
			n = 0
		}
		s.buf = append(s.buf, b[:n]...)
		s.struck = true
		return n, s.err
	}
	s.buf = append(s.buf, b...)
	return len(b), nil
}
