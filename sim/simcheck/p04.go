package main

import (
	"fmt"

	"github.com/arl/go-detour/detour"
)

// checkRegistry compares all lookups with the model.
func (s *Stream) checkRegistry() {
	r, m := s.r, s.M
	seen := map[detour.TileRef]Loc{}
	for x := s.w.X0 - 1; x <= s.w.X0+int32(s.w.NX); x++ {
		for y := s.w.Y0 - 1; y <= s.w.Y0+int32(s.w.NY); y++ {
			want := map[detour.TileRef]Loc{}
			for l := int32(-1); l <= int32(s.w.NL); l++ {
				loc := Loc{x, y, l}
				in := s.Loaded[loc]
				var t *detour.MeshTile
				var ref detour.TileRef
				r.Call("TileAt", func() { t = m.TileAt(x, y, l) })
				r.Call("TileRefAt", func() { ref = m.TileRefAt(x, y, l) })
				if in == nil {
					if t != nil {
						r.Fail("phantom-tile", "TileAt%v returns a tile where none is loaded", loc)
					}
					if ref != 0 {
						r.Fail("phantom-ref", "TileRefAt%v returns 0x%x where nothing is loaded", loc, ref)
					}
					continue
				}
				want[in.Ref] = loc
				if t == nil || t.Header == nil {
					r.Fail("lost-tile", "TileAt%v does not find the loaded tile", loc)
				}
				if ref != in.Ref {
					r.Fail("wrong-ref", "TileRefAt%v is 0x%x, the tile was added as 0x%x", loc, ref, in.Ref)
				}
				if t.Header.X != x || t.Header.Y != y || t.Header.Layer != l || t.Header.UserID != in.V.UserID || len(t.Polys) != in.V.NPolys() {
					r.Fail("wrong-tile", "TileAt%v returns tile (%d,%d,%d) user %d with %d polygons, expected user %d with %d", loc, t.Header.X, t.Header.Y, t.Header.Layer, t.Header.UserID, len(t.Polys), in.V.UserID, in.V.NPolys())
				}
				if got := m.TileRef(t); got != in.Ref {
					r.Fail("wrong-ref", "TileRef of tile %v is 0x%x, it was added as 0x%x", loc, got, in.Ref)
				}
				var bt *detour.MeshTile
				r.Call("TileByRef", func() { bt = m.TileByRef(in.Ref) })
				if bt != t {
					r.Fail("ref-lookup", "TileByRef(0x%x) does not return tile %v", in.Ref, loc)
				}
				if o, dup := seen[in.Ref]; dup {
					r.Fail("shared-ref", "tiles %v and %v share reference 0x%x", o, loc, in.Ref)
				}
				seen[in.Ref] = loc
			}
			buf := make([]*detour.MeshTile, 8)
			var n int32
			max := int32(8)
			if r.Chance(1, 8) {
				max = int32(r.Draw(3))
			}
			r.Call("TilesAt", func() { n = m.TilesAt(x, y, buf, max) })
			exp := int32(len(want))
			if exp > max {
				exp = max
			}
			if n != exp {
				r.Fail("tiles-at", "TilesAt(%d,%d) with room for %d returns %d tiles, %d layers are loaded", x, y, max, n, len(want))
			}
			got := map[detour.TileRef]bool{}
			for i := int32(0); i < n; i++ {
				ref := m.TileRef(buf[i])
				if _, ok := want[ref]; !ok || got[ref] {
					r.Fail("tiles-at", "TilesAt(%d,%d) returns tile 0x%x twice or not loaded there", x, y, ref)
				}
				got[ref] = true
			}
		}
	}
	n := 0
	for i := range m.Tiles {
		if m.Tiles[i].Header != nil {
			n++
		}
	}
	if n != len(s.Loaded) {
		r.Fail("tile-count", "%d slots hold tiles, %d are loaded", n, len(s.Loaded))
	}
}

// expectAddFailure adds data that must be refused without any effect.
func (s *Stream) expectAddFailure(what string, data []byte, last detour.TileRef) {
	r := s.r
	before := dumpMesh(s.M)
	var st detour.Status
	var ref detour.TileRef
	r.Call("AddTile ("+what+")", func() { st, ref = s.M.AddTile(data, last) })
	r.Logf("add %s last 0x%x -> 0x%x", what, last, uint32(st))
	r.Fault("refused-add: " + what)
	if !detour.StatusFailed(st) || detour.StatusSucceed(st) {
		r.Fail("add-accepted", "AddTile (%s, lastRef 0x%x) returned status 0x%x and reference 0x%x instead of failing", what, last, uint32(st), ref)
	}
	if ref != 0 {
		r.Fail("add-failed-ref", "failed AddTile (%s) returned reference 0x%x", what, ref)
	}
	if after := dumpMesh(s.M); after != before {
		r.Fail("failed-add-mutates", "failed AddTile (%s) changed the mesh: %s", what, diffText(after, before))
	}
}

func (s *Stream) expectRemoveFailure(what string, ref detour.TileRef) {
	r := s.r
	before := dumpMesh(s.M)
	var st detour.Status
	var data []byte
	r.Call("RemoveTile ("+what+")", func() { data, st = s.M.RemoveTile(ref) })
	r.Logf("remove %s 0x%x -> 0x%x", what, ref, uint32(st))
	r.Fault("refused-remove: " + what)
	if !detour.StatusFailed(st) || detour.StatusSucceed(st) {
		r.Fail("remove-accepted", "RemoveTile(0x%x) (%s) returned status 0x%x instead of failing", ref, what, uint32(st))
	}
	if data != nil {
		r.Fail("remove-failed-data", "failed RemoveTile(0x%x) (%s) returned data", ref, what)
	}
	if after := dumpMesh(s.M); after != before {
		r.Fail("failed-remove-mutates", "failed RemoveTile(0x%x) (%s) changed the mesh: %s", ref, what, diffText(after, before))
	}
}

// abuse performs one operation that must fail cleanly.
func (s *Stream) abuse() {
	r := s.r
	anyLoc := s.w.Locs[r.Draw(len(s.w.Locs))]
	anyVar := s.w.Var[anyLoc][r.Draw(len(s.w.Var[anyLoc]))]
	locs := sortedLocs(s.Loaded)
	free := s.FreeLocs()
	freeVar := func() *Variant {
		l := free[r.Draw(len(free))]
		return s.w.Var[l][r.Draw(len(s.w.Var[l]))]
	}
	switch r.Draw(12) {
	case 0, 1: // occupied location
		if len(locs) > 0 {
			l := locs[r.Draw(len(locs))]
			vs := s.w.Var[l]
			last := detour.TileRef(0)
			if r.Chance(1, 3) && len(s.Retired) > 0 {
				last = s.Retired[r.Draw(len(s.Retired))].Ref
			}
			s.expectAddFailure("location occupied", dup(vs[r.Draw(len(vs))].Data), last)
		}
	case 2: // no slot left
		if len(s.Loaded) == int(s.M.MaxTiles) && len(free) > 0 {
			s.expectAddFailure("no free slot", dup(freeVar().Data), 0)
		}
	case 3: // requested slot in use
		if len(locs) > 0 && len(free) > 0 {
			s.expectAddFailure("requested slot in use", dup(freeVar().Data), s.Loaded[locs[r.Draw(len(locs))]].Ref)
		}
	case 4: // requested slot beyond the mesh
		if len(free) > 0 && s.TileBits > 0 && uint32(s.M.MaxTiles) < 1<<s.TileBits {
			it := uint32(s.M.MaxTiles) + uint32(r.Draw(1<<s.TileBits-int(s.M.MaxTiles)))
			s.expectAddFailure("requested slot out of range", dup(freeVar().Data), detour.TileRef(1<<(s.TileBits+s.PolyBits)|it<<s.PolyBits))
		}
	case 5: // magic / version
		d := dup(anyVar.Data)
		o := 4 * r.Draw(2)
		d[o+r.Draw(4)] ^= byte(1 + r.Draw(255))
		what := "wrong magic"
		if o == 4 {
			what = "wrong version"
		}
		s.expectAddFailure(what, d, 0)
	case 6: // not a whole tile
		if len(free) > 0 {
			d := dup(freeVar().Data)
			n := r.Draw(len(d))
			if r.Chance(1, 3) {
				n = r.Draw(101)
			}
			s.expectAddFailure("truncated tile", d[:n], 0)
		}
	case 7: // more polygons than references can tell apart
		if len(free) > 0 {
			v := freeVar()
			if v.NPolys() > 1<<s.PolyBits {
				s.expectAddFailure("too many polygons", dup(v.Data), 0)
				r.Probe("too-many-polygons")
			}
		}
	case 8:
		s.expectRemoveFailure("zero reference", 0)
	case 9: // stale
		if len(s.Retired) > 0 {
			o := s.Retired[r.Draw(len(s.Retired))]
			in := s.Slots[o.Slot]
			if (in == nil || in.Ref != o.Ref) && !s.SetBack[o.Slot] {
				s.expectRemoveFailure("stale reference", o.Ref)
			}
		}
	case 10: // beyond the mesh
		if uint32(s.M.MaxTiles) < 1<<s.TileBits {
			it := uint32(s.M.MaxTiles) + uint32(r.Draw(1<<s.TileBits-int(s.M.MaxTiles)))
			s.expectRemoveFailure("slot out of range", detour.TileRef(1<<(s.TileBits+s.PolyBits)|it<<s.PolyBits))
		}
	case 11: // never used or currently free slot, current generation
		for it := uint32(0); it < uint32(s.M.MaxTiles); it++ {
			if s.Slots[it] == nil {
				salt := s.M.Tiles[it].Salt
				s.expectRemoveFailure("reference of an empty slot", detour.TileRef(salt<<(s.TileBits+s.PolyBits)|it<<s.PolyBits))
				break
			}
		}
	}
}

func runP04(r *R) {
	if r.Chance(1, 16) {
		runP04Init(r)
		return
	}
	c := defaultCfg()
	c.MaxNX, c.MaxNY = 4, 3
	c.MaxLayers = 3
	c.MaxK = 3
	w := genWorld(r, c)
	maxTiles := r.Range(1, len(w.Locs)+2)
	mp := drawMaxPolys(r, w, maxTiles)
	tooMany := r.Chance(1, 8) && w.MaxP > 2
	if tooMany {
		mp = 1 + r.Draw(w.MaxP-1) // some tiles do not fit
	}
	s := newStream(r, w, maxTiles, mp)
	n := 4 + r.Draw(40)
	for i := 0; i < n; i++ {
		if tooMany {
			// only variants that fit are added by the model
			free := s.FreeLocs()
			if len(free) > 0 && len(s.Loaded) < maxTiles && r.Chance(1, 2) {
				l := free[r.Draw(len(free))]
				v := w.Var[l][r.Draw(len(w.Var[l]))]
				if v.NPolys() <= mp {
					s.Add(v, 0)
				} else if v.NPolys() > 1<<s.PolyBits {
					s.expectAddFailure("too many polygons", dup(v.Data), 0)
				}
			} else if locs := sortedLocs(s.Loaded); len(locs) > 0 && r.Chance(1, 3) {
				s.Remove(locs[r.Draw(len(locs))])
			}
		} else if r.Chance(1, 3) {
			s.abuse()
		} else {
			s.Step()
		}
		if r.Chance(1, 4) {
			s.checkRegistry()
		}
		// positions map to the tile locations they lie in
		if r.Chance(1, 8) {
			l := w.Locs[r.Draw(len(w.Locs))]
			fx, fz := 1+r.Draw(tileVox-2), 1+r.Draw(tileVox-2)
			p := w.W(float64(int(l.X)*tileVox+fx), 0, float64(int(l.Y)*tileVox+fz))
			var tx, ty int32
			r.Call("CalcTileLoc", func() { tx, ty = s.M.CalcTileLoc(p[:]) })
			if tx != l.X || ty != l.Y {
				r.Fail("tile-loc", "position %v lies in tile (%d,%d), CalcTileLoc says (%d,%d)", p, l.X, l.Y, tx, ty)
			}
		}
		r.State(s.StateKey())
	}
	s.checkRegistry()
	r.NonTrivial()
}

// runP04Init tries mesh parameters and single-tile set-up.
func runP04Init(r *R) {
	r.NonTrivial()
	if r.Chance(1, 2) {
		tb, pb := r.Draw(29), r.Draw(30)
		mt, mp := uint32(1)<<uint(tb), uint32(1)<<uint(pb)
		if tb > 18 { // keep memory bounded: big tile counts only where they must be refused
			if tb+pb <= 24 {
				pb = 25 - tb + r.Draw(8)
				if pb < 0 {
					pb = 0
				}
				mp = 1 << uint(pb)
			}
			if tb > 20 {
				tb = 20
				mt = 1 << 20
				if pb < 6 {
					pb = 6
					mp = 1 << 6
				}
			}
		}
		if r.Chance(1, 2) && mp > 1 {
			mp -= uint32(r.Draw(int(minu(mp/2, 1000))))
		}
		p := &detour.NavMeshParams{TileWidth: 10, TileHeight: 10, MaxTiles: mt, MaxPolys: mp}
		need := ceilLog2(mt) + ceilLog2(mp)
		var m detour.NavMesh
		var st detour.Status
		r.Call("Init", func() { st = m.Init(p) })
		r.Logf("init tiles %d polys %d -> 0x%x", mt, mp, uint32(st))
		r.Fault(fmt.Sprintf("id-layout-fits-%v", need <= 24))
		if need > 32 && !detour.StatusFailed(st) {
			r.Fail("init-accepted", "parameters with %d tiles and %d polygons need %d bits besides generations but were accepted", mt, mp, need)
		}
		if need > 24 && need <= 32 && !detour.StatusFailed(st) {
			// fewer than 8 generation bits: documented limit is a matter of policy,
			// but references must then still work
			r.Probe("few-generation-bits-accepted")
		}
		if need <= 22 && detour.StatusFailed(st) {
			r.Fail("init-refused", "parameters with %d tiles and %d polygons (%d bits) were refused: 0x%x", mt, mp, need, uint32(st))
		}
		return
	}
	c := defaultCfg()
	c.MaxNX, c.MaxNY, c.MaxLayers = 1, 1, 1
	w := genWorld(r, c)
	v := w.Var[w.Locs[0]][0]
	var m detour.NavMesh
	var st detour.Status
	d := dup(v.Data)
	bad := ""
	switch r.Draw(4) {
	case 1:
		d[r.Draw(8)] ^= 0x10
		bad = "wrong magic or version"
	case 2:
		d = d[:r.Draw(len(d))]
		bad = "truncated tile"
	}
	flags := r.Draw(2)
	r.Call("InitForSingleTile", func() { st = m.InitForSingleTile(d, flags) })
	r.Logf("single tile %q flags %d -> 0x%x", bad, flags, uint32(st))
	if bad != "" {
		r.Fault("single-tile " + bad)
		if !detour.StatusFailed(st) {
			r.Fail("single-accepted", "InitForSingleTile accepted data with %s: 0x%x", bad, uint32(st))
		}
		return
	}
	if detour.StatusFailed(st) {
		r.Fail("single-refused", "InitForSingleTile(flags %d) refused a valid tile: 0x%x", flags, uint32(st))
	}
	t := m.TileAt(v.Loc.X, v.Loc.Y, v.Loc.L)
	if t == nil {
		r.Fail("single-lost", "the single tile is not found at %v", v.Loc)
	}
	ref := m.TileRef(t)
	if ref == 0 || m.TileByRef(ref) != t {
		r.Fail("single-ref", "the single tile has reference 0x%x, which does not find it (flags %d)", ref, flags)
	}
	for i := 0; i < v.NPolys(); i++ {
		if !m.IsValidPolyRef(detour.PolyRef(ref) | detour.PolyRef(i)) {
			r.Fail("single-ref", "polygon %d of the single tile has no valid reference (flags %d)", i, flags)
		}
	}
}

func minu(a, b uint32) uint32 {
	if a < b {
		return a
	}
	return b
}

// ---- P05 -----------------------------------------------------------------------

// checkRefs verifies that exactly the references of loaded tiles resolve.
func (s *Stream) checkRefs(q *detour.NavMeshQuery) {
	r, m := s.r, s.M
	all := map[detour.PolyRef]PID{}
	for _, loc := range sortedLocs(s.Loaded) {
		in := s.Loaded[loc]
		t := s.Tile(in)
		if t == nil || t.Header == nil {
			r.Fail("valid-rejected", "reference 0x%x of loaded tile %v does not resolve", in.Ref, loc)
		}
		for i := 0; i < in.V.NPolys(); i++ {
			ref := in.PolyRef(i)
			if ref == 0 {
				r.Fail("zero-ref", "polygon %d of %v has reference 0", i, loc)
			}
			if o, ok := all[ref]; ok {
				r.Fail("shared-ref", "polygons %v#%d and %v#%d share reference 0x%x", o.Loc, o.P, loc, i, ref)
			}
			all[ref] = PID{loc, i}
			if !m.IsValidPolyRef(ref) {
				r.Fail("valid-rejected", "polygon %v#%d (0x%x) is loaded but its reference is rejected", loc, i, ref)
			}
			var tt *detour.MeshTile
			var pp *detour.Poly
			st := m.TileAndPolyByRef(ref, &tt, &pp)
			if detour.StatusFailed(st) || tt != t || pp != &t.Polys[i] {
				r.Fail("valid-rejected", "polygon %v#%d (0x%x) resolves to something else: 0x%x", loc, i, ref, uint32(st))
			}
		}
		// just beyond the last polygon
		if n := in.V.NPolys(); n < 1<<s.PolyBits {
			if m.IsValidPolyRef(in.PolyRef(n)) {
				r.Fail("beyond-accepted", "reference to polygon %d of %v is accepted, the tile has %d", n, loc, n)
			}
		}
	}
	s.checkStale(q, 12)
}

// stale tells whether a former reference must be rejected now.
func (s *Stream) staleRef(ref detour.PolyRef) bool {
	_, ok := s.Resolve(ref)
	return !ok
}

// mustReject decides for a removed tile whether its references are still
// within the protection period.
func (s *Stream) mustReject(o *Inst, idx int) bool {
	if s.Slots[o.Slot] != nil && s.Slots[o.Slot].Salt == o.Salt {
		return false // restored, or the counter has come round
	}
	return true
}

func (s *Stream) checkStale(q *detour.NavMeshQuery, n int) {
	r, m := s.r, s.M
	for k := 0; k < n && len(s.Retired) > 0; k++ {
		var o *Inst
		if r.Chance(1, 2) {
			o = s.Retired[len(s.Retired)-1-r.Draw(mini(len(s.Retired), 8))]
		} else {
			o = s.Retired[r.Draw(len(s.Retired))]
		}
		if !s.mustReject(o, k) {
			continue
		}
		i := r.Draw(o.V.NPolys())
		ref := o.PolyRef(i)
		if m.IsValidPolyRef(ref) {
			r.Fail("stale-accepted", "reference 0x%x of removed tile %v is accepted (slot %d, generation %d)", ref, o.V.Loc, o.Slot, o.Salt)
		}
		var tt *detour.MeshTile
		var pp *detour.Poly
		var st detour.Status
		r.Call("TileAndPolyByRef", func() { st = m.TileAndPolyByRef(ref, &tt, &pp) })
		if !detour.StatusFailed(st) {
			r.Fail("stale-accepted", "TileAndPolyByRef accepts 0x%x of removed tile %v", ref, o.V.Loc)
		}
		var t *detour.MeshTile
		r.Call("TileByRef", func() { t = m.TileByRef(o.Ref) })
		if t != nil {
			r.Fail("stale-accepted", "TileByRef(0x%x) returns a tile although %v was removed", o.Ref, o.V.Loc)
		}
		if q != nil {
			s.staleQueries(q, ref, o)
		}
		r.Probe("stale-checked")
		if s.Slots[o.Slot] != nil {
			r.Probe("stale-checked-slot-reused")
		}
	}
}

// staleQueries checks that every query rejects a stale reference.
func (s *Stream) staleQueries(q *detour.NavMeshQuery, ref detour.PolyRef, o *Inst) {
	r := s.r
	pos := s.w.W(float64(int(o.V.Loc.X)*tileVox+20), 0, float64(int(o.V.Loc.Y)*tileVox+20))
	end := s.w.W(float64(int(o.V.Loc.X)*tileVox+30), 0, float64(int(o.V.Loc.Y)*tileVox+10))
	f := detour.NewStandardQueryFilter()
	bad := func(what string, st detour.Status) {
		if !detour.StatusFailed(st) || uint32(st)&uint32(detour.InvalidParam) == 0 {
			r.Fail("stale-query", "%s with stale reference 0x%x (tile %v) returned 0x%x instead of an invalid-parameter failure", what, ref, o.V.Loc, uint32(st))
		}
	}
	var good detour.PolyRef
	if locs := sortedLocs(s.Loaded); len(locs) > 0 {
		good = s.Loaded[locs[0]].PolyRef(0)
	}
	switch r.Draw(6) {
	case 0:
		var st detour.Status
		path := make([]detour.PolyRef, 8)
		n := 0
		r.Call("FindPath", func() { n, st = q.FindPath(ref, ref, pos[:], end[:], f, path) })
		bad("FindPath", st)
		if n != 0 {
			r.Fail("stale-query", "FindPath from a stale reference returned a path of %d", n)
		}
	case 1:
		if good != 0 {
			var st detour.Status
			path := make([]detour.PolyRef, 8)
			r.Call("FindPath", func() { _, st = q.FindPath(good, ref, pos[:], end[:], f, path) })
			bad("FindPath to it", st)
		}
	case 2:
		var st detour.Status
		closest := make([]float32, 3)
		var over bool
		r.Call("ClosestPointOnPoly", func() { st = q.ClosestPointOnPoly(ref, pos[:], closest, &over) })
		bad("ClosestPointOnPoly", st)
	case 3:
		var st detour.Status
		closest := make([]float32, 3)
		r.Call("ClosestPointOnPolyBoundary", func() { st = q.ClosestPointOnPolyBoundary(ref, pos[:], closest) })
		bad("ClosestPointOnPolyBoundary", st)
	case 4:
		var hit detour.RaycastHit
		hit.Path = make([]detour.PolyRef, 8)
		hit.MaxPath = 8
		st := rayStale(r, q, ref, pos, end, f, &hit)
		bad("Raycast", st)
	case 5:
		var st detour.Status
		r.Call("InitSlicedFindPath", func() { st = q.InitSlicedFindPath(ref, ref, pos[:], end[:], f, 0) })
		bad("InitSlicedFindPath", st)
	}
	if q.IsValidPolyRef(ref, f) {
		r.Fail("stale-query", "the query object accepts stale reference 0x%x", ref)
	}
}

func rayStale(r *R, q *detour.NavMeshQuery, ref detour.PolyRef, pos, end [3]float32, f detour.QueryFilter, hit *detour.RaycastHit) (st detour.Status) {
	r.Call("Raycast", func() { st = q.Raycast(ref, pos[:], end[:], f, 0, hit, 0) })
	return
}

// probeRefs tries references made up from bits.
func (s *Stream) probeRefs(n int) {
	r, m := s.r, s.M
	for k := 0; k < n; k++ {
		var ref uint32
		locs := sortedLocs(s.Loaded)
		switch {
		case len(locs) > 0 && r.Chance(2, 3):
			in := s.Loaded[locs[r.Draw(len(locs))]]
			ref = uint32(in.PolyRef(r.Draw(in.V.NPolys())))
			for b := 1 + r.Draw(2); b > 0; b-- {
				ref ^= 1 << uint(r.Draw(32))
			}
		case r.Chance(1, 2):
			// any slot, any generation
			ref = uint32(r.Draw(1<<16))<<(s.TileBits+s.PolyBits) | uint32(r.Draw(1<<s.TileBits))<<s.PolyBits | uint32(r.Draw(4))
		default:
			ref = uint32(r.Draw(1<<16))<<16 | uint32(r.Draw(1<<16))
		}
		_, ok := s.Resolve(detour.PolyRef(ref))
		if s.TileBits+s.PolyBits+s.SaltBits < 32 && ref>>(s.TileBits+s.PolyBits+s.SaltBits) != 0 {
			continue // bits outside the identifier layout are never issued
		}
		var got bool
		r.Call("IsValidPolyRef", func() { got = m.IsValidPolyRef(detour.PolyRef(ref)) })
		if got != ok {
			r.Fail("made-up-ref", "reference 0x%x: validity is %v, expected %v (%s)", ref, got, ok, s.RefName(detour.PolyRef(ref)))
		}
		var tt *detour.MeshTile
		var pp *detour.Poly
		var st detour.Status
		r.Call("TileAndPolyByRef", func() { st = m.TileAndPolyByRef(detour.PolyRef(ref), &tt, &pp) })
		if detour.StatusFailed(st) == ok {
			r.Fail("made-up-ref", "reference 0x%x: TileAndPolyByRef returned 0x%x, validity is %v", ref, uint32(st), ok)
		}
	}
}

// checkValid asks whether loaded polygons are valid for a filter.
func (s *Stream) checkValid(q *detour.NavMeshQuery) {
	r := s.r
	id, ok := s.randPoly()
	if !ok {
		return
	}
	if r.Chance(1, 3) {
		s.mutateFlags()
	}
	f := drawFilter(r)
	var qf detour.QueryFilter = f
	if r.Chance(1, 2) {
		qf = f.std()
	}
	ref := s.Ref(id)
	var tile *detour.MeshTile
	var poly *detour.Poly
	if detour.StatusFailed(s.M.TileAndPolyByRef(ref, &tile, &poly)) {
		r.Fail("live-rejected", "reference 0x%x of loaded polygon %v is rejected", ref, id)
	}
	var got bool
	r.Call("IsValidPolyRef", func() { got = q.IsValidPolyRef(ref, qf) })
	if want := f.passes(poly); got != want {
		r.Fail("valid-for-filter", "polygon %v with flags 0x%x is valid for a filter including 0x%x and excluding 0x%x: %v", id, poly.Flags, f.Inc, f.Exc, got)
	} else if !want {
		r.Probe("not-valid-for-filter")
	}
}

func runP05(r *R) {
	c := defaultCfg()
	c.MaxNX, c.MaxNY, c.MaxK, c.MaxVariants = 2, 2, 3, 2
	w := genWorld(r, c)
	maxTiles := r.Range(1, len(w.Locs)+1)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	var q *detour.NavMeshQuery
	var st detour.Status
	r.Call("NewNavMeshQuery", func() { st, q = detour.NewNavMeshQuery(s.M, 64) })
	if detour.StatusFailed(st) {
		r.Fail("query-init", "NewNavMeshQuery failed: 0x%x", uint32(st))
	}
	n := 3 + r.Draw(25)
	fast := s.SaltBits <= 8 && r.Chance(1, 8)
	for i := 0; i < n; i++ {
		s.Step()
		s.checkRefs(q)
		s.checkValid(q)
		s.probeRefs(6)
		r.State(s.StateKey())
	}
	if !fast && r.Chance(1, 4) && len(s.Loaded) < maxTiles && len(s.FreeLocs()) > 0 {
		// a tile restored at a reference just before the counter's end, as
		// from a mesh saved late in its life
		slot := uint32(r.Draw(maxTiles))
		if s.Slots[slot] == nil {
			free := s.FreeLocs()
			loc := free[r.Draw(len(free))]
			salt := uint32(1)<<s.SaltBits - 1 - uint32(r.Draw(3))
			s.SetBack[slot] = true
			s.Add(w.Var[loc][0], detour.TileRef(salt<<(s.TileBits+s.PolyBits)|slot<<s.PolyBits))
			for i := r.Range(2, 10); i > 0; i-- {
				s.checkRefs(q)
				if s.Loaded[loc] != nil {
					s.Remove(loc)
				} else {
					s.Add(w.Var[loc][0], 0)
				}
			}
			s.checkRefs(q)
			r.Probe("restored-late-generation")
		}
	}
	if fast {
		// run one slot's counter through its whole cycle and beyond
		locs := w.Locs
		l := locs[r.Draw(len(locs))]
		if s.Loaded[l] == nil && len(s.Loaded) == maxTiles {
			l = sortedLocs(s.Loaded)[0]
		}
		laps := 500 + r.Draw(200)
		for i := 0; i < laps; i++ {
			if s.Loaded[l] != nil {
				s.Remove(l)
			} else {
				s.Add(w.Var[l][0], 0)
			}
			if i%64 == 0 || i > 490 && i < 520 {
				s.checkRefs(q)
			}
		}
		r.Probe("generation-counter-cycled")
		s.checkRefs(q)
	}
	if r.Chance(1, 4) { // references survive saving and loading
		data := save(r, s.M)
		m, err := decode(r, drawReader(r, data))
		if err != nil {
			r.Fail("load-refused", "%v", err)
		}
		s.M = m
		r.Call("NewNavMeshQuery", func() { st, q = detour.NewNavMeshQuery(s.M, 64) })
		for _, loc := range sortedLocs(s.Loaded) {
			in := s.Loaded[loc]
			for i := 0; i < in.V.NPolys(); i++ {
				if !m.IsValidPolyRef(in.PolyRef(i)) {
					r.Fail("ref-lost-on-load", "reference 0x%x of %v#%d is not valid in the loaded mesh", in.PolyRef(i), loc, i)
				}
			}
		}
		s.Slots = map[uint32]*Inst{}
		for _, in := range s.Loaded {
			s.Slots[in.Slot] = in
		}
		// Generation counters of empty slots start afresh in the loaded mesh:
		// what was retired there before is no longer protected.
		s.Retired = nil
		s.checkRefs(q)
		r.Probe("references-after-load")
	}
	r.NonTrivial()
}

func init() {
	register(&Prop{ID: "P04", Run: runP04, Quick: 90000, Full: 400000,
		Rule: "A random sequence of additions, removals and restorations is mixed with operations that must be refused (occupied location, no slot, slot in use or out of range, foreign or truncated data, too many polygons, stale or empty references); after drawn steps every lookup of every location is compared with a map, and refused operations must leave the whole mesh unchanged. One run in sixteen draws mesh parameters or a single-tile set-up instead.",
		Real: commonReal, Stub: commonStub})
	register(&Prop{ID: "P05", Run: runP05, Quick: 150000, Full: 250000,
		Rule: "Tiles come and go at the same slots (generation counters as small as the layout allows are run through their full cycle); after every step all references of loaded tiles, a sample of retired ones, and made-up bit patterns are resolved through every lookup and query.",
		Real: commonReal, Stub: commonStub})
}
