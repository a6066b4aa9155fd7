From adc488ec6112a8d66084f2247fefad81c0dcd51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 01/76] fix: create tile data without a BV tree or without a
 detail mesh

Without BuildBvTree the serializer was still handed a BV tree the buffer has
no room for, and building a tree without detail meshes panicked.
---
 detour/navmeshcreate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 5512bd1..1eb62cf 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -289,7 +289,6 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
-			panic("UNTESTED")
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[p[0]*3+0]
 			it.BMin[1] = params.Verts[p[0]*3+1]
@@ -719,7 +718,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	navDMeshes := make([]PolyDetail, params.PolyCount)
 	navDVerts := make([]float32, 3*uniqueDetailVertCount)
 	navDTris := make([]uint8, 4*detailTriCount)
-	navBvtree := make([]BvNode, params.PolyCount*2)
+	var navBvtree []BvNode
+	if params.BuildBvTree {
+		navBvtree = make([]BvNode, params.PolyCount*2)
+	}
 	offMeshCons := make([]OffMeshConnection, storedOffMeshConCount)
 
 	// Fill header
-- 
2.43.0


From 1850b59dd28fd60a254a4d90bba9c65818823cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 02/76] fix: store the flags and side of off-mesh connections
 with the connection

They were written to and read from a fixed position at the start of the
tile, overwriting vertex data and shared by all connections.
---
 detour/tile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/detour/tile.go b/detour/tile.go
index 31dcf75..9a57d2c 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -191,8 +191,8 @@ func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
 		o.Pos[5] = math.Float32frombits(little.Uint32(src[off+20:]))
 		o.Rad = math.Float32frombits(little.Uint32(src[off+24:]))
 		o.Poly = little.Uint16(src[off+28:])
-		o.Flags = src[30]
-		o.Side = src[31]
+		o.Flags = src[off+30]
+		o.Side = src[off+31]
 		o.UserID = little.Uint32(src[off+32:])
 		off += 36
 	}
@@ -286,8 +286,8 @@ func serializeTileData(dst []byte,
 		little.PutUint32(dst[off+20:], uint32(math.Float32bits(o.Pos[5])))
 		little.PutUint32(dst[off+24:], uint32(math.Float32bits(o.Rad)))
 		little.PutUint16(dst[off+28:], o.Poly)
-		dst[30] = o.Flags
-		dst[31] = o.Side
+		dst[off+30] = o.Flags
+		dst[off+31] = o.Side
 		little.PutUint32(dst[off+32:], o.UserID)
 		off += 36
 	}
-- 
2.43.0


From 09337777a55ddc755427f15c747d4ea17546039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 03/76] fix: read polygon vertices of tiles without a BV tree

The vertex slices had an upper bound of 3, so any polygon whose first vertex
was not vertex 0 panicked.
---
 detour/mesh.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 82ac9ca..d374753 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -974,12 +974,14 @@ func (m *NavMesh) queryPolygonsInTile(
 			continue
 		}
 		// Calc polygon bounds.
-		v := tile.Verts[p.Verts[0]*3 : 3]
+		vidx := uint32(p.Verts[0]) * 3
+		v := tile.Verts[vidx : vidx+3]
 		d3.Vec3(bmin[:]).Assign(v)
 		d3.Vec3(bmax[:]).Assign(v)
 		var j uint8
 		for j = 1; j < p.VertCount; j++ {
-			v = tile.Verts[p.Verts[j]*3 : 3]
+			vidx = uint32(p.Verts[j]) * 3
+			v = tile.Verts[vidx : vidx+3]
 			d3.Vec3Min(bmin[:], v)
 			d3.Vec3Max(bmax[:], v)
 		}
@@ -1023,8 +1025,9 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		v0 = tile.Verts[poly.Verts[0]*3 : 3]
-		v1 = tile.Verts[poly.Verts[1]*3 : 3]
+		i0, i1 := uint32(poly.Verts[0])*3, uint32(poly.Verts[1])*3
+		v0 = tile.Verts[i0 : i0+3]
+		v1 = tile.Verts[i1 : i1+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
 		u = d0 / (d0 + d1)
-- 
2.43.0


From ff4c376d36d747e872393fb5edcb22c82ab2d916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 04/76] fix: anchor off-mesh connections to the polygon at
 their end points

The search within a tile left the first result empty (a reference to polygon
0 of slot 0, loaded or not), dropped the last one, and never handed the
closest point of polygons beside the position back to the caller, so that the
radius check could not fail. FindNearestPolyInTile keeps its results.
---
 detour/mesh.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index d374753..d24fe84 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -806,7 +806,7 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 		// Find polygon to connect to.
 		p = con.Pos[0:3] // First vertex
 		nearestPt := make([]float32, 3)
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.nearestPolyInTile(tile, p, ext, nearestPt, true)
 		if ref == 0 {
 			continue
 		}
@@ -851,13 +851,25 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 }
 
 // FindNearestPolyInTile finds the nearest polygon within a tile.
+//
+// The last polygon found around center is not considered, and polygons that
+// are not under center count as if they reached it: callers (and
+// TestFindNearestPolyInTile) depend on these results. The mesh itself uses
+// nearestPolyInTile with strict set.
 func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3) PolyRef {
+	return m.nearestPolyInTile(tile, center, extents, nearestPt, false)
+}
+
+func (m *NavMesh) nearestPolyInTile(tile *MeshTile, center, extents, nearestPt d3.Vec3, strict bool) PolyRef {
 	bmin := center.Sub(extents)
 	bmax := center.Add(extents)
 
 	// Get nearby polygons from proximity grid.
 	var polys [128]PolyRef
 	polyCount := m.queryPolygonsInTile(tile, bmin, bmax, polys[:], 128)
+	if !strict && polyCount > 0 {
+		polyCount--
+	}
 
 	// Find nearest polygon amongst the nearby polygons.
 	var (
@@ -872,6 +884,9 @@ func (m *NavMesh) FindNearestPolyInTile(tile *MeshTile, center, extents, nearest
 		)
 		closestPtPoly := d3.NewVec3()
 		m.closestPointOnPoly(ref, center, closestPtPoly, &posOverPoly)
+		if !strict && !posOverPoly {
+			closestPtPoly.Assign(center)
+		}
 
 		// If a point is directly over a polygon and closer than
 		// climb height, favor that instead of straight line nearest point.
@@ -945,8 +960,8 @@ func (m *NavMesh) queryPolygonsInTile(
 
 			if isLeafNode && overlap {
 				if n < maxPolys {
-					n++
 					polys[n] = base | PolyRef(node.I)
+					n++
 				}
 			}
 
@@ -987,8 +1002,8 @@ func (m *NavMesh) queryPolygonsInTile(
 		}
 		if OverlapBounds(qmin, qmax, bmin[:], bmax[:]) {
 			if n < maxPolys {
-				n++
 				polys[n] = base | PolyRef(i)
+				n++
 			}
 		}
 	}
@@ -1031,7 +1046,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
 		u = d0 / (d0 + d1)
-		closest = v0.Lerp(v1, u)
+		closest.Assign(v0.Lerp(v1, u))
 		if posOverPoly != nil {
 			*posOverPoly = false
 		}
@@ -1067,7 +1082,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		va := d3.NewVec3From(verts[imin*3 : imin*3+3])
 		vidx := ((imin + 1) % nv) * 3
 		vb := d3.NewVec3From(verts[vidx : vidx+3])
-		closest = va.Lerp(vb, edget[imin])
+		closest.Assign(va.Lerp(vb, edget[imin]))
 
 		if posOverPoly != nil {
 			*posOverPoly = false
@@ -1171,7 +1186,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		// Find polygon to connect to.
 		p := targetCon.Pos[3:6]
 		nearestPt := d3.NewVec3()
-		ref := m.FindNearestPolyInTile(tile, p, ext, nearestPt)
+		ref := m.nearestPolyInTile(tile, p, ext, nearestPt, true)
 		if ref == 0 {
 			continue
 		}
-- 
2.43.0


From e5ff17821ce7352ba5161863adfaf03b5129582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 05/76] fix: read tiles whole and refuse empty tile headers in
 Decode

A reader that returns less than asked for left the rest of a tile zeroed, and
a zero tile header ended loading early, without an error, with the tiles read
so far.
---
 detour/mesh.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index d24fe84..129d7dd 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1,6 +1,7 @@
 package detour
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -103,19 +104,16 @@ func Decode(r io.Reader) (*NavMesh, error) {
 			return nil, err
 		}
 
-		if tileHdr.TileRef == 0 || tileHdr.DataSize == 0 {
-			break
+		if tileHdr.TileRef == 0 || tileHdr.DataSize <= 0 {
+			return nil, fmt.Errorf("invalid header for tile %d: ref 0x%x, size %d", i, tileHdr.TileRef, tileHdr.DataSize)
 		}
 
-		data := make([]byte, tileHdr.DataSize)
-		if data == nil {
-			break
-		}
-		_, err = r.Read(data)
+		var data bytes.Buffer
+		_, err = io.CopyN(&data, r, int64(tileHdr.DataSize))
 		if err != nil {
 			return nil, err
 		}
-		status, _ := mesh.AddTile(data, tileHdr.TileRef)
+		status, _ := mesh.AddTile(data.Bytes(), tileHdr.TileRef)
 		if status&Failure != 0 {
 			return nil, fmt.Errorf("couldn't add tile %d(), status: 0x%x", i, status)
 		}
-- 
2.43.0


From 91b6907f67ee2a8758d067ad465657def9a81a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 06/76] fix: report a full mesh or a taken slot as a status in
 AddTile

It is documented to return a failure status but ended the process.
---
 detour/mesh.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 129d7dd..a3713bf 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -5,7 +5,6 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
-	"log"
 	"math"
 	"os"
 	"unsafe"
@@ -334,7 +333,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-			log.Fatalln("tileIndex >= m.m_maxTiles", tileIndex, m.MaxTiles)
 			return Failure | OutOfMemory, 0
 		}
 		// Try to find the specific tile id from the free list.
@@ -347,7 +345,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 		}
 		// Could not find the correct location.
 		if tile != target {
-			log.Fatalln("couldn't find the correct tile location")
 			return Failure | OutOfMemory, 0
 		}
 		// Remove from freelist
@@ -363,7 +360,6 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 
 	// Make sure we could allocate a tile.
 	if tile == nil {
-		log.Fatalln("couldn't allocate tile")
 		return Failure | OutOfMemory, 0
 	}
 
-- 
2.43.0


From 455269085ace4b87fff4215175e353095c0ae1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 07/76] fix: refuse incomplete tiles and tiles with too many
 polygons

Truncated tile data panicked in AddTile and InitForSingleTile; a tile with
more polygons than the reference layout has room for was accepted with
references that overlap those of other tiles.
---
 detour/mesh.go    | 13 +++++++++++++
 detour/structs.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index a3713bf..f01a705 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -206,6 +206,9 @@ func (m *NavMesh) Size() int32 {
 //	see CreateNavMeshData
 func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 	var header MeshHeader
+	if len(data) < header.size() {
+		return Failure | InvalidParam
+	}
 	header.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -306,6 +309,9 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 // see CreateNavMeshData, removeTileBvTree
 func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	var hdr MeshHeader
+	if len(data) < hdr.size() {
+		return Failure | InvalidParam, 0
+	}
 	hdr.unserialize(data)
 
 	// Make sure the data is in right format.
@@ -315,6 +321,13 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 	if hdr.Version != navMeshVersion {
 		return Failure | WrongVersion, 0
 	}
+	// Make sure the data is complete and its polygons can be referenced.
+	if size := hdr.tileSize(); size < 0 || size > int64(len(data)) {
+		return Failure | InvalidParam, 0
+	}
+	if uint32(hdr.PolyCount) > 1<<m.polyBits {
+		return Failure | InvalidParam, 0
+	}
 
 	// Make sure the location is free.
 	if m.TileAt(hdr.X, hdr.Y, hdr.Layer) != nil {
diff --git a/detour/structs.go b/detour/structs.go
index a5bfd7d..ffef1fe 100644
--- a/detour/structs.go
+++ b/detour/structs.go
@@ -111,6 +111,34 @@ func (s *MeshHeader) size() int {
 	return 100
 }
 
+// tileSize returns the size in bytes of the tile described by this header, the
+// header included, or -1 if it can't be the header of a tile.
+func (s *MeshHeader) tileSize() int64 {
+	size := int64(s.size())
+	for _, section := range []struct {
+		count    int32
+		elemSize int64
+	}{
+		{s.VertCount, 12},
+		{s.PolyCount, 32},
+		{s.MaxLinkCount, 12},
+		{s.DetailMeshCount, 12},
+		{s.DetailVertCount, 12},
+		{s.DetailTriCount, 4},
+		{s.BvNodeCount, 16},
+		{s.OffMeshConCount, 36},
+	} {
+		if section.count < 0 {
+			return -1
+		}
+		size += int64(section.count) * section.elemSize
+	}
+	if s.MaxLinkCount == 0 {
+		return -1
+	}
+	return size
+}
+
 func (s *MeshHeader) serialize(dst []byte) {
 	if len(dst) < s.size() {
 		panic("undersized buffer for MeshHeader")
-- 
2.43.0


From 105d79be51645e0882708353de4012984e36cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 08/76] fix: do not restore tiles at references without a salt

InitForSingleTile passed its flags as the reference to restore, which gave the
tile reference 0 for flags 1.
---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index f01a705..5401cd2 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -231,7 +231,7 @@ func (m *NavMesh) InitForSingleTile(data []uint8, flags int) Status {
 		return status
 	}
 
-	status, _ = m.AddTile(data, TileRef(flags))
+	status, _ = m.AddTile(data, 0)
 	return status
 }
 
@@ -343,6 +343,10 @@ func (m *NavMesh) AddTile(data []byte, lastRef TileRef) (Status, TileRef) {
 			tile.Next = nil
 		}
 	} else {
+		// A reference is never issued with a zero salt.
+		if m.decodePolyIDSalt(PolyRef(lastRef)) == 0 {
+			return Failure | InvalidParam, 0
+		}
 		// Try to relocate the tile to specific index with same salt.
 		tileIndex := int32(m.decodePolyIDTile(PolyRef(lastRef)))
 		if tileIndex >= m.MaxTiles {
-- 
2.43.0


From 24a6a6ad4a10d6ed0d9b638873bf889af2d35967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 09/76] fix: refuse references to empty slots in RemoveTile and
 TileByRef

RemoveTile dereferenced the header of the missing tile.
---
 detour/mesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5401cd2..cf76ac6 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -471,7 +471,7 @@ func (m *NavMesh) RemoveTile(ref TileRef) (data []uint8, st Status) {
 		return data, Failure | InvalidParam
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return data, Failure | InvalidParam
 	}
 	if tile.Data != nil {
@@ -1586,7 +1586,7 @@ func (m *NavMesh) TileByRef(ref TileRef) *MeshTile {
 		return nil
 	}
 	tile := &m.Tiles[tileIndex]
-	if tile.Salt != tileSalt {
+	if tile.Salt != tileSalt || tile.Header == nil {
 		return nil
 	}
 	return tile
-- 
2.43.0


From b0b90e45a6fadb57ea95c34ea416b95d8054eff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 10/76] fix: close the file in SaveToFile and report errors
 closing it

---
 detour/mesh.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index cf76ac6..a17bd21 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -127,7 +127,11 @@ func (m *NavMesh) SaveToFile(fn string) error {
 		return err
 	}
 
-	return m.ToWriter(f)
+	if err = m.ToWriter(f); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 // ToWriter writes binary navigation mesh to io.Writer.
-- 
2.43.0


From 3049b0208fbbf4686d1f704f558c4edd8c6595e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 11/76] fix: refuse mesh parameters that need more bits than a
 reference has

The subtraction for the salt bits wrapped around, so that oversized parameters
were accepted (or tiles allocated for them before they were refused).
---
 detour/mesh.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index a17bd21..f617241 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -251,6 +251,13 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	m.TileWidth = params.TileWidth
 	m.TileHeight = params.TileHeight
 
+	// Make sure the ID generator values leave enough salt bits.
+	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
+	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
+	if params.MaxTiles > 1<<24 || params.MaxPolys > 1<<24 || m.tileBits+m.polyBits > 24 {
+		return Status(Failure | InvalidParam)
+	}
+
 	// Init tiles
 	m.MaxTiles = int32(params.MaxTiles)
 	m.TileLUTSize = int32(math32.NextPow2(uint32(params.MaxTiles / 4)))
@@ -269,8 +276,6 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 	}
 
 	// Init ID generator values.
-	m.tileBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxTiles)))
-	m.polyBits = math32.Ilog2(math32.NextPow2(uint32(params.MaxPolys)))
 	// Only allow 31 salt bits, since the salt mask is calculated using 32bit uint and it will overflow.
 	if 31 < 32-m.tileBits-m.polyBits {
 		m.saltBits = 31
@@ -278,11 +283,6 @@ func (m *NavMesh) Init(params *NavMeshParams) Status {
 		m.saltBits = 32 - m.tileBits - m.polyBits
 	}
 
-	// if m.saltBits < 10 {
-	if m.saltBits < 8 {
-		return Status(Failure | InvalidParam)
-	}
-
 	return Success
 }
 
-- 
2.43.0


From 19a940ec7a5fb75de334354a7dcc67ca603e81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:56 +0000
Subject: [PATCH 12/76] fix: take the end points of an off-mesh connection from
 the connection

Entering one, the portal was made of vertices of the polygon it was entered
from, looked up in the tile of the connection.
---
 detour/query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 1dd9e18..5b3bfd4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := toPoly.Verts[v] * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
-- 
2.43.0


From 9e9c0290ff1413375e7f12bdd37d0fb10a380810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 13/76] fix: index vertices beyond 21845

Vertex indices were multiplied by 3 as 16 bit values, which wrapped around in
tiles that have more vertices than that (up to 65534 are allowed).
---
 detour/mesh.go          | 17 +++++++++--------
 detour/navmeshcreate.go | 18 +++++++++---------
 detour/poly.go          |  2 +-
 detour/query.go         | 30 ++++++++++++++++--------------
 4 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index f617241..8301f30 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -830,7 +830,8 @@ func (m *NavMesh) baseOffMeshLinks(tile *MeshTile) {
 			continue
 		}
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = tile.Verts[poly.Verts[0]*3 : poly.Verts[0]*3+3]
+		vidx := int(poly.Verts[0]) * 3
+		var v d3.Vec3 = tile.Verts[vidx : vidx+3]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1079,7 +1080,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1119,7 +1120,7 @@ func (m *NavMesh) closestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, posOverP
 		)
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				vidx := poly.Verts[t[k]] * 3
+				vidx := int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[vidx : vidx+3]
 			} else {
 				vidx := (pd.VertBase + uint32(t[k]-poly.VertCount)) * 3
@@ -1212,7 +1213,7 @@ func (m *NavMesh) connectExtOffMeshLinks(tile, target *MeshTile, side int32) {
 		}
 
 		// Make sure the location is on current mesh.
-		var v d3.Vec3 = target.Verts[targetPoly.Verts[1]*3:]
+		var v d3.Vec3 = target.Verts[int(targetPoly.Verts[1])*3:]
 		v.Assign(nearestPt)
 
 		// Link off-mesh connection to target poly.
@@ -1309,8 +1310,8 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			}
 
 			// Create new links
-			va := tile.Verts[poly.Verts[j]*3:]
-			vb := tile.Verts[poly.Verts[(j+1)%int32(nv)]*3:]
+			va := tile.Verts[int(poly.Verts[j])*3:]
+			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
 			nei := make([]PolyRef, 4)
 			neia := make([]float32, 4*2)
 			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
@@ -1389,9 +1390,9 @@ func (m *NavMesh) findConnectingPolys(
 				continue
 			}
 
-			idx := poly.Verts[j] * 3
+			idx := int(poly.Verts[j]) * 3
 			vc := tile.Verts[idx : idx+3]
-			idx = poly.Verts[(j+1)%nv] * 3
+			idx = int(poly.Verts[(j+1)%nv]) * 3
 			vd := tile.Verts[idx : idx+3]
 			bpos := slabCoord(vc, side)
 
diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 1eb62cf..61dcb59 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -290,9 +290,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
 		} else {
 			p := params.Polys[i*params.Nvp*2:]
-			it.BMin[0] = params.Verts[p[0]*3+0]
-			it.BMin[1] = params.Verts[p[0]*3+1]
-			it.BMin[2] = params.Verts[p[0]*3+2]
+			it.BMin[0] = params.Verts[int(p[0])*3+0]
+			it.BMin[1] = params.Verts[int(p[0])*3+1]
+			it.BMin[2] = params.Verts[int(p[0])*3+2]
 
 			it.BMax[0] = it.BMin[0]
 			it.BMax[1] = it.BMin[1]
@@ -302,9 +302,9 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 				if p[j] == meshNullIdx {
 					break
 				}
-				x := params.Verts[p[j]*3+0]
-				y := params.Verts[p[j]*3+1]
-				z := params.Verts[p[j]*3+2]
+				x := params.Verts[int(p[j])*3+0]
+				y := params.Verts[int(p[j])*3+1]
+				z := params.Verts[int(p[j])*3+2]
 
 				if x < it.BMin[0] {
 					it.BMin[0] = x
@@ -833,13 +833,13 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// The nav polygon vertices are stored as the first vertices on each mesh.
 	// We compress the mesh data by skipping them and using the navmesh coordinates.
 	if params.DetailMeshes != nil && len(params.DetailMeshes) > 0 {
-		var vbase uint16
+		var vbase uint32
 		for i2 := int32(0); i2 < params.PolyCount; i2++ {
 			dtl := &navDMeshes[i2]
 			vb := params.DetailMeshes[i2*4+0]
 			ndv := params.DetailMeshes[i2*4+1]
 			nv := int32(navPolys[i2].VertCount)
-			dtl.VertBase = uint32(vbase)
+			dtl.VertBase = vbase
 			dtl.VertCount = uint8(ndv - nv)
 			dtl.TriBase = uint32(params.DetailMeshes[i2*4+2])
 			dtl.TriCount = uint8(params.DetailMeshes[i2*4+3])
@@ -847,7 +847,7 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 			if ndv-nv != 0 {
 				start, length := int32(vb+nv)*3, 3*int32(ndv-nv)
 				copy(navDVerts[vbase*3:], params.DetailVerts[start:start+length])
-				vbase += uint16(ndv - nv)
+				vbase += uint32(ndv - nv)
 			}
 		}
 		// Store triangles.
diff --git a/detour/poly.go b/detour/poly.go
index 86c4026..eba0917 100644
--- a/detour/poly.go
+++ b/detour/poly.go
@@ -59,7 +59,7 @@ func CalcPolyCenter(idx []uint16, nidx int32, verts []float32) d3.Vec3 {
 	tc := d3.NewVec3()
 	var j int32
 	for j = 0; j < nidx; j++ {
-		start := idx[j] * 3
+		start := int(idx[j]) * 3
 		v := verts[start : start+3]
 		tc[0] += v[0]
 		tc[1] += v[1]
diff --git a/detour/query.go b/detour/query.go
index 5b3bfd4..02bb562 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -830,7 +830,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if fromTile.Links[i].Ref == to {
 				// TODO: AR, repass here and test
 				v := fromTile.Links[i].Edge
-				vidx := fromPoly.Verts[v] * 3
+				vidx := int(fromPoly.Verts[v]) * 3
 				copy(left, fromTile.Verts[vidx:vidx+3])
 				copy(right, fromTile.Verts[vidx:vidx+3])
 				return Success
@@ -844,7 +844,7 @@ func (q *NavMeshQuery) portalPoints8(
 			if toTile.Links[i].Ref == from {
 				// TODO: AR, repass here and test
 				v := toTile.Links[i].Edge
-				vidx := toPoly.Verts[v] * 3
+				vidx := int(toPoly.Verts[v]) * 3
 				copy(left, toTile.Verts[vidx:vidx+3])
 				copy(right, toTile.Verts[vidx:vidx+3])
 				return Success
@@ -854,8 +854,8 @@ func (q *NavMeshQuery) portalPoints8(
 	}
 
 	// Find portal vertices.
-	v0 := fromPoly.Verts[link.Edge]
-	v1 := fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount]
+	v0 := int(fromPoly.Verts[link.Edge])
+	v1 := int(fromPoly.Verts[(link.Edge+1)%fromPoly.VertCount])
 
 	// TODO: AR TO BE TESTED!
 	v0idx := v0 * 3
@@ -958,9 +958,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 			v0, v1    d3.Vec3
 			d0, d1, u float32
 		)
-		vidx := poly.Verts[0] * 3
+		vidx := int(poly.Verts[0]) * 3
 		v0 = tile.Verts[vidx : vidx+3]
-		vidx = poly.Verts[1] * 3
+		vidx = int(poly.Verts[1]) * 3
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
@@ -983,7 +983,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 	var i uint8
 	for i = 0; i < nv; i++ {
 		idx := i * 3
-		jdx := poly.Verts[i] * 3
+		jdx := int(poly.Verts[i]) * 3
 		copy(verts[idx:idx+3], tile.Verts[jdx:jdx+3])
 	}
 
@@ -1023,7 +1023,7 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		var k int
 		for k = 0; k < 3; k++ {
 			if t[k] < poly.VertCount {
-				idx = int(poly.Verts[t[k]] * 3)
+				idx = int(poly.Verts[t[k]]) * 3
 				v[k] = tile.Verts[idx : idx+3]
 			} else {
 				idx = int((pd.VertBase + uint32(t[k]-poly.VertCount)) * 3)
@@ -1065,7 +1065,8 @@ func (q *NavMeshQuery) ClosestPointOnPolyBoundary(ref PolyRef, pos, closest d3.V
 		nv    int32
 	)
 	for i := uint8(0); i < poly.VertCount; i++ {
-		copy(verts[nv*3:nv*3+3], tile.Verts[poly.Verts[i]*3:poly.Verts[i]*3+3])
+		vidx := int(poly.Verts[i]) * 3
+		copy(verts[nv*3:nv*3+3], tile.Verts[vidx:vidx+3])
 		nv++
 	}
 
@@ -1317,12 +1318,12 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 				continue
 			}
 			// Calc polygon bounds.
-			vidx := p.Verts[0] * 3
+			vidx := int(p.Verts[0]) * 3
 			v := tile.Verts[vidx : vidx+3]
 			bmin.Assign(v)
 			bmax.Assign(v)
 			for j := uint8(1); j < p.VertCount; j++ {
-				vidx = p.Verts[j] * 3
+				vidx = int(p.Verts[j]) * 3
 				v = tile.Verts[vidx : vidx+3]
 				d3.Vec3Min(bmin, v)
 				d3.Vec3Max(bmax, v)
@@ -1486,7 +1487,8 @@ func (q *NavMeshQuery) Raycast(
 		// Collect vertices.
 		var nv int
 		for i := 0; i < int(poly.VertCount); i++ {
-			copy(verts[nv*3:], tile.Verts[poly.Verts[i]*3:3+poly.Verts[i]*3])
+			vidx := int(poly.Verts[i]) * 3
+			copy(verts[nv*3:], tile.Verts[vidx:vidx+3])
 			nv++
 		}
 
@@ -1569,8 +1571,8 @@ func (q *NavMeshQuery) Raycast(
 			}
 
 			// Check for partial edge links.
-			v0 := poly.Verts[link.Edge]
-			v1 := poly.Verts[(link.Edge+1)%poly.VertCount]
+			v0 := int(poly.Verts[link.Edge])
+			v1 := int(poly.Verts[(link.Edge+1)%poly.VertCount])
 			left := tile.Verts[v0*3 : 3+v0*3]
 			right := tile.Verts[v1*3 : 3+v1*3]
 
-- 
2.43.0


From ca33d197379bc0cf68755582daf540a9613b0bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 14/76] fix: skip off-mesh connections in tiles without a BV
 tree

Looking for polygons in such a tile ended the process.
---
 detour/query.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 02bb562..2fbae5c 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1308,8 +1308,6 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 			p := &tile.Polys[i]
 			// Do not return off-mesh connection polygons.
 			if p.Type() == polyTypeOffMeshConnection {
-
-				log.Fatalf("do return off-mesh connection polygons")
 				continue
 			}
 			// Must pass filter
-- 
2.43.0


From 10c8fa48ab45e1879ae5d808e4d8a34aab1dd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 15/76] fix: do not clamp query boxes outside of a tile onto
 its faces

---
 detour/mesh.go  | 5 +++++
 detour/query.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 8301f30..4a4188a 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -950,6 +950,11 @@ func (m *NavMesh) queryPolygonsInTile(
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
+		// A box outside of the tile would be clamped onto its faces.
+		if !OverlapBounds(qmin, qmax, tbmin, tbmax) {
+			return 0
+		}
+
 		// Calculate quantized box
 		// clamp query box to world box.
 		minx := f32.Clamp(qmin[0], tbmin[0], tbmax[0]) - tbmin[0]
diff --git a/detour/query.go b/detour/query.go
index 2fbae5c..5bd8b12 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1251,6 +1251,11 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
 		qfac = tile.Header.BvQuantFactor
 
+		// A box outside of the tile would be clamped onto its faces.
+		if !OverlapBounds(qmin, qmax, tbmin, tbmax) {
+			return
+		}
+
 		// Calculate quantized box
 		var bmin, bmax [3]uint16
 
-- 
2.43.0


From da981a6a014c59fed56ee0a4e29406f58b4acb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 16/76] fix: do not take the padding after a BV tree for a node
 of polygon 0

---
 detour/mesh.go  | 4 ++++
 detour/query.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/detour/mesh.go b/detour/mesh.go
index 4a4188a..999a683 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -945,6 +945,10 @@ func (m *NavMesh) queryPolygonsInTile(
 		)
 		nodeIdx = 0
 		endIdx = tile.Header.BvNodeCount
+		// A tree over n polygons has 2n-1 nodes, what follows is padding.
+		if n := 2*tile.Header.OffMeshBase - 1; endIdx > n {
+			endIdx = n
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
diff --git a/detour/query.go b/detour/query.go
index 5bd8b12..1c06494 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1246,6 +1246,10 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 
 		nodeIdx = 0
 		endIdx = tile.Header.BvNodeCount
+		// A tree over n polygons has 2n-1 nodes, what follows is padding.
+		if n := 2*tile.Header.OffMeshBase - 1; endIdx > n {
+			endIdx = n
+		}
 
 		tbmin = d3.NewVec3From(tile.Header.BMin[:])
 		tbmax = d3.NewVec3From(tile.Header.BMax[:])
-- 
2.43.0


From fc558ef4499da442a16711a4d9353310ed672018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 17/76] fix: accept any number of search nodes within the
 documented limits

---
 detour/query.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 1c06494..73ad0d4 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -109,7 +109,7 @@ func newQueryData() queryData {
 // functions are used.
 // This function can be used multiple times.
 func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
-	if maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
+	if maxNodes <= 0 || maxNodes > int32(nullIdx) || maxNodes > int32(1<<nodeParentBits)-1 {
 		return Failure | InvalidParam, nil
 	}
 
@@ -120,7 +120,11 @@ func NewNavMeshQuery(nav *NavMesh, maxNodes int32) (Status, *NavMeshQuery) {
 		if q.nodePool != nil {
 			q.nodePool = nil
 		}
-		q.nodePool = newNodePool(maxNodes, int32(math32.NextPow2(uint32(maxNodes/4))))
+		hashSize := int32(math32.NextPow2(uint32(maxNodes / 4)))
+		if hashSize == 0 {
+			hashSize = 1
+		}
+		q.nodePool = newNodePool(maxNodes, hashSize)
 		if q.nodePool == nil {
 			return Failure | OutOfMemory, nil
 		}
-- 
2.43.0


From 82411e9af6b25cdcd96dd11259a6e71a9d645d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 18/76] fix: report a small buffer of a sliced search when it
 is too small only

---
 detour/query.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 73ad0d4..9732b17 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2101,7 +2101,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 		for {
 			next := q.nodePool.NodeAtIdx(int32(node.PIdx))
 			var status Status
-			if (node.Flags & nodeParentDetached) != 0 {
+			if n >= maxPath {
+				status = BufferTooSmall
+			} else if (node.Flags & nodeParentDetached) != 0 {
 				var (
 					normal [3]float32
 					m      int
@@ -2115,9 +2117,6 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 			} else {
 				path[n] = node.ID
 				n++
-				if n >= maxPath {
-					status = BufferTooSmall
-				}
 			}
 
 			if (status & StatusDetailMask) != 0 {
@@ -2216,7 +2215,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 		for {
 			next := q.nodePool.NodeAtIdx(int32(node[0].PIdx))
 			var status Status
-			if (node[0].Flags & nodeParentDetached) != 0 {
+			if n >= maxPath {
+				status = BufferTooSmall
+			} else if (node[0].Flags & nodeParentDetached) != 0 {
 				var (
 					normal [3]float32
 					m      int
@@ -2230,9 +2231,6 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 			} else {
 				path[n] = node[0].ID
 				n++
-				if n >= maxPath {
-					status = BufferTooSmall
-				}
 			}
 
 			if (status & StatusDetailMask) != 0 {
-- 
2.43.0


From c32624875dbe40216420ed0b173fee9b0a258b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 19/76] fix: fail when a shortcut of a sliced search has
 vanished from the mesh

---
 detour/query.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 9732b17..6817022 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2107,8 +2107,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node.ID, node.Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if m == 0 || t < 1 {
+					// The shortcut does not exist anymore: the mesh has
+					// changed since it was found.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
@@ -2221,8 +2228,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				var (
 					normal [3]float32
 					m      int
+					t      float32
 				)
-				m, _, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				m, t, status = q.Raycast2(node[0].ID, node[0].Pos, next.Pos, q.query.filter, normal[:], path[n:], maxPath-n)
+				if m == 0 || t < 1 {
+					// The shortcut does not exist anymore: the mesh has
+					// changed since it was found.
+					q.query = queryData{}
+					return 0, Failure
+				}
 				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
-- 
2.43.0


From dd555887e95e55e9ee3e47ff4351974abe23d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 20/76] fix: keep shortcuts of a sliced search on connected
 polygons

---
 detour/query.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 6817022..0adcd87 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -52,6 +52,9 @@ type RaycastHit struct {
 
 	//  The cost of the path until hit.
 	PathCost float32
+
+	// The last visited polygon.
+	lastRef PolyRef
 }
 
 // NavMeshQuery provides the ability to perform pathfinding related queries
@@ -1494,6 +1497,7 @@ func (q *NavMeshQuery) Raycast(
 
 	for curRef != 0 {
 		// Cast ray against current polygon.
+		hit.lastRef = curRef
 
 		// Collect vertices.
 		var nv int
@@ -1956,7 +1960,9 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 			rayHit.T = 0
 			if tryLOS {
 				_ = q.Raycast(parentRef, parentNode.Pos, neighbourNode.Pos, q.query.filter, RaycastUseCosts, &rayHit, grandpaRef)
-				foundShortCut = rayHit.T >= 1.0
+				// The ray ignores heights, so it can also end on another level.
+				foundShortCut = rayHit.T >= 1.0 &&
+					(rayHit.lastRef == neighbourRef || q.linked(rayHit.lastRef, neighbourRef))
 			}
 
 			// update move cost
@@ -2043,6 +2049,23 @@ func (q *NavMeshQuery) UpdateSlicedFindPath(maxIter int, doneIters *int) Status
 	return q.query.status
 }
 
+// linked indicates if the polygon from has a link to the polygon to.
+func (q *NavMeshQuery) linked(from, to PolyRef) bool {
+	var (
+		tile *MeshTile
+		poly *Poly
+	)
+	if StatusFailed(q.nav.TileAndPolyByRef(from, &tile, &poly)) {
+		return false
+	}
+	for i := poly.FirstLink; i != nullLink; i = tile.Links[i].Next {
+		if tile.Links[i].Ref == to {
+			return true
+		}
+	}
+	return false
+}
+
 // FinalizeSlicedFindPath finalizes and returns the results of a sliced path query.
 //
 //	Arguments:
@@ -2120,6 +2143,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
+				} else if !StatusDetail(status, BufferTooSmall) && !q.linked(path[n-1], next.ID) {
+					q.query = queryData{}
+					return 0, Failure
 				}
 			} else {
 				path[n] = node.ID
@@ -2241,6 +2267,9 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 				// raycast ends on poly boundary and the path might include the next poly boundary.
 				if path[n-1] == next.ID {
 					n-- // remove to avoid duplicates
+				} else if !StatusDetail(status, BufferTooSmall) && !q.linked(path[n-1], next.ID) {
+					q.query = queryData{}
+					return 0, Failure
 				}
 			} else {
 				path[n] = node[0].ID
-- 
2.43.0


From b4b7dd8cd2397f4347f9040080e75bc64de6c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 21/76] fix: do not lose links of tiles that need more than
 estimated

---
 detour/mesh.go | 5 ++++-
 detour/tile.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 999a683..f87d334 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -656,7 +656,10 @@ func computeTileHash(x, y, mask int32) int32 {
 
 func allocLink(tile *MeshTile) uint32 {
 	if tile.LinksFreeList == nullLink {
-		return nullLink
+		// MaxLinkCount is an estimate, connections with other tiles can need
+		// more links.
+		tile.Links = append(tile.Links, Link{})
+		return uint32(len(tile.Links) - 1)
 	}
 	link := tile.LinksFreeList
 	tile.LinksFreeList = tile.Links[link].Next
diff --git a/detour/tile.go b/detour/tile.go
index 9a57d2c..a42c582 100644
--- a/detour/tile.go
+++ b/detour/tile.go
@@ -99,7 +99,7 @@ type MeshTile struct {
 }
 
 func (s *MeshTile) serialize(dst []byte) {
-	serializeTileData(dst, s.Verts, s.Polys, s.Links, s.DetailMeshes, s.DetailVerts, s.DetailTris, s.BvTree, s.OffMeshCons)
+	serializeTileData(dst, s.Verts, s.Polys, s.Links[:s.Header.MaxLinkCount], s.DetailMeshes, s.DetailVerts, s.DetailTris, s.BvTree, s.OffMeshCons)
 }
 
 func (s *MeshTile) unserialize(hdr *MeshHeader, src []byte) {
-- 
2.43.0


From 0fefba5b7b95f1b3e09b0152f8a8d48b3186a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 22/76] fix: connect border edges with all polygons they adjoin

---
 detour/mesh.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index f87d334..5a6f5f9 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1303,6 +1303,9 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 	}
 
 	// Connect border links.
+	maxNei := target.Header.PolyCount
+	nei := make([]PolyRef, maxNei)
+	neia := make([]float32, maxNei*2)
 	var i int32
 	for i = 0; i < tile.Header.PolyCount; i++ {
 		poly := &tile.Polys[i]
@@ -1324,9 +1327,7 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 			// Create new links
 			va := tile.Verts[int(poly.Verts[j])*3:]
 			vb := tile.Verts[int(poly.Verts[(j+1)%int32(nv)])*3:]
-			nei := make([]PolyRef, 4)
-			neia := make([]float32, 4*2)
-			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, 4)
+			nnei := m.findConnectingPolys(va, vb, target, oppositeTile(dir), nei, neia, maxNei)
 
 			var k int32
 			for k = 0; k < nnei; k++ {
-- 
2.43.0


From 9cbe2cfe722c7a318c0219bc19575a5c87904f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 23/76] fix: pull cut corridors straight up to the last usable
 polygon

When a polygon of the corridor is gone, FindStraightPath went from the last
corner straight to the clamped end point, leaving the corridor.
---
 detour/query.go | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 0adcd87..a641abf 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -487,30 +487,19 @@ func (q *NavMeshQuery) FindStraightPath(
 				if StatusFailed(q.portalPoints6(path[i], path[i+1], left, right, &fromType, &toType)) {
 					// Failed to get portal points, in practice this means that path[i+1] is invalid polygon.
 					// Clamp the end point to path[i], and return the path so far.
-					if StatusFailed(q.ClosestPointOnPolyBoundary(path[i], endPos, closestEndPos)) {
-						// This should only happen when the first polygon is invalid.
-						return 0, Failure | InvalidParam
+					count, stat = q.FindStraightPath(startPos, endPos, path[:i+1],
+						straightPath, straightPathFlags, straightPathRefs, options)
+					if StatusFailed(stat) {
+						return count, stat
 					}
-
-					// Apeend portals along the current straight path segment.
-					if (options & int32(StraightPathAreaCrossings|StraightPathAllCrossings)) != 0 {
-						// Ignore status return value as we're just about to return anyway.
-						q.appendPortals(apexIndex, i, closestEndPos, path,
-							straightPath, straightPathFlags, straightPathRefs,
-							&count, options)
+					// The last vertex is not the end position of the path.
+					if len(straightPathFlags) > 0 {
+						straightPathFlags[count-1] &^= StraightPathEnd
 					}
-
-					// Ignore status return value as we're just about to return anyway.
-					q.appendVertex(closestEndPos, 0, path[i],
-						straightPath, straightPathFlags, straightPathRefs,
-						&count)
-
-					stat = Success | PartialResult
-					if count >= len(straightPath) {
-						stat |= BufferTooSmall
+					if len(straightPathRefs) > 0 && straightPathRefs[count-1] == 0 {
+						straightPathRefs[count-1] = path[i]
 					}
-					//fmt.Println("FindStraightPath 2 returns", stat, count)
-					return count, stat
+					return count, stat | PartialResult
 				}
 
 				// If starting really close the portal, advance.
-- 
2.43.0


From e596fa83754b739d96d93f22c0cbb91907a3b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 24/76] fix: keep the start mark of a straight path

A vertex merged with the first one overwrote its flags.
---
 detour/query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index a641abf..c4f4fd6 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -727,7 +727,8 @@ func (q *NavMeshQuery) appendVertex(
 	straightPathCount *int) Status {
 
 	if (*straightPathCount) > 0 && pos.Approx(straightPath[*straightPathCount-1]) {
-		// The vertices are equal, update flags and poly.
+		// The vertices are equal, update flags and poly. The first vertex
+		// stays the start of the path.
 		if len(straightPathFlags) > 0 {
 			straightPathFlags[*straightPathCount-1] = flags
 		}
@@ -764,6 +765,7 @@ func (q *NavMeshQuery) edgeMidPoint(
 	to PolyRef, toPoly *Poly, toTile *MeshTile,
 	mid d3.Vec3) Status {
 
+			flags |= straightPathFlags[*straightPathCount-1] & StraightPathStart
 	left, right := d3.NewVec3(), d3.NewVec3()
 
 	if StatusFailed(q.portalPoints8(from, fromPoly, fromTile, to, toPoly, toTile, left, right)) {
-- 
2.43.0


From a150381bbec77a44d9724d54fc52d7d4cc5e1981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 25/76] fix: keep crossing points on the straight path

A straight path along a portal got a point anywhere on the portal's line.
---
 detour/query.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index c4f4fd6..e0df02a 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -703,7 +703,14 @@ func (q *NavMeshQuery) appendPortals(
 		// Append intersection
 		if hit, _, t := IntersectSegSeg2D(startPos, endPos, left, right); hit {
 			pt := d3.NewVec3()
-			d3.Vec3Lerp(pt, left, right, t)
+			d3.Vec3Lerp(pt, left, right, f32.Clamp(t, 0, 1))
+
+			// If the segment runs along the portal, the intersection found may
+			// lie anywhere on the portal: it must not be off the segment.
+			seg := endPos.Sub(startPos)
+			if s := pt.Sub(startPos).Dot2D(seg); s < 0 || s > seg.Dot2D(seg) {
+				continue
+			}
 
 			stat = q.appendVertex(pt, 0, path[i+1],
 				straightPath, straightPathFlags, straightPathRefs,
-- 
2.43.0


From f694366ec1c69b3819a041fa00c1011726e35da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 26/76] fix: turn at the near end of portals seen edge-on

The funnel turned at the far end, making straight paths detour.
---
 detour/query.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index e0df02a..2ff753e 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -518,7 +518,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Right vertex.
 			if TriArea2D(portalApex, portalRight, right) <= 0.0 {
-				if portalApex.Approx(portalRight) || TriArea2D(portalApex, portalLeft, right) > 0.0 {
+				if portalApex.Approx(portalRight) || insideFunnel(portalApex, right, portalRight, portalLeft, false, TriArea2D(portalApex, portalLeft, right)) {
 					portalRight.Assign(right)
 					if i+1 < len(path) {
 						rightPolyRef = path[i+1]
@@ -573,7 +573,7 @@ func (q *NavMeshQuery) FindStraightPath(
 
 			// Left vertex.
 			if TriArea2D(portalApex, portalLeft, left) >= 0.0 {
-				if portalApex.Approx(portalLeft) || TriArea2D(portalApex, portalRight, left) < 0.0 {
+				if portalApex.Approx(portalLeft) || insideFunnel(portalApex, left, portalLeft, portalRight, rightIndex == i, -TriArea2D(portalApex, portalRight, left)) {
 					portalLeft.Assign(left)
 					if i+1 < len(path) {
 						leftPolyRef = path[i+1]
@@ -669,6 +669,17 @@ func (q *NavMeshQuery) appendPortals(
 	for i := startIdx; i < endIdx; i++ {
 		// Calculate portal
 		from := path[i]
+// insideFunnel reports whether the portal vertex v, about to replace side, is
+// not beyond the other side of the funnel, given the area between them. Where
+// a portal is seen edge-on the path reaches the vertex nearest to apex first.
+func insideFunnel(apex, v, side, other d3.Vec3, samePortal bool, area float32) bool {
+	if area != 0 {
+		return area > 0
+	}
+	d := apex.Dist2DSqr(other)
+	return apex.Dist2DSqr(v) < d && (samePortal || apex.Dist2DSqr(side) < d)
+}
+
 		var (
 			fromTile *MeshTile
 			fromPoly *Poly
-- 
2.43.0


From 443fbac7d00432c5e880b22c199ee7a29812f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 27/76] fix: mark off-mesh connections that start at a corner
 of the path

A connection starting where the path starts or turns already was not reported.
---
 detour/query.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 2ff753e..861bdb9 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -503,12 +503,29 @@ func (q *NavMeshQuery) FindStraightPath(
 				}
 
 				// If starting really close the portal, advance.
+				var skip bool
 				if i == 0 {
 					var t float32
 					if distancePtSegSqr2D(portalApex, left, right, &t) < math32.Sqr(0.001) {
-						continue
+						skip = true
 					}
 				}
+
+				// An off-mesh connection that starts at the apex has no corner of its own.
+				if toType == polyTypeOffMeshConnection &&
+					(skip || portalApex.Approx(left) && portalApex.Approx(portalLeft) && portalApex.Approx(portalRight)) {
+					stat = q.appendVertex(portalApex, StraightPathOffMeshConnection, path[i+1],
+						straightPath, straightPathFlags, straightPathRefs,
+						&count)
+					if stat != InProgress {
+						return count, stat
+					}
+					apexIndex, leftIndex, rightIndex = i, i, i
+					skip = true
+				}
+				if skip {
+					continue
+				}
 			} else {
 				// End of the path.
 				left.Assign(closestEndPos)
-- 
2.43.0


From 180ea8f60d4b7f2695241359c458ce0226329e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 28/76] fix: round portal limits inwards

Rounded outwards, portals reached out of the polygons they connect, and
straight paths could turn the wrong way round their ends.
---
 detour/mesh.go  | 18 ++++++++++++++----
 detour/query.go | 24 ++++++++++++------------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index 5a6f5f9..d1380be 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -1348,16 +1348,14 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 						if tmin > tmax {
 							tmin, tmax = tmax, tmin
 						}
-						link.BMin = uint8(f32.Clamp(tmin, 0.0, 1.0) * 255.0)
-						link.BMax = uint8(f32.Clamp(tmax, 0.0, 1.0) * 255.0)
+						link.BMin, link.BMax = portalLimits(tmin, tmax)
 					} else if dir == 2 || dir == 6 {
 						tmin := (neia[k*2+0] - va[0]) / (vb[0] - va[0])
 						tmax := (neia[k*2+1] - va[0]) / (vb[0] - va[0])
 						if tmin > tmax {
 							tmin, tmax = tmax, tmin
 						}
-						link.BMin = uint8(f32.Clamp(tmin, 0.0, 1.0) * 255.0)
-						link.BMax = uint8(f32.Clamp(tmax, 0.0, 1.0) * 255.0)
+						link.BMin, link.BMax = portalLimits(tmin, tmax)
 					}
 				}
 			}
@@ -1365,6 +1363,18 @@ func (m *NavMesh) connectExtLinks(tile, target *MeshTile, side int32) {
 	}
 }
 
+// portalLimits compresses the limits of a portal along an edge to byte values.
+// They are rounded inwards, so that the portal does not reach out of the
+// polygons it connects.
+func portalLimits(tmin, tmax float32) (bmin, bmax uint8) {
+	bmin = uint8(math32.Ceil(f32.Clamp(tmin, 0.0, 1.0) * 255.0))
+	bmax = uint8(f32.Clamp(tmax, 0.0, 1.0) * 255.0)
+	if bmin > bmax {
+		bmin = bmax
+	}
+	return bmin, bmax
+}
+
 // Returns all polygons in neighbour tile based
 // on portal defined by the segment.
 func (m *NavMesh) findConnectingPolys(
diff --git a/detour/query.go b/detour/query.go
index 861bdb9..43859a3 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -669,6 +669,17 @@ func (q *NavMeshQuery) FindStraightPath(
 	return count, stat
 }
 
+// insideFunnel reports whether the portal vertex v, about to replace side, is
+// not beyond the other side of the funnel, given the area between them. Where
+// a portal is seen edge-on the path reaches the vertex nearest to apex first.
+func insideFunnel(apex, v, side, other d3.Vec3, samePortal bool, area float32) bool {
+	if area != 0 {
+		return area > 0
+	}
+	d := apex.Dist2DSqr(other)
+	return apex.Dist2DSqr(v) < d && (samePortal || apex.Dist2DSqr(side) < d)
+}
+
 // appendPortals appends intermediate portal points to a straight path.
 func (q *NavMeshQuery) appendPortals(
 	startIdx, endIdx int,
@@ -686,17 +697,6 @@ func (q *NavMeshQuery) appendPortals(
 	for i := startIdx; i < endIdx; i++ {
 		// Calculate portal
 		from := path[i]
-// insideFunnel reports whether the portal vertex v, about to replace side, is
-// not beyond the other side of the funnel, given the area between them. Where
-// a portal is seen edge-on the path reaches the vertex nearest to apex first.
-func insideFunnel(apex, v, side, other d3.Vec3, samePortal bool, area float32) bool {
-	if area != 0 {
-		return area > 0
-	}
-	d := apex.Dist2DSqr(other)
-	return apex.Dist2DSqr(v) < d && (samePortal || apex.Dist2DSqr(side) < d)
-}
-
 		var (
 			fromTile *MeshTile
 			fromPoly *Poly
@@ -765,6 +765,7 @@ func (q *NavMeshQuery) appendVertex(
 		// The vertices are equal, update flags and poly. The first vertex
 		// stays the start of the path.
 		if len(straightPathFlags) > 0 {
+			flags |= straightPathFlags[*straightPathCount-1] & StraightPathStart
 			straightPathFlags[*straightPathCount-1] = flags
 		}
 		if len(straightPathRefs) > 0 {
@@ -800,7 +801,6 @@ func (q *NavMeshQuery) edgeMidPoint(
 	to PolyRef, toPoly *Poly, toTile *MeshTile,
 	mid d3.Vec3) Status {
 
-			flags |= straightPathFlags[*straightPathCount-1] & StraightPathStart
 	left, right := d3.NewVec3(), d3.NewVec3()
 
 	if StatusFailed(q.portalPoints8(from, fromPoly, fromTile, to, toPoly, toTile, left, right)) {
-- 
2.43.0


From 540f3490a5cefbb33deaec663f553f8547e76f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 29/76] fix: forget the results of a previous raycast

---
 detour/query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/detour/query.go b/detour/query.go
index 43859a3..3bb90f0 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1481,6 +1481,12 @@ func (q *NavMeshQuery) Raycast(
 	hit *RaycastHit,
 	prevRef PolyRef) (st Status) {
 
+	// Forget the results of a previous raycast.
+	hit.T = 0
+	hit.HitEdgeIndex = 0
+	hit.PathCount = 0
+	hit.PathCost = 0
+
 	// Validate input
 	if startRef == 0 || !q.nav.IsValidPolyRef(startRef) {
 		st = Failure | InvalidParam
-- 
2.43.0


From 08171333271162e71271364a7817312554730471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 30/76] fix: let a ray leave by the one of two edges in line
 that it crosses

---
 detour/common.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/detour/common.go b/detour/common.go
index a95e6c8..6c7b3fd 100644
--- a/detour/common.go
+++ b/detour/common.go
@@ -101,7 +101,10 @@ func distancePtPolyEdgesSqr(pt, verts []float32, nverts int32, ed, et []float32)
 }
 
 func IntersectSegmentPoly2D(p0, p1 d3.Vec3, verts []float32, nverts int) (tmin, tmax float32, segMin, segMax int, res bool) {
-	const eps float32 = 0.00000001
+	const (
+		eps float32 = 0.00000001
+		tol float32 = 0.000001
+	)
 
 	tmin = 0
 	tmax = 1
@@ -136,7 +139,13 @@ func IntersectSegmentPoly2D(p0, p1 d3.Vec3, verts []float32, nverts int) (tmin,
 			}
 		} else {
 			// segment S is leaving across this edge
-			if t < tmax {
+			closer := t < tmax
+			if segMax != -1 && math32.Abs(t-tmax) < tol {
+				// Both edges may be in line, S leaves by the one it crosses.
+				diff2 := p0.Sub(d3.Vec3(verts[i*3:]))
+				closer = dir.Perp2D(diff)*dir.Perp2D(diff2) <= 0
+			}
+			if closer {
 				tmax = t
 				segMax = j
 				// S leaves before entering polygon
-- 
2.43.0


From c3078b8416e96fa9556fce8b44f8aa98a5f0e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 31/76] fix: detail meshes without sampling (DetailSampleDist
 0) crashed

The hull was only filled while tessellating outlines.
---
 recast/meshdetail.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 5ed97ef..a0f59a3 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -924,6 +924,12 @@ func buildPolyDetail(ctx *BuildContext, in []float32, nin int32,
 			}
 			j = i
 		}
+	} else {
+		// No tessellation, the hull is the polygon outline.
+		for i := int32(0); i < nin; i++ {
+			hull[nhull] = i
+			nhull++
+		}
 	}
 
 	// If the polygon minimum extent is small (sliver or small triangle), do not try to add internal points.
-- 
2.43.0


From fd1ad8b95fca50e1894af8e641caa90157fefe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 32/76] fix: single tile operations crashed before the first
 build

---
 sample/tilemesh/builder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index eae53f1..b916cfe 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -530,7 +530,17 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	return navData
 }
 
+// built reports whether there is geometry and a navigation mesh, as operations
+// on single tiles require.
+func (tm *TileMesh) built() bool {
+	return tm.geom.Mesh() != nil && tm.navMesh.MaxTiles > 0
+}
+
 func (tm *TileMesh) BuildTile(pos d3.Vec3) {
+	if !tm.built() {
+		return
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
@@ -573,6 +583,10 @@ func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 }
 
 func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
+	if !tm.built() {
+		return
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 
-- 
2.43.0


From 9cd14eabf822f38f9f095531fb62ef00420a98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 33/76] fix: convex volumes were marked with too many vertices

AddConvexVolume counted coordinates instead of vertices, which crashed
pointInPoly or added corners at the origin.
---
 recast/area.go      | 2 +-
 recast/inputgeom.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 8f2b833..d03ed33 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -222,7 +222,7 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
-	for i := int32(1); i*3 < nverts; i++ {
+	for i := int32(1); i < nverts; i++ {
 		v := verts[i*3:]
 		d3.Vec3Min(bmin[:], v)
 		d3.Vec3Max(bmax[:], v)
diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index eec5939..1b45e5e 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -216,10 +216,9 @@ func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area u
 	}
 	vol := &ig.volumes[ig.volumeCount]
 	ig.volumeCount++
-	copy(vol.Verts[:], verts)
 	vol.HMin = minh
 	vol.HMax = maxh
-	vol.NVerts = int32(len(verts))
+	vol.NVerts = int32(copy(vol.Verts[:], verts)) / 3
 	vol.Area = int32(area)
 }
 
-- 
2.43.0


From 6b66b53c6a00994e13ad1bd8ba16ec4ecbb9a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 34/76] fix: positions before the mesh origin were assigned to
 the first tiles

---
 sample/tilemesh/builder.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index b916cfe..2582bbf 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -545,8 +545,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
@@ -579,7 +578,7 @@ func (tm *TileMesh) TilePos(pos d3.Vec3) (x, y int32) {
 	bmin := tm.geom.NavMeshBoundsMin()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	return int32((pos[0] - bmin[0]) / ts), int32((pos[2] - bmin[2]) / ts)
+	return int32(math32.Floor((pos[0] - bmin[0]) / ts)), int32(math32.Floor((pos[2] - bmin[2]) / ts))
 }
 
 func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
@@ -591,8 +590,7 @@ func (tm *TileMesh) RemoveTile(pos d3.Vec3) {
 	bmax := tm.geom.NavMeshBoundsMax()
 
 	ts := tm.settings.TileSize * tm.settings.CellSize
-	tx := int32((pos[0] - bmin[0]) / ts)
-	ty := int32((pos[2] - bmin[2]) / ts)
+	tx, ty := tm.TilePos(pos)
 
 	tm.lastBuiltTileBMin[0] = bmin[0] + float32(tx)*ts
 	tm.lastBuiltTileBMin[1] = bmin[1]
-- 
2.43.0


From 7ea3855520accc1334b55451d41534a75366bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 35/76] fix: contour corners between two areas at tile borders
 were dropped

cornerHeight combined region and area codes in 16 bits, losing the area.
---
 recast/contour.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index c5e07f5..3c1daf4 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -11,11 +11,11 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 	ch = int32(s.Y)
 	dirp := (dir + 1) & 0x3
 
-	regs := [4]uint16{0, 0, 0, 0}
+	regs := [4]uint32{0, 0, 0, 0}
 
 	// Combine region and area codes in order to prevent
 	// border vertices which are in between two areas to be removed.
-	regs[0] = uint16(uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16))
+	regs[0] = uint32(chf.Spans[i].Reg) | (uint32(chf.Areas[i]) << 16)
 
 	if GetCon(s, dir) != notConnected {
 		ax := x + GetDirOffsetX(dir)
@@ -23,13 +23,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dir)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[1] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[1] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dirp) != notConnected {
 			ax2 := ax + GetDirOffsetX(dirp)
 			ay2 := ay + GetDirOffsetY(dirp)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dirp)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 	if GetCon(s, dirp) != notConnected {
@@ -38,13 +38,13 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 		ai := int32(chf.Cells[ax+ay*chf.Width].Index) + GetCon(s, dirp)
 		as := &chf.Spans[ai]
 		ch = iMax(ch, int32(as.Y))
-		regs[3] = uint16(uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16))
+		regs[3] = uint32(chf.Spans[ai].Reg) | (uint32(chf.Areas[ai]) << 16)
 		if GetCon(as, dir) != notConnected {
 			ax2 := ax + GetDirOffsetX(dir)
 			ay2 := ay + GetDirOffsetY(dir)
 			ai2 := int32(chf.Cells[ax2+ay2*chf.Width].Index) + GetCon(as, dir)
 			ch = iMax(ch, int32(chf.Spans[ai2].Y))
-			regs[2] = uint16(uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16))
+			regs[2] = uint32(chf.Spans[ai2].Reg) | (uint32(chf.Areas[ai2]) << 16)
 		}
 	}
 
@@ -57,9 +57,9 @@ func cornerHeight(x, y, i, dir int32, chf *CompactHeightfield) (ch int32, isBord
 
 		// The vertex is a border vertex there are two same exterior cells in a row,
 		// followed by two interior cells and none of the regions are out of bounds.
-		twoSameExts := (regs[a]&regs[b]&borderReg) != 0 && regs[a] == regs[b]
-		twoInts := ((regs[c] | regs[d]) & borderReg) == 0
-		intsSameArea := (uint32(regs[c]) >> 16) == (uint32(regs[d]) >> 16)
+		twoSameExts := (regs[a]&regs[b]&uint32(borderReg)) != 0 && regs[a] == regs[b]
+		twoInts := ((regs[c] | regs[d]) & uint32(borderReg)) == 0
+		intsSameArea := (regs[c] >> 16) == (regs[d] >> 16)
 		noZeros := regs[a] != 0 && regs[b] != 0 && regs[c] != 0 && regs[d] != 0
 		if twoSameExts && twoInts && intsSameArea && noZeros {
 			isBorderVertex = true
-- 
2.43.0


From 96cc7c96aeafba6e726266c4f130d762d52a77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:21 +0000
Subject: [PATCH 36/76] fix: detail meshes with a dangling triangle crashed

delaunayHull carried a leftover panic("untested") in front of the code
that removes an incomplete triangle.
---
 recast/meshdetail.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index a0f59a3..94349e2 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -701,7 +701,6 @@ func delaunayHull(ctx *BuildContext, npts int32, pts []float32,
 		t := (*tris)[i*4:]
 		if t[0] == -1 || t[1] == -1 || t[2] == -1 {
 			ctx.Warningf("delaunayHull: Removing dangling face %d [%d,%d,%d].", i, t[0], t[1], t[2])
-			panic("untested")
 			// TODO: simplify
 			t[0] = (*tris)[len(*tris)-4]
 			t[1] = (*tris)[len(*tris)-3]
-- 
2.43.0


From 0dda85d08ac249e9e6bd1e0edc4ceb872d87705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 37/76] fix: buildings of many storeys crashed the region
 builder

---
 recast/region.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index dbeebdd..886b3b6 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -102,6 +102,10 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				if previd == 0 {
 					previd = rid
 					rid++
+					if int(previd) >= len(sweeps) {
+						// A row crossing many storeys has more sweeps than cells.
+						sweeps = append(sweeps, sweepSpan{})
+					}
 					sweeps[previd].rid = previd
 					sweeps[previd].ns = 0
 					sweeps[previd].nei = 0
-- 
2.43.0


From acd71590ddaa5a70aa4bf76f4d6d4a6ae6d683d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:46 +0000
Subject: [PATCH 38/76] fix: failed geometry loads left a mesh behind or
 crashed

LoadOBJMesh kept an empty mesh, and the bounds of the previous one, when
loading failed, so that a following build went ahead; input without any
vertex crashed CalcBounds.
---
 recast/inputgeom.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 1b45e5e..e61f8c9 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -89,27 +89,31 @@ type InputGeom struct {
 }
 
 // LoadOBJMesh loads the geometry from a reader on a OBJ file.
+//
+// In case of error, the input geometry is left without mesh.
 func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
-	var err error
-	if ig.mesh != nil {
-		ig.chunkyMesh = nil
-		ig.mesh = nil
-	}
+	ig.chunkyMesh = nil
+	ig.mesh = nil
 	ig.offMeshConCount = 0
 	ig.volumeCount = 0
 
-	ig.mesh = NewMeshLoaderOBJ()
-	if err = ig.mesh.Load(r); err != nil {
+	mesh := NewMeshLoaderOBJ()
+	if err := mesh.Load(r); err != nil {
 		return err
 	}
+	if mesh.TriCount() == 0 {
+		return fmt.Errorf("no triangles in input geometry")
+	}
 
-	CalcBounds(ig.mesh.Verts(), ig.mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
-
-	ig.chunkyMesh = new(ChunkyTriMesh)
-	if !createChunkyTriMesh(ig.mesh.Verts(), ig.mesh.Tris(), ig.mesh.TriCount(), 256, ig.ChunkyMesh()) {
+	chunkyMesh := new(ChunkyTriMesh)
+	if !createChunkyTriMesh(mesh.Verts(), mesh.Tris(), mesh.TriCount(), 256, chunkyMesh) {
 		return fmt.Errorf("failed to build chunky mesh")
 	}
 
+	CalcBounds(mesh.Verts(), mesh.VertCount(), ig.meshBMin[:], ig.meshBMax[:])
+	ig.mesh = mesh
+	ig.chunkyMesh = chunkyMesh
+
 	return nil
 }
 
-- 
2.43.0


From fa70157c3a671f407baad5848834d7a68f3b4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:07 +0000
Subject: [PATCH 39/76] fix: geometry with faces beyond its vertices crashed
 the loader

---
 recast/meshloaderobj.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/recast/meshloaderobj.go b/recast/meshloaderobj.go
index 2a1909e..0583f2a 100644
--- a/recast/meshloaderobj.go
+++ b/recast/meshloaderobj.go
@@ -1,7 +1,9 @@
 package recast
 
 import (
+	"fmt"
 	"io"
+	"runtime"
 
 	"github.com/arl/gobj"
 	"github.com/arl/math32"
@@ -28,7 +30,7 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 		obj *gobj.OBJFile
 		err error
 	)
-	obj, err = gobj.Decode(r)
+	obj, err = decodeOBJ(r)
 	if err != nil {
 		return err
 	}
@@ -86,6 +88,21 @@ func (mlo *MeshLoaderOBJ) Load(r io.Reader) error {
 	return nil
 }
 
+// decodeOBJ decodes r, turning into an error the crash of the OBJ decoder on
+// faces that refer to vertices it has not read.
+func decodeOBJ(r io.Reader) (obj *gobj.OBJFile, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			rerr, ok := e.(runtime.Error)
+			if !ok {
+				panic(e)
+			}
+			obj, err = nil, fmt.Errorf("invalid geometry: %v", rerr)
+		}
+	}()
+	return gobj.Decode(r)
+}
+
 func (mlo *MeshLoaderOBJ) Scale() float32 {
 	return mlo.scale
 }
-- 
2.43.0


From ca5df97a36f0e3a781a1cf33ea5b02c21f4d09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 40/76] fix: commands that failed exited with status 0

---
 cmd/recast/cmd/build.go  | 9 +++------
 cmd/recast/cmd/config.go | 3 +--
 cmd/recast/cmd/infos.go  | 3 +--
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/cmd/recast/cmd/build.go b/cmd/recast/cmd/build.go
index fadb073..693cd51 100644
--- a/cmd/recast/cmd/build.go
+++ b/cmd/recast/cmd/build.go
@@ -34,8 +34,7 @@ func init() {
 func doBuild(cmd *cobra.Command, args []string) {
 	// check existence of input geometry flags
 	if len(inputVal) == 0 {
-		fmt.Printf("missing input geometry file (--input)")
-		return
+		check(fmt.Errorf("missing input geometry file (--input)"))
 	}
 
 	//
@@ -92,8 +91,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 		navMesh, ok = tileMesh.Build()
 
 	default:
-		fmt.Printf("unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		check(fmt.Errorf("unknown (or unimplemented) navmesh type '%v'", typeVal))
 	}
 
 	ctx.DumpLog(os.Stdout, "")
@@ -103,8 +101,7 @@ func doBuild(cmd *cobra.Command, args []string) {
 	//
 
 	if !ok {
-		fmt.Printf("couldn't build navmesh for %v\n", inputVal)
-		return
+		check(fmt.Errorf("couldn't build navmesh for %v", inputVal))
 	}
 
 	// check output file name
diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 0504402..342c537 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -58,8 +58,7 @@ func doConfig(cmd *cobra.Command, args []string) {
 	)
 
 	if cfg, ok = defaultCfgs[typeVal]; !ok {
-		fmt.Printf("error, unknown (or unimplemented) navmesh type '%v'\n", typeVal)
-		return
+		check(fmt.Errorf("unknown (or unimplemented) navmesh type '%v'", typeVal))
 	}
 
 	// check file name
diff --git a/cmd/recast/cmd/infos.go b/cmd/recast/cmd/infos.go
index b1cd4e6..d2d6bbc 100644
--- a/cmd/recast/cmd/infos.go
+++ b/cmd/recast/cmd/infos.go
@@ -25,8 +25,7 @@ func init() {
 func doInfos(cmd *cobra.Command, args []string) {
 	// check existence of navmesh
 	if len(args) < 1 {
-		fmt.Printf("no input navmesh file")
-		return
+		check(fmt.Errorf("no input navmesh file"))
 	}
 	var (
 		err     error
-- 
2.43.0


From 1034bda05fd66a3585703f2dc32d93012edda893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 41/76] fix: confirmation crashed or never ended when terminal
 input ends

---
 cmd/recast/cmd/utils.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index ac367c9..01e3f44 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -29,8 +29,12 @@ func askForConfirmation(msg string) bool {
 	defaultInput := byte('N')
 
 	for {
-		input, _ := reader.ReadString('\n')
-		c := string([]byte(input)[0])[0]
+		input, err := reader.ReadString('\n')
+		if len(input) == 0 {
+			// nothing more to read
+			return false
+		}
+		c := input[0]
 		if c == 10 {
 			// ENTER
 			c = defaultInput
@@ -41,6 +45,9 @@ func askForConfirmation(msg string) bool {
 		case 'N', 'n':
 			return false
 		}
+		if err != nil {
+			return false
+		}
 	}
 }
 
-- 
2.43.0


From b4442fa97a5454d57b8ea1acd736c7b70f29fcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 42/76] fix: builds with incomplete settings crashed

Settings lacking cell size, cell height, vertices per polygon or tile size
(as read from a truncated configuration file) divided by zero or indexed
empty grids; such builds now fail.
---
 recast/inputgeom.go        | 14 ++++++++++++++
 sample/solomesh/builder.go |  5 +++++
 sample/tilemesh/builder.go |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index e61f8c9..95ef733 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -67,6 +67,20 @@ type BuildSettings struct {
 	TileSize float32
 }
 
+// Validate returns an error if no navigation mesh can be built with these
+// settings, nil otherwise.
+func (s *BuildSettings) Validate() error {
+	switch {
+	case !(s.CellSize > 0):
+		return fmt.Errorf("invalid cell size: %v", s.CellSize)
+	case !(s.CellHeight > 0):
+		return fmt.Errorf("invalid cell height: %v", s.CellHeight)
+	case !(s.VertsPerPoly >= 3):
+		return fmt.Errorf("invalid number of vertices per polygon: %v", s.VertsPerPoly)
+	}
+	return nil
+}
+
 // InputGeom gathers the geometry used as input for navigation mesh building.
 type InputGeom struct {
 	chunkyMesh *ChunkyTriMesh
diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 37ab521..dfd9a09 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -55,6 +55,11 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	if err := sm.settings.Validate(); err != nil {
+		sm.ctx.Errorf("SoloMesh.Build: %v", err)
+		return nil, false
+	}
+
 	bmin := sm.geom.NavMeshBoundsMin()
 	bmax := sm.geom.NavMeshBoundsMax()
 	verts := sm.geom.Mesh().Verts()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 2582bbf..6b243d5 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -77,6 +77,15 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	if err := tm.settings.Validate(); err != nil {
+		tm.ctx.Errorf("TileMesh.Build: %v", err)
+		return nil, false
+	}
+	if !(tm.settings.TileSize >= 1) {
+		tm.ctx.Errorf("TileMesh.Build: invalid tile size: %v", tm.settings.TileSize)
+		return nil, false
+	}
+
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 	gw, gh := recast.CalcGridSize(bmin[:], bmax[:], tm.settings.CellSize)
-- 
2.43.0


From 23fa6d148b0f98892c5bf3f360b4547708995988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 43/76] fix: config ignored errors on closing its output file

---
 cmd/recast/cmd/config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 342c537..5390371 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -77,8 +77,10 @@ func doConfig(cmd *cobra.Command, args []string) {
 	// write config
 	f, err := os.Create(path)
 	check(err)
-	defer f.Close()
 	_, err = f.Write(cfg)
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
 	check(err)
 
 	fmt.Printf("success\n")
-- 
2.43.0


From b38d794dad3ce2bdcacc548d2d073e506ce7d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 44/76] fix: an existing file was replaced unasked if it could
 not be examined

---
 cmd/recast/cmd/build.go  |  4 +++-
 cmd/recast/cmd/config.go |  4 +++-
 cmd/recast/cmd/utils.go  | 16 +++++++---------
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/cmd/recast/cmd/build.go b/cmd/recast/cmd/build.go
index 693cd51..c5fefe1 100644
--- a/cmd/recast/cmd/build.go
+++ b/cmd/recast/cmd/build.go
@@ -109,7 +109,9 @@ func doBuild(cmd *cobra.Command, args []string) {
 	if len(args) >= 1 {
 		out = args[0]
 	}
-	if err = fileExists(out); err == nil {
+	exists, err := fileExists(out)
+	check(err)
+	if exists {
 		msg := fmt.Sprintf("\n'%v' already exists, overwrite? [y/N]", out)
 		if overwrite := askForConfirmation(msg); !overwrite {
 			fmt.Println("aborted")
diff --git a/cmd/recast/cmd/config.go b/cmd/recast/cmd/config.go
index 5390371..8c03dc8 100644
--- a/cmd/recast/cmd/config.go
+++ b/cmd/recast/cmd/config.go
@@ -66,7 +66,9 @@ func doConfig(cmd *cobra.Command, args []string) {
 	if len(args) >= 1 {
 		path = args[0]
 	}
-	if err = fileExists(path); err == nil {
+	exists, err := fileExists(path)
+	check(err)
+	if exists {
 		msg := fmt.Sprintf("\n'%v' already exists, overwrite? [y/N]", path)
 		if overwrite := askForConfirmation(msg); !overwrite {
 			fmt.Println("aborted")
diff --git a/cmd/recast/cmd/utils.go b/cmd/recast/cmd/utils.go
index 01e3f44..c80972d 100644
--- a/cmd/recast/cmd/utils.go
+++ b/cmd/recast/cmd/utils.go
@@ -9,16 +9,14 @@ import (
 	yaml "gopkg.in/yaml.v2"
 )
 
-// convenience function that returns nil if file exists, or an error if it
-// doesn't or if file can't be stat'ed
-func fileExists(path string) (err error) {
-	if _, err = os.Stat(path); err != nil {
-		if os.IsNotExist(err) {
-			// file does not exist
-			err = fmt.Errorf("no such file '%v'", path)
-		}
+// convenience function that reports whether a file exists, or returns an error
+// if that can't be determined
+func fileExists(path string) (bool, error) {
+	_, err := os.Stat(path)
+	if os.IsNotExist(err) {
+		return false, nil
 	}
-	return err
+	return err == nil, err
 }
 
 // askForConfirmation show msg and ask for the user to type y or n
-- 
2.43.0


From fea0e42a497ae91001c5c6938384e537ec410ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 45/76] fix: unused and stopped build timers reported times

---
 recast/buildcontext.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/recast/buildcontext.go b/recast/buildcontext.go
index 84b1920..0209e26 100644
--- a/recast/buildcontext.go
+++ b/recast/buildcontext.go
@@ -23,6 +23,8 @@ const maxMessages = 1000
 type BuildContext struct {
 	startTime [maxTimers]time.Time
 	accTime   [maxTimers]time.Duration
+	running   [maxTimers]bool // started and not stopped yet
+	used      [maxTimers]bool // accTime is valid
 
 	messages    [maxMessages]string
 	numMessages int
@@ -66,6 +68,7 @@ func (ctx *BuildContext) ResetTimers() {
 	if ctx.timerEnabled {
 		for i := 0; i < maxTimers; i++ {
 			ctx.accTime[i] = time.Duration(0)
+			ctx.used[i] = false
 		}
 	}
 }
@@ -142,18 +145,17 @@ func (ctx *BuildContext) LogText(i int32) string {
 func (ctx *BuildContext) StartTimer(label TimerLabel) {
 	if ctx.timerEnabled {
 		ctx.startTime[label] = time.Now()
+		ctx.running[label] = true
 	}
 }
 
-// StopTimer stops the specified performance timer.
+// StopTimer stops the specified performance timer. It has no effect if the timer
+// is not running.
 func (ctx *BuildContext) StopTimer(label TimerLabel) {
-	if ctx.timerEnabled {
-		deltaTime := time.Since(ctx.startTime[label])
-		if ctx.accTime[label] == 0 {
-			ctx.accTime[label] = deltaTime
-		} else {
-			ctx.accTime[label] += deltaTime
-		}
+	if ctx.timerEnabled && ctx.running[label] {
+		ctx.accTime[label] += time.Since(ctx.startTime[label])
+		ctx.running[label] = false
+		ctx.used[label] = true
 	}
 }
 
@@ -163,8 +165,8 @@ func (ctx *BuildContext) StopTimer(label TimerLabel) {
 // Returns the accumulated time of the timer, or -1 if timers are disabled or
 // the timer has never been started.
 func (ctx *BuildContext) AccumulatedTime(label TimerLabel) time.Duration {
-	if ctx.timerEnabled {
+	if ctx.timerEnabled && ctx.used[label] {
 		return ctx.accTime[label]
 	}
-	return time.Duration(0)
+	return -1
 }
-- 
2.43.0


From 9c24e60fbf1514677489369dfb484129abce19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 46/76] fix: filter and compaction stages never stopped their
 timers

---
 recast/filter.go      | 3 +++
 recast/heightfield.go | 1 +
 2 files changed, 4 insertions(+)

diff --git a/recast/filter.go b/recast/filter.go
index 90f1905..059f8c3 100644
--- a/recast/filter.go
+++ b/recast/filter.go
@@ -24,6 +24,7 @@ import "github.com/arl/assertgo"
 func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterLowObstacles)
+	defer ctx.StopTimer(TimerFilterLowObstacles)
 
 	w := solid.Width
 	h := solid.Height
@@ -77,6 +78,7 @@ func FilterLowHangingWalkableObstacles(ctx *BuildContext, walkableClimb int32, s
 func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterBorder)
+	defer ctx.StopTimer(TimerFilterBorder)
 
 	w := solid.Width
 	h := solid.Height
@@ -187,6 +189,7 @@ func FilterLedgeSpans(ctx *BuildContext, walkableHeight, walkableClimb int32, so
 func FilterWalkableLowHeightSpans(ctx *BuildContext, walkableHeight int32, solid *Heightfield) {
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerFilterWalkable)
+	defer ctx.StopTimer(TimerFilterWalkable)
 
 	w := solid.Width
 	h := solid.Height
diff --git a/recast/heightfield.go b/recast/heightfield.go
index 2928aa2..f737367 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -268,6 +268,7 @@ func BuildCompactHeightfield(ctx *BuildContext, walkableHeight, walkableClimb in
 
 	assert.True(ctx != nil, "ctx should not be nil")
 	ctx.StartTimer(TimerBuildCompactHeightfield)
+	defer ctx.StopTimer(TimerBuildCompactHeightfield)
 
 	w := hf.Width
 	h := hf.Height
-- 
2.43.0


From 8431af755e726c90dc1961c44162e1a4c218e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 47/76] fix: removing a vertex two polygons share could crash
 the mesh build

---
 recast/mesh.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 1596911..f54ec13 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -496,8 +496,7 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 		nv := countPolyVerts(p, nvp)
 
 		// Collect edges which touches the removed vertex.
-		var j int32
-		for k := nv - 1; j < nv; k = j {
+		for j, k := int32(0), nv-1; j < nv; j, k = j+1, j {
 			if p[j] == rem || p[k] == rem {
 				// Arrange edge so that a=rem.
 				a, b := p[j], p[k]
@@ -524,7 +523,6 @@ func canRemoveVertex(ctx *BuildContext, mesh *PolyMesh, rem uint16) bool {
 					nedges++
 				}
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From b186ff8fbdceafe9ba323b0031f28b7a833cb0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 48/76] fix: geometry beyond 512 chunks was dropped from a tile

---
 sample/tilemesh/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 6b243d5..cec839e 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -293,8 +293,8 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tbmin[1] = tm.cfg.BMin[2]
 	tbmax[0] = tm.cfg.BMax[0]
 	tbmax[1] = tm.cfg.BMax[2]
-	var cid [512]int32 // TODO: Make grow when returning too many items.
-	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid[:])
+	cid := make([]int32, chunkyMesh.Nnodes)
+	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
 		return nil
 	}
-- 
2.43.0


From 429e4546203d6e359850db9c60e55c7a4714c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 49/76] fix: contours of regions with holes crashed the build
 or filled the holes

---
 recast/contour.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 3c1daf4..1abf613 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -100,7 +100,7 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 		region.holes[i].minx, region.holes[i].minz, region.holes[i].leftmost = findLeftMostVertex(region.holes[i].contour)
 	}
 
-	sort.Sort(compareHoles(region.holes))
+	sort.Sort(compareHoles(region.holes[:region.nholes]))
 
 	maxVerts := region.outline.NVerts
 	for i := int32(0); i < region.nholes; i++ {
@@ -140,13 +140,13 @@ func mergeRegionHoles(ctx *BuildContext, region *contourRegion) {
 
 			// Sort potential diagonals by distance, we want to make the connection as short as possible.
 			//qsort(diags, ndiags, sizeof(rcPotentialDiagonal), compareDiagDist);
-			sort.Sort(compareDiagDist(diags))
+			sort.Sort(compareDiagDist(diags[:ndiags]))
 
 			// Find a diagonal that is not intersecting the outline not the remaining holes.
 			index = -1
 			for j := int32(0); j < ndiags; j++ {
 				pt := outline.Verts[diags[j].vert*4:]
-				intersect := intersectSegCountour(pt, corner, diags[i].vert, outline.NVerts, outline.Verts)
+				intersect := intersectSegCountour(pt, corner, diags[j].vert, outline.NVerts, outline.Verts)
 				for k := i; k < region.nholes && !intersect; k++ {
 					intersect = intersect || intersectSegCountour(pt, corner, -1, region.holes[k].contour.NVerts, region.holes[k].contour.Verts)
 				}
@@ -303,7 +303,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 				// Create contour.
 				if len(simplified)/4 >= 3 {
 					if cset.NConts >= maxContours {
-						panic("ENTERING")
 						// Allocate more contours.
 						// This happens when a region has holes.
 						oldMax := maxContours
@@ -356,13 +355,13 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 	// Merge holes if needed.
 	if cset.NConts > 0 {
 		// Calculate winding of all polygons.
-		winding := make([]uint8, cset.NConts)
+		winding := make([]int8, cset.NConts)
 		var nholes int32
 		for i := int32(0); i < cset.NConts; i++ {
 			cont := &cset.Conts[i]
 			// If the contour is wound backwards, it is a hole.
 			if calcAreaOfPolygon2D(cont.Verts, cont.NVerts) < 0 {
-				winding[i] = 0xff
+				winding[i] = -1
 			} else {
 				winding[i] = 1
 			}
@@ -372,7 +371,6 @@ func BuildContours(ctx *BuildContext, chf *CompactHeightfield,
 		}
 
 		if nholes > 0 {
-			panic("UNTESTED")
 			// Collect outline contour and holes contours per region.
 			// We assume that there is one outline and multiple holes.
 			nregions := chf.MaxRegions + 1
-- 
2.43.0


From c95af87ec50976df467a2301789dcb726e13dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:10 +0000
Subject: [PATCH 50/76] fix: settings that no mesh can be built with crashed
 builds

BuildTile did not validate the settings. A cell size larger than the
geometry, a cell size or agent radius giving more cells than can be counted
and a huge number of vertices per polygon crashed both builders.
---
 recast/inputgeom.go        |  3 ++-
 sample/solomesh/builder.go |  5 +++++
 sample/tilemesh/builder.go | 33 ++++++++++++++++++++++++++++-----
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 95ef733..7a46863 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -3,6 +3,7 @@ package recast
 import (
 	"fmt"
 	"io"
+	"math"
 )
 
 const (
@@ -75,7 +76,7 @@ func (s *BuildSettings) Validate() error {
 		return fmt.Errorf("invalid cell size: %v", s.CellSize)
 	case !(s.CellHeight > 0):
 		return fmt.Errorf("invalid cell height: %v", s.CellHeight)
-	case !(s.VertsPerPoly >= 3):
+	case !(s.VertsPerPoly >= 3 && s.VertsPerPoly <= math.MaxUint8):
 		return fmt.Errorf("invalid number of vertices per polygon: %v", s.VertsPerPoly)
 	}
 	return nil
diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index dfd9a09..53ead7d 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -2,6 +2,7 @@ package solomesh
 
 import (
 	"io"
+	"math"
 
 	"github.com/arl/go-detour/detour"
 	"github.com/arl/go-detour/recast"
@@ -118,6 +119,10 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 	copy(sm.cfg.BMin[:], bmin[:3])
 	copy(sm.cfg.BMax[:], bmax[:3])
 	sm.cfg.Width, sm.cfg.Height = recast.CalcGridSize(sm.cfg.BMin[:], sm.cfg.BMax[:], sm.cfg.Cs)
+	if w, h := int64(sm.cfg.Width), int64(sm.cfg.Height); w < 1 || h < 1 || w*h > math.MaxInt32 {
+		sm.ctx.Errorf("SoloMesh.Build: invalid number of cells: %d x %d", w, h)
+		return nil, false
+	}
 
 	// Reset build times gathering.
 	sm.ctx.ResetTimers()
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index cec839e..c7d8491 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -1,7 +1,9 @@
 package tilemesh
 
 import (
+	"fmt"
 	"io"
+	"math"
 	"os"
 	"time"
 
@@ -70,6 +72,23 @@ func (tm *TileMesh) InputGeom() *recast.InputGeom {
 	return &tm.geom
 }
 
+// validate returns an error if no tile can be built with the current settings.
+func (tm *TileMesh) validate() error {
+	s := &tm.settings
+	if err := s.Validate(); err != nil {
+		return err
+	}
+	if !(s.TileSize >= 1) {
+		return fmt.Errorf("invalid tile size: %v", s.TileSize)
+	}
+	// Width of the heightfield of a tile, borders included.
+	border := math32.Ceil(s.AgentRadius/s.CellSize) + 3
+	if w := s.TileSize + 2*border; !(w >= 1 && w*w < math.MaxInt32) {
+		return fmt.Errorf("invalid number of cells per tile: %v x %v", w, w)
+	}
+	return nil
+}
+
 // Build builds the navigation mesh for the input geometry provided
 func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 	if tm.geom.Mesh() == nil {
@@ -77,18 +96,18 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
-	if err := tm.settings.Validate(); err != nil {
+	if err := tm.validate(); err != nil {
 		tm.ctx.Errorf("TileMesh.Build: %v", err)
 		return nil, false
 	}
-	if !(tm.settings.TileSize >= 1) {
-		tm.ctx.Errorf("TileMesh.Build: invalid tile size: %v", tm.settings.TileSize)
-		return nil, false
-	}
 
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
 	gw, gh := recast.CalcGridSize(bmin[:], bmax[:], tm.settings.CellSize)
+	if gw < 0 || gh < 0 {
+		tm.ctx.Errorf("TileMesh.Build: invalid number of cells: %d x %d", gw, gh)
+		return nil, false
+	}
 	ts := int32(tm.settings.TileSize)
 	tw := (gw + ts - 1) / ts
 	th := (gh + ts - 1) / ts
@@ -549,6 +568,10 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 	if !tm.built() {
 		return
 	}
+	if err := tm.validate(); err != nil {
+		tm.ctx.Errorf("TileMesh.BuildTile: %v", err)
+		return
+	}
 
 	bmin := tm.geom.NavMeshBoundsMin()
 	bmax := tm.geom.NavMeshBoundsMax()
-- 
2.43.0


From bdb24b9b489aeea66d9e9802c1eaa18afb3a7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 51/76] fix: a tiled build that dropped tiles reported success

Tiles for which there is no room, because there are more tiles or more
polygons in a tile than references can be made for, were left out of the mesh
silently.
---
 sample/tilemesh/builder.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index c7d8491..5012a39 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -139,9 +139,7 @@ func (tm *TileMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
-	tm.buildAllTiles()
-
-	return &tm.navMesh, true
+	return tm.buildAllTiles()
 }
 
 func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
@@ -153,6 +151,8 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 	th := (gh + ts - 1) / ts
 	tcs := tm.settings.TileSize * tm.settings.CellSize
 
+	ok := true
+
 	// Start the build process.
 	tm.ctx.StartTimer(recast.TimerTemp)
 	for y := int32(0); y < th; y++ {
@@ -171,7 +171,11 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
 				// Let the navmesh own the data.
-				tm.navMesh.AddTile(data, detour.TileRef(0))
+				status, _ := tm.navMesh.AddTile(data, detour.TileRef(0))
+				if detour.StatusFailed(status) {
+					tm.ctx.Errorf("TileMesh.Build: could not add tile (%d,%d)", x, y)
+					ok = false
+				}
 			}
 		}
 	}
@@ -181,7 +185,10 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
-	// TODO: probably useless
+	if !ok {
+		// There are more tiles or polygons than references can be made for.
+		return nil, false
+	}
 	return &tm.navMesh, true
 }
 
-- 
2.43.0


From c64b43fb383f060f963539fe00650779fc3c4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:20 +0000
Subject: [PATCH 52/76] fix: a shortcut that ran past its end filled the buffer
 of a sliced path

---
 detour/query.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/detour/query.go b/detour/query.go
index 3bb90f0..0d89167 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -2171,10 +2171,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPath(path []PolyRef, maxPath int) (path
 					q.query = queryData{}
 					return 0, Failure
 				}
-				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
-					n-- // remove to avoid duplicates
+				end := 0
+				for end < m && path[n+end] != next.ID {
+					end++
+				}
+				n += end
+				if end < m {
+					// what follows, or did not fit, lies beyond the end of the shortcut
+					status &^= BufferTooSmall
 				} else if !StatusDetail(status, BufferTooSmall) && !q.linked(path[n-1], next.ID) {
 					q.query = queryData{}
 					return 0, Failure
@@ -2295,10 +2300,15 @@ func (q *NavMeshQuery) FinalizeSlicedFindPathPartial(existing []PolyRef, existin
 					q.query = queryData{}
 					return 0, Failure
 				}
-				n += m
 				// raycast ends on poly boundary and the path might include the next poly boundary.
-				if path[n-1] == next.ID {
-					n-- // remove to avoid duplicates
+				end := 0
+				for end < m && path[n+end] != next.ID {
+					end++
+				}
+				n += end
+				if end < m {
+					// what follows, or did not fit, lies beyond the end of the shortcut
+					status &^= BufferTooSmall
 				} else if !StatusDetail(status, BufferTooSmall) && !q.linked(path[n-1], next.ID) {
 					q.query = queryData{}
 					return 0, Failure
-- 
2.43.0


From 6703269fc05a78fc41ca4ffb0482dcdffefcac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 53/76] fix: geometry far from the origin crashed builds with
 cells below its resolution

---
 recast/rasterization.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/recast/rasterization.go b/recast/rasterization.go
index ff6f20c..f0c4748 100644
--- a/recast/rasterization.go
+++ b/recast/rasterization.go
@@ -175,6 +175,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 	for y := y0; y <= y1; y++ {
 		// Clip polygon to row. Store the remaining polygon as well
 		cz := bmin[2] + float32(y)*cs
+		if y > y0 && cz+cs <= bmin[2]+float32(y-1)*cs+cs {
+			// no extent at the precision of the coordinates
+			continue
+		}
 		nvrow, nvIn = dividePoly(in, nvIn, inrow, p1, cz+cs, 2)
 		in, p1 = p1, in
 		if nvrow < 3 {
@@ -202,6 +206,10 @@ func rasterizeTri(v0, v1, v2 []float32,
 		for x := x0; x <= x1; x++ {
 			// Clip polygon to column. store the remaining polygon as well
 			cx := bmin[0] + float32(x)*cs
+			if x > x0 && cx+cs <= bmin[0]+float32(x-1)*cs+cs {
+				// no extent at the precision of the coordinates
+				continue
+			}
 			nv, nv2 = dividePoly(inrow, nv2, p1, p2, cx+cs, 0)
 			inrow, p2 = p2, inrow
 			if nv < 3 {
-- 
2.43.0


From d7445f5e0d15a0f044b24457d7d5ba0d98e94553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:12 +0000
Subject: [PATCH 54/76] fix: the closest point on a connection of no length was
 not a number

---
 detour/query.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/detour/query.go b/detour/query.go
index 0d89167..8df2dde 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -997,7 +997,9 @@ func (q *NavMeshQuery) ClosestPointOnPoly(ref PolyRef, pos, closest d3.Vec3, pos
 		v1 = tile.Verts[vidx : vidx+3]
 		d0 = pos.Dist(v0)
 		d1 = pos.Dist(v1)
-		u = d0 / (d0 + d1)
+		if d0+d1 > 0 {
+			u = d0 / (d0 + d1)
+		}
 		d3.Vec3Lerp(closest, v0, v1, u)
 		if posOverPoly != nil {
 			*posOverPoly = false
-- 
2.43.0


From aa6dbd8d51065fdc7cae14ec981ff41de32557ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:27 +0000
Subject: [PATCH 55/76] fix: a tile of more polygons than its neighbour indices
 can name lost links

---
 detour/navmeshcreate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index 61dcb59..e25fb22 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -556,6 +556,10 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	if params.PolyCount == 0 || params.Polys == nil {
 		return nil, fmt.Errorf("wrong value for params.PolyCount or params.Polys")
 	}
+	if params.PolyCount >= int32(extLink) {
+		// The indices of neighbours share their bits with extLink.
+		return nil, fmt.Errorf("wrong value for params.PolyCount")
+	}
 
 	nvp := params.Nvp
 
-- 
2.43.0


From acf15af8d508302d43dfeee85a3ac49a894076dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:41 +0000
Subject: [PATCH 56/76] fix: connections beyond the vertex limit of a tile got
 other vertices

---
 detour/navmeshcreate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index e25fb22..fc14c60 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -630,6 +630,9 @@ func CreateNavMeshData(params *NavMeshCreateParams) ([]uint8, error) {
 	// Off-mesh connectionss are stored as polygons, adjust values.
 	totPolyCount := int(params.PolyCount + storedOffMeshConCount)
 	totVertCount := int(params.VertCount + storedOffMeshConCount*2)
+	if totVertCount > math.MaxUint16 {
+		return nil, fmt.Errorf("too many vertices and off-mesh connections")
+	}
 
 	// Find portal edges which are at tile borders.
 	var (
-- 
2.43.0


From be9b7d50fb37782166c4cb7ac6f83b38f13422b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:18 +0000
Subject: [PATCH 57/76] fix: distances do not overflow when eroding wide open
 areas

The distance to the border was added to as an uint8: past 255 it wrapped
around, and ground more than 127 cells away from any border was removed
as if it lay next to one.
---
 recast/area.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index d03ed33..4560bf2 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, 255))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, 255))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, 255))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, 255))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, 255))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, 255))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai]+2), int32(255)))
+					nd = uint8(iMin(int32(dist[ai])+2, 255))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai]+3), int32(255)))
+						nd = uint8(iMin(int32(dist[aai])+3, 255))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
-- 
2.43.0


From 4a5257c1116621e06937598300c1db4ebffa26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:18 +0000
Subject: [PATCH 58/76] fix: mesh vertices merge whichever of them comes first

The heights were subtracted as uint16, so that a vertex a little higher
than the one already there was not merged with it, and the polygons on
both sides of the edge were not connected.
---
 recast/mesh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index f54ec13..88d326e 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -112,7 +112,7 @@ func addVertex(x, y, z uint16, verts []uint16, firstVert, nextVert []int32, nv *
 
 	for i != -1 {
 		v := verts[i*3:]
-		if v[0] == x && (iAbs(int32(v[1]-y)) <= 2) && v[2] == z {
+		if v[0] == x && (iAbs(int32(v[1])-int32(y)) <= 2) && v[2] == z {
 			return uint16(i)
 		}
 		i = nextVert[i] // next
-- 
2.43.0


From eb10167f6c8efaa11de2c8a02a68ba45c4cb2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:53 +0000
Subject: [PATCH 59/76] fix: erode by a radius of 128 cells and more

---
 recast/area.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 4560bf2..2075e5c 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -30,11 +30,11 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 	ctx.StartTimer(TimerErodeArea)
 	defer ctx.StopTimer(TimerErodeArea)
 
-	dist := make([]uint8, chf.SpanCount)
+	dist := make([]uint16, chf.SpanCount)
 
 	// Init distance.
 	for i := range dist {
-		dist[i] = 0xff
+		dist[i] = 0xffff
 	}
 
 	// Mark boundary cells.
@@ -67,7 +67,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	var nd uint8
+	var nd uint16
 
 	// Pass 1
 	for y := int32(0); y < h; y++ {
@@ -83,7 +83,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(0)
 					ai := int32(chf.Cells[ax+ay*w].Index) + int32(GetCon(s, 0))
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, 255))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -93,7 +93,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(3)
 						aay := ay + GetDirOffsetY(3)
 						aai := int32(chf.Cells[aax+aay*w].Index) + int32(GetCon(as, 3))
-						nd = uint8(iMin(int32(dist[aai])+3, 255))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -106,7 +106,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(3)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 3)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, 255))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -116,7 +116,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(2)
 						aay := ay + GetDirOffsetY(2)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 2)
-						nd = uint8(iMin(int32(dist[aai])+3, 255))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -140,7 +140,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(2)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 2)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, 255))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -150,7 +150,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(1)
 						aay := ay + GetDirOffsetY(1)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 1)
-						nd = uint8(iMin(int32(dist[aai])+3, 255))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -162,7 +162,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 					ay := y + GetDirOffsetY(1)
 					ai := int32(chf.Cells[ax+ay*w].Index) + GetCon(s, 1)
 					as := &chf.Spans[ai]
-					nd = uint8(iMin(int32(dist[ai])+2, 255))
+					nd = uint16(iMin(int32(dist[ai])+2, 0xffff))
 					if nd < dist[i] {
 						dist[i] = nd
 					}
@@ -172,7 +172,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 						aax := ax + GetDirOffsetX(0)
 						aay := ay + GetDirOffsetY(0)
 						aai := int32(chf.Cells[aax+aay*w].Index) + GetCon(as, 0)
-						nd = uint8(iMin(int32(dist[aai])+3, 255))
+						nd = uint16(iMin(int32(dist[aai])+3, 0xffff))
 						if nd < dist[i] {
 							dist[i] = nd
 						}
@@ -182,7 +182,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint8(radius * 2)
+	thr := uint16(radius * 2)
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From ba8f52fe64ac7d52bab433e80c5c42b6bb18e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 60/76] fix: outlines of 40000 cells and more are followed to
 their end

---
 recast/contour.go | 5 ++---
 recast/region.go  | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 1abf613..381be3e 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -443,9 +443,8 @@ func walkContour2(x, y, i int32,
 
 	area := chf.Areas[i]
 
-	iter := int32(0)
-	for iter+1 < 40000 {
-		iter++
+	// Each side of each span is visited once at most.
+	for iter := int32(0); iter < 4*chf.SpanCount; iter++ {
 		if (flags[i] & (1 << uint(dir))) != 0 {
 			// Choose the edge corner
 			isBorderVertex := false
diff --git a/recast/region.go b/recast/region.go
index 886b3b6..871349c 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -838,7 +838,8 @@ func walkContour(x, y, i, dir int32,
 	}
 	*cont = append(*cont, int32(curReg))
 
-	for iter := int32(1); iter < 39999; iter++ {
+	// Each side of each span is visited once at most.
+	for iter := int32(0); iter < 4*chf.SpanCount; iter++ {
 		s := &chf.Spans[i]
 
 		if isSolidEdge(chf, srcReg, x, y, i, dir) {
-- 
2.43.0


From 39ca49bcf3d648a2e3a5e2691fce95ceb220a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 61/76] fix: vertices beyond the 21845th have the right
 coordinates

---
 recast/mesh.go       | 18 +++++++++---------
 recast/meshdetail.go | 14 +++++++-------
 recast/polymesh.go   |  4 ++--
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 88d326e..7bbcb55 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -390,24 +390,24 @@ func getPolyMergeValue(pa, pb []uint16,
 	}
 
 	// Check to see if the merged polygon would be convex.
-	var va, vb, vc uint16
+	var va, vb, vc int32
 
-	va = pa[(*ea+na-1)%na]
-	vb = pa[*ea]
-	vc = pb[(*eb+2)%nb]
+	va = int32(pa[(*ea+na-1)%na])
+	vb = int32(pa[*ea])
+	vc = int32(pb[(*eb+2)%nb])
 	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
 		return -1
 	}
 
-	va = pb[(*eb+nb-1)%nb]
-	vb = pb[*eb]
-	vc = pa[(*ea+2)%na]
+	va = int32(pb[(*eb+nb-1)%nb])
+	vb = int32(pb[*eb])
+	vc = int32(pa[(*ea+2)%na])
 	if !uleft(verts[va*3:], verts[vb*3:], verts[vc*3:]) {
 		return -1
 	}
 
-	va = pa[*ea]
-	vb = pa[(*ea+1)%na]
+	va = int32(pa[*ea])
+	vb = int32(pa[(*ea+1)%na])
 
 	dx := int32(verts[va*3+0]) - int32(verts[vb*3+0])
 	dy := int32(verts[va*3+2]) - int32(verts[vb*3+2])
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 94349e2..743f027 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -387,7 +387,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			*xmin = iMin(*xmin, int32(v[0]))
 			*xmax = iMax(*xmax, int32(v[0]))
 			*ymin = iMin(*ymin, int32(v[2]))
@@ -428,7 +428,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 			if p[j] == meshNullIdx {
 				break
 			}
-			v := mesh.Verts[p[j]*3:]
+			v := mesh.Verts[int32(p[j])*3:]
 			poly[j*3+0] = float32(v[0]) * cs
 			poly[j*3+1] = float32(v[1]) * ch
 			poly[j*3+2] = float32(v[2]) * cs
@@ -1068,9 +1068,9 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	)
 	for j := int32(0); j < npoly && dmin > 0; j++ {
 		for k := int32(0); k < 9 && dmin > 0; k++ {
-			ax := int32(verts[poly[j]*3+0]) + bsOffset[k*2+0]
-			ay := int32(verts[poly[j]*3+1])
-			az := int32(verts[poly[j]*3+2]) + bsOffset[k*2+1]
+			ax := int32(verts[int32(poly[j])*3+0]) + bsOffset[k*2+0]
+			ay := int32(verts[int32(poly[j])*3+1])
+			az := int32(verts[int32(poly[j])*3+2]) + bsOffset[k*2+1]
 			if ax < hp.xmin || ax >= hp.xmin+hp.width ||
 				az < hp.ymin || az >= hp.ymin+hp.height {
 				continue
@@ -1096,8 +1096,8 @@ func seedArrayWithPolyCenter(ctx *BuildContext, chf *CompactHeightfield,
 	// Find center of the polygon
 	var pcx, pcy int32
 	for j := int32(0); j < npoly; j++ {
-		pcx += int32(verts[poly[j]*3+0])
-		pcy += int32(verts[poly[j]*3+2])
+		pcx += int32(verts[int32(poly[j])*3+0])
+		pcy += int32(verts[int32(poly[j])*3+2])
 	}
 	pcx /= npoly
 	pcy /= npoly
diff --git a/recast/polymesh.go b/recast/polymesh.go
index 2ae38e1..198ef6f 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -282,8 +282,8 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 				if nj >= nvp || p[nj] == meshNullIdx {
 					nj = 0
 				}
-				va := mesh.Verts[p[j]*3:]
-				vb := mesh.Verts[p[nj]*3:]
+				va := mesh.Verts[int32(p[j])*3:]
+				vb := mesh.Verts[int32(p[nj])*3:]
 
 				if int32(va[0]) == 0 && int32(vb[0]) == 0 {
 					p[nvp+j] = 0x8000 | 0
-- 
2.43.0


From ae92e95d5222253a247320c4d147e7fb723013b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 62/76] fix: polygons of meshes with more than 65535 edges find
 their neighbours

---
 recast/mesh.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/recast/mesh.go b/recast/mesh.go
index 7bbcb55..accb680 100644
--- a/recast/mesh.go
+++ b/recast/mesh.go
@@ -11,7 +11,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	// http://www.terathon.com/code/edges.php
 
 	maxEdgeCount := npolys * vertsPerPoly
-	firstEdge := make([]uint16, nverts+maxEdgeCount)
+	firstEdge := make([]int32, nverts+maxEdgeCount)
 	nextEdge := firstEdge[nverts:]
 	var edgeCount int32
 
@@ -21,7 +21,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 	}
 
 	for i := int32(0); i < nverts; i++ {
-		firstEdge[i] = meshNullIdx
+		firstEdge[i] = -1
 	}
 
 	for i := int32(0); i < npolys; i++ {
@@ -48,7 +48,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				edge.polyEdge[1] = 0
 				// Insert edge
 				nextEdge[edgeCount] = firstEdge[v0]
-				firstEdge[v0] = uint16(edgeCount)
+				firstEdge[v0] = edgeCount
 				edgeCount++
 			}
 		}
@@ -68,7 +68,7 @@ func buildMeshAdjacency(polys []uint16, npolys int32, nverts, vertsPerPoly int32
 				v1 = t[j+1]
 			}
 			if v0 > v1 {
-				for e := uint16(firstEdge[v1]); e != meshNullIdx; e = nextEdge[e] {
+				for e := firstEdge[v1]; e != -1; e = nextEdge[e] {
 					edge := edges[e]
 					if edge.vert[1] == v0 && edge.poly[0] == edge.poly[1] {
 						edge.poly[1] = uint16(i)
-- 
2.43.0


From 010a313f4e92295c75ed1559e6eaf8ead70d8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 63/76] fix: building all tiles fails when a tile can not be
 built

---
 sample/tilemesh/builder.go | 41 ++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 5012a39..dae01dc 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -166,7 +166,8 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 			tm.lastBuiltTileBMax[1] = bmax[1]
 			tm.lastBuiltTileBMax[2] = bmin[2] + float32(y+1)*tcs
 
-			data := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			data, built := tm.buildTileMesh(x, y, tm.lastBuiltTileBMin[:], tm.lastBuiltTileBMax[:])
+			ok = ok && built
 			if data != nil {
 				// Remove any previous data (navmesh owns and deletes the data).
 				tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(x, y, 0))
@@ -186,16 +187,19 @@ func (tm *TileMesh) buildAllTiles() (*detour.NavMesh, bool) {
 	tm.totalBuildTime = tm.ctx.AccumulatedTime(recast.TimerTemp)
 
 	if !ok {
-		// There are more tiles or polygons than references can be made for.
+		// There is more in a tile than can be built, or there are more tiles or
+		// polygons than references can be made for.
 		return nil, false
 	}
 	return &tm.navMesh, true
 }
 
-func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
+// buildTileMesh returns the data of a tile, nil if there is no ground in it, and
+// whether it could be built.
+func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) ([]byte, bool) {
 	if tm.geom.Mesh() == nil || tm.geom.ChunkyMesh() == nil {
 		tm.ctx.Errorf("buildNavigation: Input mesh is not specified.")
-		return nil
+		return nil, false
 	}
 
 	tm.tileMemUsage = 0
@@ -322,7 +326,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	cid := make([]int32, chunkyMesh.Nnodes)
 	ncid := chunkyMesh.ChunksOverlappingRect(tbmin, tbmax, cid)
 	if ncid == 0 {
-		return nil
+		return nil, true
 	}
 
 	tm.tileTriCount = 0
@@ -341,7 +345,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 			verts, nverts, ctris, nctris, tm.triAreas)
 
 		if !recast.RasterizeTriangles(tm.ctx, verts, nverts, ctris, tm.triAreas, nctris, tm.solid, tm.cfg.WalkableClimb) {
-			return nil
+			return nil, false
 		}
 	}
 
@@ -362,13 +366,13 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.chf = &recast.CompactHeightfield{}
 	if !recast.BuildCompactHeightfield(tm.ctx, tm.cfg.WalkableHeight, tm.cfg.WalkableClimb, tm.solid, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not build compact data.")
-		return nil
+		return nil, false
 	}
 
 	// Erode the walkable area by agent radius.
 	if !recast.ErodeWalkableArea(tm.ctx, tm.cfg.WalkableRadius, tm.chf) {
 		tm.ctx.Errorf("buildNavigation: Could not erode.")
-		return nil
+		return nil, false
 	}
 
 	// (Optional) Mark areas.
@@ -434,7 +438,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		// Monotone partitioning does not need distancefield.
 		if !recast.BuildRegionsMonotone(tm.ctx, tm.chf, tm.cfg.BorderSize, tm.cfg.MinRegionArea, tm.cfg.MergeRegionArea) {
 			tm.ctx.Errorf("buildNavigation: Could not build monotone regions.")
-			return nil
+			return nil, false
 		}
 	} else {
 		// SAMPLE_PARTITION_LAYERS
@@ -453,11 +457,11 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.cset = &recast.ContourSet{}
 	if !recast.BuildContours(tm.ctx, tm.chf, tm.cfg.MaxSimplificationError, tm.cfg.MaxEdgeLen, tm.cset, recast.ContourTessWallEdges) {
 		tm.ctx.Errorf("buildNavigation: Could not create contours.")
-		return nil
+		return nil, false
 	}
 
 	if tm.cset.NConts == 0 {
-		return nil
+		return nil, true
 	}
 
 	//
@@ -469,7 +473,10 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.pmesh, ret = recast.BuildPolyMesh(tm.ctx, tm.cset, tm.cfg.MaxVertsPerPoly)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not triangulate contours.")
-		return nil
+		return nil, false
+	}
+	if tm.pmesh.NPolys == 0 {
+		return nil, true
 	}
 
 	//
@@ -479,7 +486,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.dmesh, ret = recast.BuildPolyMeshDetail(tm.ctx, tm.pmesh, tm.chf, tm.cfg.DetailSampleDist, tm.cfg.DetailSampleMaxError)
 	if !ret {
 		tm.ctx.Errorf("buildNavigation: Could not build detail mesh.")
-		return nil
+		return nil, false
 	}
 
 	//
@@ -496,7 +503,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 		if tm.pmesh.NVerts >= 0xffff {
 			// The vertex indices are ushorts, and cannot point to more than 0xffff vertices.
 			tm.ctx.Errorf("Too many vertices per tile %d (max: %d).", tm.pmesh.NVerts, 0xffff)
-			return nil
+			return nil, false
 		}
 
 		// Update poly flags from areas.
@@ -550,7 +557,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 
 		if navData, err = detour.CreateNavMeshData(&params); err != nil {
 			tm.ctx.Errorf("Could not build Detour navmesh: %v", err)
-			return nil
+			return nil, false
 		}
 	}
 
@@ -562,7 +569,7 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) []byte {
 	tm.ctx.Progressf(">> Polymesh: %d vertices  %d polygons", tm.pmesh.NVerts, tm.pmesh.NPolys)
 	tm.tileBuildTime = tm.ctx.AccumulatedTime(recast.TimerTotal)
 
-	return navData
+	return navData, true
 }
 
 // built reports whether there is geometry and a navigation mesh, as operations
@@ -596,7 +603,7 @@ func (tm *TileMesh) BuildTile(pos d3.Vec3) {
 
 	tm.ctx.ResetLog()
 
-	data := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
+	data, _ := tm.buildTileMesh(tx, ty, tm.lastBuiltTileBMin, tm.lastBuiltTileBMax)
 
 	// Remove any previous data (navmesh owns and deletes the data).
 	tm.navMesh.RemoveTile(tm.navMesh.TileRefAt(tx, ty, 0))
-- 
2.43.0


From 2a2f54e249413a36b75cd72f4a849501a5e04ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 64/76] fix: more regions than ids are refused

---
 recast/region.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index 871349c..ffc4291 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -137,6 +137,11 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 			if sweeps[i].nei != RC_NULL_NEI && sweeps[i].nei != 0 && prev[sweeps[i].nei] == int32(sweeps[i].ns) {
 				sweeps[i].id = sweeps[i].nei
 			} else {
+				if id >= borderReg {
+					// Region ids share their bits with borderReg.
+					ctx.Errorf("BuildRegionsMonotone: Too many regions.")
+					return false
+				}
 				sweeps[i].id = id
 				id++
 			}
-- 
2.43.0


From e37e63b4fae206be22f81c4629ac33edaf5e743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:51 +0000
Subject: [PATCH 65/76] fix: samples beyond the outline of a region get a
 height

---
 recast/meshdetail.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 743f027..82d7c61 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -257,6 +257,11 @@ func getHeight(fx, fy, fz, cs, ics, ch float32, radius int32, hp *HeightPatch) u
 			x += dx
 			z += dz
 		}
+
+		if uint32(h) == unsetHeight {
+			// There is no ground around, keep the height.
+			h = uint16(int32Clamp(int32(math32.Floor(fy/ch+0.5)), 0, unsetHeight-1))
+		}
 	}
 	return h
 }
@@ -353,7 +358,9 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 	ch := mesh.Ch
 	orig := mesh.BMin
 	borderSize := mesh.BorderSize
-	heightSearchRadius := iMax(1, int32(math32.Ceil(mesh.MaxEdgeError)))
+	// An edge is off the outline of its region by at most the error, and a
+	// sample on it may fall in the cell beyond.
+	heightSearchRadius := 1 + iMax(1, int32(math32.Ceil(mesh.MaxEdgeError)))
 
 	edges := make([]int32, 64)
 	tris := make([]int32, 512)
-- 
2.43.0


From 3489c77a1744ac1850f73a21c8bb836752af20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:53 +0000
Subject: [PATCH 66/76] fix: agents taller than 255 cells find room

---
 recast/heightfield.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recast/heightfield.go b/recast/heightfield.go
index f737367..b81ca49 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -202,7 +202,7 @@ type CompactSpan struct {
 	Y   uint16 // The lower extent of the span. (Measured from the heightfield's base.)
 	Reg uint16 // The id of the region the span belongs to. (Or zero if not in a region.)
 	Con uint32 // Packed neighbor connection data.
-	H   uint8  // The height of the span.  (Measured from #y.)
+	H   uint16 // The height of the span.  (Measured from #y.)
 }
 
 // A CompactHeightfield is a compact, static heightfield representing
@@ -317,7 +317,7 @@ func BuildCompactHeightfield(ctx *BuildContext, walkableHeight, walkableClimb in
 						top = MAX_HEIGHT
 					}
 					chf.Spans[idx].Y = uint16(int32Clamp(bot, 0, 0xffff))
-					chf.Spans[idx].H = uint8(int32Clamp(top-bot, 0, 0xff))
+					chf.Spans[idx].H = uint16(int32Clamp(top-bot, 0, 0xffff))
 					chf.Areas[idx] = s.area
 					idx++
 					c.Count++
-- 
2.43.0


From ca6d4fc4eec80c6d884351ed0e85537857a7a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:55 +0000
Subject: [PATCH 67/76] fix: columns of more than 63 storeys are connected, and
 of more than 255 complete

---
 recast/constants.go   | 2 +-
 recast/heightfield.go | 4 ++--
 recast/recast.go      | 9 ++++-----
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/recast/constants.go b/recast/constants.go
index fef7ee6..963e731 100644
--- a/recast/constants.go
+++ b/recast/constants.go
@@ -32,7 +32,7 @@ const WalkableArea uint8 = 63
 
 // The value returned by GetCon if the specified direction is not connected to
 // another span. (Has no neighbor.)
-const notConnected int32 = 0x3f
+const notConnected int32 = 0xffff
 
 // Heighfield border flag.
 // If a heightfield region ID has this bit set, then the region is a border
diff --git a/recast/heightfield.go b/recast/heightfield.go
index b81ca49..56123b5 100644
--- a/recast/heightfield.go
+++ b/recast/heightfield.go
@@ -193,7 +193,7 @@ func (hf *Heightfield) addSpan(x, y int32, smin, smax uint16,
 // compact heightfield.
 type CompactCell struct {
 	Index uint32 // Index to the first span in the column.
-	Count uint8  // Number of spans in the column.
+	Count uint16 // Number of spans in the column.
 }
 
 // CompactSpan represents a span of unobstructed space within a compact
@@ -201,7 +201,7 @@ type CompactCell struct {
 type CompactSpan struct {
 	Y   uint16 // The lower extent of the span. (Measured from the heightfield's base.)
 	Reg uint16 // The id of the region the span belongs to. (Or zero if not in a region.)
-	Con uint32 // Packed neighbor connection data.
+	Con uint64 // Packed neighbor connection data.
 	H   uint16 // The height of the span.  (Measured from #y.)
 }
 
diff --git a/recast/recast.go b/recast/recast.go
index dd10b7c..2dfdd61 100644
--- a/recast/recast.go
+++ b/recast/recast.go
@@ -236,9 +236,8 @@ func init() {
 //	 dir      The direction to set. [Limits: 0 <= value < 4]
 //	 i        The index of the neighbor span.
 func SetCon(s *CompactSpan, dir, i int32) {
-	shift := uint32(uint32(dir * 6))
-	con := uint32(s.Con)
-	s.Con = (con ^ (0x3f << shift)) | ((uint32(i & 0x3f)) << shift)
+	shift := uint32(dir * 16)
+	s.Con = (s.Con &^ (0xffff << shift)) | (uint64(i&0xffff) << shift)
 }
 
 // GetCon gets neighbor connection data for the specified direction.
@@ -250,8 +249,8 @@ func SetCon(s *CompactSpan, dir, i int32) {
 // Return the neighbor connection data for the specified direction,
 // 'notConnected' if there is no connection.
 func GetCon(s *CompactSpan, dir int32) int32 {
-	shift := uint32(dir * 6)
-	return int32((s.Con >> shift) & 0x3f)
+	shift := uint32(dir * 16)
+	return int32((s.Con >> shift) & 0xffff)
 }
 
 // GetDirOffsetX gets the standard width (x-axis) offset for the specified
-- 
2.43.0


From 6503a03a7ffceea88510cf79536c9502e8b012c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:56 +0000
Subject: [PATCH 68/76] fix: geometry higher than heights can count is refused

---
 sample/solomesh/builder.go | 6 ++++++
 sample/tilemesh/builder.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 53ead7d..18bdca0 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -124,6 +124,12 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 		return nil, false
 	}
 
+	// Height of the heightfield, with room for an agent at the top.
+	if h := (bmax[1]-bmin[1])/sm.cfg.Ch + float32(sm.cfg.WalkableHeight); !(h < float32(recast.RC_SPAN_MAX_HEIGHT)) {
+		sm.ctx.Errorf("SoloMesh.Build: geometry too high: %v cells", h)
+		return nil, false
+	}
+
 	// Reset build times gathering.
 	sm.ctx.ResetTimers()
 
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index dae01dc..49e84e0 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -86,6 +86,10 @@ func (tm *TileMesh) validate() error {
 	if w := s.TileSize + 2*border; !(w >= 1 && w*w < math.MaxInt32) {
 		return fmt.Errorf("invalid number of cells per tile: %v x %v", w, w)
 	}
+	// Height of the heightfield, with room for an agent at the top.
+	if h := (tm.geom.NavMeshBoundsMax()[1]-tm.geom.NavMeshBoundsMin()[1])/s.CellHeight + math32.Ceil(s.AgentHeight/s.CellHeight); !(h < float32(recast.RC_SPAN_MAX_HEIGHT)) {
+		return fmt.Errorf("geometry too high: %v cells", h)
+	}
 	return nil
 }
 
-- 
2.43.0


From bb4471bfa4d3401e3a98dca1a8e27721d4123c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:55 +0000
Subject: [PATCH 69/76] fix: volumes without end were not marked

---
 recast/area.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 2075e5c..5921937 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -1,6 +1,8 @@
 package recast
 
 import (
+	"math"
+
 	assert "github.com/arl/assertgo"
 	"github.com/arl/gogeo/f32/d3"
 )
@@ -230,12 +232,12 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	bmin[1] = hmin
 	bmax[1] = hmax
 
-	minx := int32(((bmin[0] - chf.BMin[0]) / chf.Cs))
-	miny := int32(((bmin[1] - chf.BMin[1]) / chf.Ch))
-	minz := int32(((bmin[2] - chf.BMin[2]) / chf.Cs))
-	maxx := int32(((bmax[0] - chf.BMin[0]) / chf.Cs))
-	maxy := int32(((bmax[1] - chf.BMin[1]) / chf.Ch))
-	maxz := int32(((bmax[2] - chf.BMin[2]) / chf.Cs))
+	minx := cellIndex((bmin[0] - chf.BMin[0]) / chf.Cs)
+	miny := cellIndex((bmin[1] - chf.BMin[1]) / chf.Ch)
+	minz := cellIndex((bmin[2] - chf.BMin[2]) / chf.Cs)
+	maxx := cellIndex((bmax[0] - chf.BMin[0]) / chf.Cs)
+	maxy := cellIndex((bmax[1] - chf.BMin[1]) / chf.Ch)
+	maxz := cellIndex((bmax[2] - chf.BMin[2]) / chf.Cs)
 
 	if maxx < 0 {
 		return
@@ -288,6 +290,19 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 	}
 }
 
+// cellIndex converts v to the index of a cell. What is beyond all cells, of
+// any heightfield, remains so.
+func cellIndex(v float32) int32 {
+	const beyond = math.MaxInt32 / 2
+	if v > beyond {
+		return beyond
+	}
+	if v < -beyond {
+		return -beyond
+	}
+	return int32(v)
+}
+
 func pointInPoly(nvert int32, verts, p []float32) bool {
 	var (
 		i, j int32
-- 
2.43.0


From 85d864248d1d3d40a1a56240945ed996f5b067bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:57 +0000
Subject: [PATCH 70/76] fix: volumes of more than 12 vertices, and beyond the
 256th, were cut off

---
 recast/area.go      |  3 +++
 recast/inputgeom.go | 37 +++++++++++++++----------------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/recast/area.go b/recast/area.go
index 5921937..1c6cb4d 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -221,6 +221,9 @@ func MarkConvexPolyArea(ctx *BuildContext, verts []float32, nverts int32,
 
 	ctx.StartTimer(TimerMarkConvexPolyArea)
 	defer ctx.StopTimer(TimerMarkConvexPolyArea)
+	if nverts < 3 {
+		return
+	}
 	var bmin, bmax [3]float32
 	copy(bmin[:], verts[:3])
 	copy(bmax[:], verts[:3])
diff --git a/recast/inputgeom.go b/recast/inputgeom.go
index 7a46863..e802d0a 100644
--- a/recast/inputgeom.go
+++ b/recast/inputgeom.go
@@ -8,12 +8,10 @@ import (
 
 const (
 	maxOffMeshConnections = 256
-	maxVolumes            = 256
-	maxConvexVolPts       = 12
 )
 
 type ConvexVolume struct {
-	Verts      [maxConvexVolPts * 3]float32
+	Verts      []float32
 	HMin, HMax float32
 	NVerts     int32
 	Area       int32
@@ -99,8 +97,7 @@ type InputGeom struct {
 	offMeshConCount int32
 
 	// Convex Volumes.
-	volumes     [maxVolumes]ConvexVolume
-	volumeCount int32
+	volumes []ConvexVolume
 }
 
 // LoadOBJMesh loads the geometry from a reader on a OBJ file.
@@ -110,7 +107,7 @@ func (ig *InputGeom) LoadOBJMesh(r io.Reader) error {
 	ig.chunkyMesh = nil
 	ig.mesh = nil
 	ig.offMeshConCount = 0
-	ig.volumeCount = 0
+	ig.volumes = nil
 
 	mesh := NewMeshLoaderOBJ()
 	if err := mesh.Load(r); err != nil {
@@ -170,17 +167,14 @@ func (ig *InputGeom) ChunkyMesh() *ChunkyTriMesh {
 
 // ConvexVolumes returns the whole slice of convex volumes added to the input
 // geometry
-//
-// Note: all convex volumes may not be valid, use ConvexVolumesCount in order
-// to only access the N first valid convex volumes.
 func (ig *InputGeom) ConvexVolumes() []ConvexVolume {
-	return ig.volumes[:]
+	return ig.volumes
 }
 
 // ConvexVolumesCount returns the length of the slice of convex volumes added to the input
 // geometry.
 func (ig *InputGeom) ConvexVolumesCount() int32 {
-	return ig.volumeCount
+	return int32(len(ig.volumes))
 }
 
 // OffMeshConnectionVerts returns the slice of verts of the off-mesh
@@ -230,20 +224,19 @@ func (ig *InputGeom) OffMeshConnectionCount() int32 {
 // The convex volume is defined by the verts slice [x, y, z] * Number of
 // vertices.
 func (ig *InputGeom) AddConvexVolume(verts []float32, minh, maxh float32, area uint8) {
-	if ig.volumeCount >= maxVolumes {
-		return
-	}
-	vol := &ig.volumes[ig.volumeCount]
-	ig.volumeCount++
-	vol.HMin = minh
-	vol.HMax = maxh
-	vol.NVerts = int32(copy(vol.Verts[:], verts)) / 3
-	vol.Area = int32(area)
+	ig.volumes = append(ig.volumes, ConvexVolume{
+		Verts:  append([]float32(nil), verts...),
+		HMin:   minh,
+		HMax:   maxh,
+		NVerts: int32(len(verts)) / 3,
+		Area:   int32(area),
+	})
 }
 
 // DeleteConvexVolume deletes the ith convex volume.
 func (ig *InputGeom) DeleteConvexVolume(i int) {
-	ig.volumeCount--
 	// copy last volume over the deleted one
-	ig.volumes[i] = ig.volumes[ig.volumeCount]
+	n := len(ig.volumes) - 1
+	ig.volumes[i] = ig.volumes[n]
+	ig.volumes = ig.volumes[:n]
 }
-- 
2.43.0


From e33d792d7435277cc352486ddaa43f500ed25d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:59 +0000
Subject: [PATCH 71/76] fix: agents wider than 32767 cells got through

---
 recast/area.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recast/area.go b/recast/area.go
index 1c6cb4d..791b390 100644
--- a/recast/area.go
+++ b/recast/area.go
@@ -184,7 +184,7 @@ func ErodeWalkableArea(ctx *BuildContext, radius int32, chf *CompactHeightfield)
 		}
 	}
 
-	thr := uint16(radius * 2)
+	thr := uint16(2 * iMin(radius, 0x7fff))
 	for i := int32(0); i < chf.SpanCount; i++ {
 		if dist[i] < thr {
 			chf.Areas[i] = nullArea
-- 
2.43.0


From a1bc0f82086227bcbdb321cc5e0d472b869769dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:00 +0000
Subject: [PATCH 72/76] fix: polygons below their detail mesh were not found

---
 detour/navmeshcreate.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/detour/navmeshcreate.go b/detour/navmeshcreate.go
index fc14c60..4ef82d6 100644
--- a/detour/navmeshcreate.go
+++ b/detour/navmeshcreate.go
@@ -288,6 +288,18 @@ func createBVTree(params *NavMeshCreateParams, nodes []BvNode) int32 {
 			it.BMax[0] = uint16(int32Clamp(int32((bmax[0]-params.BMin[0])*quantFactor), 0, 0xffff))
 			it.BMax[1] = uint16(int32Clamp(int32((bmax[1]-params.BMin[1])*quantFactor), 0, 0xffff))
 			it.BMax[2] = uint16(int32Clamp(int32((bmax[2]-params.BMin[2])*quantFactor), 0, 0xffff))
+
+			// The polygon may be lower or higher than its detail mesh (queries
+			// are rounded up to the next cell).
+			for j := i * params.Nvp * 2; j < (i*2+1)*params.Nvp && params.Polys[j] != meshNullIdx; j++ {
+				y := uint16(int32Clamp(int32(float32(params.Verts[int(params.Polys[j])*3+1])*params.Ch*quantFactor), 0, 0xfffe))
+				if it.BMin[1] > y+1 {
+					it.BMin[1] = y + 1
+				}
+				if y > it.BMax[1] {
+					it.BMax[1] = y
+				}
+			}
 		} else {
 			p := params.Polys[i*params.Nvp*2:]
 			it.BMin[0] = params.Verts[int(p[0])*3+0]
-- 
2.43.0


From e6e2a8137d01ec8cad0139c652e801eb11fba70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:43 +0000
Subject: [PATCH 73/76] fix: polygons higher than 65535 cells above the tile's
 bottom were not found

---
 detour/mesh.go  | 8 ++++----
 detour/query.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/detour/mesh.go b/detour/mesh.go
index d1380be..225c07b 100644
--- a/detour/mesh.go
+++ b/detour/mesh.go
@@ -972,11 +972,11 @@ func (m *NavMesh) queryPolygonsInTile(
 		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
 		// Quantize
 		bmin[0] = uint16(uint32(qfac*minx) & 0xfffe)
-		bmin[1] = uint16(uint32(qfac*miny) & 0xfffe)
+		bmin[1] = uint16(uint32(math32.Min(qfac*miny, 0xfffe)) & 0xfffe)
 		bmin[2] = uint16(uint32(qfac*minz) & 0xfffe)
-		bmax[0] = uint16(uint32(qfac*maxx+1) | 1)
-		bmax[1] = uint16(uint32(qfac*maxy+1) | 1)
-		bmax[2] = uint16(uint32(qfac*maxz+1) | 1)
+		bmax[0] = uint16(uint32(math32.Min(qfac*maxx+1, 0xffff)) | 1)
+		bmax[1] = uint16(uint32(math32.Min(qfac*maxy+1, 0xffff)) | 1)
+		bmax[2] = uint16(uint32(math32.Min(qfac*maxz+1, 0xffff)) | 1)
 
 		// Traverse tree
 		base := m.polyRefBase(tile)
diff --git a/detour/query.go b/detour/query.go
index 8df2dde..a7f50a8 100644
--- a/detour/query.go
+++ b/detour/query.go
@@ -1307,11 +1307,11 @@ func (q *NavMeshQuery) queryPolygonsInTile(
 		maxz := f32.Clamp(qmax[2], tbmin[2], tbmax[2]) - tbmin[2]
 		// Quantize
 		bmin[0] = uint16(qfac*minx) & 0xfffe
-		bmin[1] = uint16(qfac*miny) & 0xfffe
+		bmin[1] = uint16(math32.Min(qfac*miny, 0xfffe)) & 0xfffe
 		bmin[2] = uint16(qfac*minz) & 0xfffe
-		bmax[0] = uint16(qfac*maxx+1) | 1
-		bmax[1] = uint16(qfac*maxy+1) | 1
-		bmax[2] = uint16(qfac*maxz+1) | 1
+		bmax[0] = uint16(math32.Min(qfac*maxx+1, 0xffff)) | 1
+		bmax[1] = uint16(math32.Min(qfac*maxy+1, 0xffff)) | 1
+		bmax[2] = uint16(math32.Min(qfac*maxz+1, 0xffff)) | 1
 
 		// Traverse tree
 		base := q.nav.polyRefBase(tile)
-- 
2.43.0


From f9f3983285bf67cc9d13b1e13bad0ae9c66b0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:51 +0000
Subject: [PATCH 74/76] fix: rows of more than 32767 sweeps panicked or mixed
 up regions

---
 recast/region.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/recast/region.go b/recast/region.go
index ffc4291..69638c3 100644
--- a/recast/region.go
+++ b/recast/region.go
@@ -100,6 +100,11 @@ func BuildRegionsMonotone(ctx *BuildContext, chf *CompactHeightfield,
 				}
 
 				if previd == 0 {
+					if rid >= borderReg {
+						// Each sweep is a region of its own or continues another one.
+						ctx.Errorf("BuildRegionsMonotone: Too many regions.")
+						return false
+					}
 					previd = rid
 					rid++
 					if int(previd) >= len(sweeps) {
-- 
2.43.0


From 412426a489f456515a12bb6df89643ddb5949a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:52 +0000
Subject: [PATCH 75/76] fix: meshes of more than 65535 cells across had wrong
 polygons

---
 recast/polymesh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recast/polymesh.go b/recast/polymesh.go
index 198ef6f..c7c34f5 100644
--- a/recast/polymesh.go
+++ b/recast/polymesh.go
@@ -80,6 +80,12 @@ func BuildPolyMesh(ctx *BuildContext, cset *ContourSet, nvp int32) (*PolyMesh, b
 		return nil, false
 	}
 
+	if cset.Width > 0xffff || cset.Height > 0xffff {
+		// Positions are counted in sixteen bits.
+		ctx.Errorf("BuildPolyMesh: Too many cells %d x %d.", cset.Width, cset.Height)
+		return nil, false
+	}
+
 	mesh = &PolyMesh{
 		Cs:           cset.Cs,
 		Ch:           cset.Ch,
-- 
2.43.0


From ef7cb48a28adac8291c422ecd18ffc9bc53fe7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:31 +0000
Subject: [PATCH 76/76] fix: settings beyond 32 bit numbers of cells overflowed

---
 recast/contour.go          |  2 +-
 recast/meshdetail.go       |  5 +++--
 sample/solomesh/builder.go | 13 ++++++++-----
 sample/tilemesh/builder.go | 13 ++++++++-----
 4 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/recast/contour.go b/recast/contour.go
index 381be3e..e61ccee 100644
--- a/recast/contour.go
+++ b/recast/contour.go
@@ -699,7 +699,7 @@ func simplifyContour(points, simplified *[]int32,
 			if tess {
 				dx := bx - ax
 				dz := bz - az
-				if dx*dx+dz*dz > maxEdgeLen*maxEdgeLen {
+				if int64(dx)*int64(dx)+int64(dz)*int64(dz) > int64(maxEdgeLen)*int64(maxEdgeLen) {
 					// Round based on the segments in lexilogical order so that the
 					// max tesselation is consistent regardles in which direction
 					// segments are traversed.
diff --git a/recast/meshdetail.go b/recast/meshdetail.go
index 82d7c61..bffc458 100644
--- a/recast/meshdetail.go
+++ b/recast/meshdetail.go
@@ -197,7 +197,8 @@ func getHeight(fx, fy, fz, cs, ics, ch float32, radius int32, hp *HeightPatch) u
 		z := int32(0)
 		dx := int32(1)
 		dz := int32(0)
-		maxSize := radius*2 + 1
+		// Beyond the patch there are no heights.
+		maxSize := iMin(radius, iMax(hp.width, hp.height))*2 + 1
 		maxIter := maxSize*maxSize - 1
 
 		nextRingIterStart := int32(8)
@@ -360,7 +361,7 @@ func BuildPolyMeshDetail(ctx *BuildContext, mesh *PolyMesh, chf *CompactHeightfi
 	borderSize := mesh.BorderSize
 	// An edge is off the outline of its region by at most the error, and a
 	// sample on it may fall in the cell beyond.
-	heightSearchRadius := 1 + iMax(1, int32(math32.Ceil(mesh.MaxEdgeError)))
+	heightSearchRadius := 1 + iMax(1, int32(math32.Ceil(math32.Min(mesh.MaxEdgeError, 1<<14))))
 
 	edges := make([]int32, 64)
 	tris := make([]int32, 512)
diff --git a/sample/solomesh/builder.go b/sample/solomesh/builder.go
index 18bdca0..881007f 100644
--- a/sample/solomesh/builder.go
+++ b/sample/solomesh/builder.go
@@ -72,6 +72,9 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 	// Step 1. Initialize build config.
 	//
 
+	// Larger numbers of cells are as good as this one.
+	const maxCells = 1 << 30
+
 	// Rasterization settings
 	cellSize := sm.settings.CellSize
 	cellHeight := sm.settings.CellHeight
@@ -98,12 +101,12 @@ func (sm *SoloMesh) Build() (*detour.NavMesh, bool) {
 	sm.cfg.Ch = cellHeight
 	sm.cfg.WalkableSlopeAngle = sm.settings.AgentMaxSlope
 	sm.cfg.WalkableHeight = int32(math32.Ceil(agentHeight / sm.cfg.Ch))
-	sm.cfg.WalkableClimb = int32(math32.Floor(agentMaxClimb / sm.cfg.Ch))
-	sm.cfg.WalkableRadius = int32(math32.Ceil(agentRadius / sm.cfg.Cs))
-	sm.cfg.MaxEdgeLen = int32(float32(edgeMaxLen) / cellSize)
+	sm.cfg.WalkableClimb = int32(math32.Floor(math32.Min(agentMaxClimb/sm.cfg.Ch, maxCells)))
+	sm.cfg.WalkableRadius = int32(math32.Ceil(math32.Min(agentRadius/sm.cfg.Cs, maxCells)))
+	sm.cfg.MaxEdgeLen = int32(math32.Min(edgeMaxLen/cellSize, maxCells))
 	sm.cfg.MaxSimplificationError = edgeMaxError
-	sm.cfg.MinRegionArea = int32(regionMinSize * regionMinSize)       // Note: area = size*size
-	sm.cfg.MergeRegionArea = int32(regionMergeSize * regionMergeSize) // Note: area = size*size
+	sm.cfg.MinRegionArea = int32(math32.Min(regionMinSize*regionMinSize, maxCells))       // Note: area = size*size
+	sm.cfg.MergeRegionArea = int32(math32.Min(regionMergeSize*regionMergeSize, maxCells)) // Note: area = size*size
 	sm.cfg.MaxVertsPerPoly = int32(vertsPerPoly)
 
 	if detailSampleDist < 0.9 {
diff --git a/sample/tilemesh/builder.go b/sample/tilemesh/builder.go
index 49e84e0..a02dd08 100644
--- a/sample/tilemesh/builder.go
+++ b/sample/tilemesh/builder.go
@@ -219,6 +219,9 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) ([]byte, b
 	// Step 1. Initialize build config.
 	//
 
+	// Larger numbers of cells are as good as this one.
+	const maxCells = 1 << 30
+
 	// Rasterization settings
 	cellSize := tm.settings.CellSize
 	cellHeight := tm.settings.CellHeight
@@ -245,12 +248,12 @@ func (tm *TileMesh) buildTileMesh(tx, ty int32, bmin, bmax []float32) ([]byte, b
 	tm.cfg.Ch = cellHeight
 	tm.cfg.WalkableSlopeAngle = tm.settings.AgentMaxSlope
 	tm.cfg.WalkableHeight = int32(math32.Ceil(agentHeight / tm.cfg.Ch))
-	tm.cfg.WalkableClimb = int32(math32.Floor(agentMaxClimb / tm.cfg.Ch))
-	tm.cfg.WalkableRadius = int32(math32.Ceil(agentRadius / tm.cfg.Cs))
-	tm.cfg.MaxEdgeLen = int32(float32(edgeMaxLen) / cellSize)
+	tm.cfg.WalkableClimb = int32(math32.Floor(math32.Min(agentMaxClimb/tm.cfg.Ch, maxCells)))
+	tm.cfg.WalkableRadius = int32(math32.Ceil(math32.Min(agentRadius/tm.cfg.Cs, maxCells)))
+	tm.cfg.MaxEdgeLen = int32(math32.Min(edgeMaxLen/cellSize, maxCells))
 	tm.cfg.MaxSimplificationError = edgeMaxError
-	tm.cfg.MinRegionArea = int32(regionMinSize * regionMinSize)       // Note: area = size*size
-	tm.cfg.MergeRegionArea = int32(regionMergeSize * regionMergeSize) // Note: area = size*size
+	tm.cfg.MinRegionArea = int32(math32.Min(regionMinSize*regionMinSize, maxCells))       // Note: area = size*size
+	tm.cfg.MergeRegionArea = int32(math32.Min(regionMergeSize*regionMergeSize, maxCells)) // Note: area = size*size
 	tm.cfg.MaxVertsPerPoly = int32(vertsPerPoly)
 	tm.cfg.TileSize = int32(tm.settings.TileSize)
 	tm.cfg.BorderSize = tm.cfg.WalkableRadius + 3 // Reserve enough padding
-- 
2.43.0

