#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code only for readability)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip(), "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("P01", "A saved navigation mesh loads back as the same mesh",
 "Loading what a navigation mesh was saved as yields a mesh with the same parameters and the same tiles under the same tile and polygon references: identical geometry, detail surfaces, areas, flags (including ones changed at run time), bounding volumes, off-mesh connections (end points, radius, direction, user id) and the same connectivity. "
 "This holds however the stream delivers the bytes (any chunk sizes, data together with end-of-file), after any history of tile additions and removals, and the number of bytes written equals the size the mesh reports for itself. "
 "The bytes are the documented little-endian tile-set layout shared with the C++ Detour library.",
 ["histories", "schedules", "inputs", "configurations"],
 "every mesh reachable by adding, removing and re-adding tiles and editing polygon flags, every chunking a reader may legally use, concurrent loads of several streams interleaved arbitrarily",
 "Existing tests decode three fixed files from a reader that always fills the buffer, and compare builder output with golden bytes; no mesh with off-mesh connections, no post-removal mesh and no partial read is ever saved and reloaded.",
 ["detour/mesh.go", "detour/tile.go", "detour/structs.go"],
 [("decode tile set", "detour/mesh.go Decode"), ("encode tile set", "detour/mesh.go ToWriter, Size"), ("tile payload codec", "detour/tile.go serialize/unserialize")],
 "exported fields of NavMesh/MeshTile after Decode; bytes passed to the io.Writer")

add("P02", "A damaged or interrupted mesh stream is never accepted",
 "Loading a navigation mesh from a stream that ends early at any byte, fails with a read error at any point, or carries a wrong magic number or version (of the set or of a tile), or a tile whose reference is zero or belongs to another tile of the stream, returns an error and no mesh. "
 "It never returns a mesh holding fewer or other tiles than the stream declares, never crashes and never terminates the process.",
 ["fault_sequences", "crash_points", "inputs"],
 "every truncation offset, every offset at which a read error strikes, every chunking around it, corrupt identification words, for arbitrary saved meshes",
 "No test feeds a truncated or failing reader; the property ranges over every byte offset of every saved mesh.",
 ["detour/mesh.go", "detour/tile.go", "detour/structs.go"],
 [("stream reads", "detour/mesh.go Decode"), ("tile validation", "detour/mesh.go AddTile")],
 "returned (mesh, error) of Decode, process exit, panics")

add("P03", "A save reports success only if the whole mesh was stored",
 "Saving a navigation mesh, to a writer or to a file, returns nil only if every byte was accepted and, for a file, the file was closed without error; any create, write, short-write, full-disk or close failure is returned as an error. "
 "A save never leaves the file open and never alters the mesh. "
 "If the process dies in the middle of a save, what is left on disk is rejected by a later load unless it is the complete mesh, and a repeated save then succeeds and loads back.",
 ["fault_sequences", "crash_points", "histories"],
 "every position of a write/close/create failure and of a crash within the save, for arbitrary meshes and repeated saves over existing files",
 "The suite never saves to a failing medium, never checks descriptors and never crashes a save.",
 ["detour/mesh.go"],
 [("save to file", "detour/mesh.go SaveToFile"), ("encode tile set", "detour/mesh.go ToWriter")],
 "returned error, bytes on the (simulated) disk, open descriptors")

add("P04", "Tile lookups reflect exactly the tiles added and not yet removed",
 "After any sequence of tile additions and removals, looking up tiles by grid location, by location and layer or by reference finds exactly the tiles currently loaded, each under the reference its addition returned, and removal hands back exactly the data that was added. "
 "Adding succeeds exactly when the location is free and a slot is available (the requested slot, when a former reference is given); otherwise it returns a failure status, leaves the mesh unchanged and never ends the process or panics, and the same holds for data that is not a tile, for tiles with more polygons than the mesh was set up for, and for mesh parameters whose references do not fit in 32 bits.",
 ["histories", "configurations", "fault_sequences"],
 "all histories of add / remove / re-add with and without a requested reference, over grids with layers and hash collisions, including exhausted tile space, occupied locations and slots, stale and malformed references and malformed data",
 "Tests only ever load whole meshes; no test removes a tile, fills the tile space or re-adds at a former reference.",
 ["detour/mesh.go", "sample/tilemesh/builder.go"],
 [("tile allocation", "detour/mesh.go AddTile"), ("tile release", "detour/mesh.go RemoveTile"), ("spatial hash lookup", "detour/mesh.go TileAt, TilesAt, TileRefAt, TileByRef"), ("id layout", "detour/mesh.go Init")],
 "return values of the NavMesh lookup methods",
 "MeshTile.Next chains, posLookup, nextFree")

add("P05", "References to removed tiles never resolve to something else",
 "A tile or polygon reference is valid exactly while the tile it was issued for is loaded: after removal it is rejected by every lookup and query, also when the slot has been reused by another tile, until the slot's generation counter has run through its full cycle (or was set back by restoring an earlier reference). "
 "A tile re-added at its former reference makes exactly its old polygon references valid again. "
 "References issued for loaded tiles are never zero and are pairwise distinct. Asked whether a polygon may be used with a filter, a query object says so exactly for the loaded polygons that filter accepts.",
 ["histories", "configurations"],
 "all histories of add/remove/reuse/restore per slot, up to and beyond wrap-around of the generation counter, for all id layouts a mesh may be configured with",
 "Staleness needs a removal followed by reuse; tests have neither, and wrap-around takes hundreds of reuses.",
 ["detour/mesh.go", "detour/query.go"],
 [("salt update", "detour/mesh.go RemoveTile"), ("reference restore", "detour/mesh.go AddTile lastRef"), ("reference checks", "detour/mesh.go IsValidPolyRef, TileAndPolyByRef, TileByRef")],
 "IsValidPolyRef, TileAndPolyByRef, TileByRef, query statuses",
 "MeshTile.Salt")

add("P06", "Polygon connectivity depends only on which tiles are loaded",
 "At every moment two polygons are connected exactly if they share an interior edge of one tile, or lie on facing border edges of adjacent loaded tiles that overlap by a positive length and, at an end of the overlap or by crossing, come within climbing height; the connection exists in both directions and spans the overlap. "
 "Connectivity is therefore independent of the order and number of tile additions and removals that led to the loaded set, never refers to a tile that is not loaded, and neither decays nor takes up more and more room under repeated streaming.",
 ["histories", "schedules", "configurations"],
 "all orders of adding, removing and re-adding tiles over grids and layers, long churn included",
 "Existing tests never remove a tile and only load meshes in one fixed order.",
 ["detour/mesh.go", "detour/navmeshcreate.go"],
 [("internal links", "detour/mesh.go connectIntLinks"), ("border links", "detour/mesh.go connectExtLinks, findConnectingPolys, overlapSlabs"), ("unlinking", "detour/mesh.go unconnectLinks"), ("link pool", "detour/mesh.go allocLink/freeLink")],
 "exported link lists of loaded tiles (MeshTile.Links, Poly.FirstLink)",
 "MeshTile.Links, MeshTile.LinksFreeList")

add("P07", "Off-mesh connections follow their landing tiles",
 "An off-mesh connection is attached to the polygon under its start point whenever its tile is loaded, and to the polygon under its end point exactly while the (same or adjacent) tile containing that end point is loaded; it can be walked from start to end, and from end to start only if it is bidirectional. "
 "This holds after any order of tile additions, removals and re-additions and after saving and loading, and paths across the connection go through its two end points. An end point beside the only polygon within the connection's radius is attached to that polygon. Each connection keeps the radius, area, flags and user id it was created with.",
 ["histories", "schedules", "configurations"],
 "all streaming histories of the tiles an off-mesh connection starts and lands in, with several connections per tile, both directions, with and without bounding-volume trees",
 "The only off-mesh test is skipped, and no test loads or unloads the landing tile.",
 ["detour/mesh.go", "detour/query.go", "detour/tile.go", "detour/navmeshcreate.go"],
 [("start anchoring", "detour/mesh.go baseOffMeshLinks"), ("end anchoring", "detour/mesh.go connectExtOffMeshLinks"), ("landing polygon search", "detour/mesh.go FindNearestPolyInTile, queryPolygonsInTile, closestPointOnPoly"), ("portal points", "detour/query.go portalPoints8")],
 "exported link lists; FindPath / FindStraightPath across the connection")

add("P08", "A path query returns a valid corridor and an honest status",
 "In whatever state streaming has left the mesh, a path query between valid polygons returns a corridor that begins at the start polygon, steps only between connected loaded polygons accepted by the filter and never outgrows the caller's buffer, whatever queries ran before on the same query object. "
 "It ends at the goal whenever the goal is reachable and neither search nodes nor buffer ran out; otherwise it is flagged partial (ending at the reachable polygon nearest to the goal), out-of-nodes or buffer-too-small as is the case, and these flags are set only then. "
 "A query with an invalid or stale reference fails with an invalid-parameter status and returns no path.",
 ["histories", "fault_sequences", "configurations", "inputs"],
 "all streaming histories, query sequences on a reused query object, node pools down to a single node, buffers down to one entry, filters over flags and areas, stale references",
 "Tests run a handful of fixed paths on one fixed mesh with a large pool and buffer.",
 ["detour/query.go", "detour/node.go", "detour/nodequeue.go", "detour/queryfilter.go"],
 [("A* search", "detour/query.go FindPath"), ("path extraction", "detour/query.go pathToNode"), ("node pool", "detour/node.go NodePool"), ("open list", "detour/nodequeue.go")],
 "return values of FindPath, calls made to the QueryFilter")

add("P09", "A path query returns a cheapest path",
 "When a path query reaches its goal without running out of nodes, no other route through the polygons the search looked at is cheaper under the traversal costs the filter reported (up to the search's stated heuristic scale), and the route is never dearer than the worst way of walking any alternative route. "
 "The answer does not depend on earlier queries made with the same query object, and asking again gives the same answer.",
 ["histories", "configurations", "inputs"],
 "all streaming histories, filters with differing area costs and customised cost callbacks, and query sequences on a reused query object",
 "Tests compare three fixed paths with recorded polygon lists under unit costs.",
 ["detour/query.go", "detour/node.go", "detour/nodequeue.go"],
 [("cost accumulation", "detour/query.go FindPath"), ("priority queue", "detour/nodequeue.go"), ("node reuse", "detour/node.go Node/Clear")],
 "costs passed through QueryFilter.Cost and the returned corridor")

add("P10", "Slicing a path search does not change its outcome",
 "A sliced path search returns the same path and the same status whichever way its iterations are divided into updates and whatever read-only queries (validity, nearest polygon, closest point, straight path, ray cast) are made on the same or other query objects in between. "
 "Each update performs no more iterations than asked and reports how many it did, the search completes after finitely many updates, and its result satisfies the same corridor, reachability and status rules as an unsliced query, including when the result is taken early or truncated by the caller's buffer.",
 ["schedules", "histories", "fault_sequences", "configurations"],
 "all ways of slicing, all interleavings of several sliced searches with other queries, with and without any-angle mode, exhausted pools and short buffers, premature finalisation",
 "Tests run one update with an unlimited budget on a fixed mesh; nothing interleaves.",
 ["detour/query.go", "detour/node.go"],
 [("sliced state", "detour/query.go InitSlicedFindPath, UpdateSlicedFindPath"), ("finalisation", "detour/query.go FinalizeSlicedFindPath, FinalizeSlicedFindPathPartial")],
 "return values of the sliced API",
 "NavMeshQuery.query")

add("P11", "A sliced search survives tiles changing between its slices",
 "If tiles are removed, replaced or added between the updates of a sliced path search, the search either fails cleanly or returns a path made only of polygons that were valid and adjacent at some moment during the search; if its start or goal polygon has gone when it is next updated it fails. "
 "It never panics, never ends the process, never reads from an unloaded tile, always completes in a bounded number of updates, and the query object works normally for the next search.",
 ["schedules", "histories", "fault_sequences"],
 "all placements of tile removals, replacements and restorations between the updates and before finalisation, with and without any-angle mode and with partial finalisation",
 "No test mutates a mesh, let alone during a sliced search.",
 ["detour/query.go", "detour/mesh.go"],
 [("revalidation", "detour/query.go UpdateSlicedFindPath"), ("finalisation", "detour/query.go FinalizeSlicedFindPath, FinalizeSlicedFindPathPartial, Raycast2")],
 "return values of the sliced API, panics",
 "NavMeshQuery.query")

add("P12", "A straight path is the taut path through its corridor",
 "Given a corridor of connected polygons, the straight path runs from the start to the goal (each clamped to the end polygons), stays inside the corridor, is as short as the corridor permits, and marks its first and last point and every off-mesh start as such; with crossing options it adds points on the portals crossed without leaving that line. "
 "With too small a buffer it is the leading part of the full answer flagged buffer-too-small; if polygons of the corridor have been unloaded it is clamped to the part before them and flagged partial, or fails if an end polygon is gone.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "all corridors obtained in streamed meshes, stale corridors after tile removal at any position, buffers down to one point, all crossing options",
 "Tests check three fixed straight paths on one mesh with valid corridors and large buffers.",
 ["detour/query.go", "detour/common.go"],
 [("string pulling", "detour/query.go FindStraightPath"), ("vertex append", "detour/query.go appendVertex, appendPortals"), ("portals", "detour/query.go portalPoints6/8")],
 "return values of FindStraightPath")

add("P13", "A ray cast stops exactly where walkable ground ends",
 "A ray cast reports no hit exactly if the straight line (seen from above) stays on connected, loaded, filter-accepted polygons up to its end; otherwise it reports the fraction at which it leaves them, the wall edge and its normal, and in both cases the polygons traversed in order, cut to the caller's buffer and then flagged buffer-too-small. "
 "The answer depends only on the mesh and the arguments: not on what earlier casts left in a reused result record and not on earlier streaming. "
 "Casting from an invalid or stale polygon fails with an invalid-parameter status.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "all rays in streamed meshes including across tile borders with partial portals and missing tiles, reused hit records, short buffers, stale references",
 "Tests cast a few rays with fresh records on one static mesh.",
 ["detour/query.go", "detour/common.go"],
 [("ray walk", "detour/query.go Raycast, Raycast2"), ("segment/polygon clip", "detour/common.go IntersectSegmentPoly2D")],
 "return values of Raycast/Raycast2 and RaycastHit")

add("P14", "Nearest-polygon search returns the nearest loaded polygon",
 "In whatever state streaming has left the mesh, a nearest-polygon search returns a polygon whenever some loaded, filter-accepted polygon's bounds overlap the search box and none when no such polygon comes within a few cells of it (bounding-volume trees round outwards), no other overlapping polygon is nearer under the documented measure, and the point returned lies on that polygon's surface. "
 "This holds whether or not tiles carry bounding-volume trees or detail meshes; closest-point lookups on stale references fail with an invalid-parameter status.",
 ["histories", "configurations", "inputs"],
 "all streamed meshes, boxes spanning several tiles and layers, more candidates than one internal batch, tiles with and without bounding-volume trees and detail meshes, filters",
 "Tests query a few points of one static tile that has both a tree and detail meshes.",
 ["detour/query.go", "detour/polyquery.go", "detour/navmeshcreate.go", "detour/mesh.go"],
 [("box query", "detour/query.go queryPolygons4, queryPolygonsInTile"), ("nearest selection", "detour/polyquery.go"), ("surface height", "detour/query.go ClosestPointOnPoly"), ("tree build", "detour/navmeshcreate.go createBVTree")],
 "return values of FindNearestPoly, ClosestPointOnPoly, ClosestPointOnPolyBoundary")

add("P15", "Queries on a shared mesh do not influence each other",
 "Any number of query objects working on one navigation mesh at the same time, preempted at arbitrary points, each get exactly the answers they would get alone, and none of them changes the mesh. "
 "The same holds for meshes being loaded or saved concurrently with queries on other meshes.",
 ["schedules"],
 "all interleavings at statement granularity of query objects running path, sliced path, straight path, ray cast and nearest-polygon queries, and of loads and saves",
 "The suite is single-threaded; interference needs two queries in flight.",
 ["detour/query.go", "detour/node.go", "detour/mesh.go", "detour/common.go"],
 [("query-local state", "detour/query.go NavMeshQuery"), ("node pool", "detour/node.go"), ("shared mesh reads", "detour/mesh.go")],
 "query results, mesh contents")

add("P16", "Rebuilding tiles piecemeal gives the mesh a full build gives",
 "After any order of building, rebuilding and removing single tiles of a tiled mesh, interleaved with edits of the marked volumes and full builds, every tile that was (re)built since the last edit is identical to the one a fresh builder produces for the same input, every removed or empty location is empty, all other tiles keep their contents, and the connections between the tiles present equal those of a freshly assembled mesh. "
 "The area a marked volume carries is given to the polygons on the ground inside the volume and to no others (a null area makes no polygons), and tile positions reported for world positions agree with the tiles affected. No operation crashes, whatever the geometry and settings, also before the first build.",
 ["histories", "inputs", "configurations"],
 "all sequences of build, tile build, tile removal, volume edits and geometry reloads over generated and sample geometry and settings",
 "Tests do one full build per sample file and never call the per-tile operations.",
 ["sample/tilemesh/builder.go", "recast/inputgeom.go", "detour/mesh.go"],
 [("tile build", "sample/tilemesh/builder.go BuildTile, buildTileMesh"), ("tile removal", "sample/tilemesh/builder.go RemoveTile"), ("volumes", "recast/inputgeom.go AddConvexVolume, DeleteConvexVolume"), ("tile pipeline state", "recast/*.go")],
 "tile data and connectivity of the NavMesh returned by Build")

add("P17", "Builds are repeatable and isolated from each other",
 "Building a mesh twice from the same geometry and settings gives byte-identical data, in the same builder or a fresh one, whatever the build context's logging and timer switches, however the clock advances meanwhile, and however several builders running at the same time are interleaved. "
 "A build never modifies its input geometry or settings.",
 ["schedules", "histories", "configurations"],
 "all interleavings at statement granularity of two or more builders, clock behaviours, log/timer switches and repeated builds, for solo and tiled meshes",
 "Each test builds once, alone.",
 ["sample/solomesh/builder.go", "sample/tilemesh/builder.go", "recast/recast.go", "recast/meshdetail.go", "recast/region.go", "recast/contour.go"],
 [("build pipelines", "sample/solomesh/builder.go Build, sample/tilemesh/builder.go Build"), ("package level tables", "recast/recast.go, recast/meshdetail.go"), ("timers and log", "recast/buildcontext.go")],
 "bytes of the built mesh")

add("P18", "Loading geometry is all or nothing",
 "Loading input geometry returns an error whenever the reader fails, at whatever byte, the input contains no triangles, or it is malformed (unreadable numbers, faces naming vertices that are not there), and builds attempted after a failed load report failure instead of producing a mesh; a successful load yields the same vertices, triangles and bounds however the reader delivers the bytes. "
 "A builder whose load failed, or that held other geometry before, behaves after the next successful load exactly like a new builder.",
 ["fault_sequences", "schedules", "histories"],
 "every read-failure offset and every chunking, sequences of failing and succeeding loads and builds on one builder",
 "Tests load complete files once into fresh builders.",
 ["recast/inputgeom.go", "recast/meshloaderobj.go", "sample/solomesh/builder.go", "sample/tilemesh/builder.go"],
 [("OBJ load", "recast/meshloaderobj.go Load"), ("geometry reset", "recast/inputgeom.go LoadOBJMesh"), ("build precondition", "Build in sample/*/builder.go")],
 "errors, InputGeom accessors, Build results")

add("P19", "The command-line tool never loses or fakes an output file",
 "The build and config commands report success only if the output file holds the complete result; any input, output or configuration failure ends with an error message and a non-zero exit status. "
 "An existing output file is replaced only after the user confirms, and stays untouched if the user declines, just presses enter, or input ends; the infos command accepts exactly the files that load. "
 "No combination of missing, unreadable, failing or truncated files or of terminal input makes the tool crash or hang.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of command invocations over a simulated file system and terminal with faults at every operation and arbitrary terminal input including end-of-file",
 "The commands have no tests at all.",
 ["cmd/recast/cmd/build.go", "cmd/recast/cmd/config.go", "cmd/recast/cmd/infos.go", "cmd/recast/cmd/utils.go", "detour/mesh.go"],
 [("commands", "cmd/recast/cmd/*.go"), ("confirmation", "cmd/recast/cmd/utils.go askForConfirmation"), ("save", "detour/mesh.go SaveToFile")],
 "exit status, standard output, files")

add("P20", "Build timers and log account for exactly what happened",
 "A build context's timer accumulates precisely the time that passed between its start and stop calls, independently of other timers and contexts, is -1 while timers are disabled or it was never run since the last reset, and costs nothing else; the log keeps messages in order with their category, up to its capacity, and drops later ones without failing. "
 "Switching logging or timing off makes the respective calls do nothing. Each stage of a build accounts for the time it took under its own timer and no other, and the summary of build times in the log reports exactly the timers that ran.",
 ["schedules", "histories"],
 "all interleavings of start, stop, reset, enable/disable, log and dump calls on several contexts and all clock advances between them",
 "Tests use a context only as a pass-through; nothing observes time.",
 ["recast/buildcontext.go", "recast/dump.go", "recast/filter.go", "recast/heightfield.go"],
 [("timers", "recast/buildcontext.go StartTimer, StopTimer, AccumulatedTime"), ("log", "recast/buildcontext.go log, DumpLog")],
 "AccumulatedTime, LogCount, LogText, DumpLog output")

add("P27", "Walkable ground is covered and joined, however the mesh was built",
"After a build, and after any sequence of building and removing single tiles, open ground is covered: at a place from which an agent of the configured size can move in every direction (level ground, ramps within the slope limit, steps up to the climb, enough headroom), well away from edges, walls and ledges, the mesh has exactly one polygon per height one can stand at, in the tiles present; where there is nothing to stand on, where the slope is too steep, the headroom too low, an edge closer than the agent's radius, or a volume marked not walkable, it has none. Ground inside marked volumes has the area of the last of them. "
"Places with open ground between them are joined by links, within a tile and across the borders of tiles, and FindPath leads from one to the other; places that are separated by gaps, by steps well beyond the climb or by absent tiles are not joined. On level ground the mesh is at the ground's height, within the error allowed for the detail mesh and a few cells' height where there are steps and ramps about. Edges along walls are no longer than the edge length set, and a setting larger than anything in the geometry acts like one that is just large enough. This holds for open areas of any size and for several storeys above each other.",
["histories", "inputs", "configurations"],
"all terrains of level patches, ramps, steps, holes, slabs overhead and volumes aligned with the cells, all agent and mesh settings, single meshes and tiled ones, all sequences of tile builds and removals",
"Tests compare a few sample builds with recorded results; no test relates the mesh to the ground.",
["recast/rasterization.go", "recast/filter.go", "recast/area.go", "recast/region.go", "recast/contour.go", "recast/mesh.go", "sample/tilemesh/builder.go", "sample/solomesh/builder.go", "detour/mesh.go"],
[("walkability", "recast/filter.go, recast/area.go ErodeWalkableArea"), ("regions, contours, polygons", "recast/region.go BuildRegionsMonotone, recast/contour.go BuildContours, recast/mesh.go BuildPolyMesh"), ("tile borders", "sample/tilemesh/builder.go buildTileMesh, detour/mesh.go connectExtLinks")],
"polygons and links of the NavMesh returned by Build")

# ---- properties that matter but have no schedule, clock, fault or history in them
def na(id, title, statement, qtext, why, files, mech):
    add(id, title, statement, ["inputs", "configurations"], qtext, why, files, mech)
na("P21", "Voxelisation covers the input triangles",
 "Every heightfield column a triangle's footprint touches contains a span covering the triangle's height range there, spans never overlap within a column, and a span is walkable only if a triangle within the slope limit supports it.",
 "all triangle soups and cell sizes", "Tests rasterise fixed meshes and compare goldens.",
 ["recast/rasterization.go", "recast/heightfield.go", "recast/recast.go"], [("rasterise", "recast/rasterization.go RasterizeTriangles")])
na("P22", "Only ground the agent fits on stays walkable",
 "After filtering and erosion a span is walkable only if it has the agent's headroom, no drop beyond the climb height beside it and lies at least the agent radius from any obstacle or ledge.",
 "all heightfields and agent dimensions", "Tests compare golden meshes of a few levels only.",
 ["recast/filter.go", "recast/area.go", "recast/heightfield.go"], [("filters", "recast/filter.go"), ("erosion", "recast/area.go ErodeWalkableArea")])
na("P23", "Regions and contours partition the walkable surface",
 "Region building assigns every sufficiently large walkable area to exactly one region without overlap, and the contours traced from it are closed, simple and share identical vertices along common borders.",
 "all compact heightfields and region/contour settings", "Tests compare goldens of a few levels.",
 ["recast/region.go", "recast/contour.go"], [("regions", "recast/region.go BuildRegionsMonotone"), ("contours", "recast/contour.go BuildContours")])
na("P24", "Polygon meshes are convex, consistent and faithful in height",
 "Every polygon of a built mesh is convex with at most the configured number of vertices, polygons do not overlap, adjacency is mutual along identical edges, and the detail mesh stays within the configured error of the voxel surface.",
 "all contour sets and settings", "Tests compare goldens of a few levels.",
 ["recast/mesh.go", "recast/polymesh.go", "recast/meshdetail.go"], [("polygonise", "recast/mesh.go BuildPolyMesh"), ("detail", "recast/meshdetail.go BuildPolyMeshDetail")])
na("P25", "Geometric primitives are numerically sound",
 "Segment intersection, point-to-segment and point-in-polygon distances, triangle area signs and height interpolation agree with exact arithmetic up to float rounding for every non-degenerate input and are well defined for degenerate ones.",
 "all float inputs", "A few hand-picked vectors are tested.",
 ["detour/common.go", "detour/poly.go", "recast/recast.go"], [("primitives", "detour/common.go")])
na("P26", "Triangle chunking returns every triangle of a rectangle",
 "Querying the chunked triangle mesh with a rectangle returns chunks that together contain every input triangle overlapping the rectangle, each triangle being stored exactly once.",
 "all triangle soups and rectangles", "Exercised only indirectly by golden builds.",
 ["recast/chunkytrimesh.go"], [("chunk tree", "recast/chunkytrimesh.go createChunkyTriMesh, ChunksOverlappingRect")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
