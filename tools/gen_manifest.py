#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks built so far."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
built = subprocess.run([V + "/.build/simcheck", "list"], capture_output=True, text=True).stdout.split()
PURE = {
 "P21": "rasterisation is a pure function of one input: no schedule, clock, I/O, fault or history can change it, so a simulator has nothing to decide (repeatability and isolation of whole builds is P17, state carried between builds P16)",
 "P22": "filtering and erosion are pure functions of a heightfield; simulation has no nondeterminism to control here",
 "P23": "region and contour construction are pure functions of a compact heightfield; simulation has no nondeterminism to control here",
 "P24": "polygon and detail mesh construction are pure functions of a contour set; simulation has no nondeterminism to control here",
 "P25": "stateless arithmetic; needs input-space methods (proof, fuzzing), not scheduling or fault injection",
 "P26": "an immutable index built once and read without state; simulation has no nondeterminism to control here",
}
NOTE = {
 "P01": "Seeded search; an independent parser of the documented byte layout plus a dump comparison decide each run. Trusts the parser and the instrumentation overlay; tiles are synthetic but go through the real creation, encode and decode code.",
 "P02": "Seeded search over every truncation/error offset class and chunking of drawn files; exact accept/reject oracle from an independent parser.",
 "P03": "Seeded search over fault positions in a simulated file system with crash and durable-prefix semantics; all create/write/close calls of the save go through it.",
 "P04": "Seeded search over long add/remove/restore histories against an independent registry model.",
 "P05": "Seeded search over histories that recycle slots (including whole cycles of the generation counter) against an independent model of issued references.",
 "P06": "Seeded search over streaming histories against an adjacency computed from integer geometry; borders between one and three climb heights are not judged.",
 "P07": "Seeded search over streaming histories with off-mesh connections against exact landing geometry; landings within a tenth of a voxel of a border are not judged.",
 "P08": "Seeded search over meshes, histories, filters and node budgets; reachability and connectivity decided by an independent graph of the links.",
 "P09": "Seeded search over meshes, histories and filters; cost is recomputed with the recorded filter calls and compared with an independent shortest path over the model graph within the documented heuristic.",
 "P10": "Seeded search over slicings of a search with other queries in between; decided by the same search in one go, plus an independent graph.",
 "P11": "Seeded search over tile changes between slices; decided by the record of every link that existed during the search.",
 "P12": "Seeded search over corridors of streamed meshes (fresh, stale, cut short by unloading, small buffers); length decided by an independent taut-string computation in double precision, order and marks by the corridor; rounded portal limits are tolerated for containment only.",
 "P13": "Seeded search over rays on streamed meshes with reused hit records and small buffers; decided by an independent walk of the line over the links; rays passing within rounding of a vertex or portal end are judged up to there.",
 "P14": "Seeded search over streamed meshes with and without bounding-volume trees and detail meshes; decided by brute force over every loaded polygon; candidates whose distances or boxes tie within rounding are all accepted.",
 "P15": "Seeded search over interleavings of query tasks preempted before single statements; decided by the same task run alone on an equal mesh and by a dump of the mesh.",
 "P16": "Seeded search over build, rebuild, remove, edit histories of one builder; decided by a fresh builder for the same input (differential) and an independent record of what was built when.",
 "P17": "Seeded search over clocks, log and timer switches and interleavings of builders; decided by byte equality with an isolated build and by dumps of the inputs.",
 "P18": "Seeded search over read faults at drawn bytes and over histories of loads; decided by an independent parser of the documented subset and a fresh builder.",
 "P19": "Seeded search over simulated file systems, faults at drawn operations and terminal input; the real command code runs in-process; decided by a model of what each command may do to each file.",
 "P27": "Seeded search over terrains, settings and histories of tile builds and removals; decided by the walkable ground computed from the drawing alone (sure and maybe levels per cell), with margins for the documented radius, climb and simplification.",
 "P20": "Seeded search over clocks, switches and interleavings of contexts; decided by a reference timer and log.",
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in built:
        checks.append({"property": p,
          "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
          "technique": "deterministic simulation with fault injection (seeded schedule and fault search against a reference model)",
          "level": "exploration",
          "level_note": NOTE.get(p, "Seeded search over simulated histories, schedules and faults against an independent oracle.")})
    else:
        na.append({"property": p, "reason": PURE.get(p, "its simulation is not built yet")})
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: scheduling points and stand-ins for os, time, log and fmt output are put in by a source-to-source overlay (sim/instrument) at build time."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
