package main

import (
	"bytes"
	"errors"
	"syscall"

	rt "github.com/arl/go-detour/verifsimrt"

	"github.com/arl/go-detour/detour"
)

// fsPlan injects faults into the simulated file system at chosen operations.
type fsPlan struct {
	r      *R
	at     int // index of the operation that is hit (-1 none)
	kind   int
	frac   int // how much of the transfer happens, in 1/16
	errno  error
	n      int
	struck string
	only   string // restrict to one operation kind
	sticky bool   // the medium stays broken
}

func (p *fsPlan) fn(op, path string, size int) rt.Fault {
	if p.only != "" && p.only != op {
		return rt.Fault{}
	}
	i := p.n
	p.n++
	if i != p.at && !(p.sticky && p.struck != "" && i > p.at) {
		return rt.Fault{}
	}
	f := rt.Fault{Kind: p.kind, Errno: p.errno, N: size * p.frac / 16}
	if op == "read" && p.kind == rt.FShort && (size < 2 || f.N == 0) {
		return rt.Fault{}
	}
	if p.struck == "" {
		p.struck = op
		name := map[int]string{rt.FErr: "error", rt.FShort: "short", rt.FCrash: "crash"}[p.kind]
		p.r.Fault(op + "-" + name)
	}
	return f
}

var errnos = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EDQUOT, syscall.EINTR}

func runP03(r *R) {
	c := defaultCfg()
	c.MaxVariants = 2
	w := genWorld(r, c)
	maxTiles := len(w.Locs) + r.Draw(3)
	s := newStream(r, w, maxTiles, drawMaxPolys(r, w, maxTiles))
	s.Churn(r.Draw(3 * len(w.Locs)))
	want := save(r, s.M)
	if f, err := parseFile(want); err != nil || f.TotalSize != len(want) || len(f.Tiles) != len(s.Loaded) {
		r.Fail("incomplete-save", "saving reported success but the %d bytes written are not the whole mesh of %d tiles", len(want), len(s.Loaded))
	}
	before := dumpMesh(s.M)
	path := []string{"mesh.bin", "/tmp/m.bin", "nav mesh"}[r.Draw(3)]
	var old []byte
	hasOld := false
	ops := 1 + r.Draw(5)
	for i := 0; i < ops; i++ {
		old, hasOld = nil, false
		if b, ok := rt.GetFile(path); ok {
			old, hasOld = dup(b), true
		} else if r.Chance(1, 3) {
			// something else is there already: sometimes longer than the mesh
			old = make([]byte, r.Draw(2*len(want)+10))
			for j := range old {
				old[j] = byte(j)
			}
			rt.PutFile(path, old)
			hasOld = true
		}
		if r.Chance(1, 3) {
			// writer
			sw := &simWriter{failAt: -1, err: errors.New("simulated write error")}
			if r.Chance(3, 4) {
				sw.failAt = r.Draw(len(want) + 1)
				if r.Chance(1, 3) {
					sw.failAt = len(want) - r.Draw(mini(len(want), 40))
				}
				if sw.failAt >= len(want) {
					sw.failAt = -1
				}
			}
			var err error
			r.Call("ToWriter", func() { err = s.M.ToWriter(sw) })
			if sw.struck {
				r.Fault("writer-error")
			}
			r.Logf("ToWriter failing at %d -> error %v", sw.failAt, err != nil)
			if sw.struck && err == nil {
				r.Fail("lost-write-error", "the writer failed after %d of %d bytes but saving reported success", sw.failAt, len(want))
			}
			if !sw.struck && err != nil {
				r.Fail("save-error", "saving to a writer that accepts everything failed: %v", err)
			}
			if err == nil && !bytes.Equal(sw.buf, want) {
				r.Fail("save-content", "saving again wrote other bytes (first difference at %d)", firstDiff(sw.buf, want))
			}
		} else {
			plan := &fsPlan{r: r, at: -1}
			switch r.Draw(7) {
			case 0: // no fault
			case 1:
				plan.only, plan.at, plan.kind = "create", 0, rt.FErr
			case 2:
				plan.only, plan.kind = "write", rt.FErr
				plan.at = r.Draw(2*len(s.Loaded) + 1)
			case 3:
				plan.only, plan.kind = "write", rt.FShort
				plan.at = r.Draw(2*len(s.Loaded) + 1)
				plan.frac = r.Draw(16)
			case 4:
				plan.only, plan.at, plan.kind = "close", 0, rt.FErr
			case 5:
				plan.kind = rt.FCrash
				plan.at = r.Draw(2*len(s.Loaded) + 3)
				plan.frac = r.Draw(17)
			case 6:
				rt.Quota = r.Draw(len(want) + 1)
				if r.Chance(1, 2) {
					rt.Quota = maxi(0, len(want)-r.Draw(20))
				}
			}
			plan.errno = errnos[r.Draw(len(errnos))]
			plan.sticky = r.Chance(1, 3)
			rt.FaultFn = plan.fn
			full := false
			rt.OpHook = func(op, p string, n int, err error) {
				if op == "write" && errors.Is(err, syscall.ENOSPC) && plan.struck == "" {
					full = true
				}
			}
			quota := rt.Quota
			var err error
			out := r.Try("SaveToFile", DefaultBudget, func() { err = s.M.SaveToFile(path) })
			rt.FaultFn, rt.OpHook = nil, nil
			rt.Quota = -1
			if full {
				r.Fault("disk-full")
			}
			got, ok := rt.GetFile(path)
			switch o := out.(type) {
			case rt.Crash:
				rt.CrashFS()
				r.Logf("crash in %s; file present %v, %d of %d bytes", o.Op, ok, len(got), len(want))
				if ok && !bytes.Equal(got, want) && !(hasOld && bytes.Equal(got, old)) {
					m, err := decode(r, drawReader(r, got))
					if err == nil || m != nil {
						r.Fail("torn-accepted", "after a crash during the save the %d bytes left of %d were accepted as a mesh", len(got), len(want))
					}
					r.Probe("torn-file-rejected")
				}
			case rt.Exit:
				r.Fail("process-exit", "saving ended the process (%s)", o.Via)
			default:
				r.Logf("SaveToFile struck %q quota %d -> error %v, %d bytes", plan.struck, quota, err != nil, len(got))
				if err == nil {
					if plan.struck != "" || full {
						r.Fail("lost-file-error", "a failure of %q (disk full: %v) during the save was not reported", plan.struck, full)
					}
					if !ok || !bytes.Equal(got, want) {
						r.Fail("incomplete-save", "the save reported success but the file holds %d bytes of %d (first difference at %d)", len(got), len(want), firstDiff(got, want))
					}
				} else if plan.struck == "" && !full {
					r.Fail("save-error", "saving to a working disk failed: %v", err)
				}
				if n := rt.OpenFiles(); n != 0 {
					r.Fail("descriptor-leak", "%d file(s) left open by the save (error %v)", n, err)
				}
			}
			if plan.kind == rt.FCrash && plan.struck != "" {
				rt.CrashFS()
			}
		}
		if after := dumpMesh(s.M); after != before {
			r.Fail("save-mutates", "saving changed the mesh: %s", diffText(after, before))
		}
	}
	// once faults stop, a save succeeds and loads back
	var err error
	r.Call("SaveToFile", func() { err = s.M.SaveToFile(path) })
	got, _ := rt.GetFile(path)
	if err != nil || !bytes.Equal(got, want) {
		r.Fail("no-recovery", "a save without faults afterwards gave error %v and %d of %d bytes", err, len(got), len(want))
	}
	if n := rt.OpenFiles(); n != 0 {
		r.Fail("descriptor-leak", "%d file(s) left open by the save", n)
	}
	m, err := decode(r, drawReader(r, got))
	if err != nil {
		r.Fail("load-refused", "the saved file was refused: %v", err)
	}
	if x := dumpMesh(m); x != before {
		r.Fail("roundtrip", "the saved file loads as a different mesh: %s", diffText(x, before))
	}
	r.State(s.StateKey())
	_ = detour.Success
}

func init() {
	register(&Prop{ID: "P03", Run: runP03, Quick: 80000, Full: 500000,
		Rule: "A streamed mesh is saved repeatedly to a failing writer or to files of a simulated file system whose operations fail, write short, run out of space or crash the process at a drawn point, over absent, longer or shorter existing files.",
		Real: commonReal, Stub: append([]string{"package os is replaced by an in-memory file system with fault injection; a crash keeps what was written before it"}, commonStub...),
		FaultKinds: []string{"writer-error", "create-error", "write-error", "write-short", "close-error", "disk-full", "create-crash", "write-crash", "close-crash"}})
}
