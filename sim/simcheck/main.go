// Command simcheck runs go-detour under deterministic simulation.
//
//	simcheck run    -prop P01 -tier quick -seed 1      search (spawns workers)
//	simcheck replay FILE                               reproduce a violation
//	simcheck one    -prop P01 -seed 1 -index 7         show one run
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Mode     string   `json:"mode"` // choices | seed (process died: rerun by seed)
	Choices  []uint32 `json:"choices"`
	Original int      `json:"original_choices"`
	LogHash  string   `json:"log_hash"`
	Note     string   `json:"note,omitempty"`
	Trace    []string `json:"trace"`
}

type stats struct {
	Runs, Skipped, NonTrivial, Steps, Ops, Switches, SimTime, Choices int64
	Rechecked, Mismatch                                               int64
	Faults, Probes, Skips                                             map[string]int64
	MaxOps                                                            int64
}

type message struct {
	Type   string      `json:"type"` // stats | violation | broken
	Stats  *stats      `json:"stats,omitempty"`
	Replay *replayFile `json:"replay,omitempty"`
	Text   string      `json:"text,omitempty"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: simcheck run|replay|one|list")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	if os.Getenv("SIMKNOWN") == "" {
		if exe, err := os.Executable(); err == nil {
			os.Setenv("SIMKNOWN", filepath.Join(filepath.Dir(exe), "..", "known_findings.txt"))
		}
	}
	switch os.Args[1] {
	case "run":
		runParent(os.Args[2:])
	case "worker":
		runWorker(os.Args[2:])
	case "replay":
		runReplay(os.Args[2:])
	case "one":
		runOne(os.Args[2:])
	case "hashes":
		runHashes(os.Args[2:])
	case "list":
		var l []string
		for id := range props {
			l = append(l, id)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	default:
		os.Exit(2)
	}
}

func getProp(id string) *Prop {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	return p
}

// ---- worker ------------------------------------------------------------------

func runWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	stride := fs.Int("stride", 1, "")
	to := fs.Int("to", 0, "")
	state := fs.String("state", "", "")
	secs := fs.Float64("secs", 100, "")
	fs.Parse(args)
	p := getProp(*prop)
	out := bufio.NewWriter(os.Stdout)
	emit := func(m message) {
		b, _ := json.Marshal(m)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	sf, err := os.Create(*state)
	if err != nil {
		os.Exit(2)
	}
	st := &stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Skips: map[string]int64{}}
	var hashes, states []uint64
	seen, seenS := map[uint64]bool{}, map[uint64]bool{}
	start := time.Now()
	for i := *from; i < *to; i += *stride {
		if time.Since(start).Seconds() > *secs {
			break
		}
		sf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		s0 := steps()
		o := execute(p, *tier, *seed, i, nil, false, false)
		r := o.R
		st.Runs++
		st.Steps += steps() - s0
		st.Ops += r.Ops
		if r.Ops > st.MaxOps {
			st.MaxOps = r.Ops
		}
		st.Switches += r.Switches
		st.SimTime += r.SimTime
		st.Choices += int64(len(o.Choices))
		for k, v := range r.Faults {
			st.Faults[k] += v
		}
		for k, v := range r.Probes {
			st.Probes[k] += v
		}
		if o.Broken != "" {
			emit(message{Type: "broken", Text: fmt.Sprintf("index %d: %s", i, o.Broken)})
			os.Exit(2)
		}
		if o.Skipped != "" {
			st.Skipped++
			st.Skips[o.Skipped]++
		}
		if r.nontriv && o.Skipped == "" {
			st.NonTrivial++
			if !seen[r.hash] {
				seen[r.hash] = true
				hashes = append(hashes, r.hash)
			}
		}
		for h := range r.States {
			if !seenS[h] {
				seenS[h] = true
				states = append(states, h)
			}
		}
		if o.V != nil {
			c := shrink(p, *tier, o.Choices, o.V.Class, 25*time.Second)
			f := execute(p, *tier, 0, 0, c, true, true)
			note := ""
			if f.V == nil || f.V.Class != o.V.Class {
				c = o.Choices
				f = execute(p, *tier, 0, 0, c, true, true)
				if f.V == nil {
					f = o
					note = "not reproduced in-process by its own decisions: the code under test is nondeterministic"
				}
			}
			emit(message{Type: "violation", Replay: &replayFile{Property: p.ID, Tier: *tier, Seed: *seed, Index: i,
				Class: f.V.Class, Message: f.V.Msg, Mode: "choices", Choices: c, Original: len(o.Choices),
				LogHash: fmt.Sprintf("%016x", f.R.hash), Trace: f.R.Trace, Note: note}})
			break
		}
		// Determinism self-check on a sample.
		if n := (i - *from) / *stride; n < 3 || n%64 == 0 {
			o2 := execute(p, *tier, *seed, i, nil, false, false)
			st.Rechecked++
			if o2.R.hash != r.hash {
				st.Mismatch++
			}
		}
	}
	emit(message{Type: "stats", Stats: st})
	writeU64(*state+".h", hashes)
	writeU64(*state+".s", states)
}

func writeU64(path string, l []uint64) {
	b := make([]byte, 8*len(l))
	for i, h := range l {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	os.WriteFile(path, b, 0644)
}

func readU64(path string, into map[uint64]struct{}) {
	b, _ := os.ReadFile(path)
	for i := 0; i+8 <= len(b); i += 8 {
		into[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// ---- parent ------------------------------------------------------------------

func runParent(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	rdir := fs.String("replays", "replays", "")
	known := fs.String("known", "", "")
	runsF := fs.Int("runs", 0, "")
	secsF := fs.Float64("secs", 0, "")
	workers := fs.Int("workers", 0, "")
	fs.Parse(args)
	if *known == "" {
		*known = os.Getenv("SIMKNOWN")
	}
	if a, err := filepath.Abs(*known); err == nil {
		os.Setenv("SIMKNOWN", a)
	}
	p := getProp(*prop)
	start := time.Now()
	total, secs := p.Quick, 170.0
	if *tier == "thorough" {
		total, secs = p.Full, 780.0
	}
	if *runsF > 0 {
		total = *runsF
	}
	if *secsF > 0 {
		secs = *secsF
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if *workers > 0 {
		nw = *workers
	}
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()

	var mu sync.Mutex
	var viol *replayFile
	var broken []string
	var all []*stats
	cmds := make([]*exec.Cmd, nw)
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		sp := filepath.Join(tmp, "w"+strconv.Itoa(w))
		c := exec.Command(self, "worker", "-prop", p.ID, "-tier", *tier, "-seed", fmt.Sprint(*seed),
			"-from", fmt.Sprint(w), "-stride", fmt.Sprint(nw), "-to", fmt.Sprint(total), "-state", sp, "-secs", fmt.Sprint(secs))
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var errb strings.Builder
		c.Stderr = &limited{b: &errb}
		pipe, _ := c.StdoutPipe()
		if err := c.Start(); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		cmds[w] = c
		wg.Add(1)
		go func() {
			defer wg.Done()
			done := make(chan struct{})
			hung := false
			go func() { // watchdog
				last, since := "", time.Now()
				for {
					select {
					case <-done:
						return
					case <-time.After(2 * time.Second):
					}
					b, _ := os.ReadFile(sp)
					if string(b) != last {
						last, since = string(b), time.Now()
					} else if time.Since(since) > 300*time.Second {
						hung = true
						c.Process.Kill()
						return
					}
				}
			}()
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			got := false
			for sc.Scan() {
				var m message
				if json.Unmarshal(sc.Bytes(), &m) != nil {
					continue
				}
				mu.Lock()
				switch m.Type {
				case "stats":
					all = append(all, m.Stats)
					got = true
				case "broken":
					broken = append(broken, m.Text)
					got = true
				case "violation":
					if viol == nil {
						viol = m.Replay
					}
					stop = true
					got = true
				}
				mu.Unlock()
				if m.Type == "violation" {
					for j, o := range cmds {
						if j != w && o != nil && o.Process != nil {
							o.Process.Kill()
						}
					}
				}
			}
			c.Wait()
			close(done)
			mu.Lock()
			defer mu.Unlock()
			if !got && !stop {
				b, _ := os.ReadFile(sp)
				idx, _ := strconv.Atoi(strings.TrimSpace(string(b)))
				cls, msg := "process-death", "the process died during the run: "+firstLines(errb.String(), 12)
				if hung {
					cls, msg = "hang", "the run made no progress for 300 s of wall-clock time"
				}
				if strings.Contains(msg, "verifsim") && !strings.Contains(msg, "go-detour/detour") && !hung && errb.Len() == 0 {
					broken = append(broken, msg)
				} else if viol == nil {
					viol = &replayFile{Property: p.ID, Tier: *tier, Seed: *seed, Index: idx, Class: cls, Message: msg, Mode: "seed"}
				}
			}
		}()
	}
	wg.Wait()

	// merge
	tot := &stats{Faults: map[string]int64{}, Probes: map[string]int64{}, Skips: map[string]int64{}}
	for _, s := range all {
		tot.Runs += s.Runs
		tot.Skipped += s.Skipped
		tot.NonTrivial += s.NonTrivial
		tot.Steps += s.Steps
		tot.Ops += s.Ops
		tot.Switches += s.Switches
		tot.SimTime += s.SimTime
		tot.Choices += s.Choices
		tot.Rechecked += s.Rechecked
		tot.Mismatch += s.Mismatch
		if s.MaxOps > tot.MaxOps {
			tot.MaxOps = s.MaxOps
		}
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Probes {
			tot.Probes[k] += v
		}
		for k, v := range s.Skips {
			tot.Skips[k] += v
		}
	}
	hs, ss := map[uint64]struct{}{}, map[uint64]struct{}{}
	for w := 0; w < nw; w++ {
		readU64(filepath.Join(tmp, "w"+strconv.Itoa(w)+".h"), hs)
		readU64(filepath.Join(tmp, "w"+strconv.Itoa(w)+".s"), ss)
	}
	// The same seeds in a fresh process must give the same histories.
	freshN, freshBad := 0, 0
	if viol == nil && len(broken) == 0 {
		n := 12
		if n > total {
			n = total
		}
		a := hashesOf(self, p.ID, *tier, *seed, n)
		b := hashesOf(self, p.ID, *tier, *seed, n)
		for i := 0; i < n && i < len(a) && i < len(b); i++ {
			freshN++
			if a[i] != b[i] {
				freshBad++
			}
		}
	}
	wall := time.Since(start).Seconds()
	nv := 0
	if viol != nil {
		nv = 1
	}
	if *evid != "" && len(broken) == 0 {
		writeEvidence(p, *evid, *tier, *seed, tot, len(hs), len(ss), wall, nv, freshN, freshBad, total, self)
	}
	os.RemoveAll(tmp)
	if len(broken) > 0 {
		fmt.Println("CHECK ERROR:", broken[0])
		os.Exit(2)
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial histories, %d states), %d steps, %.1fs; faults %v; skipped %d\n",
		p.ID, tot.Runs, len(hs), len(ss), tot.Steps, wall, compact(tot.Faults), tot.Skipped)
	if tot.Mismatch+int64(freshBad) > 0 {
		fmt.Printf("note: %d of %d repeated runs differed: the code under test is not deterministic under the simulator\n",
			tot.Mismatch+int64(freshBad), tot.Rechecked+int64(freshN))
	}
	kf := loadKnown(*known, p.ID)
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if viol == nil {
		return
	}
	// store, then prove the replay in a fresh process
	os.MkdirAll(*rdir, 0755)
	path := filepath.Join(*rdir, fmt.Sprintf("%s-%d-%d.json", p.ID, *seed, viol.Index))
	save := func() {
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, b, 0644)
	}
	save()
	c := exec.Command(self, "replay", path)
	outb, _ := c.CombinedOutput()
	if c.ProcessState != nil && c.ProcessState.ExitCode() != 1 {
		viol.Note += " the replay in a fresh process did not end the same way: " + firstLines(string(outb), 3)
		save()
	}
	if abs, err := filepath.Abs(path); err == nil {
		path = abs
	}
	fmt.Printf("%s: %s\n", viol.Class, viol.Message)
	for _, l := range tailLines(viol.Trace, 40) {
		fmt.Println("   ", l)
	}
	if viol.Note != "" {
		fmt.Println("note:", viol.Note)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	os.Exit(1)
}

func loadKnown(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+id+" "))
		}
	}
	return out
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func tailLines(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func compact(m map[string]int64) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	var b strings.Builder
	for i, x := range k {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%s=%d", x, m[x])
	}
	return b.String()
}

func hashesOf(self, prop, tier string, seed uint64, n int) []string {
	c := exec.Command(self, "hashes", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-n", fmt.Sprint(n))
	b, _ := c.Output()
	return strings.Fields(string(b))
}

func runHashes(args []string) {
	fs := flag.NewFlagSet("hashes", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 1, "")
	fs.Parse(args)
	end := time.Now().Add(15 * time.Second)
	for i := 0; i < *n && time.Now().Before(end); i++ {
		o := execute(getProp(*prop), *tier, *seed, i, nil, false, false)
		fmt.Printf("%016x\n", o.R.hash)
	}
}

func runReplay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	p := getProp(f.Property)
	var o Outcome
	if f.Mode == "seed" {
		o = execute(p, f.Tier, f.Seed, f.Index, nil, false, true)
	} else {
		o = execute(p, f.Tier, 0, 0, f.Choices, true, true)
	}
	for _, l := range o.R.Trace {
		fmt.Println(l)
	}
	if o.Broken != "" {
		fmt.Println("CHECK ERROR:", o.Broken)
		os.Exit(2)
	}
	if o.V == nil {
		fmt.Println("replay: no violation")
		os.Exit(0)
	}
	same := o.V.Class == f.Class && fmt.Sprintf("%016x", o.R.hash) == f.LogHash
	fmt.Printf("replay: %s (identical history: %v)\n", o.V.Error(), same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
	if !same {
		os.Exit(3)
	}
	os.Exit(1)
}

func runOne(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("index", 0, "")
	fs.Parse(args)
	o := execute(getProp(*prop), *tier, *seed, *idx, nil, false, true)
	for _, l := range o.R.Trace {
		fmt.Println(l)
	}
	fmt.Printf("hash %016x choices %d skipped %q broken %q violation %v probes %v faults %v\n", o.R.hash, len(o.Choices), o.Skipped, o.Broken, o.V, o.R.Probes, o.R.Faults)
}
