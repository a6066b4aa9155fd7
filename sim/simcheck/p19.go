package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
	yaml "gopkg.in/yaml.v2"

	rt "github.com/arl/go-detour/verifsimrt"

	"github.com/arl/go-detour/cmd/recast/cmd"
	"github.com/arl/go-detour/detour"
	"github.com/arl/go-detour/recast"
	"github.com/arl/go-detour/sample/solomesh"
	"github.com/arl/go-detour/sample/tilemesh"
)

// cliPlan strikes one operation of an invocation.
type cliPlan struct {
	r      *R
	at, n  int
	only   string
	kind   int
	frac   int
	errno  error
	op     string // what was struck first
	hit    [][2]string
	sticky bool
}

func (p *cliPlan) fn(op, path string, size int) rt.Fault {
	if p.only != "" && p.only != op {
		return rt.Fault{}
	}
	i := p.n
	p.n++
	if i != p.at && !(p.sticky && p.op != "" && i > p.at) {
		return rt.Fault{}
	}
	f := rt.Fault{Kind: p.kind, Errno: p.errno, N: size * p.frac / 16}
	if op == "read" && p.kind == rt.FShort && (size < 2 || f.N == 0) {
		return rt.Fault{}
	}
	if p.op == "" {
		p.op = op
		p.r.Fault(op + "-" + map[int]string{rt.FErr: "error", rt.FShort: "short", rt.FCrash: "crash"}[p.kind])
	}
	if !(op == "read" && p.kind == rt.FShort) {
		p.hit = append(p.hit, [2]string{op, absPath(path)})
	}
	return f
}

// struck tells whether one of these operations failed on a file.
func (p *cliPlan) struck(path string, ops ...string) bool {
	if p == nil {
		return false
	}
	for _, h := range p.hit {
		for _, o := range ops {
			if h[0] == o && (path == "" || h[1] == path) {
				return true
			}
		}
	}
	return false
}

// hurts tells whether the fault is one the command has to cope with, not
// merely a read delivering less.
func (p *cliPlan) hurts() bool {
	return p != nil && len(p.hit) > 0
}

func drawPlan(r *R) *cliPlan {
	p := &cliPlan{r: r, at: -1}
	switch r.Draw(8) {
	case 0, 1, 2, 3:
		return p
	case 4:
		p.only = []string{"create", "write", "close", "stat", "open", "read"}[r.Draw(6)]
		p.at = r.Draw(3)
		if p.only == "write" {
			p.at = r.Draw(12)
		}
	case 5, 6:
		p.at = r.Draw(24)
	case 7:
		p.at = r.Draw(200)
	}
	p.kind = []int{rt.FErr, rt.FErr, rt.FShort, rt.FCrash}[r.Draw(4)]
	p.frac = r.Draw(17)
	p.errno = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}[r.Draw(3)]
	p.sticky = r.Chance(1, 3)
	return p
}

// cliRun is a user working with the tool in one directory.
type cliRun struct {
	r     *R
	good  map[string]bool // contents that are complete saved meshes
	goodL [][]byte
	libs  map[string][]byte // what the library makes of inputs
	cfgs  []string
	objs  []string
	outs  []string
}

type cliResult struct {
	code    int
	out     string
	crashed bool
}

func resetFlags(c *cobra.Command) {
	c.Flags().VisitAll(func(f *pflag.Flag) {
		f.Value.Set(f.DefValue)
		f.Changed = false
	})
	for _, k := range c.Commands() {
		resetFlags(k)
	}
}

// invoke runs the tool once, as a process of its own.
func (c *cliRun) invoke(args []string, stdin string, p *cliPlan) cliResult {
	r := c.r
	resetFlags(cmd.RootCmd)
	rt.Exited = false
	rt.Out = nil
	rt.In = []byte(stdin)
	rt.InErr = nil
	rt.InChunk = nil
	if r.Chance(1, 3) {
		rt.InChunk = func(n int) int { return r.Draw(n) }
	}
	if r.Chance(1, 8) {
		rt.InErr = syscall.EIO
	}
	cmd.RootCmd.SetArgs(args)
	cmd.RootCmd.SetOut(rt.Stdout)
	cmd.RootCmd.SetErr(rt.Stderr)
	if p != nil {
		rt.FaultFn = p.fn
	}
	out := r.Try("recast "+strings.Join(args, " "), buildBudget, cmd.Execute)
	rt.FaultFn = nil
	res := cliResult{out: string(rt.Out) + string(rt.LogOut)}
	rt.LogOut = nil
	switch v := out.(type) {
	case rt.Exit:
		res.code = v.Code
	case rt.Crash:
		res.crashed = true
	}
	rt.CrashFS()
	return res
}

func (c *cliRun) snapshot() map[string]string {
	m := map[string]string{}
	for _, p := range rt.ListFiles() {
		b, _ := rt.GetFile(p)
		m[p] = string(b)
	}
	return m
}

// answer is what a user typing this means: 1 yes, 0 no, -1 hard to say.
func answer(stdin string) int {
	for {
		i := strings.IndexByte(stdin, '\n')
		line, last := stdin, true
		if i >= 0 {
			line, last = stdin[:i], false
			stdin = stdin[i+1:]
		}
		if last {
			// input ends without enter
			if line != "" && strings.ContainsRune("yY", rune(line[0])) {
				return -1
			}
			return 0
		}
		if line == "" {
			return 0
		}
		switch line[0] {
		case 'y', 'Y':
			return 1
		case 'n', 'N':
			return 0
		}
	}
}

func (c *cliRun) drawStdin() string {
	r := c.r
	s := ""
	for n := r.Draw(3); n > 0; n-- {
		s += []string{"what?\n", "maybe", "ok\n", "0\n", "x"}[r.Draw(5)]
	}
	return s + []string{"y\n", "n\n", "\n", "", "Y\n", "N\n", "yes\n", "no\n", "y", "n", "q"}[r.Draw(11)]
}

// lib is what the library makes of the inputs: the complete result, nil if
// there is none.
func (c *cliRun) lib(typ string, cfg, obj []byte) []byte {
	k := typ + "\x00" + string(cfg) + "\x00" + string(obj)
	if b, ok := c.libs[k]; ok {
		return b
	}
	var out []byte
	var s recast.BuildSettings
	if yaml.Unmarshal(cfg, &s) == nil {
		b := newBuilder(typ == "tile", recast.NewBuildContext(false))
		b.SetSettings(s)
		var err error
		c.r.Call("LoadGeometry", func() { err = b.LoadGeometry(bytes.NewReader(obj)) })
		if err == nil {
			var m *detour.NavMesh
			ok := false
			c.r.CallB("Build", buildBudget, func() { m, ok = b.Build() })
			if ok {
				out = save(c.r, m)
				c.addGood(out)
			}
		}
	}
	c.libs[k] = out
	return out
}

func (c *cliRun) addGood(b []byte) {
	if !c.good[string(b)] {
		c.good[string(b)] = true
		c.goodL = append(c.goodL, b)
	}
}

func absPath(p string) string {
	if !filepath.IsAbs(p) {
		p = "/work/" + p
	}
	return filepath.Clean(p)
}

// judge applies what must hold for every invocation. out is the output file
// (if the command has one), complete what it has to hold after a success (nil:
// the command cannot succeed).
func (c *cliRun) judge(what string, before map[string]string, res cliResult, p *cliPlan, stdin, out string, complete func(got []byte) bool, quota bool) {
	r := c.r
	after := c.snapshot()
	po := ""
	if out != "" {
		po = absPath(out)
	}
	struck := p.hurts() || quota
	for f, d := range before {
		if f == po {
			continue
		}
		if got, ok := after[f]; !ok || got != d {
			r.Fail("other-file", "%s changed %s", what, f)
		}
	}
	for f := range after {
		if _, ok := before[f]; !ok && f != po && !struck {
			r.Fail("other-file", "%s left %s behind", what, f)
		}
	}
	old, existed := before[po]
	got, exists := after[po]
	touched := existed != exists || old != got
	if out == "" {
		touched, existed = false, false
	}
	ans := answer(stdin)
	if existed && ans == 0 {
		if touched {
			r.Fail("overwritten", "%s replaced the existing %s although the user answered %q", what, out, stdin)
		}
		r.Probe("declined")
	}
	if res.crashed {
		return
	}
	if res.code != 0 && strings.TrimSpace(res.out) == "" {
		r.Fail("silent-failure", "%s ends with status %d and no message", what, res.code)
	}
	can := complete != nil
	if res.code == 0 && out != "" {
		if (existed || out == "dir") && ans <= 0 && !touched {
			return // declined
		}
		if !can {
			r.Fail("faked-success", "%s ends with status 0 though it has no result", what)
		}
		if !exists {
			r.Fail("faked-success", "%s ends with status 0, but there is no %s", what, out)
		}
		if !complete([]byte(got)) {
			r.Fail("faked-success", "%s ends with status 0, but %s (%d bytes) does not hold the complete result", what, out, len(got))
		}
		if p.struck(po, "write", "create", "close", "sync") {
			r.Fail("faked-success", "%s ends with status 0 though writing %s failed: %v", what, out, p.hit)
		}
	}
	if res.code != 0 && out != "" && can && !struck && !(existed && ans <= 0) {
		r.Fail("spurious-failure", "%s ends with status %d (%s) for no reason", what, res.code, clipped(strings.TrimSpace(res.out)))
	}
}

func (c *cliRun) config(p *cliPlan) {
	r := c.r
	args := []string{"config"}
	typ := "solo"
	if r.Chance(2, 3) {
		typ = []string{"tile", "solo", "layers", ""}[[]int{0, 0, 1, 2, 3}[r.Draw(5)]]
		args = append(args, "--type", typ)
	}
	out := "recast.yml"
	if r.Chance(1, 2) {
		out = []string{"other.yml", "sub/x.yml", "dir", "level.obj", "recast.yml", "navmesh.bin"}[r.Draw(6)]
		args = append(args, out)
	}
	var want interface{}
	switch typ {
	case "solo":
		want = solomesh.DefaultSettings()
	case "tile":
		want = tilemesh.DefaultSettings()
	}
	stdin := c.drawStdin()
	quota := c.drawQuota(200)
	before := c.snapshot()
	res := c.invoke(args, stdin, p)
	rt.Quota = -1
	what := "recast " + strings.Join(args, " ")
	var complete func([]byte) bool
	if want != nil && out != "dir" && out != "sub/x.yml" {
		complete = func(b []byte) bool {
			var s recast.BuildSettings
			return yaml.UnmarshalStrict(b, &s) == nil && interface{}(s) == want
		}
	}
	if res.code == 0 && !res.crashed {
		r.Probe("config-ok")
	}
	c.judge(what, before, res, p, stdin, out, complete, quota)
	r.Logf("%s, %q: %d%s", what, stdin, res.code, map[bool]string{true: " crashed"}[res.crashed])
}

func (c *cliRun) drawQuota(n int) bool {
	if c.r.Chance(1, 8) {
		rt.Quota = c.r.Draw(n)
		c.r.Fault("disk-full")
		return true
	}
	return false
}

func (c *cliRun) build(p *cliPlan) {
	r := c.r
	args := []string{"build"}
	typ := "solo"
	if r.Chance(2, 3) {
		typ = []string{"tile", "solo", "layers"}[[]int{0, 0, 1, 2}[r.Draw(4)]]
		args = append(args, "--type", typ)
	}
	cfg := "recast.yml"
	if r.Chance(1, 2) {
		cfg = c.cfgs[r.Draw(len(c.cfgs))]
		args = append(args, "--config="+cfg)
	}
	obj := ""
	if r.Chance(9, 10) {
		obj = c.objs[r.Draw(len(c.objs))]
		if r.Chance(2, 3) {
			obj = c.objs[0]
		}
		args = append(args, "--input", obj)
	}
	out := "navmesh.bin"
	if r.Chance(1, 2) {
		out = c.outs[r.Draw(len(c.outs))]
		args = append(args, out)
	}
	cb, okC := rt.GetFile(cfg)
	ob, okO := rt.GetFile(obj)
	stdin := c.drawStdin()
	var want []byte
	if okC && okO && obj != "" && typ != "layers" {
		want = c.lib(typ, cb, ob)
	}
	quota := c.drawQuota(len(want) + 1000)
	before := c.snapshot()
	res := c.invoke(args, stdin, p)
	rt.Quota = -1
	what := "recast " + strings.Join(args, " ")
	var complete func([]byte) bool
	if want != nil && out != "dir" && out != "sub/mesh.bin" {
		complete = func(b []byte) bool { return bytes.Equal(b, want) }
	}
	if res.code == 0 && !res.crashed && complete != nil {
		r.Probe("build-ok")
	}
	c.judge(what, before, res, p, stdin, out, complete, quota)
	r.Logf("%s, %q: %d%s", what, stdin, res.code, map[bool]string{true: " crashed"}[res.crashed])
}

func (c *cliRun) infos(p *cliPlan) {
	r := c.r
	args := []string{"infos"}
	in := ""
	if r.Chance(11, 12) {
		l := rt.ListFiles()
		in = "missing.bin"
		switch {
		case r.Chance(1, 10):
			in = "dir"
		case len(l) > 0 && r.Chance(9, 10):
			in = l[r.Draw(len(l))]
		}
		if r.Chance(1, 3) {
			in = "navmesh.bin"
		}
		args = append(args, in)
	}
	b, ok := rt.GetFile(in)
	if in == "" {
		ok = false
	}
	before := c.snapshot()
	res := c.invoke(args, "", p)
	what := "recast " + strings.Join(args, " ")
	c.judge(what, before, res, p, "", "", nil, false)
	r.Logf("%s: %d%s", what, res.code, map[bool]string{true: " crashed"}[res.crashed])
	if res.crashed {
		return
	}
	loads := false
	if ok {
		var err error
		var m *detour.NavMesh
		r.Call("Decode", func() { m, err = detour.Decode(bytes.NewReader(b)) })
		loads = err == nil && m != nil
		if !loads && c.good[string(b)] {
			r.Fail("mesh-refused", "%s: a complete mesh does not load: %v", in, err)
		}
	}
	if res.code == 0 && !loads {
		r.Fail("infos", "%s ends with status 0, but the file does not load", what)
	}
	if res.code == 0 && p.struck("", "open", "read") {
		r.Fail("infos", "%s ends with status 0 though reading failed: %v", what, p.hit)
	}
	if res.code != 0 && loads && !p.hurts() {
		r.Fail("infos", "%s refuses a file that loads: %s", what, clipped(res.out))
	}
	if res.code == 0 {
		r.Probe("infos-ok")
	} else {
		r.Probe("infos-refused")
	}
}

// damage is what happens to files between invocations.
func (c *cliRun) damage() {
	r := c.r
	l := rt.ListFiles()
	if len(l) == 0 {
		return
	}
	f := l[r.Draw(len(l))]
	b, _ := rt.GetFile(f)
	switch r.Draw(3) {
	case 0:
		n := r.Draw(len(b) + 1)
		rt.PutFile(f, b[:n])
		r.Logf("%s is cut to %d of %d bytes", f, n, len(b))
		r.Fault("file-truncated")
	case 1:
		rt.DelFile(f)
		r.Logf("%s is deleted", f)
	case 2:
		if len(c.goodL) > 0 {
			rt.PutFile(f, c.goodL[r.Draw(len(c.goodL))])
			r.Logf("%s is replaced by a mesh", f)
		}
	}
}

func runP19(r *R) {
	c := &cliRun{r: r, good: map[string]bool{}, libs: map[string][]byte{}}
	g := genGeo(r, geoCfg{MaxN: 2})
	if len(g.T) > 100 {
		g = genGeo(r, geoCfg{MaxN: 2, Flat: true})
	}
	var bad []byte
	name, bad := drawBadText(r, g)
	put := func() {
		rt.PutFile("level.obj", g.Text)
		rt.PutFile("bad.obj", bad)
		rt.PutFile("cut.obj", g.Text[:r.Draw(len(g.Text))])
		rt.PutDir("dir")
		s := drawSettings(r)
		fitSettings(g, &s, 48)
		b, _ := yaml.Marshal(s)
		rt.PutFile("mine.yml", b)
		if r.Chance(1, 2) {
			rt.PutFile("recast.yml", b)
		}
		rt.PutFile("cut.yml", b[:r.Draw(len(b))])
		rt.PutFile("bad.yml", []byte([]string{"cellsize: [", "", "cellsize: many\n", "- 1\n", "cellsize: 0\n", "\x00"}[r.Draw(6)]))
	}
	put()
	c.objs = []string{"level.obj", "bad.obj", "cut.obj", "missing.obj", "dir"}
	c.cfgs = []string{"mine.yml", "recast.yml", "cut.yml", "bad.yml", "missing.yml", "dir", "other.yml"}
	c.outs = []string{"out.bin", "navmesh.bin", "sub/mesh.bin", "dir", "bad.obj", "mine.yml", "level.obj"}
	r.Logf("level.obj %d bytes, bad.obj: %s", len(g.Text), name)
	ops := 2 + r.Draw(8)
	for i := 0; i < ops; i++ {
		p := drawPlan(r)
		switch k := r.Draw(12); {
		case k < 5:
			c.build(p)
		case k < 7:
			c.config(p)
		case k < 9:
			c.infos(p)
		case k < 10:
			c.damage()
			continue
		case k < 11:
			args := [][]string{{}, {"help", "build"}, {"--help"}, {"infos", "--help"}, {"nosuch"}, {"build", "--nosuch"}, {"config", "--type"}}[r.Draw(7)]
			before := c.snapshot()
			res := c.invoke(args, "", nil)
			what := "recast " + strings.Join(args, " ")
			c.judge(what, before, res, nil, "", "", nil, false)
			if (len(args) > 0 && (args[0] == "nosuch" || args[len(args)-1] == "--nosuch" || args[len(args)-1] == "--type")) != (res.code != 0) {
				r.Fail("usage", "%s ends with status %d", what, res.code)
			}
		default:
			put()
		}
		if rt.OpenFiles() != 0 {
			r.Fail("harness", "open files after the process ended")
		}
		r.NonTrivial()
		r.State(i, fmt.Sprint(rt.ListFiles()), p.op, p.kind)
	}
}

func init() {
	register(&Prop{ID: "P19", Run: runP19, Quick: 60000, Full: 1500000,
		Rule:       "A user runs the real build, config and infos commands (and wrong invocations) in drawn order in one simulated directory with good, malformed, cut, missing and directory inputs, existing outputs, drawn terminal input (also ending early or failing), a full disk and faults at drawn file operations, including the death of the process; after each invocation the exit status, the output file and every other file are compared with a model of what the command may do, and the output with what the library makes of the same input.",
		Real:       append([]string{"cmd/recast/cmd (all commands), the cobra and YAML libraries (third party)"}, buildReal...),
		Stub:       []string{"os, io/ioutil: simulated file system, terminal and process exit", "fmt printing: simulated terminal", "time, log"},
		FaultKinds: []string{"open-error", "read-error", "read-short", "create-error", "write-error", "write-short", "write-crash", "close-error", "stat-error", "disk-full", "file-truncated"}})
}
