// Command instrument writes instrumented copies of the non-test sources of a
// Go module to a build directory together with an overlay file for go build.
//
//	instrument -repo /repo -simrt /verif/sim/simrt -out DIR -level 2
//
// level 2: scheduling points at every statement, I/O, clock, log and exit
// behind the simulator. level 1: I/O etc. only. level 0: runtime only.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rtPath = "github.com/arl/go-detour/verifsimrt"

var swaps = map[string][2]string{
	"os":        {"os", rtPath + "/simos"},
	"time":      {"time", rtPath + "/simtime"},
	"log":       {"log", rtPath + "/simlog"},
	"io/ioutil": {"ioutil", rtPath + "/simioutil"},
	"fmt":       {"fmt", rtPath + "/simfmt"},
	"sync":      {"sync", rtPath + "/simsync"},
	"math/rand": {"rand", rtPath + "/simrand"},
}

type edit struct {
	off, del int
	ins      string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	simrt := flag.String("simrt", "", "")
	out := flag.String("out", "", "")
	level := flag.Int("level", 2, "")
	flag.Parse()
	overlay := map[string]string{}
	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(2)
		}
	}
	// runtime
	die(filepath.Walk(*simrt, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*simrt, p)
		overlay[filepath.Join(*repo, "verifsimrt", rel)] = p
		return nil
	}))
	points := 0
	die(filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		base := filepath.Base(p)
		if fi.IsDir() {
			if base == "testdata" || strings.HasPrefix(base, ".") && p != *repo || base == "vendor" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || *level == 0 {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, n, err := process(p, src, *level)
		if err != nil {
			return err
		}
		points += n
		rel, _ := filepath.Rel(*repo, p)
		dst := filepath.Join(*out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(dst, res, 0644); err != nil {
			return err
		}
		overlay[p] = dst
		return nil
	}))
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	die(os.MkdirAll(*out, 0755))
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644))
	fmt.Println("scheduling points:", points)
}

func process(path string, src []byte, level int) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	tf := fset.File(f.Pos())
	var edits []edit
	n := 0
	if level >= 2 {
		y := func(pos token.Pos) {
			edits = append(edits, edit{off: tf.Offset(pos), ins: "verifsimrt.Y();"})
			n++
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				y(s.Pos())
			}
		}
		loopBody := func(b *ast.BlockStmt) {
			if b != nil && len(b.List) == 0 {
				y(b.Lbrace + 1)
			}
		}
		ast.Inspect(f, func(nd ast.Node) bool {
			switch v := nd.(type) {
			case *ast.BlockStmt:
				// The body of a switch or select is a list of clauses, not of statements.
				if len(v.List) > 0 {
					switch v.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(v.List)
			case *ast.CaseClause:
				list(v.Body)
			case *ast.CommClause:
				list(v.Body)
			case *ast.ForStmt:
				loopBody(v.Body)
			case *ast.RangeStmt:
				loopBody(v.Body)
			}
			return true
		})
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sw, ok := swaps[p]
		if !ok {
			continue
		}
		ins := strconv.Quote(sw[1])
		if im.Name == nil {
			ins = sw[0] + " " + ins
		}
		edits = append(edits, edit{off: tf.Offset(im.Path.Pos()), del: len(im.Path.Value), ins: ins})
	}
	if n > 0 {
		edits = append(edits, edit{off: tf.Offset(f.Name.End()), ins: "; import verifsimrt " + strconv.Quote(rtPath)})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.off])
		b.WriteString(e.ins)
		last = e.off + e.del
	}
	b.Write(src[last:])
	return []byte(b.String()), n, nil
}
