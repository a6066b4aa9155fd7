package main

import (
	"sort"
	"strconv"
	"strings"

	"github.com/arl/gogeo/f32/d3"
)

func sortStrings(l []string)       { sort.Strings(l) }
func splitLines(s string) []string { return strings.Split(s, "\n") }

func appendInt(b []byte, n int) []byte { return strconv.AppendInt(b, int64(n), 10) }

func newPoints(n int) []d3.Vec3 {
	p := make([]d3.Vec3, n)
	for i := range p {
		p[i] = d3.NewVec3()
	}
	return p
}
