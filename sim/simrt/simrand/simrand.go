// Package simrand stands in for package math/rand: the shared source is seeded
// the same way in every run.
package simrand

import (
	rrand "math/rand"

	rt "github.com/arl/go-detour/verifsimrt"
)

type (
	Rand     = rrand.Rand
	Source   = rrand.Source
	Source64 = rrand.Source64
	Zipf     = rrand.Zipf
)

func g() *Rand { return rt.Rand() }

func New(s Source) *Rand                            { return rrand.New(s) }
func NewSource(n int64) Source                      { return rrand.NewSource(n) }
func NewZipf(r *Rand, s, v float64, i uint64) *Zipf { return rrand.NewZipf(r, s, v, i) }
func Seed(n int64)                                  { g().Seed(n) }
func Int() int                                      { return g().Int() }
func Intn(n int) int                                { return g().Intn(n) }
func Int31() int32                                  { return g().Int31() }
func Int31n(n int32) int32                          { return g().Int31n(n) }
func Int63() int64                                  { return g().Int63() }
func Int63n(n int64) int64                          { return g().Int63n(n) }
func Uint32() uint32                                { return g().Uint32() }
func Uint64() uint64                                { return g().Uint64() }
func Float32() float32                              { return g().Float32() }
func Float64() float64                              { return g().Float64() }
func NormFloat64() float64                          { return g().NormFloat64() }
func ExpFloat64() float64                           { return g().ExpFloat64() }
func Perm(n int) []int                              { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int))            { g().Shuffle(n, swap) }
func Read(b []byte) (int, error)                    { return g().Read(b) }
