package main

import (
	"fmt"
	"os"
)

func (s *Stream) debugCons() {
	if os.Getenv("SIMDBG") == "" {
		return
	}
	w := s.w
	g := w.ExpectedGraph(s.Loaded)
	for ci, st := range g.ConOK {
		c := w.Cons[ci]
		in := s.Loaded[st.Tile]
		t := s.Tile(in)
		fmt.Printf("con %d %+v state %+v\n", ci, c, st)
		fmt.Printf("  con rec %+v\n", t.OffMeshCons)
		for _, a := range s.ActualLinks(in, t, st.Idx) {
			fmt.Printf("  out %+v\n", a)
		}
		for loc, i2 := range s.Loaded {
			t2 := s.Tile(i2)
			for p := range t2.Polys {
				for _, a := range s.ActualLinks(i2, t2, p) {
					if a.To == (PID{st.Tile, st.Idx}) {
						fmt.Printf("  in from %v#%d %+v\n", loc, p, a)
					}
				}
			}
		}
	}
	fmt.Println("climb", w.ClimbV, w.Cs, w.Ch)
}
func debugging() bool { return os.Getenv("SIMDBG") != "" }
