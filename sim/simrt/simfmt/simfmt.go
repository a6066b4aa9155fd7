// Package simfmt stands in for package fmt: printing goes to the simulated terminal.
package simfmt

import (
	rfmt "fmt"
	"io"

	rt "github.com/arl/go-detour/verifsimrt"
)

type (
	Stringer   = rfmt.Stringer
	GoStringer = rfmt.GoStringer
	State      = rfmt.State
	Formatter  = rfmt.Formatter
	Scanner    = rfmt.Scanner
	ScanState  = rfmt.ScanState
)

func Print(a ...interface{}) (int, error)                          { return rfmt.Fprint(rt.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error)               { return rfmt.Fprintf(rt.Stdout, f, a...) }
func Println(a ...interface{}) (int, error)                        { return rfmt.Fprintln(rt.Stdout, a...) }
func Errorf(f string, a ...interface{}) error                      { return rfmt.Errorf(f, a...) }
func Sprint(a ...interface{}) string                               { return rfmt.Sprint(a...) }
func Sprintf(f string, a ...interface{}) string                    { return rfmt.Sprintf(f, a...) }
func Sprintln(a ...interface{}) string                             { return rfmt.Sprintln(a...) }
func Fprint(w io.Writer, a ...interface{}) (int, error)            { return rfmt.Fprint(w, a...) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return rfmt.Fprintf(w, f, a...) }
func Fprintln(w io.Writer, a ...interface{}) (int, error)          { return rfmt.Fprintln(w, a...) }
func Sscan(s string, a ...interface{}) (int, error)                { return rfmt.Sscan(s, a...) }
func Sscanf(s, f string, a ...interface{}) (int, error)            { return rfmt.Sscanf(s, f, a...) }
func Sscanln(s string, a ...interface{}) (int, error)              { return rfmt.Sscanln(s, a...) }
func Fscan(r io.Reader, a ...interface{}) (int, error)             { return rfmt.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...interface{}) (int, error)  { return rfmt.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...interface{}) (int, error)           { return rfmt.Fscanln(r, a...) }
func Scan(a ...interface{}) (int, error)                           { return rfmt.Fscan(rt.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)                { return rfmt.Fscanf(rt.Stdin, f, a...) }
func Scanln(a ...interface{}) (int, error)                         { return rfmt.Fscanln(rt.Stdin, a...) }

func Append(b []byte, a ...interface{}) []byte            { return rfmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...interface{}) []byte { return rfmt.Appendf(b, f, a...) }
func Appendln(b []byte, a ...interface{}) []byte          { return rfmt.Appendln(b, a...) }
func FormatString(s State, verb rune) string              { return rfmt.FormatString(s, verb) }
