// Package simlog stands in for package log.
package simlog

import (
	"fmt"
	"io"
	rlog "log"

	rt "github.com/arl/go-detour/verifsimrt"
)

type Logger = rlog.Logger

const (
	LstdFlags  = rlog.LstdFlags
	Lshortfile = rlog.Lshortfile
	Llongfile  = rlog.Llongfile

	Ldate         = rlog.Ldate
	Ltime         = rlog.Ltime
	Lmicroseconds = rlog.Lmicroseconds
	LUTC          = rlog.LUTC
	Lmsgprefix    = rlog.Lmsgprefix
)

func out(s string) { rt.LogOut = append(rt.LogOut, s...); rt.LogOut = append(rt.LogOut, '\n') }

func Print(v ...interface{})                   { out(fmt.Sprint(v...)) }
func Printf(f string, v ...interface{})        { out(fmt.Sprintf(f, v...)) }
func Println(v ...interface{})                 { out(fmt.Sprintln(v...)) }
func Fatal(v ...interface{})                   { out(fmt.Sprint(v...)); rt.DoExit(1, "log.Fatal") }
func Fatalf(f string, v ...interface{})        { out(fmt.Sprintf(f, v...)); rt.DoExit(1, "log.Fatalf") }
func Fatalln(v ...interface{})                 { out(fmt.Sprintln(v...)); rt.DoExit(1, "log.Fatalln") }
func Panic(v ...interface{})                   { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...interface{})        { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...interface{})                 { panic(fmt.Sprintln(v...)) }
func New(w io.Writer, p string, f int) *Logger { return rlog.New(w, p, f) }
func SetFlags(int)                             {}
func SetPrefix(string)                         {}
func SetOutput(io.Writer)                      {}

type sink struct{}

func (sink) Write(b []byte) (int, error) { rt.LogOut = append(rt.LogOut, b...); return len(b), nil }

func Flags() int                       { return LstdFlags }
func Prefix() string                   { return "" }
func Writer() io.Writer                { return sink{} }
func Default() *Logger                 { return rlog.New(sink{}, "", 0) }
func Output(depth int, s string) error { out(s); return nil }
