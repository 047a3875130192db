// Package simlog stands in for log: same behaviour, with the simulated clock
// and one standard logger per simulated process.
package simlog

import (
	"fmt"
	"io"
	"path/filepath"
	"runtime"
	"strconv"

	"dst/sim"
	"dst/simos"
	"dst/simtime"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct {
	prefix string
	flag   int
	out    io.Writer
}

func New(out io.Writer, prefix string, flag int) *Logger { return &Logger{prefix, flag, out} }

func std() *Logger {
	return sim.Local("log", func() *Logger { return New(simos.Stderr, "", LstdFlags) })
}

func Default() *Logger { return std() }

func (l *Logger) Output(depth int, s string) error {
	h := ""
	if l.flag&Lmsgprefix == 0 {
		h += l.prefix
	}
	if l.flag&(Ldate|Ltime|Lmicroseconds) != 0 {
		t := simtime.Now()
		if l.flag&Ldate != 0 {
			h += t.Format("2006/01/02 ")
		}
		if l.flag&Lmicroseconds != 0 {
			h += t.Format("15:04:05.000000 ")
		} else if l.flag&Ltime != 0 {
			h += t.Format("15:04:05 ")
		}
	}
	if l.flag&(Lshortfile|Llongfile) != 0 {
		_, file, line, ok := runtime.Caller(depth)
		if !ok {
			file = "???"
		}
		if l.flag&Lshortfile != 0 {
			file = filepath.Base(file)
		}
		h += file + ":" + strconv.Itoa(line) + ": "
	}
	if l.flag&Lmsgprefix != 0 {
		h += l.prefix
	}
	s = h + s
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := l.out.Write([]byte(s))
	return err
}

func (l *Logger) SetOutput(w io.Writer)     { l.out = w }
func (l *Logger) SetFlags(f int)            { l.flag = f }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Flags() int                { return l.flag }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) Writer() io.Writer         { return l.out }
func (l *Logger) Print(a ...any)            { l.Output(2, fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)          { l.Output(2, fmt.Sprintln(a...)) }
func (l *Logger) Printf(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)) }
func (l *Logger) Fatal(a ...any)            { l.Output(2, fmt.Sprint(a...)); simos.Exit(1) }
func (l *Logger) Fatalln(a ...any)          { l.Output(2, fmt.Sprintln(a...)); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)); simos.Exit(1) }
func (l *Logger) Panic(a ...any)            { s := fmt.Sprint(a...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(a ...any)          { s := fmt.Sprintln(a...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); l.Output(2, s); panic(s) }

func SetOutput(w io.Writer)        { std().SetOutput(w) }
func SetFlags(f int)               { std().SetFlags(f) }
func SetPrefix(p string)           { std().SetPrefix(p) }
func Flags() int                   { return std().flag }
func Prefix() string               { return std().prefix }
func Writer() io.Writer            { return std().out }
func Output(d int, s string) error { return std().Output(d+1, s) }
func Print(a ...any)               { std().Output(2, fmt.Sprint(a...)) }
func Println(a ...any)             { std().Output(2, fmt.Sprintln(a...)) }
func Printf(f string, a ...any)    { std().Output(2, fmt.Sprintf(f, a...)) }
func Fatal(a ...any)               { std().Output(2, fmt.Sprint(a...)); simos.Exit(1) }
func Fatalln(a ...any)             { std().Output(2, fmt.Sprintln(a...)); simos.Exit(1) }
func Fatalf(f string, a ...any)    { std().Output(2, fmt.Sprintf(f, a...)); simos.Exit(1) }
func Panic(a ...any)               { s := fmt.Sprint(a...); std().Output(2, s); panic(s) }
func Panicln(a ...any)             { s := fmt.Sprintln(a...); std().Output(2, s); panic(s) }
func Panicf(f string, a ...any)    { s := fmt.Sprintf(f, a...); std().Output(2, s); panic(s) }
