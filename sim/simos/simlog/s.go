// Package simlog is package log with the standard streams of a simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"

	"crunchsim/simos"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger logs without timestamps: the simulation has no wall clock.
type Logger struct {
	w      io.Writer
	prefix string
}

var std = &Logger{w: simos.Stderr}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix} }
func Default() *Logger                                 { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	io.WriteString(l.w, l.prefix+s)
}
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) SetFlags(int)                 {}
func (l *Logger) Flags() int                   { return 0 }
func (l *Logger) SetOutput(w io.Writer)        { l.w = w }
func (l *Logger) Writer() io.Writer            { return l.w }
func (l *Logger) Output(_ int, s string) error { l.out(s); return nil }
func (l *Logger) Print(a ...any)               { l.out(fmt.Sprint(a...)) }
func (l *Logger) Printf(f string, a ...any)    { l.out(fmt.Sprintf(f, a...)) }
func (l *Logger) Println(a ...any)             { l.out(fmt.Sprintln(a...)) }
func (l *Logger) Fatal(a ...any)               { l.Print(a...); simos.Exit(1) }
func (l *Logger) Fatalf(f string, a ...any)    { l.Printf(f, a...); simos.Exit(1) }
func (l *Logger) Fatalln(a ...any)             { l.Println(a...); simos.Exit(1) }
func (l *Logger) Panic(a ...any)               { l.Print(a...); panic(fmt.Sprint(a...)) }
func (l *Logger) Panicf(f string, a ...any)    { l.Printf(f, a...); panic(fmt.Sprintf(f, a...)) }
func (l *Logger) Panicln(a ...any)             { l.Println(a...); panic(fmt.Sprintln(a...)) }

func SetPrefix(p string)        {}
func SetFlags(int)              {}
func Flags() int                { return 0 }
func SetOutput(w io.Writer)     {}
func Writer() io.Writer         { return std.w }
func Print(a ...any)            { std.Print(a...) }
func Printf(f string, a ...any) { std.Printf(f, a...) }
func Println(a ...any)          { std.Println(a...) }
func Fatal(a ...any)            { std.Fatal(a...) }
func Fatalf(f string, a ...any) { std.Fatalf(f, a...) }
func Fatalln(a ...any)          { std.Fatalln(a...) }
func Panic(a ...any)            { std.Panic(a...) }
func Panicf(f string, a ...any) { std.Panicf(f, a...) }
func Panicln(a ...any)          { std.Panicln(a...) }
