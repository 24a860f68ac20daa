package log

import (
	"fmt"
	"io"
	rl "log"
	"simrt"
)

func out(s string) {
	if simrt.Dead() {
		return
	}
	simrt.P()
	n := simrt.CurNode()
	if n == nil {
		return
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	if n.Log.Out != nil {
		w := n.Log.Out.(io.Writer)
		p := n.Log.Prefix
		if n.Log.Flags != 0 {
			p = simrt.Now().Format("2006/01/02 15:04:05.000000 ") + p
		}
		w.Write([]byte(p + s))
		return
	}
	simrt.Output([]byte(s))
}

func SetOutput(w io.Writer) { simrt.CurNode().Log.Out = w }
func SetFlags(f int)        { simrt.CurNode().Log.Flags = f }
func Flags() int            { return simrt.CurNode().Log.Flags }
func SetPrefix(p string)    { simrt.CurNode().Log.Prefix = p }
func Prefix() string        { return simrt.CurNode().Log.Prefix }
func Writer() io.Writer {
	if w := simrt.CurNode().Log.Out; w != nil {
		return w.(io.Writer)
	}
	return simrt.Stderr
}
func Default() *rl.Logger { return rl.New(Writer(), Prefix(), Flags()) }

func Print(v ...any)            { out(fmt.Sprint(v...)) }
func Printf(f string, v ...any) { out(fmt.Sprintf(f, v...)) }
func Println(v ...any)          { out(fmt.Sprintln(v...)) }
func Output(d int, s string) error {
	out(s)
	return nil
}
func Fatal(v ...any)            { fatal(fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { fatal(fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)          { fatal(fmt.Sprintln(v...)) }
func fatal(s string) {
	out(s)
	simrt.Exit(1, "fatal", s)
}
func Panic(v ...any)            { s := fmt.Sprint(v...); out(s); panic(s) }
func Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); out(s); panic(s) }
func Panicln(v ...any)          { s := fmt.Sprintln(v...); out(s); panic(s) }
