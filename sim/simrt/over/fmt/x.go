package fmt

import (
	rf "fmt"
	"simrt"
)

func Print(v ...any) (int, error)            { return simrt.Stdout.WriteString(rf.Sprint(v...)) }
func Printf(f string, v ...any) (int, error) { return simrt.Stdout.WriteString(rf.Sprintf(f, v...)) }
func Println(v ...any) (int, error)          { return simrt.Stdout.WriteString(rf.Sprintln(v...)) }
