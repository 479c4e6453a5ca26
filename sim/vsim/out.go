package vsim

import (
	"fmt"
	"os"
)

func out(stream, s string) {
	if W == nil {
		return
	}
	W.Stdout.WriteString(s)
	W.Writes++
	if W.cur != nil {
		W.LastOut = fmt.Sprintf("%s during %s: %.80q", stream, W.cur.callName, s)
	} else {
		W.LastOut = fmt.Sprintf("%s: %.80q", stream, s)
	}
}

// Print and the rest stand for the functions of the same name.
func Print(a ...any) (int, error)   { s := fmt.Sprint(a...); out("stdout", s); return len(s), nil }
func Println(a ...any) (int, error) { s := fmt.Sprintln(a...); out("stdout", s); return len(s), nil }
func Printf(f string, a ...any) (int, error) {
	s := fmt.Sprintf(f, a...)
	out("stdout", s)
	return len(s), nil
}
func LogPrint(a ...any)            { out("stderr", fmt.Sprint(a...)) }
func LogPrintln(a ...any)          { out("stderr", fmt.Sprintln(a...)) }
func LogPrintf(f string, a ...any) { out("stderr", fmt.Sprintf(f, a...)) }
func Builtinprint(a ...any)        { out("stderr", fmt.Sprint(a...)) }
func Builtinprintln(a ...any)      { out("stderr", fmt.Sprintln(a...)) }
func LogFatal(a ...any)            { out("stderr", fmt.Sprint(a...)); Exit(1) }
func LogFatalln(a ...any)          { out("stderr", fmt.Sprintln(a...)); Exit(1) }
func LogFatalf(f string, a ...any) { out("stderr", fmt.Sprintf(f, a...)); Exit(1) }

// Exit stands for os.Exit.
func Exit(code int) {
	if W == nil {
		os.Exit(code)
	}
	panic(fmt.Sprintf("the library ended the process with status %d", code))
}
