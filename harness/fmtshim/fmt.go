// Package fmtshim stands in for fmt under the command line tools: what is typed comes
// from the harness.
package fmtshim

import (
	"errors"
	"fmt"
	"io"
)

// Input is what the user types, line by line.
var Input []string

// Asked counts the questions answered.
var Asked int

type (
	Stringer   = fmt.Stringer
	State      = fmt.State
	Formatter  = fmt.Formatter
	GoStringer = fmt.GoStringer
)

func line() (string, error) {
	if len(Input) == 0 {
		return "", io.EOF
	}
	s := Input[0]
	Input = Input[1:]
	Asked++
	if s == "" {
		return "", errors.New("unexpected newline")
	}
	return s, nil
}

func Scanln(a ...any) (int, error) {
	s, err := line()
	if err != nil {
		return 0, err
	}
	if len(a) > 0 {
		if p, ok := a[0].(*string); ok {
			*p = s
		}
	}
	return 1, nil
}
func Scan(a ...any) (int, error)                           { return Scanln(a...) }
func Scanf(f string, a ...any) (int, error)                { return Scanln(a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return Scanln(a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return Scanln(a...) }
func Printf(f string, a ...any) (int, error)               { return 0, nil }
func Println(a ...any) (int, error)                        { return 0, nil }
func Print(a ...any) (int, error)                          { return 0, nil }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprint(w io.Writer, a ...any) (int, error)            { return fmt.Fprint(w, a...) }
func Sprintf(f string, a ...any) string                    { return fmt.Sprintf(f, a...) }
func Sprintln(a ...any) string                             { return fmt.Sprintln(a...) }
func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Errorf(f string, a ...any) error                      { return fmt.Errorf(f, a...) }
func Sscanf(s, f string, a ...any) (int, error)            { return fmt.Sscanf(s, f, a...) }
func Sscan(s string, a ...any) (int, error)                { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)              { return fmt.Sscanln(s, a...) }
func Append(b []byte, a ...any) []byte                     { return fmt.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return fmt.Appendf(b, f, a...) }
