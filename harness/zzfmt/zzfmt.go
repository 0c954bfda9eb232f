// Package zzfmt stands in for package fmt in programs under check: the
// standard output is the one of zzos.
package zzfmt

import (
	"fmt"
	"io"

	os "github.com/ava12/llx/internal/zzverif/zzos"
)

// Stringer is as in package fmt.
type Stringer = fmt.Stringer

func Println(a ...any) (int, error)                        { return fmt.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error)               { return fmt.Fprintf(os.Stdout, f, a...) }
func Print(a ...any) (int, error)                          { return fmt.Fprintf(os.Stdout, "%s", fmt.Sprint(a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return fmt.Fprintf(w, f, a...) }
func Sprintf(f string, a ...any) string                    { return fmt.Sprintf(f, a...) }
func Sprint(a ...any) string                               { return fmt.Sprint(a...) }
func Errorf(f string, a ...any) error                      { return fmt.Errorf(f, a...) }
