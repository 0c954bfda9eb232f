// Package c02: newline normalisation.
package c02

import (
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/source"
)

func ref(c []byte) []byte {
	r := make([]byte, 0, len(c))
	for i := 0; i < len(c); i++ {
		switch {
		case c[i] == '\r':
			r = append(r, '\n')
		case c[i] == '\n' && i > 0 && c[i-1] == '\r':
		default:
			r = append(r, c[i])
		}
	}
	return r
}

func check(in []byte) {
	want := ref(in)
	c := append([]byte(nil), in...)
	source.NormalizeNls(&c)
	sym.Assert(len(c) == len(want), "length after normalisation")
	ok := true
	for i := range c {
		ok = sym.And(ok, c[i] == want[i])
	}
	sym.Assert(ok, "content after normalisation")
	d := append([]byte(nil), c...)
	source.NormalizeNls(&d)
	sym.Assert(string(d) == string(c), "normalising twice")
}

// H_Bytes: every byte sequence.
//
//zz:bounds 0..7 (thorough 9) arbitrary bytes
func H_Bytes() {
	check(sym.Bytes("c", sym.Choice("len", sym.N(8, 10))))
}

// H_Long: longer contents around line breaks.
//
//zz:bounds 0..9 (thorough 12) bytes over {CR,LF,x}
func H_Long() {
	n := sym.Choice("len", sym.N(10, 13))
	check([]byte(sym.StringOf("c", n, "\r\nx")))
}

// H_Cap: the slice may have spare capacity holding other data, which must not be read or changed.
//
//zz:bounds 0..6 bytes over {CR,LF,x} followed by 3 arbitrary bytes of capacity
func H_Cap() {
	n := sym.Choice("len", 7)
	in := []byte(sym.StringOf("c", n, "\r\nx"))
	buf := append([]byte(nil), in...)
	buf = append(buf, sym.Bytes("tail", 3)...)
	t0, t1, t2 := buf[n], buf[n+1], buf[n+2]
	c := buf[:n]
	source.NormalizeNls(&c)
	want := ref(in)
	sym.Assert(string(c) == string(want), "content after normalisation")
	sym.Assert(sym.And(buf[n] == t0, sym.And(buf[n+1] == t1, buf[n+2] == t2)), "bytes after the slice")
}
