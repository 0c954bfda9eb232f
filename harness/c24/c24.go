// Package zzc24 checks the calculator: values of expressions, and variables
// and functions kept between inputs.
package zzc24

import (
	"math"

	"github.com/ava12/llx"
	calc "github.com/ava12/llx/examples/calc/internal"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/parser"
)

//zz:dir examples/calc/zzc24
//zz:fresh

func isEoi(e error) bool {
	le, ok := e.(*llx.Error)
	return ok && le.Code == parser.UnexpectedEoiError
}

func same(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// calculator is the state of the right calculator and those of ones having
// known findings.
type calculator [4]*ref

func newCalc() *calculator {
	return &calculator{newRef(false, false), newRef(true, false), newRef(false, true), newRef(true, true)}
}

var findings = [4]string{"", "constants keep their place in a chain of operations", "the name func is a name like any other", "the name func is a name like any other"}

// expect compares the result of a text with what it should be and keeps the
// changes of variables and functions.
func (r *ref) expect(s *node, v float64, e error) string {
	// the sign of a zero is not told apart: -0 is either 0-0 or a negative zero
	var got [2]float64
	var ok bool
	var old [2]map[string]float64
	for i := range got {
		old[i] = map[string]float64{}
		for k, v := range r.vars[i] {
			old[i][k] = v
		}
		got[i], ok = r.run(s, i)
	}
	if !ok {
		r.vars = old
		if e == nil {
			return "inputs that have no value are rejected"
		}
		if isEoi(e) {
			return "exactly unfinished inputs are told to be unfinished"
		}
		return ""
	}
	if e != nil {
		return "right inputs are computed"
	}
	if !same(v, got[0]) && !same(v, got[1]) {
		return "the result is the value of the input"
	}
	return ""
}

// endless tells that computing a text never ends.
func (r *ref) endless(s *node) bool {
	if s.kind != "func" {
		t := &ref{vars: [2]map[string]float64{{}, {}}, funcs: r.funcs}
		for k, v := range r.vars[0] {
			t.vars[0][k] = v
		}
		t.run(s, 0)
		return t.recursive
	}
	return false
}

func (c *calculator) input(text string) {
	s, eoi, bad := read(text)
	if s != nil {
		for _, r := range c {
			sym.Assume(!r.endless(s)) // see H_Recursion
		}
	}
	v, e := calc.Compute(text)
	if s == nil {
		sym.Assert(e != nil, "only right inputs are computed")
		sym.Assert(isEoi(e) == eoi || eoi && bad, "exactly unfinished inputs are told to be unfinished")
		return
	}

	var wrong [4]string
	for i, r := range c {
		wrong[i] = r.expect(s, v, e)
	}
	sym.Assume(!c[0].unspecified)
	if wrong[0] == "" {
		return
	}
	for i, w := range wrong {
		if w == "" && i > 0 {
			sym.Fail(findings[i])
		}
	}
	sym.Fail(wrong[0])
}

// H_Recursion: functions that call themselves, at once or through another.
//
//zz:bounds f calls f, or f calls g and g calls f
//zz:steps 3000000
func H_Recursion() {
	c := newCalc()
	other := "f"
	if sym.Bool("mutual") {
		other = "g"
		c.input("g(x)=f(x)+1")
	}
	c.input("f(x)=" + other + "(x*2)")
	_, e := calc.Compute("f(1)")
	sym.Assert(e != nil, "inputs that have no value are rejected")
	c.input("2+2")
}

// H_Expr: any expression with numbers and a variable.
//
//zz:bounds any text of up to 6 (thorough: 7) characters of "2 x + - * / ^ ( ) space", x being 3
func H_Expr() {
	c := newCalc()
	c.input("x=3")
	n := sym.Choice("len", sym.N(6, 7)+1)
	c.input(sym.StringOf("text", n, "2x+-*/^() "))
}

// H_Order: chains of operators: operations are made in order, whatever
// operands are constant.
//
//zz:bounds chains of 3 operators of one precedence (or any 3 operators), operands from 10, 3, 1e20, x = 10 (thorough: 1e308 and y = 1e200 as well)
func H_Order() {
	c := newCalc()
	c.input("x=10")
	ops := []string{"10", "3", "1e20", "x"}
	if sym.Thorough() {
		c.input("y=1e200")
		ops = append(ops, "1e308", "y")
	}
	text := ops[sym.Choice("v0", len(ops))]
	for i := 1; i <= 3; i++ {
		text += sym.StringOf("op"+string(rune('0'+i)), 1, "+-*/^") + ops[sym.Choice("v"+string(rune('0'+i)), len(ops))]
	}
	c.input(text)
}

// H_Number: any form of number.
//
//zz:bounds any text of up to 6 (thorough: 8) characters of "1 5 . e E -"
func H_Number() {
	c := newCalc()
	n := sym.Choice("len", sym.N(6, 8)+1)
	c.input(sym.StringOf("text", n, "15.eE-"))
}

// H_Text: any text.
//
//zz:bounds any ASCII text of up to 3 characters (thorough: 4)
func H_Text() {
	c := newCalc()
	n := sym.Choice("len", sym.N(3, 4)+1)
	b := sym.Bytes("text", n)
	for _, x := range b {
		sym.Assume(x < 128)
	}
	c.input(string(b))
}

// H_Calls: definitions and calls of functions.
//
//zz:bounds "f(x,y)=x-y" and "g()=2" followed by any text of up to 7 (thorough: 8) characters of "f g ( ) , = 2" starting with f or g
func H_Calls() {
	c := newCalc()
	c.input("f(x,y)=x-y")
	c.input("g()=2")
	n := sym.Choice("len", sym.N(7, 8))
	c.input(sym.StringOf("first", 1, "fg") + sym.StringOf("text", n, "fg(),=2"))
	c.input("f(5,3)-g()")
}

// H_History: any history of definitions, uses and errors.
//
//zz:bounds 3 (thorough: 4) inputs, each of one of 10 forms, with any names of "x" and "func"; a free name of a function that is an argument of its caller has no definite meaning
func H_History() {
	c := newCalc()
	for i := 0; i < sym.N(3, 4); i++ {
		p := string(rune('a' + i))
		nn := 0
		name := func() string {
			nn++
			return []string{"x", "func"}[sym.Choice(p+"n"+string(rune('0'+nn)), 2)]
		}
		digit := func() string {
			nn++
			return string(rune('2' + 2*i + nn%2))
		}
		var text string
		switch sym.Choice(p+"form", 10) {
		case 0:
			text = name() + "=" + digit()
		case 1:
			text = name() + "=" + name() + "+" + digit()
		case 2:
			text = name() + "(" + name() + ")=" + name() + "*" + digit()
		case 3:
			text = name() + "(" + name() + "," + name() + ")=x-func"
		case 4:
			text = name() + "(" + digit() + ")"
		case 5:
			text = name() + "(" + digit() + "," + digit() + ")"
		case 6:
			text = name()
		case 7:
			text = name() + "=" + digit() + " " + digit()
		case 8:
			text = name() + "(x)=" + name() + "(x)"
		case 9:
			text = name() + "(" + name() + "(" + digit() + "))"
		}
		c.input(text)
	}
}
