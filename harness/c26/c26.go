// Package zzc26 checks the style checker of data descriptions.
package zzc26

import (
	"strings"

	style "github.com/ava12/llx/examples/style-check/internal"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/source"
)

//zz:dir examples/style-check/zzc26

func check(text string) ([]style.ReportLine, error) {
	rs, e := style.Check(source.New("f", []byte(text)))
	if e != nil {
		return nil, e
	}
	lines := strings.Split(text, "\n")
	line, col := 0, 0
	for _, r := range rs {
		sym.Assert(r.Line > line || r.Line == line && r.Col > col, "reports are in order")
		line, col = r.Line, r.Col
		sym.Assert(line >= 1 && line <= len(lines) && col >= 1 && col <= len(lines[line-1])+1, "reports are located in the text")
		sym.Assert(r.Message != "", "reports have a message")
	}
	return rs, nil
}

// judge checks that exactly right texts are accepted. What follows the
// definitions is told apart: that it is ignored is a known finding.
func judge(lex []string, e error) {
	ok := right(lex)
	if !ok && e == nil {
		for i := range lex {
			if right(lex[:i]) && !(lex[i][0] >= 'a' && lex[i][0] <= 'z') {
				sym.Fail("a wrong symbol behind a definition is reported")
			}
		}
	}
	sym.Assert((e == nil) == ok, "exactly right texts are checked")
}

// H_Any: right texts are checked, wrong ones are rejected.
//
//zz:bounds any 1..5 (thorough: 6) lexemes of "a struct typedef { } [ ] , ; 1" with a space or a line feed behind every word
func H_Any() {
	words := []string{"a", "struct", "typedef", "{", "}", "[", "]", ",", ";", "1"}
	n := sym.Choice("n", sym.N(5, 6)) + 1
	text := ""
	var lex []string
	for i := 0; i < n; i++ {
		w := words[sym.Choice("w"+string(rune('0'+i)), len(words))]
		lex = append(lex, w)
		text += w
		if w[0] >= 'a' || w == "1" {
			text += " "
		}
	}
	if sym.Bool("nl") {
		text += "\n"
	}
	_, e := check(text)
	judge(lex, e)
}

// H_Inside: right texts of structures are checked, wrong ones are rejected.
//
//zz:bounds "typedef struct { a a" and any 1..5 (thorough: 6) lexemes of "a struct { } [ ] ; 1", then nothing, "} a;" or ";} a;"
func H_Inside() {
	words := []string{"a", "struct", "{", "}", "[", "]", ";", "1"}
	n := sym.Choice("n", sym.N(5, 6)) + 1
	text := "typedef struct {\na a"
	lex := []string{"typedef", "struct", "{", "a", "a"}
	add := func(w string) {
		lex = append(lex, w)
		if w[0] >= 'a' || w == "1" {
			text += " "
		}
		text += w
	}
	for i := 0; i < n; i++ {
		add(words[sym.Choice("w"+string(rune('0'+i)), len(words))])
	}
	switch sym.Choice("end", 3) {
	case 1:
		add("}")
		add("a")
		add(";")
	case 2:
		add(";")
		add("}")
		add("a")
		add(";")
	}
	_, e := check(text + "\n")
	judge(lex, e)
}

// H_Bytes: any text.
//
//zz:bounds any 0..3 ASCII bytes (thorough: 4); or "a b" with them in the middle, or "a b;" and them
func H_Bytes() {
	n := sym.Choice("len", sym.N(3, 4)+1)
	b := sym.Bytes("b", n)
	for _, c := range b {
		sym.Assume(c < 128)
	}
	text := string(b)
	switch sym.Choice("where", 3) {
	case 1:
		text = "a" + text + "b;\n"
	case 2:
		text = "a b;" + text
	}
	_, e := check(text)
	_ = e
}

// H_Layout: a text laid out as it should be has no reports, with one fault it has.
//
//zz:bounds 1..2 definitions of 5 forms, one gap of any kind made wrong in any of its ways, or none
func H_Layout() {
	w := &writer{}
	n := sym.Choice("items", 2) + 1
	w.gap("start", "", "")
	for i := 0; i < n; i++ {
		p := string(rune('a' + i))
		if i > 0 {
			w.gap("item", []string{"\n", "\n\n"}[sym.Choice(p+"blank", 2)], "")
		}
		switch sym.Choice(p+"form", 5) {
		case 0:
			w.put("int").gap("one", " ", "").put("a").gap("none", "", "").put(";")
		case 1:
			w.put("int").gap("one", " ", "").put("a").gap("none", "", "").put("[").gap("none", "", "").put("2").gap("none", "", "").put("]").
				gap("none", "", "").put(",").gap("op", " ", "").put("b").gap("none", "", "").put(";")
		case 2:
			w.put("typedef").gap("one", " ", "").put("int").gap("one", " ", "").put("t").gap("none", "", "").put(";")
		case 3:
			w.put("typedef").gap("one", " ", "").put("struct").gap("op", " ", "").put("{").gap("item", "\n    ", "    ").
				put("int").gap("align", []string{" ", "   "}[sym.Choice(p+"al", 2)], "").put("a").put(";").gap("close", "\n", "").put("}").gap("op", " ", "").put("s").put(";")
		case 4:
			w.put("typedef").gap("one", " ", "").put("struct").gap("op", " ", "").put("{").gap("item", "\n    ", "    ").
				put("int").gap("field", "   ", "").put("a").put(";").gap("item", "\n    ", "    ").
				put("float").gap("field", " ", "").put("b").gap("none", "", "").put("[").put("1").put("]").put(";").
				gap("close", "\n", "").put("}").gap("op", " ", "").put("s").gap("none", "", "").put(";")
		}
	}
	w.gap("end", "\n", "")
	fault := sym.Choice("fault", len(w.gaps)+1)
	text := ""
	for i, t := range w.text {
		g := w.gaps[i]
		if i+1 == fault {
			bad := faults[g.kind]
			text += strings.ReplaceAll(bad[sym.Choice("how", len(bad))], "@", g.base)
		} else {
			text += g.right
		}
		text += t
	}
	rs, e := check(text)
	sym.Observe("text", text)
	sym.Assert(e == nil, "right text is checked")
	if fault == 0 {
		sym.Assert(len(rs) == 0, "right layout has no reports")
	} else {
		sym.Assert(len(rs) > 0, "wrong layout is reported")
	}
}

type gap struct{ kind, right, base string }

// writer keeps lexemes joined to each other and gaps before them.
type writer struct {
	gaps []gap
	text []string
}

func (w *writer) gap(kind, right, base string) *writer {
	w.gaps = append(w.gaps, gap{kind, right, base})
	w.text = append(w.text, "")
	return w
}

func (w *writer) put(s string) *writer {
	w.text[len(w.text)-1] += s
	return w
}

// faults are wrong gaps; @ stands for the indentation of the block.
var faults = map[string][]string{
	"start": {" ", "\t", "\n "},
	"item":  {" ", "", "\n@ ", "\n@\t", " \n@", "\n \n@"},
	"one":   {"  ", "\t", " \t"},
	"none":  {" ", "  ", "\t"},
	"op":    {"", "  ", "\t"},
	"align": {"\t", " \t"},
	"field": {"  ", "\t", "      "},
	"close": {" ", " \n", "\n \n"},
	"end":   {"", " ", " \n", "\n ", "\n\t"},
}

// right tells that lexemes make a right text.
func right(lex []string) bool {
	p := 0
	next := func() string {
		if p < len(lex) {
			return lex[p]
		}
		return ""
	}
	take := func(s string) bool {
		if next() == s {
			p++
			return true
		}
		return false
	}
	name := func() bool {
		if s := next(); s != "" && s[0] >= 'a' && s[0] <= 'z' {
			p++
			return true
		}
		return false
	}
	sizes := func() bool {
		for take("[") {
			if !take("1") || !take("]") {
				return false
			}
		}
		return true
	}
	var variable func() bool
	typ := func() bool {
		if !take("struct") {
			return name()
		}
		if !take("{") || !variable() {
			return false
		}
		for !take("}") {
			if !variable() {
				return false
			}
		}
		return true
	}
	variable = func() bool {
		if !typ() {
			return false
		}
		for {
			if !name() || !sizes() {
				return false
			}
			if !take(",") {
				return take(";")
			}
		}
	}
	for first := true; first || p < len(lex); first = false {
		if take("typedef") {
			if !typ() || !name() || !sizes() || !take(";") {
				return false
			}
		} else if !variable() {
			return false
		}
	}
	return true
}
