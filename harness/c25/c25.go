// Package c25 checks the program that tries grammars on samples.
package c25

import (
	"flag"
	realos "os"
	"strconv"
	"strings"
	"unicode/utf8"

	prog "github.com/ava12/llx/examples/grammar/zzpkg"
	os "github.com/ava12/llx/internal/zzverif/zzos"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

//zz:copymain examples/grammar examples/grammar/zzpkg grammar os=internal/zzverif/zzos fmt=internal/zzverif/zzfmt
//zz:exactquote

func run(files map[string]string, args ...string) (code int) {
	args = append([]string{"grammar"}, args...)
	os.Reset(args...)
	for n, t := range files {
		os.Files[n] = []byte(t)
	}
	realos.Args = args
	flag.CommandLine = flag.NewFlagSet("grammar", flag.ContinueOnError)
	defer func() {
		if p := recover(); p != nil {
			c, ok := p.(os.ExitCode)
			if !ok {
				panic(p)
			}
			code = int(c)
		}
	}()
	prog.Main()
	return 0
}

type sample struct {
	text     string
	from, to int // lines
}

func isSeparator(line, sep string) bool {
	if !strings.HasPrefix(line, sep) {
		return false
	}
	// it is not clear what follows from "##x"
	sym.Assume(len(line) == len(sep) || line[len(sep)] <= ' ')
	return true
}

// split gives samples of a text; withLf and atEmpty are known findings: the
// line break before a separator is kept; all behind an empty line is one line.
func split(text string, withLf, atEmpty bool) (res []sample) {
	nl := strings.IndexByte(text, '\n')
	if nl < 0 {
		return nil
	}
	sep := text[:nl]
	for i := 0; i < len(sep); i++ {
		if sep[i] <= ' ' {
			sep = sep[:i]
			break
		}
	}
	text = text[nl+1:]
	line := 2
	for text != "" {
		s := sample{from: line}
		end, next := len(text), len(text)
		p := 0
		for p < len(text) {
			e := p
			for e < len(text) && text[e] != '\n' {
				e++
			}
			after := e
			if atEmpty && e == p {
				e, after = len(text), len(text)
			} else if e < len(text) {
				after++
			}
			if isSeparator(text[p:e], sep) {
				end, next = p, after
				if p > 0 && !withLf {
					end--
				}
				line++
				break
			}
			s.to = line
			line++
			p = after
		}
		s.text = text[:end]
		text = text[next:]
		res = append(res, s)
	}
	return res
}

func normal(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
}

// tokens gives the texts of tokens printed.
func tokens(out string) (res []string) {
	for i := 0; i+2 < len(out); i++ {
		if out[i:i+3] != "t(\"" {
			continue
		}
		e := i + 3
		for out[e] != '"' {
			if out[e] == '\\' {
				e++
			}
			e++
		}
		s, err := strconv.Unquote(out[i+2 : e+1])
		sym.Assert(err == nil, "printed token is quoted")
		res = append(res, s)
		i = e
	}
	return res
}

// valid tells that a sample fits "$t = /[a# \n]/; g = {$t};".
func valid(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == 'b' {
			return false
		}
	}
	return true
}

// outcome compares a run with what is expected of samples; gives what is wrong.
func outcome(samples []sample, multi bool, code int, errors bool) string {
	want := 0
	var texts []string
	var names []string
	for i, s := range samples {
		ok := valid(s.text)
		if ok == errors {
			want = 6
		}
		if ok && !errors {
			for j := 0; j < len(s.text); j++ {
				texts = append(texts, s.text[j:j+1])
			}
		}
		if multi && s.to != 0 {
			names = append(names, "sample #"+strconv.Itoa(i+1)+", (lines "+strconv.Itoa(s.from)+"-"+strconv.Itoa(s.to)+")")
		} else if multi {
			names = append(names, "sample #"+strconv.Itoa(i+1)+",")
		}
	}
	if code != want {
		return "exit code"
	}
	var lines []string
	for _, l := range strings.Split(string(os.Printed), "\n") {
		if l != "" && l[0] != ' ' && strings.Contains(l, "sample #") {
			lines = append(lines, l)
		}
	}
	if len(lines) != len(names) {
		return "every sample is named"
	}
	for i, n := range names {
		if !strings.Contains(lines[i], n) {
			return "samples are named in order"
		}
	}
	got := tokens(string(os.Printed))
	if len(got) != len(texts) {
		return "all tokens are printed"
	}
	for i, t := range got {
		if t != texts[i] {
			return "tokens are printed in order"
		}
	}
	return ""
}

// judge checks a run on samples. Two known findings are told apart by what
// they make of the text.
func judge(text string, multi bool, code int, errors bool) {
	if !multi {
		w := outcome([]sample{{text: text}}, false, code, errors)
		sym.Assert(w == "", w)
		return
	}
	w := outcome(split(text, false, false), true, code, errors)
	if w == "" {
		return
	}
	if outcome(split(text, true, false), true, code, errors) == "" {
		sym.Fail("the line break before a separator is not a part of the sample")
	}
	if outcome(split(text, false, true), true, code, errors) == "" || outcome(split(text, true, true), true, code, errors) == "" {
		sym.Fail("samples behind an empty line are found")
	}
	sym.Fail(w)
}

const gram = "$t = /[a# \\n]/; g = {$t};"

// H_Samples: files of several samples.
//
//zz:bounds first line "##" or "## a", then any 1..6 (thorough: 8) characters of "a b # space newline"; lines like "##x" have no definite meaning
func H_Samples() {
	head := []string{"##\n", "## a\n"}[sym.Choice("head", 2)]
	n := sym.Choice("len", sym.N(6, 8)+1)
	text := head + sym.StringOf("text", n, "ab# \n")
	errors := sym.Bool("errors")
	args := []string{"/g", "/s"}
	switch sym.Choice("flag", 2) {
	case 0:
		args = append([]string{"-m"}, args...)
	case 1:
		args = append([]string{"-s", "#"}, args...)
	}
	if errors {
		args = append([]string{"-e"}, args...)
	}
	code := run(map[string]string{"/g": gram, "/s": text}, args...)
	judge(text, true, code, errors)
}

// H_Whole: files of one sample.
//
//zz:bounds any 1..5 (thorough: 6) characters of "a b # space CR LF", with and without -e, -s not matching or without it
func H_Whole() {
	n := sym.Choice("len", sym.N(5, 6)) + 1
	text := sym.StringOf("text", n, "ab# \n\r")
	errors := sym.Bool("errors")
	args := []string{"/g", "/s"}
	if sym.Bool("prefix") {
		sym.Assume(text[0] != 'a')
		args = append([]string{"-s", "a"}, args...)
	}
	if errors {
		args = append([]string{"-e"}, args...)
	}
	code := run(map[string]string{"/g": gram, "/s": text}, args...)
	judge(normal(text), false, code, errors)
}

// H_Newlines: samples in files with other line breaks.
//
//zz:bounds "##" and a line break, then any 1..5 (thorough: 6) characters of "a # CR LF"
func H_Newlines() {
	n := sym.Choice("len", sym.N(5, 6)) + 1
	text := []string{"##\r\n", "##\r"}[sym.Choice("nl", 2)] + sym.StringOf("text", n, "a#\r\n")
	code := run(map[string]string{"/g": gram, "/s": text}, "-m", "/g", "/s")
	judge(normal(text), true, code, false)
}

// H_Codes: wrong files and arguments.
//
//zz:bounds 4 grammar files (one with an unknown layer), 4 contents of the source with any 0..3 bytes behind, single and multiple samples, with and without -e; no file, one file
func H_Codes() {
	files := map[string]string{}
	want := 0
	worse := func(c int) {
		if want == 0 {
			want = c
		}
	}
	g := sym.Choice("grammar", 6)
	multi := sym.Bool("multi")
	args := []string{}
	if multi {
		args = append(args, "-m")
	}
	s := sym.Choice("source", 3)
	content := ""
	switch s {
	case 0:
		content = "##\n"
	case 1:
		content = "##\na"
	}
	content += sym.String("bytes", sym.Choice("len", 4))
	switch g {
	case 0:
		files["/g"] = gram
	case 1:
		files["/g"] = "g = ;"
	case 2:
		files["/g"] = "@nolayer a(); " + gram
	case 3:
		files["/g"] = ""
	case 4:
		files["/g"] = "# \xff\n" + gram
	}
	if sym.Bool("nosource") {
		code := run(files, append(args, "/g")...)
		sym.Assert(code == 1, "exit code for wrong arguments")
		return
	}
	files["/s"] = content
	if g == 5 || g == 3 {
		worse(2)
	}
	if g == 4 {
		worse(3)
	}
	if content == "" {
		worse(2)
	}
	if !utf8.ValidString(content) {
		worse(3)
	}
	switch g {
	case 1:
		worse(4)
	case 2:
		worse(5)
	}
	code := run(files, append(args, "/g", "/s")...)
	if want == 0 {
		sym.Assert(code == 0 || code == 6, "exit code of a run")
	} else if want == 3 && multi && g != 4 {
		sym.Assert(code == want, "samples that are not UTF-8 are reported")
	} else {
		sym.Assert(code == want, "exit code for wrong files")
	}
}

// H_Width: printed lines keep within the width.
//
//zz:bounds width of 1..40; any 0..6 (thorough: 9) letters of "a #"; two levels of nodes
func H_Width() {
	w := sym.IntRange("w", 1, 40)
	w = sym.Concrete(w)
	text := sym.StringOf("text", sym.Choice("len", sym.N(6, 9)+1), "a#")
	code := run(map[string]string{"/g": "$t = /[a# \\n]/; g = {x}, \"\\n\"; x = ['#'], 'a';", "/s": text + "\n"}, "-w", strconv.Itoa(w), "/g", "/s")
	out := string(os.Printed)
	if code != 0 {
		return
	}
	got := strings.Join(tokens(out), "")
	sym.Assert(got == text+"\n", "all tokens are printed in order")
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimRight(l, " ")
		item := strings.TrimLeft(l, " ")
		sym.Assert(len(l) <= w || strings.IndexByte(item, ' ') < 0, "lines keep within the width")
	}
}
