// Package c22 checks the code generator: the Go and JSON files llxgen writes
// hold exactly the compiled grammar.
package c22

import (
	"encoding/json"
	"flag"
	realos "os"

	gen "github.com/ava12/llx/cmd/llxgen/zzpkg"
	"github.com/ava12/llx/grammar"
	_ "github.com/ava12/llx/internal/zzverif/zzjson"
	os "github.com/ava12/llx/internal/zzverif/zzos"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
)

//zz:copymain cmd/llxgen cmd/llxgen/zzpkg llxgen os=internal/zzverif/zzos
//zz:exactquote

// run runs llxgen and gives its exit code.
func run(files map[string]string, args ...string) (code int) {
	args = append([]string{"llxgen"}, args...)
	os.Reset(args...)
	for n, t := range files {
		os.Files[n] = []byte(t)
	}
	realos.Args = args
	flag.CommandLine = flag.NewFlagSet("llxgen", flag.ContinueOnError)
	defer func() {
		if p := recover(); p != nil {
			c, ok := p.(os.ExitCode)
			if !ok {
				panic(p)
			}
			code = int(c)
		}
	}()
	gen.Main()
	return 0
}

func same(a, b *grammar.Grammar) {
	sym.Assert(len(a.Tokens) == len(b.Tokens) && len(a.Layers) == len(b.Layers) && len(a.Nodes) == len(b.Nodes) &&
		len(a.States) == len(b.States) && len(a.MultiRules) == len(b.MultiRules) && len(a.Rules) == len(b.Rules), "sizes of tables")
	for i, t := range a.Tokens {
		sym.Assert(t == b.Tokens[i], "token")
	}
	for i, l := range a.Layers {
		m := b.Layers[i]
		sym.Assert(l.Type == m.Type && len(l.Commands) == len(m.Commands), "layer")
		for j, c := range l.Commands {
			d := m.Commands[j]
			sym.Assert(c.Command == d.Command && len(c.Arguments) == len(d.Arguments), "layer command")
			for k, x := range c.Arguments {
				sym.Assert(x == d.Arguments[k], "layer command argument")
			}
		}
	}
	for i, n := range a.Nodes {
		sym.Assert(n == b.Nodes[i], "node")
	}
	for i, s := range a.States {
		sym.Assert(s == b.States[i], "state")
	}
	for i, r := range a.MultiRules {
		sym.Assert(r == b.MultiRules[i], "multi-rule")
	}
	for i, r := range a.Rules {
		sym.Assert(r == b.Rules[i], "rule")
	}
}

// judge generates both files for a description and compares them with the
// compiled grammar.
func judge(text string) {
	sym.Observe("text", text)
	want, e := langdef.ParseString("g.llx", text)
	files := map[string]string{"/src/pkg/g.llx": text}
	isJson := sym.Bool("json")
	var code int
	if isJson {
		code = run(files, "-j", "/src/pkg/g.llx")
	} else {
		code = run(files, "-v", "gr", "/src/pkg/g.llx")
	}
	if e != nil {
		sym.Assert(code != 0 && os.Writes == 0 && len(os.Files) == 1, "nothing is written for a wrong description")
		return
	}
	if code != 0 {
		sym.Assert(os.Writes == 0 && len(os.Files) == 1, "nothing is written on failure")
		sym.Assert(isJson && !textual(want), "a right description is accepted")
		return
	}
	sym.Assert(string(os.Files["/src/pkg/g.llx"]) == text, "the description is left alone")
	if isJson {
		out, ok := os.Files["/src/pkg/g.json"]
		sym.Assert(ok && len(os.Files) == 2, "output file")
		var g grammar.Grammar
		e = json.Unmarshal(out, &g)
		sym.Assert(e == nil, "JSON file is valid")
		same(want, &g)
		return
	}
	out, ok := os.Files["/src/pkg/g.go"]
	sym.Assert(ok && len(os.Files) == 2, "output file")
	pkg, name, g, fails := evalGo(string(out))
	if fails != "" {
		sym.Fail("Go file is not valid: " + fails)
	}
	sym.Assert(pkg == "pkg" && name == "gr", "package and variable")
	same(want, g)
}

// textual tells that all strings of a grammar can be put in JSON.
func textual(g *grammar.Grammar) bool {
	ok := true
	text := func(s string) {
		for _, r := range s {
			ok = ok && r != 0xFFFD
		}
	}
	for _, t := range g.Tokens {
		text(t.Name)
		text(t.Re)
	}
	for _, l := range g.Layers {
		for _, c := range l.Commands {
			for _, a := range c.Arguments {
				text(a)
			}
		}
	}
	return ok
}

var shapes = []string{
	"$a = /a/; $b = /b/; g = $a;",
	"$a = /a+/; $b = /b|\\x00/; !side $b; !caseless $a; g = {$a | x}; x = 'A', $a;",
	"$a = /a/; $s = /[ \"\\\\`\\n]/; $e = /./; !side $s; !error $e; !group $a; !extern $x $y; g = [$x], {'a' | $y}, $;",
	"$n = /\\w+/; !literal $n; !reserved 'if' 'do'; g = {if | do | call}; if = 'if', $n; do = 'do', {g}; call = $n, '!' ; $z = /z/;",
	"$n = /\\w+/; $o = /[!;]/; !reserved 'if' 'do'; g = {if | do | call}; if = 'if', $n; do = 'do', g, ';'; call = $n, '!';",
	"$n = /\\w/; $o = /[,;]/; g = {(a | b), [';']}; a = $n, $n, ','; b = $n, [','], 'x' | 'y';",
	"$n = /\\w/; !group $n; $m = /\\d/; !group $m; $k = /[+-]/; g = {x}; x = $n | $m | '+', {$k | '-'};",
	"$x-y = /[^\\x00-\\x7f]/; $d = /[$%]+/; !extern $_; g-h = {$x-y | $d | '%' | '%d' | $_};",
	"$a = /a/; g = h; h = i | j; i = 'a', [$a]; j = $a, 'a', 'a', {'a'};",
}

// H_Shapes: tables of grammars of every kind.
//
//zz:bounds 9 descriptions with ambiguous rules, groups, flags, external and reserved tokens, end-of-input token, unusual names, each as Go and as JSON
func H_Shapes() {
	judge(shapes[sym.Choice("shape", len(shapes))])
}

var args = []string{"'x, \"y'", "w-1", "''", "'%d'"}

// H_Layers: layers and their commands.
//
//zz:bounds up to 2 (quick) or 3 (thorough) layers before or after the node, each with up to 2 commands with up to 3 arguments; names and strings, some empty
func H_Layers() {
	text := "$a = /a/; "
	n := sym.Choice("layers", sym.N(2, 3)+1)
	l := ""
	for i := 0; i < n; i++ {
		l += "@" + []string{"x", "long-name_1"}[i%2]
		for j := sym.Choice("commands", 3); j > 0; j-- {
			l += " c" + []string{"", "-d"}[j%2] + "("
			for k := sym.Choice("arguments", sym.N(3, 4)); k > 0; k-- {
				l += args[(k+i+j)%len(args)]
				if k > 1 {
					l += ","
				}
			}
			l += ")"
		}
		l += ";"
	}
	if sym.Bool("last") {
		text += "g = $a;" + l
	} else {
		text += l + "g = $a;"
	}
	judge(text)
}

// H_Argument: any text as an argument of a layer command.
//
//zz:bounds string of 1 or 2 (thorough: 3) arbitrary bytes between single quotes
func H_Argument() {
	n := 1 + sym.Choice("len", sym.N(2, 3))
	judge("$a = /a/; g = $a; @l c('" + sym.String("arg", n) + "', 'z');")
}

// H_Escape: any byte as a literal and in front of another one.
//
//zz:bounds "\xHH" for any two hexadecimal digits, alone or before one of 5 texts that change the meaning of the bytes
func H_Escape() {
	hex := sym.StringOf("hex", 2, "0123456789abcdefABCDEF")
	tail := []string{"", "0", "\\x80", "\\u20ac", "\\\""}[sym.Choice("tail", 5)]
	judge("$a = /.+/; g = $a, \"\\x" + hex + tail + "\";")
}

var runes = []string{"\\u0080", "\\u00a0", "\\u00ad", "\\u2028", "\\u2029", "\\u200b", "\\ufeff", "\\ufffd", "\\ufffe", "\\u00ffffff", "\\U0010ffff", "\\U000e0001", "\\u00e9", "é", "\u2028", "😀", "\\U0001f600", "\\t", "\\r", "\\n"}

// H_Runes: characters quoting treats specially.
//
//zz:bounds 20 characters (line separators, byte order mark, unassigned, private, control, out of the basic plane) in a literal and in an argument, with one symbolic ASCII byte behind
func H_Runes() {
	c := runes[sym.Choice("rune", len(runes))]
	b := sym.StringOf("next", 1, " 0aF<&\\\"`'$%")
	judge("$a = /(?:.|\\n)+/; g = $a, \"" + c + "\"; @l c(\"" + c + b + "\");")
}

var regexps = []string{"\"", "`", "\\\\", "\\n", "\n", "\\/", "'", "\\x00", "\\x{10ffff}", "é", "\u2028", "[^\\]\"]+", "a|", "<&>", "%d%", "\t", "(?i:x)", "//", "\\pL", "\x01", "\x7f"}

// H_Regexp: unusual characters in patterns.
//
//zz:bounds pairs of 21 pattern fragments, in a token type or by way of a template
func H_Regexp() {
	a := regexps[sym.Choice("first", len(regexps))]
	b := regexps[sym.Choice("second", sym.N(4, len(regexps)))]
	if sym.Bool("template") {
		judge("$$t = /" + a + "/; $a = t, /b?" + b + "/; g = $a;")
	} else {
		judge("$a = /" + a + b + "/; g = $a;")
	}
}

var names = []string{"g", "_", "G_1", "g-h", "func", "type", "range", "init", "main", "grammar", "string", "nil", "int", "var", "x2", "g--", "_-"}

// H_Names: default and given names of packages, variables and files.
//
//zz:bounds 17 names as the root node or flag -v, 8 directories or names in flag -p, 4 forms of file names, with and without a layer
func H_Names() {
	root, v, p, o := "g", "", "", ""
	dirs := []string{"/src/pkg/", "/pkg/", "/", "/a-b/", "/func/", "/main/", "/_/", "/grammar/"}
	dir := dirs[0]
	var args []string
	switch sym.Choice("vary", 4) {
	case 0:
		root = names[sym.Choice("root", len(names))]
	case 1:
		v = append(names, "a b", "é", "x;", "x\n")[sym.Choice("var", len(names)+4)]
	case 2:
		dir = dirs[sym.Choice("dir", len(dirs))]
		root = []string{"g", "main"}[sym.Choice("main", 2)]
	case 3:
		p = append(names, "a b", "é", "x\n")[sym.Choice("package", len(names)+3)]
		root = []string{"g", "main"}[sym.Choice("main", 2)]
	}
	text := "$a = /a/; " + root + " = $a;"
	if sym.Bool("layer") {
		text += "@l c(d);"
	}
	in := dir + []string{"g.llx", "g", "g.x.y", ".g"}[sym.Choice("file", 4)]
	ext := len(in)
	for i := len(in) - 1; in[i] != '/'; i-- {
		if in[i] == '.' {
			ext = i
			break
		}
	}
	out := in[:ext] + ".go"
	if sym.Bool("out") {
		o = dir + "out/x"
		out = o
		args = append(args, "-o", o)
	}
	if v != "" {
		args = append(args, "-v", v)
	}
	if p != "" {
		args = append(args, "-p", p)
	}
	code := run(map[string]string{in: text}, append(args, in)...)
	want, e := langdef.ParseString("x", text)
	sym.Assert(e == nil, "description")
	if code != 0 {
		sym.Assert(os.Writes == 0 && len(os.Files) == 1, "nothing is written on failure")
		// plain names must be accepted
		if v == "" {
			v = root
		}
		plain := func(s string) bool {
			return s == "g" || s == "G_1" || s == "x2" || s == "main" && p != "main" && dir != "/main/"
		}
		sym.Assert(!(plain(v) && (p == "" && (o != "" || dir == "/src/pkg/" || dir == "/pkg/") || plain(p))), "plain names are accepted")
		return
	}
	b, ok := os.Files[out]
	sym.Assert(ok && len(os.Files) == 2 && string(os.Files[in]) == text, "output file")
	pkg, name, g, fails := evalGo(string(b))
	if fails != "" {
		sym.Fail("Go file is not valid: " + fails)
	}
	if v == "" {
		v = root
	}
	if p == "" {
		d := out
		for i, k := len(d)-1, 0; i >= 0; i-- {
			if d[i] == '/' {
				if k > 0 {
					p = d[i+1 : k]
					break
				}
				k = i
			}
		}
	}
	sym.Assert(pkg == p, "package name")
	sym.Assert(name == v, "variable name")
	same(want, g)
}
