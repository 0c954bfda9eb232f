package c18

import (
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
)

// lexemes makes lexemes of texts.
func lexemes(texts []string) (l []lex) {
	for _, t := range texts {
		x := lex{text: t}
		switch {
		case strings.HasPrefix(t, "$$"):
			x.kind = 'T'
		case t[0] == '$':
			x.kind = 'k'
		case t[0] == '!':
			x.kind = 'd'
		case t[0] == '/':
			x.kind = 'r'
		case t[0] == '\'':
			x.kind = 's'
			x.val = t[1 : len(t)-1]
		case t[0] == '"': // simple ones only
			x.kind = 's'
			x.val = strings.ReplaceAll(t[1:len(t)-1], `\n`, "\n")
		case strings.IndexByte("(){}[]=|,;@", t[0]) >= 0:
			x.kind = 'o'
		default:
			x.kind = 'n'
		}
		l = append(l, x)
	}
	return
}

// join writes lexemes down; every third one starts a line.
func join(l []lex) string {
	var b strings.Builder
	for i := range l {
		if i%3 == 2 {
			b.WriteString("#\n")
		} else {
			b.WriteByte(' ')
		}
		l[i].pos = b.Len()
		b.WriteString(l[i].text)
	}
	return b.String()
}

func lineCol(text string, pos int) (l, c int) {
	l, c = 1, 1
	for _, b := range text[:pos] {
		c++
		if b == '\n' {
			l, c = l+1, 1
		}
	}
	return
}

// judge compiles a text and compares the outcome with its meaning.
func judge(text string, r *ref) *grammar.Grammar {
	sym.Observe("text", text)
	g, e := langdef.ParseString("name", text)
	if len(r.fails) > 0 {
		if e == nil && r.eoi && onlyRecursion(r) {
			sym.Fail("left recursion behind the end of input is rejected")
		}
		sym.Assert(e != nil && g == nil, "a wrong description is rejected")
		var le *llx.Error
		sym.Assert(errors.As(e, &le), "llx error")
		for _, f := range r.fails {
			if f.code != le.Code {
				continue
			}
			if f.at < 0 {
				return nil
			}
			p := len(text)
			if f.at < len(r.lx) {
				p = r.lx[f.at].pos
			}
			l, c := lineCol(text, p)
			if le.SourceName == "name" && le.Line == l && le.Col == c || f.code == langdef.UnexpectedEofError {
				return nil
			}
		}
		sym.Fail(fmt.Sprint("the error tells what is wrong: ", le.Code, " at ", le.Line, ":", le.Col))
	}
	if e != nil {
		sym.Fail("a right description is accepted: " + e.Error())
	}
	check(g, r)
	return g
}

func onlyRecursion(r *ref) bool {
	for _, f := range r.fails {
		if f.code != langdef.RecursionError {
			return false
		}
	}
	return true
}

// check compares a grammar with its description and its tables with themselves.
func check(g *grammar.Grammar, r *ref) {
	// tokens: defined, external, literals
	var names []string
	class := 0
	lits, exts := 0, 0
	for i, t := range g.Tokens {
		sym.Assert(!has(names, fmt.Sprint(t.Flags&grammar.LiteralToken, t.Name)), "tokens are listed once")
		names = append(names, fmt.Sprint(t.Flags&grammar.LiteralToken, t.Name))
		c := 0
		if t.Flags&grammar.LiteralToken != 0 {
			c = 2
			lits++
			sym.Assert(has(r.lits, t.Name) && t.Re == "" && t.Group == 0, "literal token")
			want := grammar.LiteralToken
			if r.reserved[t.Name] {
				want |= grammar.ReservedToken
			}
			sym.Assert(t.Flags == want, "flags of a literal")
		} else {
			d := r.tok(t.Name)
			sym.Assert(d != nil && t.Re == d.re && t.Group == d.group && t.Flags == d.flags, "token definition")
			if !d.defined {
				c = 1
				exts++
			} else {
				sym.Assert(i < len(r.toks) && definedAt(r, i) == d, "order of token definitions")
			}
		}
		sym.Assert(c >= class, "order of tokens")
		class = c
	}
	sym.Assert(lits == len(r.lits), "all literals are listed")
	sym.Assert(len(g.Tokens)-lits == len(r.toks), "all tokens are listed")

	sym.Assert(len(g.Layers) == len(r.layers), "number of layers")
	for i, l := range g.Layers {
		w := r.layers[i]
		sym.Assert(l.Type == w.Type && len(l.Commands) == len(w.Commands), "layer")
		for j, c := range l.Commands {
			sym.Assert(c.Command == w.Commands[j].Command && len(c.Arguments) == len(w.Commands[j].Arguments), "layer command")
			for k, a := range c.Arguments {
				sym.Assert(a == w.Commands[j].Arguments[k], "argument of a layer command")
			}
		}
	}

	sym.Assert(len(g.Nodes) == len(r.nodes) && g.Nodes[grammar.RootNode].Name == r.nodes[0].name, "nodes")
	for i, n := range g.Nodes {
		sym.Assert(has(r.used, n.Name), "node is defined")
		for _, o := range g.Nodes[:i] {
			sym.Assert(o.Name != n.Name, "nodes are listed once")
		}
	}
	tables(g, r)
}

func definedAt(r *ref, i int) *tokDef {
	for _, t := range r.toks {
		if t.defined {
			if i == 0 {
				return t
			}
			i--
		}
	}
	return nil
}

func tables(g *grammar.Grammar, r *ref) {
	owner := make([]int, len(g.Rules))
	mowner := make([]int, len(g.MultiRules))
	own := func(l []int, low, high int) bool {
		if low < 0 || low > high || high > len(l) {
			return false
		}
		for i := low; i < high; i++ {
			l[i]++
		}
		return true
	}
	// what a key brings
	var side grammar.BitSet
	for i, t := range g.Tokens {
		if t.Flags&grammar.SideToken != 0 {
			side |= 1 << i
		}
	}
	types := make([]grammar.BitSet, len(g.Tokens))
	for i, t := range g.Tokens {
		if t.Flags&grammar.LiteralToken == 0 {
			types[i] = 1 << i
			continue
		}
		for _, n := range r.literalTypes(t.Name) {
			for j, x := range g.Tokens {
				if x.Flags&grammar.LiteralToken == 0 && x.Name == n {
					types[i] |= 1 << j
				}
			}
		}
	}

	for ni, n := range g.Nodes {
		end := len(g.States)
		if ni+1 < len(g.Nodes) {
			end = g.Nodes[ni+1].FirstState
		}
		sym.Assert(n.FirstState >= 0 && n.FirstState < end && end <= len(g.States), "states are grouped by node")
		sym.Assert(ni > 0 || n.FirstState == 0, "states are grouped by node from the first one")
		rule := func(x grammar.Rule, key int) {
			sym.Assert(x.Token == key, "rule key")
			sym.Assert(key == grammar.AnyToken || key == lexer.EoiTokenType || key >= 0 && key < len(g.Tokens), "rule token in range")
			if key >= 0 {
				sym.Assert(g.Tokens[key].Flags&(grammar.SideToken|grammar.ErrorToken) == 0, "no side token in rules")
			}
			sym.Assert(x.State == grammar.FinalState || x.State >= n.FirstState && x.State < end, "rule state in range")
			sym.Assert(x.Node == grammar.SameNode || x.Node >= 0 && x.Node < len(g.Nodes), "rule node in range")
			sym.Assert(key != grammar.AnyToken || x.Node == grammar.SameNode, "a bypass pushes no node")
		}
		for si := n.FirstState; si < end; si++ {
			s := g.States[si]
			sym.Assert(own(owner, s.LowRule, s.HighRule) && own(mowner, s.LowMultiRule, s.HighMultiRule), "ranges of a state")
			sym.Assert(s.LowRule < s.HighRule || s.LowMultiRule < s.HighMultiRule, "a state has rules")
			want := side
			seen := map[int]bool{}
			last := -128
			for _, x := range g.Rules[s.LowRule:s.HighRule] {
				sym.Assert(x.Token > last, "rules are sorted")
				last = x.Token
				seen[x.Token] = true
				rule(x, x.Token)
				if x.Token >= 0 {
					want |= types[x.Token]
				}
			}
			last = -1
			for _, m := range g.MultiRules[s.LowMultiRule:s.HighMultiRule] {
				sym.Assert(m.Token > last && !seen[m.Token], "ambiguous rules are sorted")
				last = m.Token
				sym.Assert(own(owner, m.LowRule, m.HighRule) && m.HighRule > m.LowRule+1, "range of ambiguous rules")
				for _, x := range g.Rules[m.LowRule:m.HighRule] {
					rule(x, m.Token)
				}
				want |= types[m.Token]
			}
			sym.Assert(s.TokenTypes == want, "token types of a state")
		}
	}
	for _, n := range owner {
		sym.Assert(n == 1, "each rule belongs to one list")
	}
	for _, n := range mowner {
		sym.Assert(n == 1, "each list of rules belongs to one state")
	}
}

// grow adds up to k lexemes of the vocabulary until something is wrong.
func grow(pre []string, voc []string, k int) (texts []string, r *ref) {
	texts = append([]string(nil), pre...)
	for i := 0; ; i++ {
		r = meaning(lexemes(texts))
		if i >= k || r.syntax >= 0 && r.syntax < len(texts) {
			return
		}
		c := sym.Choice("lexeme", len(voc)+1)
		if c == len(voc) {
			return
		}
		texts = append(texts, voc[c])
	}
}

const head = "$t = /[a-z]/ ; $d = /[0-9]/ ; $s = /\\x20/ ; !side $s ; !extern $x ; g ="

// H_Nodes: node definitions.
//
//zz:bounds any 1..5 (thorough 6) lexemes after "g =", out of 2 names, 4 token types (one side, one undefined), $, 2 literals (one without a type), all brackets, comma, bar, semicolon, =, @, a regexp; then the definitions are finished in two ways
func H_Nodes() {
	voc := []string{"g", "h", "$t", "$s", "$u", "$", "'a'", "'-'", "(", ")", "[", "]", "{", "}", ",", "|", ";", "=", "@", "/a/"}
	texts, r := grow(strings.Fields(head), voc, sym.N(5, 6))
	if r.syntax == len(texts) {
		// what is missing
		switch c := sym.Choice("finish", 3); {
		case c > 0:
			depth := []string{}
			for _, t := range texts {
				if i := strings.Index("([{", t); i >= 0 && len(t) == 1 {
					depth = append(depth, ")]}"[i:i+1])
				} else if strings.Contains(")]}", t) {
					depth = depth[:len(depth)-1]
				}
			}
			if l := texts[len(texts)-1]; l != ";" {
				if !strings.Contains(")]}", l) && strings.Contains("=,|([{", l) {
					texts = append(texts, "$d")
				}
				for i := len(depth) - 1; i >= 0; i-- {
					texts = append(texts, depth[i])
				}
				texts = append(texts, ";")
			}
			if c == 2 {
				texts = append(texts, strings.Fields("h = [ 'a' ] , g | $d ;")...)
			}
		}
		r = meaning(lexemes(texts))
	}
	text := join(r.lx)
	judge(text, r)
}

var records = []string{
	"$$x = /[a-z]/ ;", "$$y = x /[0-9]/ ;", "$$x = /x/ x ;", "$$y = /(/ ;",
	"$t = /[a-z]/ ;", "$t = x ;", "$t = /[A-Z]/ y ;", "$u = /[a-zA-Z]+/ ;", "$u = /[0-9]/ /a/ x ;", "$ = /a/ ;", "$v = /[/ ;",
	"!side $t ;", "!side $v ;", "!side $u $t ;", "!error $t ;", "!error $u ;", "!extern $v ;", "!extern $t $v ;", "!extern $ ;", "!side $ ;", "!side ;",
	"!caseless $t ;", "!caseless $u ;", "!group $t ;", "!group $u $v ;", "!group $t $u ;", "!group $u $u ;", "!group ;",
	"!literal $t ;", "!literal $u $v ;", "!literal 'a' ;", "!literal 'A' $u ;", "!reserved 'a' ;", "!reserved 'A' 'a' ;", "!reserved \"\\n\" ;",
	"!unknown $t ;", "!reserved string ;", "!side token-name ;", "!literal string ;", "!side 'a' ;", "!reserved $t ;",
	"@ a ;", "@ b c ( ) d ( e , 'f' , \"\\n\" ) ;", "@ a b ;", "@ 'a' ;", "/a/ ;",
}

var sections = []string{"g = $t ;", "g = 'a' , [ $u ] ;", "g = $v | 'A' ;", "g = $ ;", "g = [ 'b' | $t ] , h ; h = $t | $u | 'a' ; @ last ;"}

func pick(n int) (texts []string) {
	for i := 0; i < n; i++ {
		texts = append(texts, strings.Fields(records[sym.Choice("record", len(records))])...)
	}
	return
}

// H_Head: templates, token types and directives.
//
//zz:bounds any 0..2 (thorough 3) of 46 records in any order, two token definitions before or after them or none, then one of 5 lists of nodes
func H_Head() {
	var texts []string
	defs := strings.Fields("$t = /[a-z]/ ; $u = /[A-Z]/ ;")
	where := sym.Choice("defs", 3)
	if where == 1 {
		texts = append(texts, defs...)
	}
	texts = append(texts, pick(sym.Choice("records", sym.N(3, 4)))...)
	if where == 2 {
		texts = append(texts, defs...)
	}
	texts = append(texts, strings.Fields(sections[sym.Choice("section", len(sections))])...)
	r := meaning(lexemes(texts))
	judge(join(r.lx), r)
}

// H_Edit: one wrong lexeme anywhere.
//
//zz:bounds 5 descriptions using everything, with one lexeme dropped, doubled, or replaced with any of 14 others, or cut short anywhere
func H_Edit() {
	full := []string{
		"$$x = /[a-z]/ ; $t = x x ; $u = /[0-9]/ ; !side $s ; $s = /\\x20/ ; g = $t , { ',' , $t | 'aa' } ;",
		"!caseless $t ; !error $e ; !group $u $v ; !literal $t 'A' ; !extern $v ; $t = /[A-Z]/ ; $u = /.+/ ; $e = /!/ ; g = 'A' | $u , [ $v ] , $ ;",
		"$t = /[a-z]/ ; !reserved 'a' \"b\" ; @ one two ( 'a' , b ) three ( ) ; g = h , ( i | 'c' ) ; h = $t ; @ two ; i = { h } , 'a' ;",
	}
	texts := strings.Fields(full[sym.Choice("description", len(full))])
	at := sym.Choice("at", len(texts))
	other := []string{"a", "g", "$t", "$w", "$", "'a'", "/a/", ";", ",", "=", "(", "]", "!side", "$$x"}
	switch c := sym.Choice("edit", 3+len(other)); c {
	case 0:
		texts = append(texts[:at:at], texts[at+1:]...)
	case 1:
		texts = append(texts[:at+1:at+1], texts[at:]...)
	case 2:
		texts = texts[:at]
	default:
		texts[at] = other[c-3]
	}
	if len(texts) == 0 {
		return
	}
	r := meaning(lexemes(texts))
	judge(join(r.lx), r)
}

// H_Layer: layer definitions.
//
//zz:bounds any 0..6 (thorough 7) lexemes out of 9 after "@", before the nodes or after them
func H_Layer() {
	voc := []string{"a", "b", "(", ")", ",", ";", "'x'", "@", "$t"}
	pre := strings.Fields("$t = /[a-z]/ ; @")
	if sym.Choice("after", 2) == 1 {
		pre = strings.Fields("$t = /[a-z]/ ; g = $t ; @")
	}
	texts, r := grow(pre, voc, sym.N(6, 7))
	if r.syntax == len(texts) && texts[len(texts)-1] == ";" {
		r = meaning(lexemes(append(texts, strings.Fields("g = $t ;")...)))
	}
	judge(join(r.lx), r)
}

// H_Number: the number of token types.
//
//zz:bounds 60..64 token types, 0, 1, 3 or 30 of them external, up to 40 of the others listed in a directive before or after their definitions, with and without literals
func H_Number() {
	n := sym.IntRange("n", 60, 64)
	n = sym.Concrete(n)
	all := n
	extern := []int{0, 1, 3, 30}[sym.Choice("extern", 4)]
	n -= extern
	listed := []int{0, 1, 30, 40}[sym.Choice("listed", 4)]
	where := sym.Choice("where", 2)
	var defs, dir strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&defs, "$t%d = /\\x%02x/;\n", i, 'A'+i)
	}
	dir.WriteString("!caseless")
	for i := 0; i < listed; i++ {
		fmt.Fprintf(&dir, " $t%d", i*60/40%n)
	}
	dir.WriteString(";\n")
	if extern > 0 {
		dir.WriteString("!extern")
		for i := 0; i < extern; i++ {
			fmt.Fprintf(&dir, " $x%d", i)
		}
		dir.WriteString(";\n")
	}
	text := dir.String() + defs.String()
	if where == 1 {
		text = defs.String() + dir.String()
	}
	text += "g = $t0"
	if sym.Choice("literals", 2) == 1 {
		text += ", 'A', 'B', 'C', 'D', 'E'"
	}
	_, e := langdef.ParseString("", text+";")
	if all < grammar.MaxTokenType {
		sym.Assert(e == nil, "number of token types within the limit")
	} else if all > grammar.MaxTokenType {
		var le *llx.Error
		sym.Assert(errors.As(e, &le) && le.Code == langdef.TokenTypeNumberError, "too many token types")
	}
}

// Order: descriptions wrong and right in more than one place.
var descriptions = []string{
	"$t = /[a-z]/; g = $t, h, i, j;",
	"$t = /[a-z]/; g = h | i | j; h = i; i = h; j = j;",
	"$t = /[a-z]/; g = $t, [h | i]; h = g; i = $t, j; j = h;",
	"$t = /[a-z]/; g = h | i; h = g | i; i = $t | g;",
	"$t = /[a-z]/; g = 't'; j = 'u'; i = 'v'; h = i;",
	"$t = /[a-z]/; $u = /[0-9a]/; $v = /./; !group $u $v; !side $v; $w = /b/; !caseless $w; g = h | i, {'a' | j}; h = 'b' | i; i = $t | $u; j = 'c', ['d' | 'e'], g;",
	"$t = /[a-z]/; g = {'a' | h}, ('a', 'b' | $t) | i, 'c'; h = 'a', $t | {i}; i = 'a' | 'b' | {'c'}, 'd';",
	"$t = /./; $u = /a/; g = h, i, j; h = j | 'a'; i = h | j | $u; j = {'b'}, $t;",
	"!literal 'a' 'b' $u; !reserved 'b' 'c'; $t = /[a-z]/; $u = /[a-c]/; !extern $x; g = $x, 'a' | 'b';",
	"$t = /[a-z]/; g = 'aa' | '-' | '!';",
	"!side $a $b; !error $b $c; $t = /[a-z]/; g = $t;",
}

type outcome struct {
	g *grammar.Grammar
	e string
}

var outcomes []outcome

func Setup_Order() {
	outcomes = nil
	for _, d := range descriptions {
		outcomes = append(outcomes, compiled(d))
	}
}

func compiled(d string) outcome {
	g, e := langdef.ParseString("name", d)
	if e != nil {
		return outcome{g, e.Error()}
	}
	return outcome{g, ""}
}

// H_Order: the result does not depend on the order maps are traversed in.
//
//zz:bounds 11 descriptions, any two traversals of maps of the run take any other order of their keys (maps of 4 keys or more: rotations and reversals)
//zz:maporder 2
func H_Order() {
	i := sym.Choice("description", len(descriptions))
	was := outcomes[i]
	now := compiled(descriptions[i])
	sym.Assert(was.e == now.e, "same error")
	if was.e != "" {
		return
	}
	sym.Assert(len(was.g.Tokens) == len(now.g.Tokens) && len(was.g.Nodes) == len(now.g.Nodes) && len(was.g.States) == len(now.g.States) &&
		len(was.g.MultiRules) == len(now.g.MultiRules) && len(was.g.Rules) == len(now.g.Rules), "same sizes")
	for i, t := range now.g.Tokens {
		sym.Assert(t == was.g.Tokens[i], "same tokens")
	}
	for i, t := range now.g.Nodes {
		sym.Assert(t == was.g.Nodes[i], "same nodes")
	}
	for i, t := range now.g.States {
		sym.Assert(t == was.g.States[i], "same states")
	}
	for i, t := range now.g.MultiRules {
		sym.Assert(t == was.g.MultiRules[i], "same ambiguous rules")
	}
	for i, t := range now.g.Rules {
		sym.Assert(t == was.g.Rules[i], "same rules")
	}
}
