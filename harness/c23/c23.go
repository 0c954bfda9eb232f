// Package zzc23 checks the configuration editor: reading, writing back and
// editing of configuration files.
package zzc23

import (
	"strings"

	conf "github.com/ava12/llx/examples/conf-edit/internal"
	"github.com/ava12/llx/tree"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

//zz:dir examples/conf-edit/zzc23

func save(c *conf.Conf) string {
	var b strings.Builder
	n, e := conf.Serialize(c.RootNode, &b)
	sym.Assert(e == nil && n == b.Len(), "the configuration is written")
	return b.String()
}

func open(text string) (*conf.Conf, error) {
	src := []byte(text)
	return conf.Parse("conf", &src)
}

// H_RoundTrip: a text read and written is the same text.
//
//zz:bounds any text of up to 5 (thorough: 7) characters of "a = [ ] # . newline tab -"
func H_RoundTrip() {
	n := sym.Choice("len", sym.N(5, 7)+1)
	text := sym.StringOf("text", n, "a=[]#. \n-")
	c, e := open(text)
	right := true
	for _, l := range strings.Split(text, "\n") {
		right = right && rightLine(l)
	}
	if !right && e == nil {
		out := save(c)
		sym.Assert(!(strings.HasPrefix(text, strings.TrimSuffix(out, "\n")) || strings.HasPrefix(text, out)), "what follows a wrong symbol is dropped")
	}
	if commentEats(readLines(text)) {
		return // see H_Comments
	}
	sym.Assert((e == nil) == right, "exactly right configurations are read")
	if e != nil {
		return
	}
	sym.Assert(sameState(readConf(c), meaning(readLines(text))), "sections and entries are read")
	if c.Updated() {
		return // repeated entries are dropped on reading
	}
	want := text
	if n > 0 && text[n-1] != '\n' {
		want += "\n"
	}
	sym.Assert(save(c) == want, "text is written back as it was")
}

// commentEats tells that a comment follows a header or an entry without value:
// the line break belongs to the comment there.
func commentEats(ls []line) bool {
	for _, l := range ls {
		i := strings.IndexByte(l.text, '#')
		if i >= 0 && (l.kind == 'h' || l.kind == 'e' && l.val == "") {
			return true
		}
	}
	return false
}

// rightLine tells that a line is empty, a header or an entry, and a comment.
func rightLine(s string) bool {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		s = s[:i]
	}
	s = strings.Trim(s, " ")
	if s == "" {
		return true
	}
	if s[0] == '[' {
		return s[len(s)-1] == ']' && rightName(strings.Trim(s[1:len(s)-1], " "), true)
	}
	i := strings.IndexByte(s, '=')
	return i > 0 && rightName(strings.Trim(s[:i], " "), false)
}

func rightName(s string, dots bool) bool {
	word := false
	for i := 0; i < len(s); i++ {
		if s[i] == 'a' {
			word = true
		} else if (s[i] == '-' || dots && s[i] == '.') && word {
			word = false
		} else {
			return false
		}
	}
	return word
}

// H_Newlines: line ends of all kinds become line feeds.
//
//zz:bounds up to 5 (thorough: 7) characters of "a = CR LF #"
func H_Newlines() {
	n := sym.Choice("len", sym.N(5, 7)+1)
	text := sym.StringOf("text", n, "a=\r\n#")
	c, e := open(text)
	if e != nil || c.Updated() {
		return
	}
	for _, l := range strings.Split(strings.ReplaceAll(text, "\r", "\n"), "\n") {
		if !rightLine(l) {
			return // see H_RoundTrip
		}
	}
	want := strings.ReplaceAll(strings.ReplaceAll(text, "\r\n", "\n"), "\r", "\n")
	if n > 0 && want[len(want)-1] != '\n' {
		want += "\n"
	}
	sym.Assert(save(c) == want, "text is written back with line feeds")
}

// ---- line model

type line struct {
	text string // with the line feed
	kind byte   // b(lank), #, e(ntry), h(eader)
	sec  string
	key  string
	val  string
}

func readLines(text string) (ls []line) {
	sec := ""
	for _, t := range strings.SplitAfter(text, "\n") {
		if t == "" {
			continue
		}
		l := line{text: t}
		s := strings.TrimSpace(t)
		switch {
		case s == "":
			l.kind = 'b'
		case s[0] == '#':
			l.kind = '#'
		case s[0] == '[':
			l.kind = 'h'
			sec = s[1:]
			if j := strings.IndexByte(sec, ']'); j >= 0 {
				sec = sec[:j]
			}
		default:
			l.kind = 'e'
			i := strings.IndexByte(s, '=')
			if i < 0 {
				i = len(s) - 1
			}
			l.key = strings.TrimSpace(s[:i])
			l.val = s[i+1:]
			if j := strings.IndexByte(l.val, '#'); j >= 0 {
				l.val = l.val[:j]
			}
			l.val = strings.TrimSpace(l.val)
		}
		l.sec = strings.TrimSpace(sec)
		ls = append(ls, l)
	}
	return
}

type entry struct {
	sec, key, val string
}

// state is what a configuration means: sections and entries.
type state struct {
	secs []string
	ents []entry
}

func (s *state) find(sec, key string) int {
	for i, e := range s.ents {
		if e.sec == sec && e.key == key {
			return i
		}
	}
	return -1
}

func (s *state) hasSec(sec string) bool {
	for _, x := range s.secs {
		if x == sec {
			return true
		}
	}
	return false
}

func (s *state) addSec(sec string) {
	if !s.hasSec(sec) {
		s.secs = append(s.secs, sec)
	}
}

func (s *state) set(sec, key, val string) {
	s.addSec(sec)
	if i := s.find(sec, key); i >= 0 {
		s.ents[i].val = val
	} else {
		s.ents = append(s.ents, entry{sec, key, val})
	}
}

func (s *state) del(i int) {
	s.ents = append(append([]entry{}, s.ents[:i]...), s.ents[i+1:]...)
}

func meaning(ls []line) *state {
	s := &state{}
	for _, l := range ls {
		switch l.kind {
		case 'h':
			s.addSec(l.sec)
		case 'e':
			s.set(l.sec, l.key, l.val)
		}
	}
	return s
}

// sameState: the default section counts only when it has entries.
func sameState(a, b *state) bool {
	for _, x := range a.secs {
		if x != "" && !b.hasSec(x) {
			return false
		}
	}
	for _, x := range b.secs {
		if x != "" && !a.hasSec(x) {
			return false
		}
	}
	if len(a.ents) != len(b.ents) {
		return false
	}
	for _, e := range a.ents {
		i := b.find(e.sec, e.key)
		if i < 0 || b.ents[i].val != e.val {
			return false
		}
	}
	return true
}

func readConf(c *conf.Conf) *state {
	s := &state{}
	for n, sec := range c.Sections {
		s.addSec(n)
		for k, e := range sec.Entries {
			s.set(n, k, e.Value)
		}
	}
	return s
}

// In texts with comments only values are replaced and entries removed, see
// H_CommentEdit.
var (
	templates   = []string{"a=1\n", "[s]\n", "\n", " b = 2 \n", "[s.t]\n", "c=\n", "a = [=\n", "  \n"}
	commentTmpl = []string{"a=1\n", " b = 2 #x\n", "#c\n", "[s]\n", "a = [=#\n", " # d\n"}
)

var entryNames = []string{"a", "s.a", "n", "u.n", "b", "s.b", "c", "s.t.a"}

func split(name string) (sec, key string) {
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return "", name
	}
	return name[:i], name[i+1:]
}

// edit makes one edit and tells what it must do to the model. The lines that
// may change are marked by an empty text.

// repeats tells that a section has several headers.
func repeats(ls []line, sec string) bool {
	n := 0
	for _, l := range ls {
		if l.kind == 'h' && l.sec == sec {
			n++
		}
	}
	return n > 1
}

// stale tells that an entry is repeated and its last value is empty.
func stale(ls []line, sec, key string) bool {
	n, empty := 0, false
	for _, l := range ls {
		if (l.kind == 'e' || l.kind == 'd') && l.sec == sec && l.key == key {
			n++
			empty = l.val == ""
		}
	}
	return n > 1 && empty
}

func edit(c *conf.Conf, s *state, ls []line, mode int, free func(l line) bool) (may func(l line) bool) {
	may = free
	kinds := 4
	if mode == comments {
		kinds = 2
	}
	switch sym.Choice("edit", kinds) {
	case 0:
		n := entryNames[sym.Choice("entry", sym.N(6, len(entryNames)))]
		v := []string{"x y", "", "1", "2"}[sym.Choice("value", sym.N(3, 4))]
		if v == "x y" && mode == symbolic {
			v = sym.StringOf("v", 2, "=[]x.1")
		}
		sec, key := split(n)
		i := s.find(sec, key)
		sym.Assume(!stale(ls, sec, key)) // see H_Repeated
		sym.Assume(mode != comments || i >= 0 && v != "" && s.ents[i].val != "")
		if i < 0 || s.ents[i].val != v {
			may = func(l line) bool { return free(l) || l.kind == 'e' && l.sec == sec && l.key == key }
		}
		c.SetEntry(n, v)
		s.set(sec, key, v)
	case 1:
		n := entryNames[sym.Choice("entry", sym.N(6, len(entryNames)))]
		sec, key := split(n)
		if i := s.find(sec, key); i >= 0 {
			s.del(i)
			may = func(l line) bool { return free(l) || l.kind == 'e' && l.sec == sec && l.key == key }
		}
		c.RemoveEntry(n)
	case 2:
		n := []string{"s", "u", ""}[sym.Choice("section", 3)]
		c.AddSection(n)
		s.addSec(n)
	case 3:
		n := []string{"s", "", "s.t", "u"}[sym.Choice("section", 4)]
		sym.Assume(!repeats(ls, n)) // see H_Repeated
		for x := c.RootNode.FirstChild(); x != nil; x = x.Next() {
			sym.Assume(x.IsNode()) // see H_Panics
		}
		c.RemoveSection(n)
		for i := len(s.ents) - 1; i >= 0; i-- {
			if s.ents[i].sec == n {
				s.del(i)
			}
		}
		for i, x := range s.secs {
			if x == n {
				s.secs = append(append([]string{}, s.secs[:i]...), s.secs[i+1:]...)
				break
			}
		}
		may = func(l line) bool { return free(l) || l.sec == n }
	}
	return
}

// modes of edits
const (
	plain    = iota
	symbolic // values of any characters
	comments // only edits that work next to comments
)

// edits reads a text of lines, makes edits and compares meaning and lines.
func edits(tmpl []string, nlines, nedits, mode int) {
	text := ""
	for i := sym.Choice("lines", nlines+1); i > 0; i-- {
		text += tmpl[sym.Choice("line", len(tmpl))]
	}
	sym.Observe("text", text)
	c, e := open(text)
	sym.Assert(e == nil, "a right configuration is read")
	ls := readLines(text)
	s := meaning(ls)
	sym.Assert(sameState(readConf(c), s), "sections and entries are read")
	// repeated entries are dropped on reading, but for the last one
	free := func(l line) bool { return false }
	for i, l := range ls {
		if l.kind != 'e' {
			continue
		}
		for _, m := range ls[i+1:] {
			if m.kind == 'e' && m.sec == l.sec && m.key == l.key {
				ls[i].kind = 'd'
				break
			}
		}
	}
	for i := 0; i < nedits; i++ {
		if last := c.RootNode.LastChild(); last != nil && last.IsNode() && last.(tree.NodeElement).FirstChild() == nil {
			return // see H_Panics
		}
		free = edit(c, s, ls, mode, free)
		got := readConf(c)
		sym.Assert(sameState(got, s), "the edit does what it should")
		out := save(c)
		sym.Observe("out", out)
		ol := readLines(out)
		sym.Assert(sameState(meaning(ol), s), "the edit is in the text written")
		// every line which had nothing to do with edits is still there, in order
		j := 0
		for _, l := range ls {
			if l.kind == 'b' || l.kind == 'd' || free(l) {
				continue
			}
			for j < len(ol) && (strings.TrimLeft(ol[j].text, " ") != strings.TrimLeft(l.text, " ") || ol[j].sec != l.sec && l.kind == 'e') {
				j++
			}
			sym.Assert(j < len(ol), "other lines are preserved")
			j++
		}
		c2, e := open(out)
		sym.Assert(e == nil && sameState(readConf(c2), s), "the text written can be read")
		// what was there of an entry apart from its value
		for _, l := range ls {
			if l.kind == 'e' && s.find(l.sec, l.key) >= 0 {
				k := strings.IndexByte(l.text, '=') + 1
				found := false
				for _, o := range ol {
					if o.kind == 'e' && o.sec == l.sec && o.key == l.key {
						found = found || strings.HasPrefix(strings.TrimLeft(o.text, " "), strings.TrimLeft(l.text[:k], " "))
					}
				}
				sym.Assert(found || free(l) && nedits > 1, "the entry keeps its place and form")
			}
		}
	}
}

// H_Edit: one edit.
//
//zz:bounds texts of up to 3 (thorough: 4) lines of 8 forms without comments; setting one of 6 (8) entries to one of 3 (4) values, removing one of them, adding one of 3 or removing one of 4 sections; no removal of a section with several headers or in a text that starts with a space, no change of a repeated entry whose last value is empty
func H_Edit() { edits(templates, sym.N(3, 4), 1, plain) }

// H_Edits: a series of edits.
//
//zz:bounds texts of up to 2 (thorough: 3) lines of 4 (5) forms; 2 edits as in H_Edit
func H_Edits() { edits(templates[:sym.N(4, 5)], sym.N(2, 3), 2, plain) }

// H_Value: values that look like something else.
//
//zz:bounds texts of up to 2 (thorough: 3) lines of 6 (8) forms; one edit, setting an entry to any 2 characters of "= [ ] x . 1"
func H_Value() { edits(templates[:sym.N(6, 8)], sym.N(2, 3), 1, symbolic) }

// H_CommentEdit: comments survive edits.
//
//zz:bounds texts of up to 3 (thorough: 4) lines of 6 forms with comments; replacing a value that is not empty with one of 3 (4) others or removing an entry
func H_CommentEdit() { edits(commentTmpl, sym.N(3, 4), 1, comments) }

// H_Comments: a comment ends where its line ends.
//
//zz:bounds 5 edits in 4 texts with comments
func H_Comments() {
	text := []string{"c= #x\na=1\n", "[s] #h\na=1\n", "a=1 #x\n", "#c\n\n"}[sym.Choice("text", 4)]
	want := meaning(readLines(text))
	c, e := open(text)
	sym.Assert(e == nil && sameState(readConf(c), want), "a comment leaves the line break alone")
	i := sym.Choice("edit", 5)
	if i < 4 {
		sec, key, val := "", []string{"a", "b", "a", "b"}[i], []string{"", "", "2", "2"}[i]
		if i == 3 {
			sec = "s"
		}
		want.set(sec, key, val)
		c.SetEntry(strings.TrimPrefix(sec+"."+key, "."), val)
	} else {
		want.addSec("s")
		c.AddSection("s")
	}
	out := save(c)
	c, e = open(out)
	sym.Assert(e == nil && sameState(readConf(c), want), "an edit next to a comment leaves the line break alone")
}

// H_Repeated: repeated headers and entries.
//
//zz:bounds 2 texts with repetitions
func H_Repeated() {
	if sym.Bool("section") {
		c, e := open("[s]\na=1\n[s]\nb=1\n")
		sym.Assert(e == nil, "a section may have several headers")
		c.RemoveSection("s")
		sym.Assert(!strings.Contains(save(c), "[s]"), "all parts of a section are removed")
		return
	}
	c, e := open("a=1\na=\n")
	sym.Assert(e == nil, "an entry may be repeated")
	c.SetEntry("a", "2")
	sym.Assert(save(c) == "a=2\n", "the last one of repeated entries is changed")
}

// H_Panics: edits do not end the process.
//
//zz:bounds 2 edits
func H_Panics() {
	if sym.Bool("add") {
		c, e := open("a=1\n")
		sym.Assert(e == nil, "a right configuration is read")
		c.RemoveEntry("a")
		c.AddSection("s")
	} else {
		c, e := open("#c\n[s]\n")
		sym.Assert(e == nil, "a right configuration is read")
		c.RemoveSection("s")
	}
}
