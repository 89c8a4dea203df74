package main

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hsl"
)

// -----------------------------------------------------------------------------
// C01

type docPair struct {
	Key  string // as written
	Vals []string
	Line int
}

type docSection struct {
	Name  string
	List  bool
	Line  int
	Pairs []docPair
}

type docCase struct {
	Text Str
	Want []docSection
}

// unlit reads a literal as written by the generator.
func unlit(s string) string {
	if strings.HasPrefix(s, `"`) {
		return strings.ReplaceAll(s[1:len(s)-1], `\"`, `"`)
	}
	return s
}

func unlits(ss []string) []string {
	out := []string{}
	for _, s := range ss {
		out = append(out, unlit(s))
	}
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkDoc(cs docCase) (string, string) {
	got, err := hsl.Parse(strings.NewReader(string(cs.Text)))
	if err != nil {
		return "", sprintf("Parse: %v", err)
	}
	n := 0
	for _, s := range cs.Want {
		if len(s.Pairs) == 0 {
			continue
		}
		n++
		sec, ok := got[s.Name]
		if !ok {
			return "", sprintf("section %q is missing", s.Name)
		}
		if sec.Line() != s.Line {
			return "", sprintf("section %q at line %d, expected %d", s.Name, sec.Line(), s.Line)
		}
		ps := sec.Pairs()
		if len(ps) != len(s.Pairs) {
			return "", sprintf("section %q has %d pairs, expected %d: %v", s.Name, len(ps), len(s.Pairs), ps)
		}
		dict, isDict := sec.(*hsl.DictSection)
		if isDict == s.List {
			return "", sprintf("section %q is of the wrong kind", s.Name)
		}
		one := true
		byKey := map[string]hsl.Pair{}
		if isDict {
			for _, p := range ps {
				byKey[p.Left()] = p
			}
		}
		for i, w := range s.Pairs {
			key, vals := unlit(w.Key), unlits(w.Vals)
			var p hsl.Pair
			if isDict {
				var ok bool
				if p, ok = byKey[key]; !ok {
					return "", sprintf("key %q is missing in %v", key, ps)
				}
			} else {
				p = ps[i]
			}
			if p.Left() != key || !sameStrings(p.Right(), vals) {
				return "", sprintf("pair %v, expected %q, %q", p, key, vals)
			}
			if p.Line() != w.Line {
				return "", sprintf("pair %v at line %d, expected %d", p, p.Line(), w.Line)
			}
			if len(vals) != 1 {
				one = false
			}
			if isDict {
				if !sameStrings(dict.All(key), vals) || !sameStrings(dict.Map()[key], vals) {
					return "", sprintf("All/Map of %q differ from %q", key, vals)
				}
				first := ""
				if len(vals) > 0 {
					first = vals[0]
				}
				if dict.One(key) != first {
					return "", sprintf("One(%q) = %q, expected %q", key, dict.One(key), first)
				}
			}
		}
		if isDict {
			if len(dict.Map()) != len(s.Pairs) {
				return "", "Map has other keys"
			}
			m, err := dict.Injective()
			if (err == nil) != one {
				return "", sprintf("Injective error %v", err)
			}
			if one {
				for _, w := range s.Pairs {
					if m[unlit(w.Key)] != unlit(w.Vals[0]) {
						return "", "Injective differs"
					}
				}
			}
			if dict.One("no such key") != "" || len(dict.All("no such key")) != 0 {
				return "", "an absent key has values"
			}
		}
	}
	if len(got) != n {
		return "", sprintf("%d sections, expected %d", len(got), n)
	}
	return string(cs.Text), ""
}

// layout of a document
type layout struct {
	indent, delim, comma, trail, eol, head, gap string
	final                                       bool
}

// render writes a document and fills in the line numbers.
func render(secs []docSection, l layout) docCase {
	var b strings.Builder
	line := 1
	emit := func(s string) {
		b.WriteString(s)
		line += strings.Count(s, "\n")
	}
	out := make([]docSection, len(secs))
	emit(l.gap)
	for i, s := range secs {
		o := docSection{Name: s.Name, List: s.List, Line: line}
		emit(s.Name + ":" + l.head + l.eol)
		for j, p := range s.Pairs {
			emit(l.gap)
			p.Line = line
			o.Pairs = append(o.Pairs, p)
			arrow := "="
			if s.List {
				arrow = "->"
			}
			emit(l.indent + p.Key + l.delim + arrow + l.delim + strings.Join(p.Vals, l.comma+","+l.comma))
			emit(l.trail)
			if l.final || i < len(secs)-1 || j < len(s.Pairs)-1 {
				emit(l.eol)
			}
		}
		out[i] = o
	}
	return docCase{Str(b.String()), out}
}

func hslLiterals(quick bool) []string {
	l := []string{`a`, `_k1`, `한글`, `"b"`, `""`, `"a, b"`, `"x:y"`, `"#no"`, `"a -> b = c"`, `"say \"hi\""`, `" é 가 "`, `"it's"`, `"<v>{@}^$"`}
	if !quick {
		l = append(l, `"\""`, `"a	b"`, `"😀"`, `"-"`, `"{}"`, `é`, `Ж2`, `"->"`, `","`)
	}
	return l
}

func hslLayouts(quick bool) []layout {
	var out []layout
	indents := []string{"    ", "", "\t", "  \t "}
	delims := []string{" ", "", "   ", "\t"}
	commas := []string{" ", "", "  "}
	trails := []string{"", " ", " # c", "#", "\t#, \"x\" -> y"}
	heads := []string{"", " # h", " ", "#"}
	gaps := []string{"", "\n", "# g: a -> \"b\"\n", "  \n    # x\n\n"}
	if quick {
		indents, delims = indents[:3], delims[:3]
	}
	for _, in := range indents {
		for _, d := range delims {
			for _, c := range commas {
				for _, t := range trails {
					for _, eol := range []string{"\n", "\r\n"} {
						for _, h := range heads {
							for _, g := range gaps {
								for _, f := range []bool{true, false} {
									if eol == "\r\n" && quick && (h == "#" || len(g) == 1) {
										continue
									}
									out = append(out, layout{in, d, c, t, eol, h, g, f})
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func runC01(c *Ctx) {
	lits := hslLiterals(c.Quick())
	lays := hslLayouts(c.Quick())
	var vals [][]string
	vals = append(vals, []string{})
	for _, a := range lits {
		vals = append(vals, []string{a})
	}
	for i, a := range lits {
		for j, b := range lits {
			if c.Quick() && (i+j)%3 != 0 {
				continue
			}
			vals = append(vals, []string{a, b})
		}
	}
	// Quoted text may go over lines.
	for _, v := range []string{"\"p\nq\"", "\"p\r\nq\"", "\"\r\"", "\"\n\"", "\"\r\n\"", "\"p \n\n q\"", "\"p\rq\"", "\"\tp\t\n\"", "\"a\n# b\""} {
		vals = append(vals, []string{v}, []string{"b", v}, []string{v, `""`})
	}
	vals = append(vals, []string{`a`, `""`, `"b"`}, []string{`"1"`, `"2"`, `"3"`, `한`})
	c.Extra("literals", len(lits))
	c.Extra("layouts", len(lays))
	c.Rule("every document of one pair: kind x key literal x value list (up to two, and some longer) x layout (indentation, spacing, trailing and header comments, blank and comment lines, line ends, final newline); non-trivial: parsed, by the text")
	type kv struct {
		key  string
		vals []string
		list bool
	}
	var kvs []kv
	for _, k := range lits {
		for vi, v := range vals {
			if c.Quick() && (vi+len(k))%2 != 0 && len(v) == 2 {
				continue
			}
			kvs = append(kvs, kv{k, v, false}, kv{k, v, true})
		}
	}
	order := stride(len(kvs))
	c.Par(len(kvs), func(w *Worker, i int) {
		x := kvs[order(i)]
		secs := []docSection{{Name: "sec", List: x.list, Pairs: []docPair{{Key: x.key, Vals: x.vals}}}}
		for k, l := range lays {
			if c.Quick() && (k+i)%3 != 0 {
				continue
			}
			Run(w, render(secs, l), checkDoc)
		}
	})
	// Structures: every arrangement of up to three sections of up to three pairs.
	c.Rule("every structure of up to three sections (dictionary, list or empty) of up to three pairs under the layouts, with every choice of a filler (blank, comment, nothing) before and a comment after each line for smaller structures")
	pool := []docPair{{`a`, []string{`"1"`}, 0}, {`"b,:#"`, []string{`x`, `"y\""`}, 0}, {`"한"`, []string{}, 0}}
	var structs [][]docSection
	var rec func(prefix []docSection, n int)
	rec = func(prefix []docSection, n int) {
		if len(prefix) > 0 {
			structs = append(structs, append([]docSection{}, prefix...))
		}
		if n == 0 {
			return
		}
		name := []string{"lang", "rewrite", "_s3"}[len(prefix)]
		for _, list := range []bool{false, true} {
			for np := 0; np <= 3; np++ {
				if np == 0 && list {
					continue
				}
				rec(append(prefix, docSection{Name: name, List: list, Pairs: pool[:np]}), n-1)
			}
		}
	}
	rec(nil, 3)
	c.Par(len(structs), func(w *Worker, i int) {
		for k, l := range lays {
			if c.Quick() && (k+i)%11 != 0 {
				continue
			}
			Run(w, render(structs[i], l), checkDoc)
		}
	})
	// Fillers per line.
	small := [][]docSection{}
	for _, s := range structs {
		n := len(s)
		for _, x := range s {
			n += len(x.Pairs)
		}
		if n <= c.Pick(4, 5) {
			small = append(small, s)
		}
	}
	fillers := []string{"", "\n", "  # c\n", "#\n", "# c\n# d\n"}
	trails := []string{"", " # t", "#,\"z\""}
	c.Par(len(small), func(w *Worker, i int) {
		s := small[i]
		n := 0
		for _, x := range s {
			n += 1 + len(x.Pairs)
		}
		k := len(fillers) * len(trails)
		total := 1
		for j := 0; j < n; j++ {
			total *= k
		}
		for t := 0; t < total; t++ {
			Run(w, renderFill(s, t, fillers, trails), checkDoc)
			if t&1023 == 0 && c.Expired() {
				return
			}
		}
	})
	c.Rule("scale: up to 3000 pairs, literals and comments around the read buffer size with every byte shift of multi-byte letters")
	var big []docCase
	for _, n := range []int{4, 7, 8, 9, 16, 17, 100, 255, 256, 257, 3000} {
		for _, list := range []bool{true, false} {
			ps := []docPair{}
			for i := 0; i < n; i++ {
				ps = append(ps, docPair{Key: sprintf(`"k%d가"`, i), Vals: []string{`"v"`, sprintf("w%d", i)}})
			}
			big = append(big, render([]docSection{{Name: "s", List: list, Pairs: ps}}, lays[0]), render([]docSection{{Name: "s", List: list, Pairs: ps}}, layout{"", "", "", " # 주석", "\r\n", "#", "\n", false}))
		}
	}
	for _, n := range []int{15, 16, 17, 63, 64, 65, 1022, 1023, 1024, 1025, 4090, 4093, 4094, 4095, 4096, 4097, 9000, 70000} {
		for _, ch := range []string{"a", "é", "가", "😀"} {
			for sh := 0; sh < 4; sh++ {
				lit := `"` + strings.Repeat("x", sh) + strings.Repeat(ch, n) + `"`
				big = append(big, render([]docSection{{Name: "s", List: sh%2 == 0, Pairs: []docPair{{Key: lit, Vals: []string{lit, "b"}}, {Key: "z", Vals: []string{`"t"`}}}}}, layout{"    ", " ", " ", " # " + lit, "\n", "", "# " + lit + "\n", true}))
			}
		}
	}
	for k := 1; k < 40; k++ {
		vs := []string{}
		for j := 0; j < k; j++ {
			vs = append(vs, sprintf(`"v%d"`, j))
		}
		big = append(big, render([]docSection{{Name: "s", List: k%2 == 0, Pairs: []docPair{{Key: "k", Vals: vs}, {Key: "l", Vals: []string{"x"}}}}}, lays[0]))
	}
	// many sections
	for _, k := range []int{4, 9, 33, 100} {
		var ss []docSection
		for j := 0; j < k; j++ {
			ss = append(ss, docSection{Name: sprintf("s%d", j), List: j%2 == 0, Pairs: pool[:1+j%3]})
		}
		for _, l := range spread(lays, 12) {
			big = append(big, render(ss, l))
		}
	}
	c.Par(len(big), func(w *Worker, i int) { Run(w, big[i], checkDoc) })

	// Every letter of Unicode.
	c.Rule("every code point but surrogates: alone, doubled, first, last and between letters of a quoted string, within a comment, and within bare words for letters and digits")
	const block = 128
	c.Par((unicode.MaxRune+1)/block, func(w *Worker, i int) {
		var ps []docPair
		var note strings.Builder
		for r := rune(i * block); r < rune((i+1)*block); r++ {
			if r >= 0xd800 && r < 0xe000 || r == '"' || r == '\\' || r == '\n' {
				continue
			}
			ch := string(r)
			vals := []string{`"` + ch + `"`, `"` + ch + ch + `"`, `"` + ch + `a"`, `"a` + ch + `"`, `"가` + ch + `é"`}
			switch {
			case unicode.IsLetter(r):
				vals = append(vals, ch, ch+"a", "a"+ch, ch+ch)
			case unicode.IsDigit(r):
				vals = append(vals, "a"+ch, "a"+ch+"b")
			}
			ps = append(ps, docPair{Key: `"k` + ch + `"`, Vals: vals})
			note.WriteRune(r)
		}
		if len(ps) == 0 {
			return
		}
		for k, list := range []bool{false, true} {
			lay := lays[0]
			if k == 1 {
				lay = layout{"", "", "", " # " + note.String(), "\n", "#" + note.String(), "# " + note.String() + "\n", true}
			}
			Run(w, render([]docSection{{Name: "s", List: list, Pairs: ps}}, lay), checkDoc)
		}
	})
	c.Sample(render(structs[len(structs)/2], lays[len(lays)/3]))
	c.Sample(renderFill(small[len(small)-1], 123, fillers, trails))
	c.Assume("out of scope: backslashes other than before a quote, a section opened twice, mixed arrows within a section, trailing commas, values without a comma between, invalid UTF-8; a section without any pair has no kind and is not listed")
}

func renderFill(secs []docSection, t int, fillers, trails []string) docCase {
	var b strings.Builder
	line := 1
	emit := func(s string) {
		b.WriteString(s)
		line += strings.Count(s, "\n")
	}
	pick := func() (string, string) {
		k := len(fillers) * len(trails)
		x := t % k
		t /= k
		return fillers[x%len(fillers)], trails[x/len(fillers)]
	}
	out := make([]docSection, len(secs))
	for i, s := range secs {
		f, tr := pick()
		emit(f)
		out[i] = docSection{Name: s.Name, List: s.List, Line: line}
		emit(s.Name + ":" + tr + "\n")
		for _, p := range s.Pairs {
			f, tr := pick()
			emit(f)
			p.Line = line
			out[i].Pairs = append(out[i].Pairs, p)
			arrow := " = "
			if s.List {
				arrow = " -> "
			}
			emit("  " + p.Key + arrow + strings.Join(p.Vals, ", ") + tr + "\n")
		}
	}
	return docCase{Str(b.String()), out}
}

// -----------------------------------------------------------------------------
// C02

// mustRefuse reads a text token by token and names a reason why it must be
// refused, if any.
func mustRefuse(s string) string {
	rs := []rune(s)
	i := 0
	space := func(r rune) bool { return unicode.IsSpace(r) }
	letter := func(r rune) bool { return r == '_' || unicode.IsLetter(r) }
	section := ""
	last := ""
	colon := false
	for i < len(rs) {
		r := rs[i]
		switch {
		case space(r):
			i++
		case r == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case letter(r):
			j := i
			for i < len(rs) && (letter(rs[i]) || unicode.IsDigit(rs[i])) {
				i++
			}
			last = string(rs[j:i])
		case r == '"':
			j := i
			i++
			for i < len(rs) && rs[i] != '"' {
				if rs[i] == '\\' {
					if i+1 < len(rs) && rs[i+1] == '"' {
						i++
					} else {
						return "" // undefined
					}
				}
				i++
			}
			if i >= len(rs) {
				return "unterminated quote"
			}
			i++
			last = string(rs[j:i])
		case r == ':':
			section = last
			if last != `""` && last != "" {
				colon = true
			} else {
				return "" // a nameless section is undefined
			}
			i++
		case r == ',' || r == '=':
			if r == '=' && !colon {
				return "pair outside of a section"
			}
			i++
		case r == '-':
			if i+1 >= len(rs) || rs[i+1] != '>' {
				return "incomplete arrow"
			}
			if !colon {
				return "pair outside of a section"
			}
			i += 2
		default:
			return sprintf("illegal character %q", r)
		}
	}
	_ = section
	return ""
}

type refuseCase struct {
	Text Str
	Must string // reason, or ""
	Spec bool   // through ParseSpec
}

func checkRefuse(cs refuseCase) (string, string) {
	var err error
	var got bool
	if cs.Spec {
		var s *hangulize.Spec
		s, err = hangulize.ParseSpec(strings.NewReader(string(cs.Text)))
		got = s != nil
	} else {
		var h hsl.HSL
		h, err = hsl.Parse(strings.NewReader(string(cs.Text)))
		got = h != nil
	}
	if err == nil && !got {
		return "", "neither a result nor an error"
	}
	if err != nil && got {
		return "", "a result along with an error"
	}
	if cs.Must != "" && err == nil {
		return "", "accepted despite " + cs.Must
	}
	if err == nil {
		return "ok " + string(cs.Text), ""
	}
	return "refused " + string(cs.Text), ""
}

type acceptCase struct{ Text Str }

func checkAccept(cs acceptCase) (string, string) {
	s, err := hangulize.ParseSpec(strings.NewReader(string(cs.Text)))
	if err != nil || s == nil {
		return "", sprintf("a valid spec is refused: %v", err)
	}
	return string(cs.Text), ""
}

// hslTokens splits a text into tokens, spaces included; their concatenation is
// the text.
func hslTokens(s string) []string {
	var out []string
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		class := func(r rune) int {
			switch {
			case r == '\n':
				return 0
			case unicode.IsSpace(r):
				return 1
			case r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r):
				return 2
			}
			return 3
		}
		switch c := class(r); {
		case r == '"':
			i := 1
			for i < len(s) && s[i] != '"' {
				if s[i] == '\\' {
					i++
				}
				i++
			}
			n = i + 1
		case r == '#':
			if n = strings.IndexByte(s, '\n'); n < 0 {
				n = len(s)
			}
		case strings.HasPrefix(s, "->"):
			n = 2
		case c == 1 || c == 2:
			for n < len(s) {
				r2, m := utf8.DecodeRuneInString(s[n:])
				if class(r2) != c {
					break
				}
				n += m
			}
		}
		if n > len(s) {
			n = len(s)
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

const smallSpec = `# comment
lang:
    id       = "tst"
    codes    = "ts", "tst"
    english  = "Test"
    korean   = "시험"
    script   = "Latn"
    translit = "x"

config:
    author = "A <a@b>", "B"
    stage   = "draft"

macros:
    "@" = "<v>"

vars:
    "v" = "a", "e"
    "w" = "A", "E"

normalize:
    "ae" = "ä", "æ"

rewrite:
    "^b{@}" -> "p" # why
    "<v>s"  -> "<w>"

transcribe:
    "p"   -> "ㅍ"
    "<w>" -> "ㅏ"
    "a"   -> "ㅏ"

test:
    "ba" -> "파"
`

func specFiles() []string {
	fs, _ := filepath.Glob(filepath.Join(repoDir, "specs", "*.hsl"))
	sort.Strings(fs)
	return fs
}

func readFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// specFaults lists documents which violate one requirement of a spec.
func specFaults() (bad []refuseCase, good []string) {
	lang := "lang:\n    id = \"t\"\n    codes = \"tt\", \"ttt\"\n    script = \"Latn\"\n"
	add := func(why string, texts ...string) {
		for _, t := range texts {
			bad = append(bad, refuseCase{Str(t), why, true})
		}
	}
	for _, s := range []string{"lang", "config", "macros", "vars", "normalize"} {
		for _, v := range []string{`"a" -> "b"`, `id -> "x", "y"`, `codes -> "a", "b"`} {
			l := lang
			if s == "lang" {
				l = ""
			}
			add("a list where a dictionary is required", l+s+":\n    "+v+"\n", s+":\n    "+v+"\n"+l+"rewrite:\n    \"a\" -> \"b\"\n")
		}
		good = append(good, lang+map[bool]string{true: "", false: s + ":\n"}[s == "lang"])
	}
	for _, s := range []string{"rewrite", "transcribe", "test"} {
		for _, v := range []string{`"a" = "b"`, `"a" = "b", "c"`, `a =`} {
			add("a dictionary where a list is required", lang+s+":\n    "+v+"\n", s+":\n    "+v+"\n"+lang)
		}
		for _, v := range []string{"\"a\" ->\n", "\"a\" -> \n    \"b\" -> \"c\"\n", "\"b\" -> \"c\"\n    \"a\" ->", "\"a\" -> # x\n", "\"a\" -> # \"x\"\n    \"b\" -> \"c\"\n"} {
			add("a rule or example without a right-hand side", lang+s+":\n    "+v)
		}
		good = append(good, lang+s+":\n    \"a\" -> \"b\"\n    \"a\" -> \"\"\n    \"a\" -> \"b\"\n")
	}
	for _, v := range []string{``, `"a"`, `"a", "b", "c"`, `"a", "b", "c", "d"`, `# "a", "b"`} {
		add("language codes not being two", "lang:\n    id = \"t\"\n    codes = "+v+"\n    script = \"Latn\"\n", "lang:\n    script = \"Latn\"\n    codes = "+v)
	}
	add("language codes missing", "lang:\n    id = \"t\"\n    script = \"Latn\"\n")
	for _, v := range []string{`"x", "y"`, ``, `"x", "y", "z"`} {
		add("a macro without exactly one value", lang+"macros:\n    \"@\" = "+v+"\n", lang+"macros:\n    \"#\" = \"q\"\n    \"@\" = "+v+"\n    \"%\" = \"r\"\n")
	}
	for _, s := range []string{"Xxxx", "latn", "LATN", "Latin", " Latn", "Latn ", "Hang", "Cyrl1", "None", "nil", "_"} {
		add("an unknown script", "lang:\n    codes = \"tt\", \"ttt\"\n    script = \""+s+"\"\n")
	}
	for _, s := range []string{"", "Latn", "Cyrl", "Geor", "Grek", "Hrkt"} {
		good = append(good, "lang:\n    codes = \"tt\", \"ttt\"\n    script = \""+s+"\"\n")
	}
	for _, s := range []string{"lang", "config", "macros", "vars", "normalize", "other"} {
		for _, v := range []string{"k = \"x\"\n    k = \"x\"\n", "k = \"x\"\n    l = \"y\"\n    k = \"z\"\n", "k = \"x\"\n    \"k\" = \"z\"\n", "k =\n    k = \"x\"\n", "k = \"x\"\n    k =\n", "k =\n    k =\n", "k = \"\"\n    l = \"y\"\n    k = \"\"\n",
			"\"\" = \"x\"\n    \"\" = \"y\"\n", "k = \"x\", \"y\"\n    k = \"x\", \"y\"\n", "a = \"1\"\n    b = \"2\"\n    c = \"3\"\n    d = \"4\"\n    e = \"5\"\n    f = \"6\"\n    g = \"7\"\n    h = \"8\"\n    i = \"9\"\n    a = \"1\"\n"} {
			l := lang
			if s == "lang" {
				l = ""
				v = "codes = \"a\", \"b\"\n    " + v
			}
			add("a duplicated key", l+s+":\n    "+v)
			bad = append(bad, refuseCase{Str(s + ":\n    " + v), "a duplicated key", false})
		}
		good = append(good, lang+map[bool]string{true: "", false: s + ":\n    k = \"x\"\n    K = \"x\"\n"}[s == "lang"])
	}
	for _, p := range []string{"", "(", "a(", "[a", "a{b}c", "{a}b{c}d", "a{~b*}", "{~b+}a", "a{~(b|c*)}", "*"} {
		for _, s := range []string{"rewrite", "transcribe"} {
			add("a bad pattern", lang+s+":\n    \""+p+"\" -> \"x\"\n", lang+s+":\n    \"ok\" -> \"x\"\n    \""+p+"\" -> \"x\"\n    \"ok\" -> \"y\"\n")
		}
	}
	// illegal at every line of a good spec
	lines := strings.SplitAfter(smallSpec, "\n")
	for i := range lines {
		if i > 0 && !strings.HasSuffix(lines[i-1], "\n") {
			continue
		}
		pre, post := strings.Join(lines[:i], ""), strings.Join(lines[i:], "")
		for _, x := range []string{"\x00", "@\n", "\"open", "-\n", "    \"a\" - > \"b\"\n", ">\n", "\\\n", "'\n", "    k = \"x\" ; y\n", ".\n", "1\n", "(\n", "\ufeff\n", "=> \n", "    a = -b\n", "    \"a\" --> \"b\"\n", "    \"a\" -\n> \"b\"\n"} {
			if t := pre + x + post; mustRefuse(t) != "" {
				add(mustRefuse(t), t)
				bad = append(bad, refuseCase{Str(t), mustRefuse(t), false})
			}
		}
	}
	good = append(good, smallSpec, "", "\n", "# only\n", lang)
	// An empty text has no script: it is a valid spec only if the empty script is known.
	return bad, good
}

func runC02(c *Ctx) {
	toks := []string{"a", "\"b\"", "\"", ":", "=", "->", "-", ",", "\n", "#", " ", "\x00", "@", "\\", "가", "1"}
	n := c.Pick(6, 7)
	c.Rule(sprintf("every sequence of up to %d of %d tokens: no panic, no hang, a result or an error; refused when an independent reader finds an unterminated quote, an incomplete arrow, an illegal character or a pair outside of a section; non-trivial: by text", n, len(toks)))
	ws := words(toks, 3)
	tails := words(toks, n-3)
	c.Par(len(ws), func(w *Worker, i int) {
		for _, t := range tails {
			if len(t) == 0 && i > 0 {
				continue
			}
			s := ws[i] + t
			Run(w, refuseCase{Str(s), mustRefuse(s), false}, checkRefuse)
		}
	})
	pre := "s:\n a = b\n c = "
	c.Par(len(tails)*2, func(w *Worker, i int) {
		s := pre + tails[i/2]
		if i%2 == 1 {
			s = "lang:\n    codes = \"tt\", \"ttt\"\n" + tails[i/2] + "\nrewrite:\n    \"a\" -> \"b\"\n"
		}
		Run(w, refuseCase{Str(s), mustRefuse(s), false}, checkRefuse)
		Run(w, refuseCase{Str(s), mustRefuse(s), true}, checkRefuse)
	})
	bad, good := specFaults()
	c.Rule("specs with exactly one violated requirement, in each section and position; their intact counterparts are accepted")
	c.Par(len(bad), func(w *Worker, i int) { Run(w, bad[i], checkRefuse) })
	for _, g := range good {
		if g == "" || strings.HasPrefix(g, "#") || g == "\n" {
			continue
		}
		g := g
		c.Par(1, func(w *Worker, _ int) { Run(w, acceptCase{Str(g)}, checkAccept) })
	}
	c.Rule("a small spec: every prefix by byte, every deletion, duplication, swap and substitution of a token; every pair of token deletions")
	st := hslTokens(smallSpec)
	var muts []string
	for i := 0; i <= len(smallSpec); i++ {
		muts = append(muts, smallSpec[:i], smallSpec[i:])
	}
	join := func(parts ...[]string) string {
		var b strings.Builder
		for _, p := range parts {
			for _, s := range p {
				b.WriteString(s)
			}
		}
		return b.String()
	}
	for i := range st {
		muts = append(muts, join(st[:i], st[i+1:]), join(st[:i+1], st[i:]))
		if i+1 < len(st) {
			muts = append(muts, join(st[:i], st[i+1:i+2], st[i:i+1], st[i+2:]))
		}
		for _, t := range append(toks, "->\"x\"", "lang:\n", "= \"y\"", "\n\n") {
			muts = append(muts, join(st[:i], []string{t}, st[i+1:]))
		}
	}
	for i := range st {
		for j := i + 1; j < len(st); j++ {
			if c.Quick() && (i+j)%4 != 0 {
				continue
			}
			muts = append(muts, join(st[:i], st[i+1:j], st[j+1:]))
		}
	}
	muts = dedup(muts)
	c.Extra("mutants", len(muts))
	order := stride(len(muts))
	c.Par(len(muts), func(w *Worker, k int) {
		i := order(k)
		why := mustRefuse(muts[i])
		Run(w, refuseCase{Str(muts[i]), why, false}, checkRefuse)
		Run(w, refuseCase{Str(muts[i]), why, true}, checkRefuse)
	})
	c.Rule("bundled rule files cut at token boundaries (HSL) and line boundaries (spec), and with one token dropped")
	fs := specFiles()
	type cut struct {
		file string
		at   int
		spec bool
		drop bool
	}
	var cuts []cut
	toksOf := map[string][]string{}
	for fi, f := range fs {
		src := readFile(f)
		ts := hslTokens(src)
		toksOf[f] = ts
		step := c.Pick(37, 3)
		for i := fi % step; i < len(ts); i += step {
			cuts = append(cuts, cut{f, i, false, false}, cut{f, i, false, true})
		}
		step = c.Pick(997, 101)
		for i := fi % step; i < len(ts); i += step {
			cuts = append(cuts, cut{f, i, true, false}, cut{f, i, true, true})
		}
	}
	order2 := stride(len(cuts))
	c.Par(len(cuts), func(w *Worker, k int) {
		x := cuts[order2(k)]
		ts := toksOf[x.file]
		s := join(ts[:x.at])
		if x.drop {
			s = join(ts[:x.at], ts[x.at+1:])
		}
		Run(w, refuseCase{Str(s), mustRefuse(s), x.spec}, checkRefuse)
	})
	c.Rule("scale: unterminated or illegal after long input, deep repetition of every token")
	var big []refuseCase
	for _, t := range toks {
		for _, k := range []int{100, 4096, 5000} {
			for _, p := range []string{"", "s:\n", "s:\na=", "s:\na->"} {
				s := p + strings.Repeat(t, k)
				big = append(big, refuseCase{Str(s), mustRefuse(s), false}, refuseCase{Str(s), mustRefuse(s), true})
			}
		}
	}
	for _, k := range []int{4090, 4096, 20000} {
		for _, bad := range []string{"\"", "\x00", "-", "@"} {
			s := "s:\n" + strings.Repeat(" a = b\n", 1) + strings.Repeat("# c\n", k/4) + bad
			big = append(big, refuseCase{Str(s), mustRefuse(s), false})
		}
	}
	c.Par(len(big), func(w *Worker, i int) { Run(w, big[i], checkRefuse) })
	c.Rule("every code point but surrogates outside of quotes and comments: at the start, in the middle and at the end of a line, of a value and of a word: refused unless the notation has it there")
	const block = 128
	c.Par((unicode.MaxRune+1)/block, func(w *Worker, i int) {
		for r := rune(i * block); r < rune((i+1)*block); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			ch := string(r)
			for _, t := range []string{ch + "s:\n a = b\n", "s:\n a = b" + ch + "\n", "s:\n a = b" + ch + "c\n", "s:\n a = " + ch + "\n", "s:\n a" + ch + " -> b", "s:\n a = b\n" + ch} {
				must := mustRefuse(t)
				if must == "" && i > 2048 {
					continue
				}
				Run(w, refuseCase{Str(t), must, false}, checkRefuse)
			}
		}
	})
	c.Sample(refuseCase{Str(muts[len(muts)/2]), mustRefuse(muts[len(muts)/2]), true})
	c.Sample(bad[len(bad)/2])
}

// -----------------------------------------------------------------------------
// C03

var errInjected = errors.New("injected read failure")

var readErrors = []string{"", "unexpected", "closed", "wrapped eof", "no progress", "timeout", "interrupted", "not exist"}

type readCase struct {
	Text   Str
	Spec   bool
	Chunks []int // sizes of successive reads, 0 for an empty one; the last repeats
	EOF    bool  // the last data comes along with io.EOF
	FailAt int   // -1: no failure; otherwise after this many bytes
	With   bool  // the failure comes along with data
	Err    string
	Heal   bool // the reader goes on when it is asked again
}

type flakyReader struct {
	cs    readCase
	pos   int
	call  int
	err   error
	after int

	failed bool
}

func (r *flakyReader) Read(p []byte) (int, error) {
	text := string(r.cs.Text)
	end := len(text)
	if r.cs.FailAt >= 0 {
		end = r.cs.FailAt
	}
	fin := io.EOF
	if r.cs.FailAt >= 0 {
		fin = r.err
	}
	size := len(p)
	if len(r.cs.Chunks) > 0 {
		k := r.call
		if k >= len(r.cs.Chunks) {
			k = len(r.cs.Chunks) - 1
		}
		size = r.cs.Chunks[k]
		if size == 0 && k == len(r.cs.Chunks)-1 {
			size = 1
		}
	}
	r.call++
	if r.failed && r.cs.Heal {
		end, fin = len(text), io.EOF
	}
	if r.pos >= end {
		r.failed = true
		return 0, fin
	}
	if size > len(p) {
		size = len(p)
	}
	if size > end-r.pos {
		size = end - r.pos
	}
	n := copy(p, text[r.pos:r.pos+size])
	r.pos += n
	if r.pos == end && ((r.cs.FailAt >= 0 && r.cs.With) || (r.cs.FailAt < 0 && r.cs.EOF)) {
		r.failed = true
		return n, fin
	}
	return n, nil
}

func checkRead(cs readCase) (string, string) {
	e := errInjected
	switch cs.Err {
	case "unexpected":
		e = io.ErrUnexpectedEOF
	case "closed":
		e = io.ErrClosedPipe
	case "wrapped eof":
		e = &wrapErr{io.EOF}
	case "no progress":
		e = io.ErrNoProgress
	case "timeout":
		e = os.ErrDeadlineExceeded
	case "interrupted":
		e = &os.PathError{Op: "read", Path: "x", Err: syscall.EINTR}
	case "not exist":
		e = &os.PathError{Op: "read", Path: "x", Err: os.ErrNotExist}
	}
	r := &flakyReader{cs: cs, err: e}
	if cs.Spec {
		s, err := hangulize.ParseSpec(r)
		if cs.FailAt >= 0 {
			if s != nil || err == nil {
				return "", sprintf("the reader failed but ParseSpec gives spec %v, error %v", s != nil, err)
			}
			if !errors.Is(err, e) {
				return "", sprintf("ParseSpec gives %v instead of the reader's error", err)
			}
			return sprintf("spec fail %d %v", cs.FailAt, cs.Chunks), ""
		}
		want, werr := hangulize.ParseSpec(strings.NewReader(string(cs.Text)))
		if err != nil || werr != nil {
			return "", sprintf("ParseSpec error %v, %v at once", err, werr)
		}
		if s.Source != string(cs.Text) {
			return "", sprintf("Source has %d bytes, the text has %d", len(s.Source), len(cs.Text))
		}
		if a, b := specText(s), specText(want); a != b {
			return "", sprintf("differs from parsing at once: %s / %s", a, b)
		}
		return sprintf("spec %d %v %v", len(cs.Text), cs.Chunks, cs.EOF), ""
	}
	h, err := hsl.Parse(r)
	if cs.FailAt >= 0 {
		if h != nil || err == nil {
			return "", sprintf("the reader failed but Parse gives %v, error %v", h != nil, err)
		}
		if !errors.Is(err, e) {
			return "", sprintf("Parse gives %v instead of the reader's error", err)
		}
		return sprintf("hsl fail %d %v", cs.FailAt, cs.Chunks), ""
	}
	want, werr := hsl.Parse(strings.NewReader(string(cs.Text)))
	if (err == nil) != (werr == nil) {
		return "", sprintf("Parse error %v, %v at once", err, werr)
	}
	if a, b := hslText(h), hslText(want); a != b {
		return "", sprintf("differs from parsing at once: %s / %s", a, b)
	}
	return sprintf("hsl %s %v %v", cs.Text, cs.Chunks, cs.EOF), ""
}

type wrapErr struct{ err error }

func (w *wrapErr) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapErr) Unwrap() error { return w.err }

func hslText(h hsl.HSL) string {
	var names []string
	for n := range h {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		ps := []string{}
		_, dict := h[n].(*hsl.DictSection)
		for _, p := range h[n].Pairs() {
			ps = append(ps, sprintf("%q->%q@%d", p.Left(), p.Right(), p.Line()))
		}
		if dict {
			sort.Strings(ps)
		}
		b.WriteString(sprintf("%s/%v@%d%v;", n, dict, h[n].Line(), ps))
	}
	return b.String()
}

// specText writes a spec down with everything which is visible.
func specText(s *hangulize.Spec) string {
	var b strings.Builder
	b.WriteString(sprintf("%+v %+v", s.Lang, s.Config))
	m := func(x map[string][]string) {
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b.WriteString(sprintf("%q=%q,", k, x[k]))
		}
		b.WriteString(";")
	}
	mm := map[string][]string{}
	for k, v := range s.Macros {
		mm[k] = []string{v}
	}
	m(mm)
	m(s.Vars)
	m(s.Normalize)
	for _, rs := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for _, r := range rs {
			b.WriteString(sprintf("%d %s %s,", r.ID, r, r.From.Explain()))
		}
		b.WriteString(";")
	}
	b.WriteString(sprintf("%q %q", s.Test, s.Source))
	return b.String()
}

// bigRead is a spec made larger than Size bytes by a comment, by a long value,
// by many pairs or by many examples.
type bigRead struct {
	Size  int
	Kind  string
	Piece int // size of the reads, 0 for all at once
}

func checkBigRead(cs bigRead) (string, string) {
	head := "lang:\n id = a\n codes = \"a\", \"aaa\"\n english = A\n korean = 가\n script = Latn\n"
	tail := "rewrite:\n \"a\" -> \"b\"\n \"c\" -> \"d\"\ntranscribe:\n \"b\" -> \"ㄱ\"\ntest:\n x -> \"y\"\n last -> \"가\"\n"
	var b strings.Builder
	b.WriteString(head)
	vars, tests := 0, 2
	switch cs.Kind {
	case "comment":
		b.WriteString("# ")
		b.WriteString(strings.Repeat("x", cs.Size))
		b.WriteString("\n")
	case "value":
		b.WriteString("vars:\n v = \"")
		b.WriteString(strings.Repeat("x", cs.Size))
		b.WriteString("\"\n")
		vars = 1
	case "pairs":
		b.WriteString("vars:\n")
		for ; b.Len() < cs.Size; vars++ {
			b.WriteString(sprintf(" v%07d = \"a\", \"b\"\n", vars))
		}
	}
	b.WriteString(tail)
	if cs.Kind == "test" {
		for ; b.Len() < cs.Size; tests++ {
			b.WriteString(sprintf(" \"word\" -> \"가나다%d\"\n", tests))
		}
	}
	text := b.String()
	rc := readCase{Text: Str(text), FailAt: -1}
	if cs.Piece > 0 {
		rc.Chunks = []int{cs.Piece}
	}
	h, err := hsl.Parse(&flakyReader{cs: rc})
	if err != nil {
		return "", sprintf("Parse: %v", err)
	}
	s, err := hangulize.ParseSpec(&flakyReader{cs: rc})
	if err != nil {
		return "", sprintf("ParseSpec: %v", err)
	}
	if s.Source != text {
		return "", sprintf("Source has %d bytes, the text has %d", len(s.Source), len(text))
	}
	lines := strings.Count(text, "\n")
	ps := h["test"].Pairs()
	if len(ps) != tests || ps[tests-1].Line() != lines {
		return "", sprintf("%d examples, expected %d; the last one should be at line %d", len(ps), tests, lines)
	}
	if len(s.Rewrite) != 2 || len(s.Transcribe) != 1 || len(s.Test) != tests || len(s.Vars) != vars {
		return "", sprintf("%d, %d rules, %d examples and %d vars, expected 2, 1, %d and %d", len(s.Rewrite), len(s.Transcribe), len(s.Test), len(s.Vars), tests, vars)
	}
	want := [2]string{"last", "가"}
	if cs.Kind == "test" {
		want = [2]string{"word", sprintf("가나다%d", tests-1)}
		if tests == 2 {
			want = [2]string{"last", "가"}
		}
	}
	if got := s.Test[tests-1]; got != want {
		return "", sprintf("the last example is %q, expected %q", got, want)
	}
	if cs.Kind == "value" && len(s.Vars["v"][0]) != cs.Size {
		return "", sprintf("a value of %d bytes, expected %d", len(s.Vars["v"][0]), cs.Size)
	}
	return sprintf("big %d %s", cs.Size, cs.Kind), ""
}

func runC03(c *Ctx) {
	docs := []string{"s:\n", "s:\na=b", "가:\n\"é\"->\"😀\"\n", "s:\n a = \"b\" # c", "s:\n a -> b, \"c\"\n# end", "s:\n\tk=\"x\\\"y\"\nt:\r\n p->q\n"}
	c.Rule("every failure position x chunk size x failure alone or with data x error value x a reader which goes on afterwards or not, for small documents and a spec, through Parse and ParseSpec: that error and nothing else comes back")
	var cases []readCase
	for di, d := range docs {
		for at := 0; at <= len(d); at++ {
			for _, with := range []bool{false, true} {
				for _, e := range readErrors {
					for _, spec := range []bool{false, true} {
						cases = append(cases, readCase{Str(d), spec, []int{1}, false, at, with, e, true}, readCase{Str(d), spec, nil, false, at, with, e, true})
					}
					for k := 1; k <= len(d)+1; k++ {
						cases = append(cases, readCase{Str(d), di%2 == 0 && false, []int{k}, false, at, with, e, false})
					}
					cases = append(cases, readCase{Str(d), false, []int{0, 1, 0, 0, 2, 0, 1}, false, at, with, e, false})
				}
			}
		}
	}
	for at := 0; at <= len(smallSpec); at++ {
		for _, with := range []bool{false, true} {
			for _, e := range readErrors {
				cases = append(cases, readCase{smallSpec, true, nil, false, at, with, e, true}, readCase{smallSpec, false, nil, false, at, with, e, true})
			}
			for _, ch := range [][]int{nil, {1}, {7, 0, 3}, {64}} {
				for _, e := range []string{"", "unexpected"} {
					cases = append(cases, readCase{smallSpec, true, ch, false, at, with, e, false})
					cases = append(cases, readCase{smallSpec, false, ch, false, at, with, e, false})
				}
			}
		}
	}
	long := strings.Repeat("# 주석 한 줄을 길게 쓴다 0123456789\n", 300) + smallSpec
	for at := 0; at <= len(long); at += c.Pick(29, 3) {
		cases = append(cases, readCase{Str(long), at%2 == 0, nil, false, at, at%3 == 0, "", false})
	}
	for at := 4000; at <= 4200; at++ {
		cases = append(cases, readCase{Str(long), true, nil, false, at, at%2 == 0, "", false}, readCase{Str(long), false, []int{13}, false, at, at%2 == 0, "", false})
	}
	nFail := len(cases)
	c.Rule("every composition of the bytes of tiny documents into reads, every constant chunk size and pairs of short and empty reads for larger ones, end-of-file alone or with data: the same result as at once, Source complete")
	for _, d := range docs {
		if len(d) > c.Pick(13, 18) {
			continue
		}
		n := len(d)
		for m := 0; m < 1<<(n-1); m++ {
			var ch []int
			run := 1
			for i := 0; i < n-1; i++ {
				if m>>i&1 == 1 {
					ch = append(ch, run)
					run = 1
				} else {
					run++
				}
			}
			ch = append(ch, run)
			cases = append(cases, readCase{Str(d), false, ch, m%2 == 0, -1, false, "", false})
			if m%5 == 0 {
				cases = append(cases, readCase{Str(d), false, ch, m%2 == 1, -1, false, "", false})
			}
		}
	}
	for _, d := range append(docs, smallSpec, long) {
		spec := d == smallSpec || d == long
		for k := 1; k <= 80; k++ {
			for _, eof := range []bool{false, true} {
				cases = append(cases, readCase{Str(d), spec, []int{k}, eof, -1, false, "", false}, readCase{Str(d), false, []int{k}, eof, -1, false, "", false},
					readCase{Str(d), spec, []int{0, k, 0, 0, 1, k}, eof, -1, false, "", false})
			}
		}
		for a := 0; a <= 12; a++ {
			for b := 0; b <= 12; b++ {
				cases = append(cases, readCase{Str(d), spec, []int{a, b, 4096}, a%2 == 0, -1, false, "", false})
			}
		}
		for _, k := range []int{4095, 4096, 4097} {
			cases = append(cases, readCase{Str(d), spec, []int{k}, true, -1, false, "", false})
		}
	}
	for _, f := range specFiles() {
		src := readFile(f)
		for _, k := range []int{1, 1000} {
			cases = append(cases, readCase{Str(src), false, []int{k}, k == 1, -1, false, "", false})
		}
		for _, at := range []int{0, 1, len(src) / 3, len(src) / 2, len(src) - 1, len(src)} {
			cases = append(cases, readCase{Str(src), true, nil, false, at, at%2 == 0, "", false})
		}
		if !c.Quick() {
			cases = append(cases, readCase{Str(src), true, []int{777}, true, -1, false, "", false})
			for at := 0; at < len(src); at += 101 {
				cases = append(cases, readCase{Str(src), false, nil, false, at, at%2 == 0, "", false})
			}
		}
	}
	c.Extra("failure_runs", nFail)
	c.Extra("chunking_runs", len(cases)-nFail)
	order := stride(len(cases))
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[order(i)], checkRead) })

	c.Rule("scale: texts around every power of two up to 64 KiB and of 1, 2, 4 and 8 MiB, with the pairs that matter at the end, in pieces of several sizes: nothing of the text is missing")
	var bigs []bigRead
	sizes := []int{}
	for k := 9; k <= 16; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1, 3<<(k-1))
	}
	for k := 20; k <= c.Pick(23, 26); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, n := range sizes {
		for _, kind := range []string{"comment", "value", "pairs", "test"} {
			for _, piece := range []int{0, 4096, 5000} {
				if n >= 1<<20 && (piece == 4096 || n > 1<<23 && kind == "pairs") {
					continue
				}
				bigs = append(bigs, bigRead{n, kind, piece})
			}
		}
	}
	c.Par(len(bigs), func(w *Worker, i int) { Run(w, bigs[len(bigs)-1-i], checkBigRead) })
	c.Sample(cases[17])
	c.Sample(readCase{Str(docs[2]), false, []int{1, 2, 3}, true, -1, false, "", false})
	c.Assume("a reader which returns nothing a hundred times in a row counts as failing (io.ErrNoProgress)")
}

func init() {
	kind(checkDoc)
	kind(checkRefuse)
	kind(checkAccept)
	kind(checkRead)
	kind(checkBigRead)
	register(&Prop{ID: "C01", Level: "exploration", Run: runC01})
	register(&Prop{ID: "C02", Level: "exploration", Run: runC02})
	register(&Prop{ID: "C03", Level: "fault_enumeration", Run: runC03})
}
