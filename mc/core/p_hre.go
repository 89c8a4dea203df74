package main

import (
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/hre"
)

var hreMacros = map[string]string{"@": "<vow>", "@@": "<pair>", "%": "x", "&": "%b", "&&": "<one>%"}
var hreVars = map[string][]string{
	"vow":  {"a", "é"},
	"pair": {"ab", "a", "가"},
	"abc":  {"a", "b", "c"},
	"one":  {"a"},
	"wide": {"🅰", "é", "b"},
	"dup":  {"a", "b", "a"},
	"up":   {"A", "B", "C"},
	"up2":  {"X", "YY"},
	"none": {},
	"sp":   {" a", "b ", "a.", "(a", "a|b"},
}

type hreReplCase hreCase

type hreCase struct {
	Pat  string
	Word Str
	Rep  string `json:",omitempty"`
	N    int    `json:",omitempty"`
}

type hrePat struct {
	p   *hre.Pattern
	ref *refPattern
}

func compileHRE(expr string) (hrePat, string) {
	p, err := hre.NewPattern(expr, hreMacros, hreVars)
	ref, rerr := refParsePattern(expr, hreMacros, hreVars)
	if (err == nil) != (rerr == nil) {
		return hrePat{}, sprintf("NewPattern error %v, expected %v", err, rerr)
	}
	if err != nil {
		return hrePat{}, "the pattern is refused: " + err.Error()
	}
	return hrePat{p, ref}, ""
}

func (h hrePat) checkFind(word string) (string, string) {
	want, zw := h.ref.find(word)
	if zw {
		return "", "" // the notation requires a width
	}
	got := h.p.Find(word, -1)
	bad := len(got) != len(want)
	for i := 0; !bad && i < len(got); i++ {
		bad = len(got[i]) < 2 || got[i][0] != want[i].start || got[i][1] != want[i].stop
	}
	if bad {
		return "", sprintf("Find(%s, -1) = %v, expected %v", q(word), got, wantSpans(want))
	}
	if len(want) == 0 {
		return "", ""
	}
	if len(want) > 1 {
		// at most as many as asked for
		for _, n := range []int{0, 1} {
			m := h.p.Find(word, n)
			if len(m) != n || n == 1 && (m[0][0] != want[0].start || m[0][1] != want[0].stop) {
				return "", sprintf("Find(%s, %d) = %v, expected the first %d of %v", q(word), n, m, n, wantSpans(want))
			}
		}
	}
	return sprintf("%v", wantSpans(want)), ""
}

func wantSpans(fs []refFound) [][2]int {
	out := [][2]int{}
	for _, f := range fs {
		out = append(out, [2]int{f.start, f.stop})
	}
	return out
}

func checkFindCase(cs hreCase) (string, string) {
	h, fail := compileHRE(cs.Pat)
	if fail != "" || h.p == nil {
		return "", fail
	}
	return h.checkFind(string(cs.Word))
}

func hreGrammar(quick bool) (pats []string, wds []string) {
	edgeL := []string{"", "^", "^^"}
	edgeR := []string{"", "$", "$$"}
	behind := []string{"", "{a}", "{~a}", "{é}", "{~é}", "{~ab?}", "{@}", "{~@@}", "{^a}", "{a|éb}", "{~a|éb}", "{b*}", "{~^a}", "{~^^é|b}"}
	ahead := []string{"", "{a}", "{~a}", "{🅰}", "{~🅰}", "{~a?b}", "{@}", "{~@@}", "{b$}", "{a|bé}", "{~a|bé}", "{b*}", "{~a$}", "{~é$$|b}"}
	cores := []string{"a", "é", "🅰", "ab", "a+", "ab*", "a?b", "<abc>", "<pair>", "@@", "(a|é)", "(?:ab|b)", "..", "(ab)+", "[a-b]", "b<wide>"}
	if quick {
		cores = cores[:14]
	} else {
		behind = append(behind, "{ab}", "{~ab}", "{.b}", "{~.b}", "{a$}", "{(a|b)b}", "{~<wide>}")
		ahead = append(ahead, "{ba}", "{~ba}", "{b.}", "{~b.}", "{^a}", "{b(a|b)}", "{~<wide>}")
		cores = append(cores, "a|b", "é@", "<one>b", "(<abc>)", "b(a|é)?", "%")
	}
	for _, l := range edgeL {
		for _, b := range behind {
			for _, c := range cores {
				for _, a := range ahead {
					for _, r := range edgeR {
						if strings.Contains(c, "|") && !strings.HasSuffix(c, ")") {
							if l+b+a+r != "" {
								continue
							}
						}
						pats = append(pats, l+b+c+a+r)
					}
				}
			}
		}
	}
	// Less common parts, each with few others.
	some := func(all []string, n int) []string { return spread(all, n) }
	xbehind := []string{"{a+?}", "{\\(}", "{~\\(a}", "{[ab]}", "{~[éb]}", "{~.}", "{~(a|é)b}", "{~(?:a|🅰)}", "{(a)(b)?}", "{~a\\)}", "{~<pair>}", "{<pair>}", "{~a|}", "{a??b}", "{~aa}", "{~ab?b}", "{~$a}", "{~^^}", "{~^}", "{~^^a}", "{~\t}", "{\t}"}
	xahead := []string{"{a+?}", "{\\)}", "{~\\)a}", "{[ab]}", "{~[éb]}", "{~.}", "{~(a|é)b}", "{~(?:a|🅰)}", "{(a)?(b)}", "{~\\(a}", "{~<pair>}", "{<pair>}", "{~|a}", "{b??a}", "{~aa}", "{~bb?a}", "{~a^}", "{~$$}", "{~$}", "{~a$$}", "{~\t}", "{\t}"}
	xcores := []string{"a+?", "a*?b", "a??b", "(a|b)+?b", "\\.", "\\(a", "a\\)", "\\[", "\\*", "a\\|b", "(\\(|a)b", "[éa]", "[a(]", "(a)(b)", "((a)b)?é", "(?:(?:a))b", "a.b", ".+?a", "<pair>?b", "(<pair>|a)b", "<abc><abc>", "ab|a", "a{}", "{}a", "{}", "<sp>", "a<sp>", "&", "&&<one>", "<one>&"}
	for _, x := range []struct{ b, c, a []string }{
		{xbehind, some(cores, 5), some(ahead, 4)}, {some(behind, 4), some(cores, 5), xahead}, {some(behind, 5), xcores, some(ahead, 5)}, {xbehind, xcores, []string{""}}, {[]string{""}, xcores, xahead}, {xbehind, []string{"a"}, xahead},
	} {
		for _, b := range x.b {
			for _, c := range x.c {
				for _, a := range x.a {
					for _, l := range edgeL {
						for _, r := range edgeR {
							if c == "ab|a" && l+b+a+r != "" {
								continue
							}
							pats = append(pats, l+b+c+a+r)
						}
					}
				}
			}
		}
	}
	n := 4
	if !quick {
		n = 5
	}
	wds = words([]string{"a", "b", "é", "🅰", " ", "{}"}, n)
	if quick {
		// the longest ones need every letter; keep those with some repetition
		wds = wds[:0]
		wds = append(wds, words([]string{"a", "b", "é", " ", "{}"}, 4)...)
		wds = append(wds, words([]string{"a", "🅰", "b"}, 5)...)
	}
	wds = append(wds, "a\xffb", "\xff", "é\xc3", "a\xf0\x9f", "ab\tab", "a  b  a", "a\u00a0b", "a\u3000a", "a\nb", "\na\n", "a{b}", "a{}{}b", "}{a", "a\v b", "a\fb", "\fa\fa", "a\ra", "b\r\na", "ab\f\rba", "é\fé", "(ab)", "a)b(a", "a(b", "((a))", "a.b", ".a.", "a[b", "*a*", "a|b", "(a b)", "a)(a", "b(ab)b", "(é)", "a\\b", "%b", "a%a", "xba%b", "axb", "aax", "a b a.", "(a|b a", "a.a b ", "a a|b")
	for _, s := range []string{"\t", "\f", "\r", "\n", "\v", "\u00a0", "{}", "\u200b"} {
		wds = append(wds, "a"+s+"ab", "é"+s+"a", "b"+s+s+"ab", "aa"+s+"aa"+s+"bab")
	}
	return dedup(pats), dedup(wds)
}

func dedup(s []string) []string {
	seen := map[string]bool{}
	out := s[:0:0]
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func scaleWords() []string {
	var out []string
	for _, u := range []string{"a", "é", "가", "🅰", "ab", "a ", "a{}", "éb"} {
		for _, k := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300} {
			w := strings.Repeat(u, k)
			out = append(out, w, w+"b", "b"+w, "b"+w+"b")
		}
	}
	return out
}

// longWords are words of very many letters.
func longWords() []string {
	var out []string
	for _, u := range []string{"a", "éb", "a ", "ab"} {
		for _, k := range []int{513, 1025, 2500, 5000, 9000} {
			out = append(out, strings.Repeat(u, k)+"ab")
		}
	}
	return append(out, strings.Repeat("ab", 40000))
}

func scalePats() []string {
	var out []string
	for _, e := range []string{"a", "é", "가", "🅰", "<abc>", "b"} {
		out = append(out, e, "^"+e, e+"$", "{~"+e+"}b", "b{~"+e+"}", "{"+e+"}"+e, e+"{"+e+"}", "{~b}"+e, e+"{~b}")
		for _, k := range []int{2, 5, 8, 9, 16, 17, 33, 65, 129} {
			l := strings.Repeat(e, k)
			out = append(out, "{~"+l+"}b", "b{~"+l+"}", "{"+l+"}b", "b{"+l+"}", l+"$", "^"+l)
		}
	}
	return dedup(out)
}

func init() {
	register(&Prop{ID: "C04", Level: "exploration", Run: func(c *Ctx) {
		c.Rule("every pattern edge x lookbehind x core x lookahead x edge of the listed alternatives, on every word up to a length over {a, b, é, 🅰, space, {}} plus odd words; non-trivial: the pattern matches, by the list of spans")
		pats, wds := hreGrammar(c.Quick())
		c.Extra("patterns", len(pats))
		c.Extra("words", len(wds))
		c.Assume("an alternation at the top level of a pattern is enumerated only without edges and lookarounds; patterns matching the empty string are excluded (Find refuses them)")
		rws := make([]*rword, len(wds))
		for i, w := range wds {
			rws[i] = newRword(w)
		}
		order := stride(len(pats))
		c.Par(len(pats), func(w *Worker, i int) {
			pat := pats[order(i)]
			var h hrePat
			Run(w, hreCase{Pat: pat}, func(hreCase) (string, string) {
				var f string
				h, f = compileHRE(pat)
				return "", f
			})
			if h.p == nil {
				return
			}
			for _, wd := range wds {
				Run(w, hreCase{Pat: pat, Word: Str(wd)}, func(cs hreCase) (string, string) {
					return h.checkFind(wd)
				})
			}
		})
		c.Rule("scale: patterns with a literal of up to 129 letters in each place, on words of up to 600 letters")
		sp, sw := scalePats(), scaleWords()
		c.Par(len(sp), func(w *Worker, i int) {
			for _, wd := range sw {
				Run(w, hreCase{Pat: sp[i], Word: Str(wd)}, checkFindCase)
			}
		})
		c.Rule("very long: words of up to 80000 letters")
		lp, lw := []string{"a", "b", "é", "^a", "a$", "{a}b", "a{b}", "{~b}a", "a{~b}", "a{~b$}", "<abc>", "(a|b)(a|b)", "^^a", "b$$"}, longWords()
		c.Par(len(lp)*len(lw), func(w *Worker, i int) {
			Run(w, hreCase{Pat: lp[i%len(lp)], Word: Str(lw[i/len(lp)])}, checkFindCase)
		})
		c.Sample(hreCase{Pat: pats[len(pats)/2], Word: Str(wds[len(wds)/2])})
		c.Sample(hreCase{Pat: sp[5], Word: Str(sw[40])})
	}})
}

// stride visits [0,n) in an order which spreads over the whole range.
func stride(n int) func(int) int {
	k := n*5/13 | 1
	for gcd(k, n) != 1 {
		k += 2
	}
	return func(i int) int { return int(int64(i) * int64(k) % int64(n)) }
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// -----------------------------------------------------------------------------
// C05

func (h hrePat) checkReplace(rp *hre.RPattern, ref *refReplacement, word string, n int) (string, string) {
	found, zw := h.ref.find(word)
	if zw {
		return "", ""
	}
	if n >= 0 && len(found) > n {
		found = found[:n]
	}
	var b strings.Builder
	at := 0
	kept := 0
	for _, f := range found {
		b.WriteString(word[at:f.start])
		if t, ok := ref.text(h.ref, word, f); ok {
			b.WriteString(t)
		} else {
			kept++
			b.WriteString(word[f.start:f.stop])
		}
		at = f.stop
	}
	b.WriteString(word[at:])
	want := b.String()
	if got := h.p.Replace(word, rp, n); got != want {
		return "", sprintf("Replace(%s, n=%d) = %s, expected %s", q(word), n, q(got), q(want))
	}
	if n < 0 {
		rule := hangulize.Rule{ID: 0, From: h.p, To: rp}
		if got := rule.Replace(word); got != want {
			return "", sprintf("Rule.Replace(%s) = %s, expected %s", q(word), q(got), q(want))
		}
	}
	if len(found) == 0 {
		return "", ""
	}
	return sprintf("%s/%d", want, kept), ""
}

func checkReplaceCase(cs hreReplCase) (string, string) {
	h, fail := compileHRE(cs.Pat)
	if fail != "" || h.p == nil {
		return "", fail
	}
	rp := hre.NewRPattern(cs.Rep, hreMacros, hreVars)
	return h.checkReplace(rp, refParseReplacement(cs.Rep, hreMacros, hreVars), string(cs.Word), cs.N)
}

func runC05(c *Ctx) {
	behind := []string{"", "{a}", "{~b}", "{<vow>}", "{~<vow>}", "{(a|b)}", "^", "^^{}"}
	behind = behind[:7]
	ahead := []string{"", "{a}", "{~b}", "{<vow>}", "{~<vow>}", "{(a|b)}", "$"}
	cores := []string{"a", "é", "ab", "<abc>", "<vow>", "<dup>", "<pair>", "<abc><vow>", "<vow><abc>", "(<abc>)", "(a)<abc>", "(?:a|b)<abc>",
		"<abc>(b)?<vow>", "b<wide>", "@", "@@a", "(a|<up>)", "(<abc>|é)b", "a<one>", "<abc><none>", "<abc>+", "(<vow>b)+",
		"<abc>+?b", "(\\()?<vow>", "(?:(a)|b)<vow>", "((<abc>))<vow>", "[ab]<vow>", "a\\.?<vow>"}
	reps := []string{"", "x", "é", "{}", "<up>", "<up2>", "<vow>", "<up><up2>", "<up2>-<up>", "x<up>y", "@", "@@", "<none>", "<one>", "<dup>%", "{}<up>{}", "<up><up><up>", "<missing>", "가<wide>", "a,<up>"}
	wds := words([]string{"a", "b", "é"}, c.Pick(5, 7))
	wds = append(wds, words([]string{"a", "b", "c", "🅰", " ", "A"}, c.Pick(3, 5))...)
	wds = append(wds, "(a", "b(ab", "a.b", "aa.a", "가a가b", "a\xffb", "\xff", "a{}b", "ab 가")
	wds = dedup(wds)
	var pats []string
	for _, b := range behind {
		for _, co := range cores {
			for _, a := range ahead {
				pats = append(pats, b+co+a)
			}
		}
	}
	c.Rule("every pattern lookbehind x core (up to two variables, user groups) x lookahead with every replacement of the list, with every limit n in -1..2, on every word up to a length; non-trivial: something matches, by the result and the number of matches kept for want of a counterpart")
	c.Extra("patterns", len(pats))
	c.Extra("replacements", len(reps))
	c.Extra("words", len(wds))
	order := stride(len(pats))
	c.Par(len(pats), func(w *Worker, i int) {
		pat := pats[order(i)]
		var h hrePat
		Run(w, hreReplCase{Pat: pat}, func(hreReplCase) (string, string) {
			var f string
			h, f = compileHRE(pat)
			return "", f
		})
		if h.p == nil {
			return
		}
		// Words without a match are covered by C04; keep a few.
		var hit []string
		for k, wd := range wds {
			f, zw := h.ref.find(wd)
			if !zw && (len(f) > 0 || k < 12) {
				hit = append(hit, wd)
			}
		}
		for ri, rep := range reps {
			rp := hre.NewRPattern(rep, hreMacros, hreVars)
			ref := refParseReplacement(rep, hreMacros, hreVars)
			for _, wd := range hit {
				for n := -1; n <= 2; n++ {
					if n >= 0 && ri%4 != 1 {
						continue
					}
					Run(w, hreReplCase{pat, Str(wd), rep, n}, func(cs hreReplCase) (string, string) {
						return h.checkReplace(rp, ref, wd, n)
					})
				}
			}
		}
	})
	c.Rule("scale: many matches, long variable lists and many variables")
	type sc = hreReplCase
	var cases []sc
	for _, wd := range scaleWords() {
		for _, p := range []string{"a", "é", "<abc>", "<wide>", "a<abc>", "{~b}a", "<vow>{a}"} {
			for _, r := range []string{"", "xyz", "<up>", "{}"} {
				cases = append(cases, sc{p, Str(wd), r, -1}, sc{p, Str(wd), r, 9}, sc{p, Str(wd), r, 33})
			}
		}
	}
	for _, wd := range longWords() {
		for _, p := range []string{"a", "<abc>", "{~b}a"} {
			cases = append(cases, sc{p, Str(wd), "xyz", -1}, sc{p, Str(wd), "", 400})
		}
		cases = append(cases, sc{"<abc>", Str(wd), "<up>", -1})
	}
	for _, k := range []int{3, 4, 5, 9, 10, 11, 17} {
		cases = append(cases, sc{strings.Repeat("<abc>", k), Str(strings.Repeat("abcab", k)), strings.Repeat("<up>", k), -1},
			sc{strings.Repeat("<abc>", k), Str(strings.Repeat("abcab", k)), strings.Repeat("<up2>-", k-1), -1},
			sc{strings.Repeat("(<abc>)", k), Str(strings.Repeat("cab", k)), strings.Repeat("<up>", k), -1})
	}
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[i], checkReplaceCase) })
	c.Sample(hreReplCase{pats[100], "abab", "<up>", -1})
	c.Sample(cases[len(cases)-1])
	c.Assume("a replacement variable is matched with the variable at the same position among the variables of the pattern's core; values are looked up by their first occurrence and indexes wrap around")
}

// -----------------------------------------------------------------------------
// C06

type reWidthCase widthCase

type widthCase struct {
	Expr  string
	Width int      // expected, -1 unlimited
	Words []string // some words of the language, for the bound
}

type wre struct {
	s   string
	w   int // max width, -1 unlimited
	lvl int // 0 atom, 1 repetition, 2 concatenation, 3 alternation
}

func (r wre) atom() string {
	if r.lvl == 0 {
		return r.s
	}
	return "(?:" + r.s + ")"
}

// widthGrammar builds regular expressions with their width by structure.
func widthGrammar(atoms []wre, depth int, reps bool) []wre {
	cur := append([]wre{}, atoms...)
	all := append([]wre{}, cur...)
	seen := map[string]bool{}
	for _, a := range all {
		seen[a.s] = true
	}
	add := func(r wre) {
		if !seen[r.s] {
			seen[r.s] = true
			all = append(all, r)
		}
	}
	times := func(w, n int) int {
		if w == -1 || n == -1 {
			return -1
		}
		return w * n
	}
	for d := 0; d < depth; d++ {
		prev := append([]wre{}, all...)
		for _, a := range prev {
			if a.w != 0 {
				add(wre{a.atom() + "*", -1, 1})
				add(wre{a.atom() + "+", -1, 1})
			}
			add(wre{a.atom() + "?", a.w, 1})
			add(wre{"(" + a.s + ")", a.w, 0})
			if reps && d == depth-1 {
				add(wre{a.atom() + "{2}", times(a.w, 2), 1})
				add(wre{a.atom() + "{0,3}", times(a.w, 3), 1})
				if a.w != 0 {
					add(wre{a.atom() + "{2,}", -1, 1})
				}
			}
		}
		lim := prev
		if len(lim) > 160 {
			lim = lim[:160]
		}
		for _, a := range lim {
			for _, b := range lim {
				l, r := a.s, b.s
				if a.lvl > 2 {
					l = a.atom()
				}
				if b.lvl > 2 {
					r = b.atom()
				}
				w := -1
				if a.w >= 0 && b.w >= 0 {
					w = a.w + b.w
				}
				add(wre{l + r, w, 2})
				w = -1
				if a.w >= 0 && b.w >= 0 {
					w = a.w
					if b.w > w {
						w = b.w
					}
				}
				add(wre{a.s + "|" + b.s, w, 3})
			}
		}
	}
	return all
}

func checkRegexpWidth(cs reWidthCase) (string, string) {
	re, err := syntax.Parse(cs.Expr, syntax.Perl)
	if err != nil {
		return "", ""
	}
	got := hre.RegexpMaxWidth(re)
	if bad := widthBad(got, cs.Width); bad != "" {
		return "", sprintf("RegexpMaxWidth(%s) = %d, %s", q(cs.Expr), got, bad)
	}
	return sprintf("re %d %d", got, len(cs.Expr)), ""
}

func widthBad(got, want int) string {
	switch {
	case want == -1 && got != -1:
		return "but the expression is unlimited"
	case want >= 0 && got == -1:
		return sprintf("but the width is at most %d", want)
	case got < want:
		return sprintf("less than the width %d", want)
	}
	return ""
}

func checkPatternWidth(cs widthCase) (string, string) {
	for _, side := range []string{"ahead", "behind", "both"} {
		expr := "x{~" + cs.Expr + "}"
		if side == "behind" {
			expr = "{~" + cs.Expr + "}x"
		} else if side == "both" {
			expr = "{~" + cs.Expr + "}x{~" + cs.Expr + "}"
		}
		p, err := hre.NewPattern(expr, nil, map[string][]string{"v": {"a", "bé", "가나다"}})
		if err != nil {
			return "", sprintf("NewPattern(%s): %v", q(expr), err)
		}
		a, b := p.NegativeLookaroundWidths()
		wa, wb := cs.Width, cs.Width
		if side == "ahead" {
			wb = 0
		} else if side == "behind" {
			wa = 0
		}
		if bad := widthBad(a, wa); bad != "" {
			return "", sprintf("negative lookahead width of %s is %d, %s", q(expr), a, bad)
		}
		if bad := widthBad(b, wb); bad != "" {
			return "", sprintf("negative lookbehind width of %s is %d, %s", q(expr), b, bad)
		}
		for _, sec := range []string{"rewrite", "transcribe"} {
			src := "lang:\n    id = \"t\"\n    codes = \"tt\", \"ttt\"\n    script = \"Latn\"\nvars:\n    \"v\" = \"a\", \"bé\", \"가나다\"\n" + sec + ":\n    \"q\" -> \"r\"\n    " + hslQuote(expr) + " -> \"y\"\n    \"s\" -> \"u\"\n"
			spec, err := hangulize.ParseSpec(strings.NewReader(src))
			if cs.Width == -1 && (err == nil || spec != nil) {
				return "", sprintf("ParseSpec accepts the unlimited rule %s in %s", q(expr), sec)
			}
			if cs.Width >= 0 && (err != nil || spec == nil) {
				return "", sprintf("ParseSpec refuses the limited rule %s in %s: %v", q(expr), sec, err)
			}
		}
	}
	return sprintf("pat %d %d", cs.Width, len(cs.Expr)), ""
}

// hslQuote writes an HSL string literal.
func hslQuote(s string) string {
	return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"`
}

type badCase struct {
	Pat  Str
	Must string // "error" or ""
}

func checkBadPattern(cs badCase) (string, string) {
	p, err := hre.NewPattern(string(cs.Pat), hreMacros, hreVars)
	if cs.Must == "error" && err == nil {
		return "", sprintf("NewPattern(%s) accepts a bad pattern", q(string(cs.Pat)))
	}
	if err != nil {
		if p != nil {
			return "", "NewPattern returns a pattern along with an error"
		}
		if cs.Must == "error" && utf8.ValidString(string(cs.Pat)) {
			src := "lang:\n    codes = \"tt\", \"ttt\"\n    script = \"Latn\"\nrewrite:\n    " + hslQuote(string(cs.Pat)) + " -> \"y\"\n"
			if spec, err := hangulize.ParseSpec(strings.NewReader(src)); err == nil || spec != nil {
				return "", sprintf("ParseSpec accepts the bad pattern %s", q(string(cs.Pat)))
			}
		}
		return "error " + string(cs.Pat), ""
	}
	// accepted: searching may only complain about a zero width
	for _, wd := range []string{"", "a", "ba", "aéb a", "{}a<"} {
		f := guard(func() string { p.Find(wd, -1); p.Explain(); p.Letters(); return "" })
		if f != "" && !strings.Contains(f, "zero-width match") {
			return "", sprintf("Find(%s): %s", q(wd), f)
		}
	}
	return "ok " + string(cs.Pat), ""
}

func runC06(c *Ctx) {
	lim := c.Pick(60000, 1000000)
	c.Rule("every regular expression built from the atoms by repetition, grouping, concatenation and alternation up to a depth, with its width by structure: RegexpMaxWidth, the widths of a pattern with it as a negative lookahead, lookbehind or both, and ParseSpec's verdict; non-trivial: the parser accepts it")
	g := widthGrammar([]wre{{"a", 1, 0}, {"é", 1, 0}, {".", 1, 0}, {"[ab]", 1, 0}, {"$", 0, 0}, {"abc", 3, 2}, {"(?i:k)", 1, 0}, {"\\b", 0, 0}}, 2, true)
	g = append(spread(g, lim), spread(widthGrammar([]wre{{"(?s:.)", 1, 0}, {"(?s:a.b)", 3, 0}, {"[^ab]", 1, 0}, {"\\pL", 1, 0}, {"\\D", 1, 0}, {"\\.", 1, 0}, {"(?m:^)", 0, 0}, {"(?m:$)", 0, 0},
		{"\\A", 0, 0}, {"\\z", 0, 0}, {"\\B", 0, 0}, {"(?i:ab)", 2, 0}, {"(?P<n>aé)", 2, 0}, {"()", 0, 0}, {"[[:alpha:]]", 1, 0}, {"\\x{ac00}", 1, 0}}, 2, true), lim)...)
	c.Extra("expressions", len(g))
	c.Par(len(g), func(w *Worker, i int) {
		Run(w, reWidthCase{Expr: g[i].s, Width: g[i].w}, checkRegexpWidth)
	})
	h := widthGrammar([]wre{{"a", 1, 0}, {"é", 1, 0}, {".", 1, 0}, {"[가-힣]", 1, 0}, {"<v>", 3, 0}}, 2, false)
	lim = c.Pick(12000, 200000)
	h = append(spread(h, lim), spread(widthGrammar([]wre{{"(?s:.)", 1, 0}, {"[^ab]", 1, 0}, {"[[:alpha:]]", 1, 0}, {"(?i:k)", 1, 0}, {"(?:bc)", 2, 0}, {"(?s:a.b)", 3, 0}}, 2, false), lim)...)
	for _, k := range []int{9, 17, 33, 65, 129, 257, 999, 1000} {
		h = append(h, wre{strings.Repeat("a", k), k, 2}, wre{strings.Repeat("é?", k), k, 2}, wre{strings.Repeat("(a|bc)", k), 2 * k, 2},
			wre{strings.Repeat("a", k) + "b*", -1, 2}, wre{strings.Repeat("é|ab|", k) + "b*", -1, 3}, wre{"b+|" + strings.Repeat("ab|c", k), -1, 3}, wre{strings.Repeat("abb|é|", k) + "가", 3, 3}, wre{strings.Repeat("(a|", k%500) + "b" + strings.Repeat(")", k%500), 1, 0}, wre{"a|" + strings.Repeat("가", k), k, 3})
	}
	for i := 0; i < 60; i++ {
		e, w := "a", 1
		for j := 0; j <= i; j++ {
			e = "(" + e + ")?"
		}
		h = append(h, wre{e, w, 1}, wre{"(b|(" + e + ")+)", -1, 0})
	}
	c.Extra("lookarounds", len(h))
	order := stride(len(h))
	c.Par(len(h), func(w *Worker, i int) {
		e := h[order(i)]
		Run(w, widthCase{Expr: e.s, Width: e.w}, checkPatternWidth)
	})
	c.Rule("every sequence of notation tokens up to a length is accepted or refused without a panic, and known bad forms around good patterns are refused")
	toks := []string{"a", "(", ")", "[", "]", "{", "}", "~", "<", ">", "vow", "^", "$", "|", "*", "\\", "?"}
	n := c.Pick(4, 5)
	ws := words(toks, n)
	c.Par(len(ws), func(w *Worker, i int) {
		cs := badCase{Pat: Str(ws[i])}
		if ws[i] == "" {
			cs.Must = "error"
		}
		Run(w, cs, checkBadPattern)
	})
	var bads []badCase
	good := []string{"a", "é", "ab", "<abc>", "@", "(a|b)", "a+b", "{a}b", "b{a}", "{~a}b", "b{~a}", "^a", "a$", "^^a$$", "{<vow>}a{~b}"}
	for _, g := range good {
		for _, b := range []string{"(" + g, g + ")", "*" + g, "a[" + g, g + "(?", "a(" + g + "b", "a\\", "x" + g + ")y", "(?<" + g, "a{b}" + "c", "a{b}" + g + "c{d}", "{b}a{c}" + g + "d", "a{~b}c" + g} {
			if strings.HasPrefix(b, "*") && strings.ContainsAny(g[:1], "{^") {
				continue
			}
			if strings.HasSuffix(g, "}") && (b == "a{~b}c"+g || b == "a["+g) {
				continue
			}
			bads = append(bads, badCase{Str(b), "error"})
		}
	}
	for _, b := range []string{"\xff", "a\xffb", "{\xff}a", "a{~\xff}"} {
		bads = append(bads, badCase{Str(b), "error"})
	}
	c.Par(len(bads), func(w *Worker, i int) { Run(w, bads[i], checkBadPattern) })
	c.Sample(widthCase{Expr: h[len(h)/2].s, Width: h[len(h)/2].w})
	c.Sample(bads[3])
}

// spread keeps n elements evenly spread.
func spread[T any](s []T, n int) []T {
	if len(s) <= n {
		return s
	}
	out := make([]T, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, s[i*len(s)/n])
	}
	return out
}

func init() {
	kind(checkFindCase)
	kind(checkReplaceCase)
	kind(checkRegexpWidth)
	kind(checkPatternWidth)
	kind(checkBadPattern)
	register(&Prop{ID: "C05", Level: "exploration", Run: runC05})
	register(&Prop{ID: "C06", Level: "exploration", Run: runC06})
}
