package main

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
)

// ---- C10

type latinCase struct {
	Lang string
	Word Str
}

// latinLangs are the bundled languages in the Latin script but Chinese, whose
// input is Hanzi.
func latinLangs() []*bundledLang {
	ls, err := bundled()
	if err != nil {
		panic(err.Error())
	}
	var out []*bundledLang
	for _, l := range ls {
		if l.raw.Script == "Latn" && len(l.raw.Translit) == 0 {
			out = append(out, l)
		}
	}
	return out
}

// leak finds a letter which should not be in the result.
func leak(word, got string) string {
	own := map[rune]int{}
	for _, r := range word {
		if unicode.IsPunct(r) || unicode.IsSpace(r) {
			own[r]++
		}
	}
	for _, r := range got {
		switch {
		case r >= 0xac00 && r <= 0xd7a3:
		case unicode.IsSpace(r) && r != ' ':
			return sprintf("%q", r)
		default:
			if own[r] == 0 {
				return sprintf("%q", r)
			}
			own[r]--
		}
	}
	return ""
}

// caseful tells whether the language itself tells upper case letters apart.
func (l *bundledLang) caseful(word string) bool {
	for _, kv := range l.raw.Normalize {
		for _, v := range append([]string{kv.Key}, kv.Vals...) {
			for _, r := range v {
				if unicode.IsUpper(r) && strings.ContainsRune(strings.ToUpper(word), r) {
					return true
				}
			}
		}
	}
	return false
}

func checkLatinWith(h hangulize.Hangulizer, l *bundledLang, word string) (string, string) {
	got, err := h.Hangulize(word)
	if err != nil {
		return "", sprintf("%s: Hangulize(%s): %v", l.lang, q(word), err)
	}
	if x := leak(word, got); x != "" {
		return "", sprintf("%s: Hangulize(%s) = %s leaks %s", l.lang, q(word), q(got), x)
	}
	if !l.caseful(word) {
		up := strings.ToUpper(word)
		got2, err := h.Hangulize(up)
		if err != nil || got2 != got {
			return "", sprintf("%s: Hangulize(%s) = %s, %v but Hangulize(%s) = %s", l.lang, q(up), q(got2), err, q(word), q(got))
		}
	}
	return l.lang + got, ""
}

func checkLatin(cs latinCase) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) { return checkLatinWith(r.h, r.bundledLang, string(cs.Word)) })
}

func runC10(c *Ctx) {
	c.Rule("for each bundled language in the Latin script: every word of up to 3 letters (thorough: 4) of a-z, apostrophe, hyphen and space, and of up to 5 (6) of each of some small alphabets, in lower and upper case; non-trivial: by language and result")
	c.Assume("a letter which the normalize table of the language mentions in upper case is excluded from the comparison of cases")
	var al []string
	for r := 'a'; r <= 'z'; r++ {
		al = append(al, string(r))
	}
	al = append(al, "'", "-", " ")
	ls := latinLangs()
	ws := words(al, c.Pick(3, 4))
	small := [][]string{{"a", "c", "h", "s"}, {"i", "g", "l", "n"}, {"e", "u", "r", "'"}, {"o", "t", "z", " "}, {"k", "x", "y", "-"}, {"q", "w", "j", "i"}, {"b", "d", "a", " "}, {"m", "p", "f", "v", "e"}}
	for _, s := range small {
		ws = append(ws, words(s, c.Pick(4, 6))...)
	}
	c.Extra("languages", len(ls))
	c.Extra("words", len(ws))
	hs := make([]hangulize.Hangulizer, len(ls))
	for i, l := range ls {
		spec, err := hangulize.LoadSpec(l.lang)
		if err != nil {
			c.Fail("", latinCase{l.lang, ""}, err.Error())
			return
		}
		hs[i] = hangulize.New(spec)
	}
	n := (len(ws) + 255) / 256
	c.Par(n*len(ls), func(w *Worker, i int) {
		l, h := ls[i%len(ls)], hs[i%len(ls)]
		for k := i / len(ls) * 256; k < len(ws) && k < (i/len(ls)+1)*256; k++ {
			wd := ws[k]
			Run(w, latinCase{l.lang, Str(wd)}, func(latinCase) (string, string) { return checkLatinWith(h, l, wd) })
			if k&63 == 0 && c.Expired() {
				return
			}
		}
	})
	c.Sample(latinCase{"ita", "abc"})
}

// ---- C11

type foldCase struct {
	Spec rawSpec
	Word Str
}

// checkFold compares the words after normalization: the ones traced, and the
// ones a language without rules lets pass.
func checkFold(cs foldCase) (string, string) {
	spec, ref, fail := parseRaw(cs.Spec)
	if spec == nil {
		return "", fail
	}
	return foldWith(spec, ref, string(cs.Word))
}

func foldWith(spec *hangulize.Spec, ref *refSpec, word string) (string, string) {
	want := ref.run(word, nil)
	if want.zero {
		return "", ""
	}
	norm := func(ts []refTrace) (out []refTrace) {
		for _, t := range ts {
			if t.Step == "Input" || t.Step == "Normalize" {
				out = append(out, t)
			}
		}
		return
	}
	var got []hangulize.Trace
	h := hangulize.New(spec)
	h.Trace(func(t hangulize.Trace) { got = append(got, t) })
	res, err := h.Hangulize(word)
	if err != nil {
		return "", sprintf("Hangulize(%s): %v", q(word), err)
	}
	g, wn := norm(tracesText(got)), norm(want.traces)
	if sprintf("%q", g) != sprintf("%q", wn) {
		return "", sprintf("%s normalizes as %q, expected %q", q(word), g, wn)
	}
	if res != want.word {
		return "", sprintf("Hangulize(%s) = %s, expected %s", q(word), q(res), q(want.word))
	}
	if len(wn) == 0 {
		return "", ""
	}
	return wn[len(wn)-1].Word, ""
}

var foldScripts = []string{"Latn", "", "Cyrl", "Grek", "Geor", "Hrkt"}

func runC11(c *Ctx) {
	c.Rule("every Unicode code point as a word under every script; every normalize table of one or two entries of a family, on every word up to a length; non-trivial: by normalized word")
	c.Assume("a normalize table with the same source twice is excluded; Hiragana beyond the Hiragana block have no Katakana to fold to here")
	step := 512
	type job struct {
		script string
		lo     rune
	}
	var jobs []job
	for lo := rune(0); lo <= 0x10ffff; lo += rune(step) {
		for _, s := range foldScripts {
			jobs = append(jobs, job{s, lo})
		}
	}
	c.Par(len(jobs), func(w *Worker, i int) {
		raw := rawSpec{Script: jobs[i].script, Transcribe: [][2]string{{"a", "ㅏ"}, {"й", "ㅣ"}, {"β", "ㅂ"}, {"ア", "ㅏ"}, {"ა", "ㅏ"}, {"đ", "ㄷ"}}}
		spec, ref, fail := parseRaw(raw)
		if fail != "" {
			c.Fail("", foldCase{raw, ""}, fail)
			return
		}
		for r := jobs[i].lo; r < jobs[i].lo+rune(step) && r <= 0x10ffff; r++ {
			if r == 0 || r >= 0xd800 && r < 0xe000 {
				continue
			}
			wd := string(r)
			Run(w, foldCase{raw, Str(wd)}, func(foldCase) (string, string) { return foldWith(spec, ref, wd) })
			if unicode.IsLetter(r) || unicode.IsMark(r) {
				wd := "a" + string(r) + "B"
				Run(w, foldCase{raw, Str(wd)}, func(foldCase) (string, string) { return foldWith(spec, ref, wd) })
			}
		}
	})

	// Tables.
	keys := []string{"a", "É", "Éñ", "ab", "一", "B", ""}
	froms := []string{"a", "ä", "ab", "abc", "É", "ñ", "A", "b", "漢", "я"}
	if c.Quick() {
		froms = froms[:9]
	}
	var entries []kvs
	for _, k := range keys[:6] {
		entries = append(entries, kvs{k, nil})
		for i, f := range froms {
			entries = append(entries, kvs{k, []string{f}})
			for j, g := range froms {
				if j != i && (j+i)%3 == 0 {
					entries = append(entries, kvs{k, []string{f, g}})
				}
			}
		}
	}
	var tables [][]kvs
	for i, e := range entries {
		tables = append(tables, []kvs{e})
		for j, f := range entries {
			if i == j || e.Key == f.Key {
				continue
			}
			ok := true
			for _, x := range e.Vals {
				for _, y := range f.Vals {
					if x == y {
						ok = false
					}
				}
			}
			if ok && (!c.Quick() || (i*7+j)%3 == 0) {
				tables = append(tables, []kvs{e, f})
			}
		}
	}
	ws := words([]string{"a", "b", "c", "É", "ñ", "A"}, 3)
	ws = append(ws, words([]string{"a", "b", "ä", "Ä", "я", "漢", "E"}, 2)...)
	ws = append(ws, "abcab", "aabc", "ÉñÉ", "Ñabc", "bab", "ABC", "ababc1abc")
	if !c.Quick() {
		ws = append(ws, words([]string{"a", "b", "c", "É", "ä"}, 5)...)
	}
	ws = dedup(ws)
	c.Extra("tables", len(tables))
	c.Extra("table_words", len(ws))
	c.Par(len(tables), func(w *Worker, i int) {
		raw := rawSpec{Script: "Latn", Normalize: tables[i], Transcribe: [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}, {"e", "ㅔ"}, {"É", "ㅕ"}, {"ñ", "ㄴ"}, {"n", "ㅇ"}, {"B", "ㅍ"}}}
		var spec *hangulize.Spec
		var ref *refSpec
		Run(w, foldCase{raw, ""}, func(foldCase) (string, string) {
			var fail string
			spec, ref, fail = parseRaw(raw)
			return "", fail
		})
		if spec == nil {
			return
		}
		for _, wd := range ws {
			Run(w, foldCase{raw, Str(wd)}, func(foldCase) (string, string) { return foldWith(spec, ref, wd) })
		}
	})

	// Many sources of many lengths.
	for _, n := range []int{5, 9, 17, 40, 130} {
		raw := rawSpec{Script: "Latn", Transcribe: [][2]string{{"a", "ㅏ"}}}
		var all strings.Builder
		for i := 0; i < n; i++ {
			src := strings.Repeat("x", i%7+1) + sprintf("%d", i)
			raw.Normalize = append(raw.Normalize, kvs{sprintf("%c%d", 'A'+i%20, i), []string{src, "y" + src}})
			all.WriteString(src + "xy" + src + " ")
		}
		c.Par(1, func(w *Worker, _ int) {
			Run(w, foldCase{raw, Str(all.String())}, checkFold)
			Run(w, foldCase{raw, Str(strings.ToUpper(all.String()))}, checkFold)
		})
	}
	c.Sample(foldCase{rawSpec{Script: "Latn", Normalize: tables[1]}, "abc"})
}

// ---- C12

type foreignCase struct {
	Spec rawSpec
	Word Str
}

// checkForeign compares with the model, and chunk by chunk with itself.
func checkForeign(cs foreignCase) (string, string) {
	spec, ref, fail := parseRaw(cs.Spec)
	if spec == nil {
		return "", fail
	}
	return foreignWith(hangulize.New(spec), ref, string(cs.Word))
}

func foreignWith(h hangulize.Hangulizer, ref *refSpec, word string) (string, string) {
	want := ref.run(word, nil)
	got, err := h.Hangulize(word)
	if err != nil || got != want.word {
		return "", sprintf("Hangulize(%s) = %s, %v, expected %s", q(word), q(got), err, q(want.word))
	}
	// The result of a text is that of its chunks, joined.
	if i := strings.IndexFunc(word, func(r rune) bool {
		return !refIs(ref.raw.Script, r) && (unicode.IsDigit(r) || unicode.Is(unicode.Han, r) || unicode.IsSymbol(r))
	}); i > 0 && utf8.ValidString(word) {
		n := len(string([]rune(word[i:])[:1]))
		a, e1 := h.Hangulize(word[:i])
		b, e2 := h.Hangulize(word[i+n:])
		// Punctuation next to the cut would see the edge of the text.
		l, r := []rune(word[:i]), []rune(word[i+n:])
		if len(r) > 0 && !unicode.IsPunct(l[len(l)-1]) && !unicode.IsPunct(r[0]) && l[len(l)-1] != '\u200b' && r[0] != '\u200b' {
			if e1 != nil || e2 != nil || got != a+word[i:i+n]+b {
				return "", sprintf("Hangulize(%s) = %s but its parts give %s and %s", q(word), q(got), q(a), q(b))
			}
		}
	}
	return got, ""
}

func runC12(c *Ctx) {
	c.Rule("every arrangement up to a length of chunks, separators of every general category, whitespace and every localized mark, for a small language of each script; every code point between two chunks; non-trivial: by result")
	specs := []rawSpec{
		{Script: "Latn", Rewrite: [][2]string{{"^a", "b"}, {"'", ""}}, Transcribe: [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}, {"n$", "-ㄴ"}}},
		{Script: "Hrkt", Rewrite: [][2]string{{"ア", "a"}, {"・", "{}"}, {"ナ", "na"}}, Transcribe: [][2]string{{"a{}", "ㅗ"}, {"a", "ㅏ"}, {"n", "ㄴ"}, {"シ$", "ㅅㅣ"}}},
		{Script: "Cyrl", Transcribe: [][2]string{{"а", "ㅏ"}, {"^н", "ㄴ"}}},
		{Script: "Grek", Transcribe: [][2]string{{"α", "ㅏ"}, {"ν$", "-ㄴ"}}},
		{Script: "Geor", Transcribe: [][2]string{{"ა", "ㅏ"}, {"ნ", "ㄴ"}}},
	}
	items := [][]string{
		{"an", "ba", "'"}, {"アナ", "あ", "・", "シ"}, {"ан", "на"}, {"αν", "Α"}, {"ან", "ნ"},
	}
	marks := []string{" ", "。", "、", "「", "」", "『", "』", "：", "！", "？", "〜", "!", "1", "漢", "\u200b", "-"}
	extra := []string{"\u00a0", "\u3000", "\t", "가", "ㄱ", "€", "😀", "\u0301", "_", "(", "»", "\xff", "…", "²", "Ⅷ", "\u2028", "\u00ad", "{}", "’"}
	type job struct {
		s  int
		ws []string
	}
	var jobs []job
	total := 0
	for s := range specs {
		ws := words(append(append([]string{}, items[s]...), marks...), c.Pick(4, 5))
		if s == 1 {
			ws = append(ws, words(append(append([]string{}, items[s][:2]...), marks[:12]...), c.Pick(5, 6))...)
		}
		for _, x := range extra {
			for _, wd := range words(append(append(append([]string{}, items[s][:2]...), x), marks[:5]...), 4) {
				if strings.Contains(wd, x) {
					ws = append(ws, wd)
				}
			}
		}
		for _, u := range append(append([]string{}, marks...), extra...) {
			for _, k := range []int{2, 9, 17, 65, 130, 300, 1100, 5000} {
				ws = append(ws, strings.Repeat(items[s][0]+u, k), strings.Repeat(u, k), items[s][0]+strings.Repeat(u, k)+items[s][1])
			}
		}
		ws = dedup(ws)
		total += len(ws)
		for len(ws) > 0 {
			n := 512
			if n > len(ws) {
				n = len(ws)
			}
			jobs = append(jobs, job{s, ws[:n]})
			ws = ws[n:]
		}
		var cps []string
		for r := rune(1); r <= 0x10ffff; r++ {
			if r >= 0xd800 && r < 0xe000 || r > 0x20000 && r&0xff != 0 && r < 0xe0000 || r > 0xe0200 && r&0xff != 0 {
				continue
			}
			cps = append(cps, items[s][0]+string(r)+items[s][1])
			if unicode.IsPunct(r) {
				cps = append(cps, string(r)+items[s][0]+string(r)+string(r)+items[s][0]+string(r))
			}
			if len(cps) > 2000 {
				jobs = append(jobs, job{s, cps})
				total += len(cps)
				cps = nil
			}
		}
		jobs = append(jobs, job{s, cps})
	}
	c.Extra("texts", total)
	c.Par(len(jobs), func(w *Worker, i int) {
		j := jobs[i]
		spec, ref, fail := parseRaw(specs[j.s])
		if fail != "" {
			c.Fail("", foreignCase{specs[j.s], ""}, fail)
			return
		}
		h := hangulize.New(spec)
		for k, wd := range j.ws {
			Run(w, foreignCase{specs[j.s], Str(wd)}, func(foreignCase) (string, string) { return foreignWith(h, ref, wd) })
			if k&255 == 0 && c.Expired() {
				return
			}
		}
	})
	c.Sample(foreignCase{specs[1], "「あ」。アナ"})
}

func init() {
	kind(checkLatin)
	kind(checkFold)
	kind(checkForeign)
	register(&Prop{ID: "C10", Level: "exploration", Run: runC10})
	register(&Prop{ID: "C11", Level: "exploration", Run: runC11})
	register(&Prop{ID: "C12", Level: "exploration", Run: runC12})
}
