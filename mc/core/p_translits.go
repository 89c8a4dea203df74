package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	goPinyin "github.com/mozillazg/go-pinyin"
	"golang.org/x/text/unicode/norm"
)

// ---- C20

type hanCase struct{ Word Str }
type hanJoin struct{ A, B Str }

var pinyinArgs = goPinyin.NewArgs()

// readings gives the pieces of a text: readings, and runs of others.
func hanPieces(word string) (out []string, han []bool) {
	for _, r := range norm.NFC.String(word) {
		p := goPinyin.SinglePinyin(r, pinyinArgs)
		switch {
		case len(p) > 0:
			out, han = append(out, p[0]), append(han, true)
		case len(out) > 0 && !han[len(out)-1]:
			out[len(out)-1] += string(r)
		default:
			out, han = append(out, string(r)), append(han, false)
		}
	}
	return
}

func checkHan(cs hanCase) (string, string) {
	w := string(cs.Word)
	pieces, han := hanPieces(w)
	want := strings.Join(pieces, "\u200b")
	got, err := pinyin.T.Transliterate(w)
	if err != nil || got != want {
		return "", sprintf("Transliterate(%s) = %s, %v, expected %s", q(w), q(got), err, q(want))
	}
	for i, p := range pieces {
		if han[i] {
			for _, r := range p {
				if !(r >= 'a' && r <= 'z' || r == 'ü' || r == 'ê') {
					return "", sprintf("%s is read as %s, which has a tone or another letter", q(w), q(p))
				}
			}
		}
	}
	if d := norm.NFD.String(w); d != w {
		if g, err := pinyin.T.Transliterate(d); err != nil || g != want {
			return "", sprintf("Transliterate(%s) = %s, %v, but %s for its composed form", q(d), q(g), err, q(want))
		}
	}
	return want, ""
}

func checkHanJoin(cs hanJoin) (string, string) {
	a, b := string(cs.A), string(cs.B)
	if norm.NFC.String(a+b) != norm.NFC.String(a)+norm.NFC.String(b) {
		return "", ""
	}
	x, e1 := pinyin.T.Transliterate(a)
	y, e2 := pinyin.T.Transliterate(b)
	z, e3 := pinyin.T.Transliterate(a + b)
	if e1 != nil || e2 != nil || e3 != nil {
		return "", sprintf("errors %v %v %v", e1, e2, e3)
	}
	sep := ""
	_, ha := hanPieces(a)
	_, hb := hanPieces(b)
	if len(ha) > 0 && len(hb) > 0 && (ha[len(ha)-1] || hb[0]) {
		sep = "\u200b"
	}
	if z != x+sep+y {
		return "", sprintf("Transliterate(%s) = %s, but its parts give %s and %s", q(a+b), q(z), q(x), q(y))
	}
	return z, ""
}

func runC20(c *Ctx) {
	c.Rule("every code point alone and next to a Hanzi; every arrangement up to a length of Hanzi, foreign letters, spaces and compatibility forms, alone and as every split in two; the result of Chinese against the model of the procedure; non-trivial: by reading")
	c.Assume("the readings themselves are those of the go-pinyin library, which is not part of this repository")
	c.Par(0x110000/256, func(w *Worker, i int) {
		for r := rune(i * 256); r < rune(i*256+256); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			Run(w, hanCase{Str(string(r))}, checkHan)
			if unicode.Is(unicode.Han, r) || r < 0x3000 {
				Run(w, hanCase{Str("a" + string(r) + "中" + string(r))}, checkHan)
				Run(w, hanCase{Str(string(r) + "b" + string(r) + "c" + string(r) + string(r) + "国")}, checkHan)
			}
		}
	})
	al := []string{"汉", "长", "绿", "a", "B", " ", "1", "\uf900", "\U0002f800", "é", "e\u0301", "\u200b", "가", "ㄱ", "。", "\xff"}
	ws := words(al, c.Pick(4, 5))
	c.Extra("arrangements", len(ws))
	c.Par(len(ws), func(w *Worker, i int) { Run(w, hanCase{Str(ws[i])}, checkHan) })
	parts := words(al, c.Pick(2, 3))
	c.Par(len(parts), func(w *Worker, i int) {
		for _, p := range parts {
			Run(w, hanJoin{Str(parts[i]), Str(p)}, checkHanJoin)
		}
	})
	c.Par(len(al), func(w *Worker, i int) {
		for _, k := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 257, 1000, 4100, 30000} {
			Run(w, hanCase{Str(strings.Repeat(al[i], k))}, checkHan)
			Run(w, hanCase{Str(strings.Repeat("a"+al[i], k))}, checkHan)
			Run(w, hanCase{Str(strings.Repeat(al[i]+"长沙", k))}, checkHan)
			Run(w, hanJoin{Str(strings.Repeat(al[i], k)), Str(strings.Repeat("汉a", k))}, checkHanJoin)
		}
	})
	// With the rules of Chinese.
	raw, _ := rawOf(readFile(specPath("chi")))
	ref, err := raw.compile()
	if err != nil {
		panic(err)
	}
	spec, err := hangulize.LoadSpec("chi")
	if err != nil {
		c.Fail("", hanCase{"chi"}, err.Error())
		return
	}
	h := hangulize.New(spec)
	h.UseTranslit(pinyin.T)
	texts := words(al, 3)
	for _, t := range raw.Test {
		texts = append(texts, t[0], t[0]+t[0], " "+t[0]+"a", t[0][:len(t[0])/2])
	}
	c.Par(len(texts), func(w *Worker, i int) {
		Run(w, chiCase{Str(texts[i])}, func(cs chiCase) (string, string) { return chiWith(h, ref, string(cs.Word)) })
	})
	c.Sample(hanCase{"长a沙"})
}

type chiCase struct{ Word Str }

func chiWith(h hangulize.Hangulizer, ref *refSpec, w string) (string, string) {
	pieces, _ := hanPieces(w)
	want := ref.run(w, []refTrace{{"Transliterate", strings.Join(pieces, "\u200b"), "pinyin", -1}})
	got, err := h.Hangulize(w)
	if err != nil || got != want.word {
		return "", sprintf("Hangulize(%s) = %s, %v, expected %s", q(w), q(got), err, q(want.word))
	}
	return got, ""
}

func checkChi(cs chiCase) (string, string) {
	raw, _ := rawOf(readFile(specPath("chi")))
	ref, err := raw.compile()
	if err != nil {
		return "", err.Error()
	}
	spec, err := hangulize.LoadSpec("chi")
	if err != nil {
		return "", err.Error()
	}
	h := hangulize.New(spec)
	h.UseTranslit(pinyin.T)
	return chiWith(h, ref, string(cs.Word))
}

// ---- C21

type cyrCase struct {
	Country string
	Word    Str
}

var cyrOnce sync.Once
var cyrTables map[string]map[string]string

// cyrTable is the table of the CyrTranslit source file, written out by the
// build script.
func cyrTable(country string) map[string]string {
	cyrOnce.Do(func() {
		var d map[string]map[string]map[string]string
		b, err := os.ReadFile(os.Getenv("VERIF_WORK") + "/cyr.json")
		if err == nil {
			err = json.Unmarshal(b, &d)
		}
		if err != nil {
			panic("cyr.json: " + err.Error())
		}
		cyrTables = map[string]map[string]string{}
		for k := range d {
			cyrTables[k] = d[k]["tocyrillic"]
		}
	})
	return cyrTables[country]
}

func checkCyr(cs cyrCase) (string, string) {
	var t hangulize.Translit
	for _, x := range cyrillic.Ts {
		if x.Scheme() == "cyrillic["+cs.Country+"]" {
			t = x
		}
	}
	if t == nil {
		return "", "no translit cyrillic[" + cs.Country + "]"
	}
	table := cyrTable(cs.Country)
	w := string(cs.Word)
	// The longest entry at each place.
	var b strings.Builder
	for i := 0; i < len(w); {
		best := ""
		for n := 1; n <= 12 && i+n <= len(w); n++ {
			if _, ok := table[w[i:i+n]]; ok {
				best = w[i : i+n]
			}
		}
		if best == "" {
			b.WriteByte(w[i])
			i++
			continue
		}
		b.WriteString(table[best])
		i += len(best)
	}
	for k := 0; k < 2; k++ {
		got, err := t.Transliterate(w)
		if err != nil || got != b.String() {
			return "", sprintf("cyrillic[%s] of %s is %s, %v, expected %s", cs.Country, q(w), q(got), err, q(b.String()))
		}
	}
	return b.String(), ""
}

func runC21(c *Ctx) {
	c.Rule("for each country: every sequence of up to 3 (thorough: 4) letters of its table and of up to 3 of its entries, with other letters; every code point alone; non-trivial: by result")
	c.Assume("the table is that of the CyrTranslit file kept next to the translit, from which its dictionary is generated")
	var schemes []string
	for _, t := range cyrillic.Ts {
		schemes = append(schemes, t.Scheme())
	}
	sort.Strings(schemes)
	if s := strings.Join(schemes, " "); s != "cyrillic[bg] cyrillic[mk] cyrillic[ru] cyrillic[ua]" {
		c.Fail("", cyrCase{}, "schemes "+s)
	}
	for _, country := range []string{"bg", "mk", "ru", "ua"} {
		table := cyrTable(country)
		letters := map[string]bool{" ": true, "1": true, "й": true, "É": true}
		multi := map[string]bool{}
		for k := range table {
			for _, r := range k {
				letters[string(r)] = true
				if utf8.RuneCountInString(k) > 1 {
					multi[string(r)] = true
				}
			}
		}
		entries := append(sortedKeys(table), " ", "-", "ж", "\xff", "漢")
		al := sortedKeys(letters)
		ml := sortedKeys(multi)
		var fixed []string
		fixed = append(fixed, words(ml, 3)...)
		if len(ml) > 14 {
			low := ml[:0:0]
			for _, x := range ml {
				if x == strings.ToLower(x) {
					low = append(low, x)
				}
			}
			ml = low
		}
		if !c.Quick() {
			fixed = append(fixed, words(ml, 5)...)
		} else {
			fixed = append(fixed, words(ml, 4)...)
		}
		for _, e := range entries {
			for _, k := range []int{2, 9, 17, 65, 300, 1100, 4100, 33000} {
				fixed = append(fixed, strings.Repeat(e, k))
			}
		}
		c.Par(len(fixed), func(w *Worker, i int) { Run(w, cyrCase{country, Str(fixed[i])}, checkCyr) })
		c.Par(len(entries)*len(entries), func(w *Worker, i int) {
			p := entries[i/len(entries)] + entries[i%len(entries)]
			Run(w, cyrCase{country, Str(p)}, checkCyr)
			for _, e := range entries {
				Run(w, cyrCase{country, Str(p + e)}, checkCyr)
			}
		})
		c.Par(len(al)*len(al), func(w *Worker, i int) {
			p := al[i/len(al)] + al[i%len(al)]
			for _, e := range al {
				Run(w, cyrCase{country, Str(p + e)}, checkCyr)
				if !c.Quick() {
					for _, f := range al {
						Run(w, cyrCase{country, Str(p + e + f)}, checkCyr)
					}
				}
			}
		})
		c.Par(0x3000/64, func(w *Worker, i int) {
			for r := rune(i * 64); r < rune(i*64+64); r++ {
				Run(w, cyrCase{country, Str(string(r))}, checkCyr)
				Run(w, cyrCase{country, Str("s" + string(r) + "h")}, checkCyr)
			}
		})
	}
	c.Sample(cyrCase{"ru", "shhyo"})
}

// ---- C22

type kanaCase struct{ Word Str }

// resolveMarks is an independent reading of the iteration marks: the voiced
// forms are those of Unicode.
func resolveMarks(w string) (out string, vague bool) {
	const voiced, semi = '\u3099', '\u309a'
	rs := []rune(w)
	for i := 1; i < len(rs); i++ {
		p := rs[i-1]
		hira := p >= 0x3040 && p <= 0x309f
		kata := p >= 0x30a0 && p <= 0x30ff
		mark := rs[i]
		if !(hira && (mark == 'ゝ' || mark == 'ゞ') || kata && (mark == 'ヽ' || mark == 'ヾ')) {
			continue
		}
		d := []rune(norm.NFD.String(string(p)))
		base := d[0]
		switch mark {
		case 'ゝ', 'ヽ':
			rs[i] = base
		default:
			v := []rune(norm.NFC.String(string(base) + string(voiced)))
			rs[i] = p
			if len(d) == 2 && d[1] == semi {
				vague = true // ぱゞ may be ぱぱ or ぱば
			} else if len(v) == 1 {
				rs[i] = v[0]
			}
		}
	}
	return string(rs), vague
}

// kanaRows are the kana by vowel.
var kanaRows = map[rune]string{
	'a': "ァアカガサザタダナハバパマャヤラヮワ",
	'i': "ィイキギシジチヂニヒビピミリヰヸ",
	'u': "ゥウクグスズツヅヌフブプムュユルヴ",
	'e': "ェエケゲセゼテデネヘベペメレヱヹ",
	'o': "ォオコゴソゾトドノホボポモョヨロヲヺ",
}

func kanaRow(r rune) rune {
	for v, s := range kanaRows {
		if strings.ContainsRune(s, r) {
			return v
		}
	}
	return 0
}

// vowelAfter tells whether a vowel letter continues the kana before: 1 yes,
// 0 no, 2 left open.
func vowelAfter(prev, ch rune) int {
	row := kanaRow(prev)
	if row == 0 {
		return 0
	}
	at := func(vs string) bool { return strings.ContainsRune(vs, row) }
	yes := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	switch ch {
	case 'ァ', 'ア':
		return yes(at("a"))
	case 'イ':
		if prev == 'チ' || prev == 'ヂ' {
			return 2
		}
		return yes(at("i"))
	case 'ィ':
		if strings.ContainsRune("テデ", prev) { // ti, di
			return 0
		}
		return yes(at("ie"))
	case 'ウ':
		return yes(at("uo"))
	case 'ゥ':
		if strings.ContainsRune("トド", prev) { // tu, du
			return 0
		}
		return yes(at("uo"))
	case 'ェ', 'エ':
		return yes(at("e"))
	case 'ォ', 'オ':
		return yes(at("o"))
	}
	return 0
}

// longVowels marks long vowels after an offset. Each place left open adds an
// alternative.
func longVowels(w string, offset int) []string {
	outs := []string{""}
	prev := rune(0)
	i := 0
	for _, r := range w {
		k := 0
		if i >= offset {
			k = vowelAfter(prev, r)
		}
		var next []string
		for _, o := range outs {
			if k != 1 {
				next = append(next, o+string(r))
			}
			if k != 0 {
				next = append(next, o+"ー")
			}
		}
		outs = next
		prev = r
		i++
	}
	return outs
}

var kagomeOnce sync.Once
var kagomeTok kagome.Tokenizer

// readJapanese gives the possible readings of a text.
func readJapanese(w string) []string {
	kagomeOnce.Do(func() { kagomeTok = kagome.New() })
	type morph struct {
		text                   string
		aux, name, meta, guess bool
	}
	var ms []morph
	for _, t := range kagomeTok.Tokenize(w) {
		if t.Class == kagome.DUMMY {
			continue
		}
		m := morph{text: t.Surface}
		if t.Class == kagome.KNOWN {
			f := t.Features()
			m.text = f[8]
			switch f[0] {
			case "フィラー", "記号":
				m.meta = true
			case "助動詞":
				m.aux = true
			case "助詞":
				if f[6] == "は" {
					m.text = "ハ"
				}
				if f[6] == "へ" {
					m.text = "ヘ"
				}
			default:
				m.name = f[2] == "人名"
			}
		} else {
			m.meta = strings.TrimSpace(m.text) == ""
			m.guess = !m.meta
		}
		ms = append(ms, m)
	}
	outs := []string{""}
	add := func(vs []string) {
		var next []string
		for _, o := range outs {
			for _, v := range vs {
				next = append(next, o+v)
			}
		}
		outs = next
	}
	prevName := false
	for i := 0; i < len(ms); {
		m := ms[i]
		if i > 0 && m.name && prevName {
			add([]string{" "})
		}
		prevName = m.name
		cores := []string{m.text}
		if m.guess {
			cores = longVowels(m.text, 0)
		}
		tail := ""
		for i++; i < len(ms) && ms[i].aux; i++ {
			tail += ms[i].text
		}
		var all []string
		for _, core := range cores {
			all = append(all, longVowels(core+tail, utf8.RuneCountInString(core))...)
		}
		add(all)
		if len(outs) > 4096 {
			return nil
		}
	}
	return outs
}

func oneOf(s string, set []string) bool {
	for _, x := range set {
		if x == s {
			return true
		}
	}
	return false
}

func checkKana(cs kanaCase) (string, string) {
	w := string(cs.Word)
	got, err := furigana.T.Transliterate(w)
	if err != nil {
		return "", sprintf("Transliterate(%s): %v", q(w), err)
	}
	again, err := furigana.T.Transliterate(w)
	if err != nil || again != got {
		return "", sprintf("Transliterate(%s) = %s and then %s, %v", q(w), q(got), q(again), err)
	}
	if d := norm.NFD.String(w); d != w {
		if g, err := furigana.T.Transliterate(d); err != nil || g != got {
			return "", sprintf("Transliterate(%s) = %s, %v, but %s for its composed form", q(d), q(g), err, q(got))
		}
	}
	res, vague := resolveMarks(norm.NFC.String(w))
	if vague {
		return "", ""
	}
	want := readJapanese(res)
	if want != nil && !oneOf(got, want) {
		return "", sprintf("Transliterate(%s) = %s, expected %q", q(w), q(got), want)
	}
	return got, ""
}

// unknownRun tells whether kagome joins repetitions of a text in one
// unknown word.
func unknownRun(u string) bool {
	r, _ := utf8.DecodeRuneInString(u)
	return unicode.In(r, unicode.Latin, unicode.Katakana, unicode.Nd, unicode.So) || r == utf8.RuneError || r == 'ー'
}

func runC22(c *Ctx) {
	c.Rule("every pair and triple of kana and iteration marks, every sequence up to a length of representative kana, marks and other letters, every sequence up to a length of words of each morpheme class, in composed and decomposed form; non-trivial: by reading")
	c.Assume("the segmentation and the readings of known words are those of the kagome library; ぱゞ and チイ are left open")
	kagomeOnce.Do(func() { kagomeTok = kagome.New() })
	var hira, kata []string
	for r := 'ぁ'; r <= 'ゖ'; r++ {
		hira = append(hira, string(r))
	}
	for r := 'ァ'; r <= 'ヺ'; r++ {
		kata = append(kata, string(r))
	}
	marks := []string{"ゝ", "ゞ", "ヽ", "ヾ", "々", "ー"}
	all := append(append(append([]string{}, hira...), kata...), marks...)
	var cases []string
	for _, a := range all {
		cases = append(cases, a)
		for _, m := range marks {
			for _, n := range append(marks, "") {
				cases = append(cases, a+m+n, "a"+a+m+n+"b")
			}
		}
	}
	for _, a := range kata {
		for _, b := range kata {
			cases = append(cases, a+b, "ン"+a+b+"ラ")
			for _, d := range kata {
				cases = append(cases, a+b+d)
			}
		}
	}
	for _, a := range hira {
		for _, b := range hira {
			cases = append(cases, a+b)
			for _, m := range []string{"ゝ", "ゞ"} {
				cases = append(cases, a+b+m)
			}
		}
	}
	al := []string{"か", "が", "は", "う", "っ", "ア", "ガ", "ワ", "ト", "ゥ", "イ", "エ", "オ", "ゝ", "ゞ", "ヽ", "ヾ", "漢", "a", " ", "ー", "。"}
	cases = append(cases, words(al, c.Pick(4, 5))...)
	cases = append(cases, words([]string{"ァ", "ア", "イ", "ウ", "エ", "オ", "キ", "ル", "ケ", "ド"}, c.Pick(5, 6))...)
	morphs := []string{"田中", "山田", "太郎", "花子", "東京", "日本", "は", "へ", "を", "です", "ます", "ましょう", "た", "だろう", "食べ", "行こ", "う", "えーと", "。", "「", "」", " ", "　", "ケイタイ", "abc", "12", "😀", "さあ", "\xff"}
	cases = append(cases, words(morphs, 4)...)
	if !c.Quick() {
		cases = append(cases, words([]string{"田中", "太郎", "は", "です", "ましょう", "ァイ", "。", " ", "え"}, 6)...)
	}
	for _, u := range append(append([]string{}, morphs...), al...) {
		// The library takes cubic time for a long run it does not know.
		for _, k := range []int{5, 9, 17, 33, 65} {
			if !unknownRun(u) || len(u)*k < 40 {
				cases = append(cases, strings.Repeat(u, k))
			}
			cases = append(cases, strings.Repeat(u+"田", k))
		}
	}
	for _, lang := range []string{"jpn", "jpn-ck"} {
		raw, _ := rawOf(readFile(specPath(lang)))
		for _, t := range raw.Test {
			cases = append(cases, t[0], t[0]+t[0], t[0]+"さん", "「"+t[0]+"」")
			rs := []rune(t[0])
			for i := range rs {
				cases = append(cases, string(rs[:i]), string(rs[i:]), string(rs[:i])+"ゝ"+string(rs[i:]), string(rs[:i])+string(rs[i+1:]))
			}
		}
	}
	// Every letter which is neither a kana nor a mark, in a word.
	limit := rune(c.Pick(0x3400, 0x10000))
	for r := rune(0); r < 0x20000; r++ {
		kana := r >= 0x3040 && r <= 0x30ff
		if kana || r >= 0xd800 && r < 0xe000 || r >= limit && r < 0xa000 || r >= 0xac00 && r < 0xf900 || r >= 0x10000 && (c.Quick() || r < 0x1f000) {
			continue
		}
		x := string(r)
		cases = append(cases, x, "か"+x+"い", "山田"+x+"太郎", x+"カア", "です"+x+x)
	}
	cases = dedup(cases)
	c.Extra("texts", len(cases))
	c.Par(len(cases), func(w *Worker, i int) { Run(w, kanaCase{Str(cases[i])}, checkKana) })
	c.Sample(kanaCase{"ミチイ"})
}

func init() {
	kind(checkHan)
	kind(checkHanJoin)
	kind(checkChi)
	kind(checkCyr)
	kind(checkKana)
	register(&Prop{ID: "C20", Level: "exploration", Run: runC20})
	register(&Prop{ID: "C21", Level: "exploration", Run: runC21})
	register(&Prop{ID: "C22", Level: "exploration", Run: runC22})
}
