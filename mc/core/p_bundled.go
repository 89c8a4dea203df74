package main

import (
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
)

type bundledCase struct {
	Lang string
	Word Str
}
type bundledTrace bundledCase

// asIs is a translit which changes nothing.
type asIs string

func (s asIs) Scheme() string                         { return string(s) }
func (s asIs) Transliterate(w string) (string, error) { return w, nil }

// prepared hangulizers of the bundled languages.
type bundledReal struct {
	*bundledLang
	spec *hangulize.Spec
	h    hangulize.Hangulizer
	ts   []hangulize.Translit

	fired [2][]atomic.Bool // rules which changed some word
}

// realOf loads a bundled language. Chinese and Japanese words are given as
// already transliterated, which is decided by other properties.
func realOf(l *bundledLang) (*bundledReal, string) {
	spec, err := hangulize.LoadSpec(l.lang)
	if err != nil {
		return nil, sprintf("LoadSpec(%s): %v", l.lang, err)
	}
	r := &bundledReal{bundledLang: l, spec: spec, h: hangulize.New(spec)}
	r.fired = [2][]atomic.Bool{make([]atomic.Bool, len(l.ref.rewrite)), make([]atomic.Bool, len(l.ref.transcribe))}
	for _, scheme := range l.raw.Translit {
		var t hangulize.Translit = asIs(scheme)
		for _, x := range cyrillic.Ts {
			if x.Scheme() == scheme {
				t = x
			}
		}
		r.ts = append(r.ts, t)
		if !r.h.UseTranslit(t) {
			return nil, "UseTranslit " + scheme
		}
	}
	return r, ""
}

func (r *bundledReal) want(word string) (refRun, string) {
	var steps []refTrace
	w := word
	for _, t := range r.ts {
		out, err := t.Transliterate(w)
		if err != nil {
			return refRun{}, sprintf("%s.Transliterate(%s): %v", t.Scheme(), q(w), err)
		}
		w = out
		steps = append(steps, refTrace{"Transliterate", w, t.Scheme(), -1})
	}
	return r.ref.run(word, steps), ""
}

func (r *bundledReal) check(word string) (string, string) {
	want, fail := r.want(word)
	if fail != "" {
		return "", fail
	}
	if want.zero {
		return "", sprintf("%s: a rule matches nothing in %s", r.lang, q(word))
	}
	for _, t := range want.traces {
		switch t.Step {
		case "Rewrite":
			r.fired[0][t.Rule].Store(true)
		case "Transcribe":
			r.fired[1][t.Rule].Store(true)
		}
	}
	got, err := r.h.Hangulize(word)
	if err != nil {
		return "", sprintf("%s: Hangulize(%s): %v", r.lang, q(word), err)
	}
	if got != want.word {
		return "", sprintf("%s: Hangulize(%s) = %s, expected %s", r.lang, q(word), q(got), q(want.word))
	}
	return r.lang + got, ""
}

func withBundled(lang string, f func(*bundledReal) (string, string)) (string, string) {
	ls, err := bundled()
	if err != nil {
		return "", err.Error()
	}
	for _, l := range ls {
		if l.lang == lang {
			r, fail := realOf(l)
			if fail != "" {
				return "", fail
			}
			return f(r)
		}
	}
	return "", "no language " + lang
}

func checkBundled(cs bundledCase) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) { return r.check(string(cs.Word)) })
}

// ---- words

// alphabet lists the letters of the language: those of its script in its
// examples, patterns and normalize table, the most used ones first.
func (l *bundledLang) alphabet() []string {
	count := map[rune]int{}
	add := func(s string, n int) {
		for _, r := range s {
			r = unicode.ToLower(r)
			if unicode.IsLetter(r) && refIs(l.raw.Script, r) {
				count[r] += n
			}
		}
	}
	for _, t := range l.raw.Test {
		add(t[0], 100)
	}
	for _, kv := range l.raw.Normalize {
		add(kv.Key, 1)
		for _, v := range kv.Vals {
			add(v, 1)
		}
	}
	for _, r := range append(append([]*refRule{}, l.ref.rewrite...), l.ref.transcribe...) {
		for let := range r.pat.letters() {
			if !r.pat.never {
				add(string(let), 1)
			}
		}
	}
	var rs []rune
	for r := range count {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool {
		if count[rs[i]] != count[rs[j]] {
			return count[rs[i]] > count[rs[j]]
		}
		return rs[i] < rs[j]
	})
	out := make([]string, len(rs))
	for i, r := range rs {
		out[i] = string(r)
	}
	return out
}

// spell lists some strings the expression matches.
func (n *rnode) strings(limit int) []string {
	if n == nil {
		return []string{""}
	}
	var out []string
	switch n.kind {
	case kLit:
		out = []string{string(n.r)}
	case kAny:
		out = []string{"a"}
	case kSet:
		for j := 0; j < len(n.set); j += 2 {
			out = append(out, string(n.set[j]))
			if n.set[j+1] != n.set[j] {
				out = append(out, string(n.set[j+1]))
			}
		}
	case kVar:
		for _, v := range n.vals {
			out = append(out, string(v))
		}
	case kGroup:
		out = n.subs[0].strings(limit)
	case kAlt:
		for _, s := range n.subs {
			out = append(out, s.strings(limit)...)
		}
	case kCat:
		out = []string{""}
		for _, s := range n.subs {
			var next []string
			sub := s.strings(limit)
			// Walk the diagonal, so that every choice appears.
			k := len(out) * len(sub)
			if k > limit {
				k = limit
				if len(sub) > k {
					k = len(sub)
				}
				if len(out) > k {
					k = len(out)
				}
			}
			for i := 0; i < k; i++ {
				if len(out)*len(sub) <= limit {
					next = append(next, out[i/len(sub)]+sub[i%len(sub)])
				} else {
					next = append(next, out[i%len(out)]+sub[i%len(sub)])
				}
			}
			out = next
		}
	case kRep:
		sub := n.subs[0].strings(limit)
		for k := n.min; k <= n.min+2 && (n.max == -1 || k <= n.max); k++ {
			if k == 0 {
				out = append(out, "")
				continue
			}
			for _, s := range sub {
				out = append(out, strings.Repeat(s, k))
			}
		}
	default: // edges
		out = []string{"", " ", "{}"}
	}
	if len(out) > 4*limit {
		out = out[:4*limit]
	}
	return out
}

// ruleWords lists words made for a rule: what it matches, in place and next to
// what its lookarounds want or refuse, between the given contexts.
func ruleWords(p *refPattern, ctx []string, limit int) []string {
	if p.never {
		return nil
	}
	cores := p.core.strings(limit)
	befores, afters := []string{""}, []string{""}
	if p.lookB != nil {
		befores = append(p.lookB.strings(4), "")
	}
	if p.negB != nil {
		befores = append(p.negB.strings(4), "")
	}
	if p.lookA != nil {
		afters = append(p.lookA.strings(4), "")
	}
	if p.negA != nil {
		afters = append(p.negA.strings(4), "")
	}
	var out []string
	for i, core := range cores {
		for _, b := range befores {
			for _, a := range afters {
				w := b + core + a
				out = append(out, w)
				for k := 0; k < len(ctx); k++ {
					x, y := ctx[k], ctx[(k+i)%len(ctx)]
					out = append(out, x+w, w+y, x+w+y)
				}
			}
		}
	}
	return out
}

// edits lists the one-edit variants of a word.
func edits(w string, ins []string) []string {
	rs := []rune(w)
	var out []string
	for i := range rs {
		pre, at, post := string(rs[:i]), string(rs[i]), string(rs[i+1:])
		out = append(out, pre+post, pre+at+at+post, pre+strings.ToUpper(at)+post, pre+" "+post, pre+at+" "+post)
		if i+1 < len(rs) {
			out = append(out, pre+string(rs[i+1])+at+string(rs[i+2:]))
		}
		for _, x := range ins {
			out = append(out, pre+x+post, pre+x+at+post)
		}
	}
	return append(out, w, strings.ToUpper(w), w+w, w+" "+w, w+"-"+w)
}

// others are letters which may have no meaning: spaces of every kind, format
// and control characters, digits, punctuation, symbols and other scripts.
var others = []string{
	"\t", "\n", "\r\n", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2002", "\u2009", "\u2028", "\u202f", "\u205f", "\u3000",
	"\u200b", "\u200c", "\u200d", "\u2060", "\ufeff", "\u00ad", "\u061c", "\u202e", "\x01", "\x7f", "\u0301", "\ufe0f",
	"0", "٣", "Ⅷ", "½", "!", "?", "…", "。", "、", "「", "」", "・", "〜", "¿", "“", "’", "—", "(", "]", "/", "\\", "&", "@", "#", "%", "*", "_", ";", ":",
	"+", "=", "<", ">", "|", "~", "^", "$", "`", "€", "©", "𝄞", "😀", "👨\u200d👩", "{", "}", "{}",
	"한", "ㄱ", "-ㄱ", "ㅏ", "\u1112\u1161\u11ab", "漢", "я", "ω", "ქ", "あ", "ア", "ー", "ｱ", "ａ", "ß", "ſ", "İ", "ı", "Ǆ", "ﬁ", "ª", "א", "ع", "ก", "अ", "\U0001d400",
	"\xff", "\xc3", "\xed\xa0\x80",
}

// bundledWords lists the words for a language.
func bundledWords(l *bundledLang, quick bool) []string {
	al := l.alphabet()
	cut := func(n int) []string {
		if len(al) < n {
			n = len(al)
		}
		return al[:n]
	}
	var out []string
	n2, n3, n4 := 200, 18, 8
	if !quick {
		n2, n3, n4 = 400, 40, 18
	}
	out = append(out, words(append(cut(n2), " "), 2)...)
	out = append(out, words(append(cut(n3), " ", "-"), 3)...)
	out = append(out, words(cut(n4), 4)...)
	ctx := cut(4)
	lim := 6
	if !quick {
		ctx, lim = cut(10), 20
	}
	for _, r := range append(append([]*refRule{}, l.ref.rewrite...), l.ref.transcribe...) {
		out = append(out, ruleWords(r.pat, ctx, lim)...)
	}
	ins := []string{"'", "-", ".", "1"}
	if !quick {
		ins = append(ins, cut(12)...)
	} else {
		ins = append(ins, cut(2)...)
	}
	for _, t := range l.raw.Test {
		out = append(out, edits(t[0], ins)...)
	}
	// Between letters and examples, whatever is not a letter of the language.
	for k, o := range others {
		for i, x := range cut(6) {
			y := al[(i+k)%len(al)]
			out = append(out, x+o, o+x, x+o+y, x+o+o+y, x+o+" "+y)
		}
		for i, t := range l.raw.Test {
			if quick && i == 8 {
				break
			}
			u := l.raw.Test[(i+k)%len(l.raw.Test)]
			out = append(out, t[0]+o, o+t[0], t[0]+o+u[0], t[0]+" "+o+u[0])
		}
		for _, o2 := range others {
			out = append(out, al[0]+o+o2+al[0], o+o2)
		}
	}
	long := ""
	for i, t := range l.raw.Test {
		if i == 12 {
			break
		}
		long += t[0] + []string{" ", "-", ", ", "1", ""}[i%5]
	}
	all := ""
	for i := 0; len(all) < 40000; i++ {
		all += l.raw.Test[i%len(l.raw.Test)][0] + []string{" ", "-", ", ", "1", ""}[i%5]
	}
	out = append(out, all, long, strings.Repeat(long, 5), "\xff"+long, long+"\xc3", "가나 "+long+"漢字")
	for _, k := range []int{17, 33, 65, 130, 260} {
		for i := 0; i < 3 && i < len(l.raw.Test); i++ {
			out = append(out, strings.Repeat(l.raw.Test[i][0], k))
		}
	}
	for i := 0; i+1 < len(al); i++ {
		out = append(out, strings.Repeat(al[i], 3), strings.Repeat(al[i]+al[i+1], 9), strings.Repeat(al[i], 40))
	}
	return dedup(out)
}

// eachBundled visits the languages with chunks of their words.
func eachBundled(c *Ctx, wordsOf func(*bundledLang) []string, body func(w *Worker, r *bundledReal, words []string)) {
	ls, err := bundled()
	if err != nil {
		panic("the model cannot read a bundled file: " + err.Error())
	}
	type job struct {
		r     *bundledReal
		words []string
	}
	all := make([][]job, len(ls))
	counts := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, l := range ls {
		wg.Add(1)
		go func(i int, l *bundledLang) {
			defer wg.Done()
			var r *bundledReal
			fail := guard(func() string { var f string; r, f = realOf(l); return f })
			if fail != "" {
				c.Fail("", bundledCase{Lang: l.lang}, fail)
				return
			}
			ws := wordsOf(l)
			mu.Lock()
			counts[l.lang] = len(ws)
			mu.Unlock()
			for len(ws) > 0 {
				n := 64
				if n > len(ws) {
					n = len(ws)
				}
				all[i] = append(all[i], job{r, ws[:n]})
				ws = ws[n:]
			}
		}(i, l)
	}
	wg.Wait()
	var jobs []job
	for k := 0; ; k++ {
		more := false
		for i := range all {
			if k < len(all[i]) {
				jobs = append(jobs, all[i][k])
				more = true
			}
		}
		if !more {
			break
		}
	}
	c.Extra("words_by_language", counts)
	c.Par(len(jobs), func(w *Worker, i int) { body(w, jobs[i].r, jobs[i].words) })
}

func init() {
	kind(checkBundled)
	register(&Prop{ID: "C09", Level: "exploration", Run: func(c *Ctx) {
		c.Rule("for each bundled language: every word of up to 2 letters of its alphabet, of 3 and 4 of its most used letters, words made for each rule (matching it, next to what its lookarounds want or refuse, in contexts), every one-edit variant of every example, letters and examples around spaces of every kind, format characters, punctuation, symbols and letters of other scripts, joined and repeated examples; non-trivial: by language and result")
		c.Assume("Chinese and Japanese words are given as transliterated, and the Cyrillic translits are trusted here; they have their own properties")
		var mu sync.Mutex
		seen := map[string]*bundledReal{}
		eachBundled(c, func(l *bundledLang) []string { return bundledWords(l, c.Quick()) }, func(w *Worker, r *bundledReal, ws []string) {
			mu.Lock()
			seen[r.lang] = r
			mu.Unlock()
			for _, wd := range ws {
				Run(w, bundledCase{r.lang, Str(wd)}, func(bundledCase) (string, string) { return r.check(wd) })
			}
		})
		total, hit := 0, 0
		var never []string
		for _, lang := range sortedKeys(seen) {
			r := seen[lang]
			c.Sample(bundledCase{lang, Str(r.raw.Test[0][0])})
			for k, fs := range r.fired {
				for i := range fs {
					total++
					if fs[i].Load() {
						hit++
					} else {
						never = append(never, sprintf("%s %s %d", lang, []string{"rewrite", "transcribe"}[k], i))
					}
				}
			}
		}
		c.Extra("rules", total)
		c.Extra("rules_which_changed_some_word", hit)
		c.Extra("rules_which_never_did", spread(never, 40))
	}})
}
