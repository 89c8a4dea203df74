package main

import (
	"strings"

	"github.com/hangulize/hangulize"
)

type pipeCase struct {
	Spec rawSpec
	Word Str
}

type traceCase pipeCase

func parseRaw(s rawSpec) (*hangulize.Spec, *refSpec, string) {
	ref, rerr := s.compile()
	spec, err := hangulize.ParseSpec(strings.NewReader(s.hsl()))
	if err != nil || rerr != nil {
		if err != nil && rerr != nil {
			return nil, nil, sprintf("the spec is refused: %v, %v", err, rerr)
		}
		return nil, nil, sprintf("ParseSpec error %v, expected %v", err, rerr)
	}
	return spec, ref, ""
}

// runPipe compares one transcription with the model.
func runPipe(spec *hangulize.Spec, ref *refSpec, word string) (string, string) {
	want := ref.run(word, nil)
	if want.zero {
		return "", ""
	}
	got, err := hangulize.New(spec).Hangulize(word)
	if err != nil {
		return "", sprintf("Hangulize(%s): %v", q(word), err)
	}
	if got != want.word {
		return "", sprintf("Hangulize(%s) = %s, expected %s", q(word), q(got), q(want.word))
	}
	return want.word, ""
}

func checkPipe(cs pipeCase) (string, string) {
	spec, ref, fail := parseRaw(cs.Spec)
	if spec == nil {
		return "", fail
	}
	return runPipe(spec, ref, string(cs.Word))
}

func tracesText(ts []hangulize.Trace) []refTrace {
	var out []refTrace
	for _, t := range ts {
		id := -1
		if t.Rule != nil {
			id = t.Rule.ID
		}
		out = append(out, refTrace{t.Step, t.Word, t.Why, id})
	}
	return out
}

func diffTraces(got []hangulize.Trace, want []refTrace) string {
	g := tracesText(got)
	for i := 0; i < len(g) || i < len(want); i++ {
		if i >= len(g) {
			return sprintf("event %d %+v is missing after %+v", i, want[i], g)
		}
		if i >= len(want) {
			return sprintf("unexpected event %d %+v", i, g[i])
		}
		if g[i] != want[i] {
			return sprintf("event %d is %+v, expected %+v", i, g[i], want[i])
		}
	}
	return ""
}

// runTrace compares the events of a transcription with the model.
func runTrace(h hangulize.Hangulizer, spec *hangulize.Spec, ref *refSpec, word string) (string, string) {
	return compareTrace(h, spec, ref.run(word, nil), word)
}

func compareTrace(h hangulize.Hangulizer, spec *hangulize.Spec, want refRun, word string) (string, string) {
	if want.zero {
		return "", ""
	}
	var got []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { got = append(got, t) })
	res, err := h.Hangulize(word)
	h.Trace(nil)
	if err != nil || res != want.word {
		return "", sprintf("Hangulize(%s) traced = %s, %v, expected %s", q(word), q(res), err, q(want.word))
	}
	if d := diffTraces(got, want.traces); d != "" {
		return "", sprintf("word %s: %s", q(word), d)
	}
	for _, t := range got {
		if t.Rule == nil {
			continue
		}
		rules := spec.Rewrite
		if t.Step == "Transcribe" {
			rules = spec.Transcribe
		}
		if t.Rule.ID >= len(rules) || t.Rule.String() != rules[t.Rule.ID].String() {
			return "", sprintf("word %s: the rule of event %+v is not the spec's", q(word), t)
		}
	}
	if len(got) > 0 && got[len(got)-1].Word != res {
		return "", sprintf("word %s: the last event %+v is not the result %s", q(word), got[len(got)-1], q(res))
	}
	return sprintf("%+v", want.traces), ""
}

func checkTrace(cs traceCase) (string, string) {
	spec, ref, fail := parseRaw(cs.Spec)
	if spec == nil {
		return "", fail
	}
	return runTrace(hangulize.New(spec), spec, ref, string(cs.Word))
}

var pipeMacros = []kvs{{"@", []string{"<v>"}}, {"&", []string{"(a|b)"}}}
var pipeVars = []kvs{{"v", []string{"a", "b"}}, {"w", []string{"b", "cc"}}, {"j", []string{"ㅏ", "ㅂ"}}}

var pipeRewrites = [][2]string{
	{"a", "b"}, {"b", ""}, {"ab", "ba"}, {"^a", "c"}, {"b$", "c"}, {"a{b}", "c"}, {"{b}a", "c"}, {"{~b}a", "cb"}, {"a{~b}", ""},
	{"<v>c", "<w>"}, {"b", "{}"}, {"a", "'"}, {"'", "c"}, {"c", "a a"}, {"1", "a"}, {"^^@", "é"}, {"é", "a,"}, {",", "b"}, {"a", "1"}, {" ", ""}, {"c", "-"},
	{"&$$", "1"}, {"a{}b", "c"}, {"b", "ü"}, {"[a-c]", "é"}, {"[ab]{~[bc]}", "c"}, {".a", "b"}, {"'a", "b'"}, {"a{;}", "c"}, {",a", ";"}, {";", "b;"},
}
var pipeTranscribes = [][2]string{
	{"a", "ㅏ"}, {"b", "ㅂ"}, {"ab", "-ㄴ"}, {"^a", "ㅑ"}, {"b$", "-ㅂ"}, {"c", ""}, {"{a}b", "ㅌㅓ"}, {"b{a}", "-ㄹㄹ"}, {"<v>", "<j>"}, {"'", "'"},
	{"{~a}c", "ㅋ"}, {" ", "ㅡ"}, {"c{~b}", "가"}, {"-", "ㅎ,"}, {"é", "ㅔ"}, {"{c}@", "a"}, {",", "b"},
}

func pipeWords(quick bool) []string {
	ws := words([]string{"a", "b", "c", " ", "1", "'"}, 3)
	ws = append(ws, words([]string{"a", "b", "é", ",", "A"}, 3)...)
	ws = append(ws, words([]string{"a", "b"}, 5)...)
	ws = append(ws, "abcab", "cab cab", "a1b1c", "aé,b ü", "B-a", "a\u00a0b", "a\u3000b", "a\u200bb", "a\nb", "\xffa", "a\xffb", "a\xc3", "{}a", "a{}b", "{a}", "^a$", "가a나", "-ㄴa", "ㄱa", "日a本b", "ÀB", "  a  b  ", "a1 1b", "1 1", ".a.b", "a!b?", "a\tb", "'a'", ",a;", "a;", "a;b;c", ";", "b;,a", "'b'a")
	if !quick {
		ws = append(ws, words([]string{"a", "b", "c", " ", "1", "'", ",", "é", "A"}, 4)...)
	}
	return dedup(ws)
}

// pipeSpecs enumerates ordered choices of rules.
func pipeSpecs(quick bool) []rawSpec {
	var out []rawSpec
	R, T := pipeRewrites, pipeTranscribes
	pick := func(pool [][2]string, n int) [][][2]string {
		res := [][][2]string{nil}
		for _, ix := range seqs(len(pool), n) {
			var rs [][2]string
			for _, i := range ix {
				rs = append(rs, pool[i])
			}
			res = append(res, rs)
		}
		return res[1:]
	}
	rs := [][][][2]string{{nil}, pick(R, 1), pick(R, 2)}
	ts := [][][][2]string{{nil}, pick(T, 1), pick(T, 2)}
	fixed := [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}, {"c", "ㅋ"}, {"é", "ㅔ"}}
	for nr := 0; nr <= 2; nr++ {
		for nt := 0; nt <= 2; nt++ {
			if nr+nt > 3 || nr+nt == 3 && quick && nr == 1 {
				continue
			}
			for _, r := range rs[nr] {
				for _, t := range ts[nt] {
					if nr == 2 && nt == 1 && quick {
						break
					}
					out = append(out, rawSpec{Rewrite: r, Transcribe: t})
				}
				if nt == 0 {
					out = append(out, rawSpec{Rewrite: r, Transcribe: fixed})
				}
			}
		}
	}
	for _, r := range rs[1] {
		for _, t := range ts[2] {
			out = append(out, rawSpec{Rewrite: r, Transcribe: append(append([][2]string{}, t...), fixed...)})
		}
	}
	for i := range out {
		out[i].Script = "Latn"
		out[i].Macros, out[i].Vars = pipeMacros, pipeVars
	}
	// Tables whose results are sources of others, which keep letters from
	// folding, or which bring marks and spaces.
	for _, t := range [][]kvs{
		{{"b", []string{"a"}}, {"c", []string{"b"}}}, {{"b", []string{"a"}}, {"a", []string{"b"}}}, {{"c", []string{"ab", "bc"}}, {"ab", []string{"c"}}},
		{{"A", []string{"b"}}}, {{"é", nil}}, {{"é", []string{"a", "1"}}}, {{"'", []string{"b", ","}}}, {{"a b", []string{"c"}}}, {{"", []string{"b"}}}, {{"{}", []string{" "}}}, {{"B", []string{"A"}}, {"aa", []string{"É", "É"}[:1]}}, {{"1", []string{"a"}}},
	} {
		for _, r := range append(rs[1], nil) {
			out = append(out, rawSpec{Script: "Latn", Macros: pipeMacros, Vars: pipeVars, Normalize: t, Rewrite: r, Transcribe: fixed})
		}
	}
	return out
}

var pipeCache = map[bool]ruleCache{}

// eachSpec visits all small specs with all words.
func eachSpec(c *Ctx, specs []rawSpec, body func(w *Worker, raw rawSpec, spec *hangulize.Spec, ref *refSpec)) {
	order := stride(len(specs))
	c.Par(len(specs), func(w *Worker, i int) {
		raw := specs[order(i)]
		var spec *hangulize.Spec
		var ref *refSpec
		Run(w, pipeCase{Spec: raw}, func(pipeCase) (string, string) {
			var fail string
			spec, ref, fail = parseRaw(raw)
			return "", fail
		})
		if spec == nil {
			return
		}
		body(w, raw, spec, ref)
	})
}

// bigSpecs have many rules, long texts and long outputs.
func bigSpecs() []pipeCase {
	var out []pipeCase
	for _, n := range []int{5, 9, 17, 33, 65, 70, 129, 300} {
		s := rawSpec{Script: "Latn"}
		for i := 0; i < n; i++ {
			s.Rewrite = append(s.Rewrite, [2]string{sprintf("a%c", 'b'+i%20), "a"})
			s.Transcribe = append(s.Transcribe, [2]string{sprintf("{a}%c%c", 'b'+i%20, 'b'+i/20), "ㅂ"})
		}
		s.Rewrite = append(s.Rewrite, [2]string{"aa", "b"})
		s.Transcribe = append(s.Transcribe, [2]string{"a", "ㅏ"}, [2]string{"b", "-ㅂ"}, [2]string{"c", "ㅎㅏ-ㄴ"})
		for _, w := range []string{"abcdef aabbcc", strings.Repeat("abc", 40), "abababab1aaaa", "a" + strings.Repeat("b", 70) + "c"} {
			out = append(out, pipeCase{s, Str(w)})
		}
	}
	s := rawSpec{Script: "Latn", Macros: pipeMacros, Vars: pipeVars, Rewrite: [][2]string{{"a{b}", "cc"}, {"^b", "é"}, {"c{~c}", "{}"}, {"1", "b"}}, Transcribe: [][2]string{{"<v>", "<j>"}, {"c", "-ㄴ"}, {"é$", "ㅔ"}, {"é", "ㅎㅔ"}}}
	for _, u := range []string{"a", "ab", "ba ", "é", "b1", "abc ", "1 ", "c", "é1", "A,"} {
		for _, k := range []int{7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 257, 400, 1025, 2500} {
			out = append(out, pipeCase{s, Str(strings.Repeat(u, k))}, pipeCase{s, Str("b" + strings.Repeat(u, k) + "c")})
		}
	}
	for _, u := range []string{"abc ", "b1", "é1a", "A,"} {
		out = append(out, pipeCase{s, Str(strings.Repeat(u, 6000))}, pipeCase{s, Str(strings.Repeat(u, 23000))})
	}
	return out
}

func init() {
	kind(checkPipe)
	kind(checkTrace)
	register(&Prop{ID: "C08", Level: "exploration", Run: func(c *Ctx) {
		specs, wds := pipeSpecs(c.Quick()), pipeWords(c.Quick())
		c.Rule("every ordered choice of up to two rewrite rules and two transcribe rules (three in all) of the rule alphabets, on every word up to a length over letters, space, digit, punctuation, upper case and odd words; non-trivial: by result")
		c.Extra("specs", len(specs))
		c.Extra("words", len(wds))
		c.Assume("rules which match an empty text are excluded (the library refuses them), and so is the any-letter dot")
		big := bigSpecs()
		c.Rule("scale: up to 300 rules, words of up to 92000 letters")
		c.Par(len(big), func(w *Worker, i int) { Run(w, big[i], checkPipe) })
		eachSpec(c, specs, func(w *Worker, raw rawSpec, spec *hangulize.Spec, ref *refSpec) {
			for _, wd := range wds {
				Run(w, pipeCase{raw, Str(wd)}, func(pipeCase) (string, string) { return runPipe(spec, ref, wd) })
			}
		})
		c.Sample(pipeCase{specs[len(specs)/2], Str(wds[100])})
	}})
}
