package main

import (
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
)

// A spec as a list of sections, in the order in which they are written.
type specSec struct {
	Name  string
	List  bool `json:",omitempty"`
	Pairs []kvs
}

type specDoc struct {
	Secs []specSec
	Word Str `json:",omitempty"`
}

func (d specDoc) text() string {
	var b strings.Builder
	for _, s := range d.Secs {
		b.WriteString(s.Name + ":\n")
		for _, p := range s.Pairs {
			op := "="
			if s.List {
				op = "->"
			}
			var vs []string
			for _, v := range p.Vals {
				vs = append(vs, hslQuote(v))
			}
			b.WriteString("    " + hslQuote(p.Key) + " " + op + " " + strings.Join(vs, ", ") + "\n")
		}
	}
	return b.String()
}

// raw collects what the document declares.
func (d specDoc) raw() (r rawSpec, lang bool) {
	for _, s := range d.Secs {
		for _, p := range s.Pairs {
			one := ""
			if len(p.Vals) > 0 {
				one = p.Vals[0]
			}
			switch s.Name + "." + p.Key {
			case "lang.id":
				r.ID = one
			case "lang.codes":
				r.Codes1, r.Codes2 = p.Vals[0], p.Vals[1]
			case "lang.english":
				r.English = one
			case "lang.korean":
				r.Korean = one
			case "lang.script":
				r.Script = one
			case "lang.translit":
				r.Translit = p.Vals
			case "config.author":
				r.Authors = p.Vals
			case "config.stage":
				r.Stage = one
			}
			switch s.Name {
			case "macros":
				r.Macros = append(r.Macros, p)
			case "vars":
				r.Vars = append(r.Vars, p)
			case "normalize":
				r.Normalize = append(r.Normalize, p)
			case "rewrite":
				r.Rewrite = append(r.Rewrite, [2]string{p.Key, one})
			case "transcribe":
				r.Transcribe = append(r.Transcribe, [2]string{p.Key, one})
			case "test":
				r.Test = append(r.Test, [2]string{p.Key, one})
			}
		}
		lang = lang || s.Name == "lang"
	}
	return
}

func specWant(r rawSpec, text string) string {
	var b strings.Builder
	list := func(n string, vs []string) { b.WriteString(sprintf("%s=%q\n", n, append([]string{}, vs...))) }
	list("lang", []string{r.ID, r.Codes1, r.Codes2, r.English, r.Korean, r.Script})
	list("name", []string{r.ID, r.ID + "(" + r.English + ")"})
	list("translit", r.Translit)
	list("author", r.Authors)
	list("stage", []string{r.Stage})
	for i, sec := range [][]kvs{r.Macros, r.Vars, r.Normalize} {
		var es []string
		for _, p := range sec {
			es = append(es, sprintf("%q:%q", p.Key, append([]string{}, p.Vals...)))
		}
		sort.Strings(es)
		list(sprintf("dict%d", i), es)
	}
	for i, sec := range [][][2]string{r.Rewrite, r.Transcribe} {
		for k, p := range sec {
			list(sprintf("rules%d", i), []string{sprintf("%d", k), p[0], p[1], `"` + p[0] + `" -> "` + p[1] + `"`})
		}
	}
	for _, p := range r.Test {
		list("test", p[:])
	}
	list("source", []string{text})
	return b.String()
}

func specGot(s *hangulize.Spec) string {
	var b strings.Builder
	list := func(n string, vs []string) { b.WriteString(sprintf("%s=%q\n", n, append([]string{}, vs...))) }
	list("lang", []string{s.Lang.ID, s.Lang.Codes[0], s.Lang.Codes[1], s.Lang.English, s.Lang.Korean, s.Lang.Script})
	list("name", []string{s.String(), s.Lang.String()})
	list("translit", s.Lang.Translit)
	list("author", s.Config.Authors)
	list("stage", []string{s.Config.Stage})
	mm := map[string][]string{}
	for k, v := range s.Macros {
		mm[k] = []string{v}
	}
	for i, sec := range []map[string][]string{mm, s.Vars, s.Normalize} {
		var es []string
		for k, vs := range sec {
			es = append(es, sprintf("%q:%q", k, append([]string{}, vs...)))
		}
		sort.Strings(es)
		list(sprintf("dict%d", i), es)
	}
	for i, sec := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for _, r := range sec {
			list(sprintf("rules%d", i), []string{sprintf("%d", r.ID), r.From.String(), r.To.String(), r.String()})
		}
	}
	for _, p := range s.Test {
		list("test", p[:])
	}
	list("source", []string{s.Source})
	return b.String()
}

// spoil changes everything of a spec which a caller can reach.
func spoilSpec(s *hangulize.Spec) {
	for k := range s.Macros {
		s.Macros[k] = "?"
	}
	for _, m := range []map[string][]string{s.Vars, s.Normalize} {
		for k, vs := range m {
			for i := range vs {
				vs[i] = "?"
			}
			m[k] = append(vs, "!")
		}
	}
	for _, rs := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for i := range rs {
			rs[i].ID, rs[i].From = 99, nil
		}
	}
	for i := range s.Test {
		s.Test[i] = [2]string{"?", "?"}
	}
	for _, vs := range [][]string{s.Lang.Translit, s.Config.Authors} {
		for i := range vs {
			vs[i] = "?"
		}
	}
	s.Lang.ID, s.Source = "?", "?"
}

func checkSpecDoc(cs specDoc) (string, string) {
	text := cs.text()
	raw, _ := cs.raw()
	want := specWant(raw, text)
	other, err := hangulize.ParseSpec(strings.NewReader(text))
	if err != nil {
		return "", sprintf("ParseSpec: %v for %s", err, q(text))
	}
	spec, err := hangulize.ParseSpec(strings.NewReader(text))
	if err != nil {
		return "", sprintf("ParseSpec: %v for %s", err, q(text))
	}
	spoilSpec(other)
	if got := specGot(spec); got != want {
		g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
		for i := 0; i < len(g) && i < len(w); i++ {
			if g[i] != w[i] {
				return "", sprintf("the parsed spec has %s, expected %s, of %s", g[i], w[i], q(text))
			}
		}
		return "", sprintf("the parsed spec has %s, expected %s", got, want)
	}
	if cs.Word == "" {
		return want, ""
	}
	ref, err := raw.compile()
	if err != nil {
		return "", sprintf("the model refuses the spec: %v", err)
	}
	if _, fail := runPipe(spec, ref, string(cs.Word)); fail != "" {
		return "", fail + " with " + q(text)
	}
	return want, ""
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			x := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, x)
		}
	}
	return out
}

func runC31(c *Ctx) {
	full := []specSec{
		{Name: "lang", Pairs: []kvs{{"id", []string{"tst"}}, {"codes", []string{"tt", "ttt"}}, {"english", []string{"Test"}}, {"korean", []string{"시험"}}, {"script", []string{"Latn"}}}},
		{Name: "config", Pairs: []kvs{{"author", []string{"A, B", "나"}}, {"stage", []string{"draft"}}}},
		{Name: "macros", Pairs: []kvs{{"@", []string{"<v>"}}, {"%", []string{"(a|b)"}}}},
		{Name: "vars", Pairs: []kvs{{"v", []string{"a", "é"}}, {"j", []string{"ㅏ", "ㅔ"}}, {"w", []string{"b", "c"}}}},
		{Name: "normalize", Pairs: []kvs{{"é", []string{"É", "ee"}}, {"c", []string{"k"}}}},
		{Name: "rewrite", List: true, Pairs: []kvs{{"^@", []string{"<w>"}}, {"%{c}", []string{"é"}}}},
		{Name: "transcribe", List: true, Pairs: []kvs{{"<v>", []string{"<j>"}}, {"b", []string{"ㅂ"}}, {"c$", []string{"-ㄱ"}}}},
		{Name: "test", List: true, Pairs: []kvs{{"abc", []string{"가"}}, {"eebk", []string{""}}}},
	}
	var docs []specDoc
	add := func(word string, secs ...specSec) { docs = append(docs, specDoc{secs, Str(word)}) }
	lang := full[0]

	c.Rule("a spec with all sections in every order of them, and every subset in both orders, with words transcribed (macros and variables may stand after the rules which use them)")
	for i, p := range perms(len(full)) {
		if c.Quick() && i%3 != 0 {
			continue
		}
		d := specDoc{Word: Str([]string{"abck", "eecabc é", "kac"}[i%3])}
		for _, k := range p {
			d.Secs = append(d.Secs, full[k])
		}
		docs = append(docs, d)
	}
	for m := 0; m < 1<<len(full); m++ {
		if m&4 == 0 && m&0x20 != 0 || m&8 == 0 && m&0x60 != 0 {
			continue // rules without their macros or variables
		}
		var a, b []specSec
		for i := range full {
			if m>>i&1 == 1 {
				a = append(a, full[i])
				b = append([]specSec{full[i]}, b...)
			}
		}
		add("abck", a...)
		add("eec", b...)
	}

	c.Rule("each key of the language and the configuration with every value of a family and every list of up to three of them, sections and keys which are not known in every place")
	vals := []string{"", "a", "É가", "a, b", `q"x`, " sp ", "#", "->", "x = y:", strings.Repeat("긴", 300)}
	var lists [][]string
	for n := 0; n <= 3; n++ {
		for _, ix := range seqs(5, n) {
			var l []string
			for _, i := range ix {
				l = append(l, vals[i])
			}
			lists = append(lists, l)
		}
	}
	with := func(s specSec, k string, vs []string) specSec {
		out := specSec{Name: s.Name, List: s.List}
		done := false
		for _, p := range s.Pairs {
			if p.Key == k {
				p, done = kvs{k, vs}, true
			}
			out.Pairs = append(out.Pairs, p)
		}
		if !done {
			out.Pairs = append(out.Pairs, kvs{k, vs})
		}
		return out
	}
	for _, v := range vals {
		for _, k := range []string{"id", "english", "korean"} {
			add("", with(lang, k, []string{v}), full[1])
		}
		for _, u := range vals {
			add("", with(lang, "codes", []string{v, u}))
		}
		add("", lang, with(full[1], "stage", []string{v}))
	}
	for _, s := range []string{"", "Latn", "Cyrl", "Grek", "Geor", "Hrkt"} {
		add("", with(lang, "script", []string{s}))
	}
	for _, k := range []string{"id", "english", "korean", "script"} {
		add("", with(lang, k, nil))
	}
	for _, l := range lists {
		add("", with(lang, "translit", l))
		add("", with(full[1], "author", l), with(lang, "translit", append([]string{"x"}, l...)))
	}
	for _, unk := range []specSec{{Name: "other", Pairs: []kvs{{"id", []string{"no"}}, {"author", []string{"no"}}}}, {Name: "Lang", Pairs: []kvs{{"id", []string{"no"}}}}, {Name: "rewrites", List: true, Pairs: []kvs{{"a", []string{"no"}}, {"(", nil}}}, {Name: "tests", List: true, Pairs: []kvs{{"a", []string{"no"}}}}, {Name: "normalise", Pairs: []kvs{{"a", []string{"b"}}}}} {
		for i := 0; i <= len(full); i++ {
			add("abck", append(append(append([]specSec{}, full[:i]...), unk), full[i:]...)...)
		}
	}
	for _, k := range []string{"ID", "name", "code", "", "latin", "translits", "Author", "Stage", "test"} {
		add("abc", append([]specSec{with(lang, k, []string{"no", "x"}), with(full[1], k, []string{"no"})}, full[2:]...)...)
	}

	c.Rule("every list of up to three entries for each table, every list of up to four rules, every list of up to four examples, with repetitions; up to 1000 of each")
	dictKeys := []string{"a", "é", "ab", "#", "A b", `"`, "->"}
	for _, sec := range []string{"macros", "vars", "normalize"} {
		for n := 0; n <= 3; n++ {
			for j, ix := range seqs(len(dictKeys), n) {
				s := specSec{Name: sec}
				seen := map[int]bool{}
				for k, i := range ix {
					if seen[i] {
						s.Name = ""
						break
					}
					seen[i] = true
					l := lists[(j*7+k*31+n)%len(lists)]
					if sec == "macros" {
						l = []string{vals[(j+k*3)%len(vals)]}
					}
					if sec == "normalize" {
						l = nil
						for x := 0; x < (j+k)%3; x++ {
							l = append(l, sprintf("%c%d", 'm'+k, x))
						}
					}
					s.Pairs = append(s.Pairs, kvs{dictKeys[i], l})
				}
				if s.Name != "" {
					add("", lang, s)
					add("", s, with(full[1], "stage", []string{"x"}), lang)
				}
			}
		}
	}
	rules := []kvs{{"a", []string{"b"}}, {"b", []string{""}}, {"a", []string{"é"}}, {"{a}b", []string{"c"}}, {"a$", []string{"가"}}, {"a b", []string{" "}}, {`"`, []string{"'"}}, {",", []string{"->"}}}
	for _, sec := range []string{"rewrite", "transcribe"} {
		for n := 0; n <= c.Pick(3, 4); n++ {
			for _, ix := range seqs(len(rules), n) {
				s := specSec{Name: sec, List: true}
				for _, i := range ix {
					s.Pairs = append(s.Pairs, rules[i])
				}
				add("aab a", lang, s)
			}
		}
	}
	exs := []kvs{{"a", []string{"가"}}, {"a", []string{"가"}}, {"a", []string{"나"}}, {"", []string{""}}, {"b c", []string{" "}}, {"É", []string{""}}}
	for n := 0; n <= 4; n++ {
		for _, ix := range seqs(len(exs), n) {
			s := specSec{Name: "test", List: true}
			for _, i := range ix {
				s.Pairs = append(s.Pairs, exs[i])
			}
			add("", s, lang)
		}
	}
	for _, n := range []int{9, 17, 33, 65, 129, 257, 1000} {
		var all []specSec
		for _, name := range []string{"macros", "vars", "normalize", "rewrite", "transcribe", "test"} {
			s := specSec{Name: name, List: name[0] == 'r' || name[0] == 't'}
			for i := 0; i < n; i++ {
				k, v := sprintf("%c%d", 'a'+i%26, i), sprintf("%c%d", 'A'+i%26, i)
				if name == "macros" {
					k = "@" + k
				}
				vs := []string{v}
				if name == "vars" {
					vs = append(vs, v+"x", v)
				}
				if name == "normalize" {
					k, vs = v, []string{"q" + k, "z" + k}
				}
				s.Pairs = append(s.Pairs, kvs{k, vs})
			}
			add("", lang, s)
			all = append(all, s)
		}
		add("", append(all, lang)...)
		var many []string
		for i := 0; i < n; i++ {
			many = append(many, sprintf("t%d", i%100))
		}
		add("", with(lang, "translit", many), with(full[1], "author", many))
		add("", lang, specSec{Name: "vars", Pairs: []kvs{{"v", many}}})
	}

	c.Assume("a rule or an example with several right-hand sides, the empty key of a macro, several values of a name and the key authors next to author are left open")
	c.Extra("specs", len(docs))
	c.Par(len(docs), func(w *Worker, i int) { Run(w, docs[i], checkSpecDoc) })
	c.Sample(docs[7])
	c.Sample(docs[len(docs)/2])
}

func init() {
	kind(checkSpecDoc)
	register(&Prop{ID: "C31", Level: "exploration", Run: runC31})
}
