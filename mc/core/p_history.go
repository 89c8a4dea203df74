package main

import (
	"errors"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

// ---- C13

// pureCase is a history on one bundled language; ops:
// 1, 2 transcribe by the package function, 3, 4 by a kept hangulizer,
// n by a new one, t traced, x an unknown language, f a failing translit,
// o another language, u unload, l load, m spoil what was handed out,
// g use, transcribe with and unuse another translit of the same scheme,
// p parse the source of the spec again and transcribe by it.
type pureCase struct{ Lang, Ops string }

const pureOps = "1234ntxfoulmgp"

// pureWords chooses two words of a language.
func (r *bundledReal) pureWords() [2]string {
	n := len(r.raw.Test)
	return [2]string{r.raw.Test[n/3][0], r.raw.Test[n/2][0] + " 1 " + strings.ToUpper(r.raw.Test[n-1][0])}
}

func (r *bundledReal) plug(h hangulize.Hangulizer) hangulize.Hangulizer {
	for _, t := range r.ts {
		h.UseTranslit(t)
	}
	return h
}

func checkPure(cs pureCase) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) {
		ws := r.pureWords()
		var want [2]string
		for i, w := range ws {
			run, fail := r.want(w)
			if fail != "" {
				return "", fail
			}
			want[i] = run.word
		}
		for _, t := range r.ts {
			hangulize.UseTranslit(t)
		}
		defer func() {
			for _, t := range r.ts {
				hangulize.UnuseTranslit(t.Scheme())
			}
		}()
		kept := r.plug(hangulize.New(r.spec))
		source := specText(r.spec)
		langs := strings.Join(hangulize.ListLangs(), " ")
		all := sprintf("%v", schemesOf(translit.Translits()))
		judge := func(at, how string, k int, got string, err error) string {
			if err != nil || got != want[k] {
				return sprintf("after %s: %s of %s = %s, %v, expected %s", at, how, q(ws[k]), q(got), err, q(want[k]))
			}
			return ""
		}
		for i, op := range cs.Ops {
			at := cs.Ops[:i]
			fail := ""
			switch op {
			case '1', '2':
				k := int(op - '1')
				got, err := hangulize.Hangulize(cs.Lang, ws[k])
				fail = judge(at, "Hangulize", k, got, err)
			case '3', '4':
				k := int(op - '3')
				got, err := kept.Hangulize(ws[k])
				fail = judge(at, "a kept hangulizer", k, got, err)
			case 'n', 't', 'l':
				spec, err := hangulize.LoadSpec(cs.Lang)
				if err != nil {
					return "", err.Error()
				}
				if op == 'l' {
					if t := specText(spec); t != source {
						fail = sprintf("after %s: the spec has become %s from %s", at, t, source)
					}
					break
				}
				h := r.plug(hangulize.New(spec))
				if op == 't' {
					h.Trace(func(t hangulize.Trace) { t.Word, t.Why = "spoiled", "spoiled" })
				}
				got, err := h.Hangulize(ws[0])
				fail = judge(at, "a new hangulizer", 0, got, err)
			case 'x':
				hangulize.Hangulize("no such", ws[0])
			case 'f':
				spec, _ := hangulize.LoadSpec("chi")
				h := hangulize.New(spec)
				h.UseTranslit(&fake{scheme: "pinyin", fail: true})
				h.Hangulize(ws[0])
			case 'o':
				for _, lang := range []string{"ita", "jpn", "kat-1"} {
					if lang != cs.Lang {
						hangulize.Hangulize(lang, ws[1])
					}
				}
			case 'u':
				hangulize.UnloadSpec(cs.Lang)
			case 'm':
				ls := hangulize.ListLangs()
				for j := range ls {
					ls[j] = "spoiled"
				}
				ts := translit.Translits()
				for j := range ts {
					ts[j] = &fake{scheme: sprintf("spoiled %d", j), fail: true}
				}
				m := kept.Translits()
				for s := range m {
					m[s] = &fake{scheme: s, fail: true}
				}
				m["new"] = &fake{scheme: "new"}
				m = hangulize.Translits()
				for s := range m {
					m[s] = &fake{scheme: s, fail: true}
				}
				spec := kept.Spec()
				for _, rules := range [][]hangulize.Rule{spec.Rewrite, spec.Transcribe} {
					for _, rule := range spread(rules, 3) {
						lets := rule.From.Letters()
						for j := range lets {
							lets[j] = 'Z'
						}
						lets = rule.To.Letters()
						for j := range lets {
							lets[j] = 'Z'
						}
						rule.From.NegativeLookaroundWidths()
						_ = rule.String()
						for _, m := range rule.From.Find(ws[0], -1) {
							for j := range m {
								m[j] = 99
							}
						}
						rule.Replace(ws[1])
					}
				}
				rs := append([]hangulize.Rule{}, spec.Rewrite...)
				for j := range rs {
					rs[j] = hangulize.Rule{}
				}
			case 'g':
				if len(r.ts) == 0 {
					break
				}
				s := r.ts[0].Scheme()
				for _, reg := range []registry{kept, defaultReg{}} {
					reg.UnuseTranslit(s)
					reg.UseTranslit(&fake{scheme: s, mark: "アa"})
				}
				w := ws[0] + "アa"
				steps := []refTrace{{"Transliterate", w, s, -1}}
				exp := r.ref.run(ws[0], steps).word
				got, err := kept.Hangulize(ws[0])
				got2, err2 := hangulize.Hangulize(cs.Lang, ws[0])
				if err != nil || err2 != nil || got != exp || got2 != exp {
					fail = sprintf("after %s: with another %s, %s becomes %s and %s, expected %s", at, s, q(ws[0]), q(got), q(got2), q(exp))
				}
				for _, reg := range []registry{kept, defaultReg{}} {
					reg.UnuseTranslit(s)
					reg.UseTranslit(r.ts[0])
				}
			case 'p':
				spec, err := hangulize.ParseSpec(strings.NewReader(r.spec.Source))
				if err != nil {
					return "", err.Error()
				}
				if t := specText(spec); t != source {
					fail = sprintf("after %s: the source parses as %s, expected %s", at, t, source)
					break
				}
				got, err := r.plug(hangulize.New(spec)).Hangulize(ws[1])
				fail = judge(at, "a spec parsed again", 1, got, err)
			}
			if fail != "" {
				return "", fail
			}
		}
		if t := specText(r.spec); t != source {
			return "", sprintf("after %s: the spec has become %s from %s", cs.Ops, t, source)
		}
		if l := strings.Join(hangulize.ListLangs(), " "); l != langs {
			return "", sprintf("after %s: the languages have become %s from %s", cs.Ops, l, langs)
		}
		if l := sprintf("%v", schemesOf(translit.Translits())); l != all {
			return "", sprintf("after %s: the translits have become %s from %s", cs.Ops, l, all)
		}
		return cs.Lang + cs.Ops[len(cs.Ops)-1:], ""
	})
}

// orderCase transcribes words one after another by one hangulizer.
type orderCase struct {
	Lang  string
	Words []Str
}

func checkOrder(cs orderCase) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) { return r.inOrder(cs) })
}

func (r *bundledReal) inOrder(cs orderCase) (string, string) {
	out := ""
	for i, w := range cs.Words {
		o, f := r.check(string(w))
		if f != "" {
			return "", sprintf("call %d: %s", i, f)
		}
		out += o
	}
	return out, ""
}

// acrossCase transcribes a word in a language and then in others.
type acrossCase struct {
	Langs []string
	Word  Str
}

func checkAcross(cs acrossCase) (string, string) {
	out := ""
	for i, lang := range cs.Langs {
		o, f := withBundled(lang, func(r *bundledReal) (string, string) {
			if len(r.ts) > 0 {
				return r.check(string(cs.Word))
			}
			want, f := r.want(string(cs.Word))
			if f != "" {
				return "", f
			}
			got, err := hangulize.Hangulize(lang, string(cs.Word))
			if err != nil || got != want.word {
				return "", sprintf("Hangulize(%s, %s) = %s, %v, expected %s", lang, q(string(cs.Word)), q(got), err, q(want.word))
			}
			return got, ""
		})
		if f != "" {
			return "", sprintf("call %d: %s", i, f)
		}
		out += o
	}
	return out, ""
}

func schemesOf(ts []hangulize.Translit) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.Scheme())
	}
	return out
}

func runC13(c *Ctx) {
	runPool(c)
	depth := c.Pick(3, 4)
	c.Rule(sprintf("every sequence of up to %d operations (transcribe in several ways, fail, unload, load, spoil what was handed out, change translits, parse again) and of one more without unloading and parsing, on bundled languages; every ordered pair of a list of related words, called as a, b, a; every word in every pair of languages; non-trivial: by language and last operation, or results", depth))
	mk := func(ops string, l int) (out []string) {
		for _, ix := range seqs(len(ops), l) {
			b := make([]byte, l)
			for i, k := range ix {
				b[i] = ops[k]
			}
			out = append(out, string(b))
		}
		return
	}
	var hist []string
	for l := 1; l <= depth; l++ {
		hist = append(hist, mk(pureOps, l)...)
	}
	long := mk("1234ntxfolm", depth+1)
	var trans atomic.Int64
	all := func(w *Worker, lang string, hs []string) {
		for k, h := range hs {
			trans.Add(int64(len(h)))
			Run(w, pureCase{lang, h}, checkPure)
			if k&31 == 0 && c.Expired() {
				return
			}
		}
	}
	// The translits in use are one set for the process, so one language with
	// translits is used by one worker only.
	alone := []string{"rus", "jpn", "chi", "mkd", "ukr", "bul"}
	c.Par(len(alone), func(w *Worker, i int) {
		hs := append([]string{}, hist...)
		for k, h := range hs {
			// the languages share the longer histories
			if len(h) > 2 && k%len(alone) != i {
				hs[k] = ""
			}
		}
		var mine []string
		for _, h := range hs {
			if h != "" {
				mine = append(mine, h)
			}
		}
		all(w, alone[i], mine)
	})
	type job struct {
		lang string
		hs   []string
	}
	var jobs []job
	for i, lang := range []string{"ita", "kat-1", "sqi", "grc"} {
		hs := hist
		if i != 0 {
			hs = mk(pureOps, 1)
			hs = append(hs, mk(pureOps, 2)...)
		}
		if i == 1 {
			hs = append(append([]string{}, hs...), long...)
		}
		for len(hs) > 0 {
			n := 50
			if n > len(hs) {
				n = len(hs)
			}
			jobs = append(jobs, job{lang, hs[:n]})
			hs = hs[n:]
		}
	}
	c.Extra("histories", len(hist))
	c.Extra("longer_histories", len(long))
	c.Par(len(jobs), func(w *Worker, i int) { all(w, jobs[i].lang, jobs[i].hs) })

	// Orders of words.
	c.Par(len(specFiles()), func(w *Worker, i int) {
		lang := langOf(specFiles()[i])
		_, fail := withBundled(lang, func(r *bundledReal) (string, string) {
			base := r.pureWords()
			ws := []string{"", " ", "a", base[0], strings.ToUpper(base[0]), base[0] + " ", " " + base[0], base[0] + "\u200b", base[0] + base[0], base[1], base[0] + "1", base[0] + "'", strings.Repeat(base[0], 30), "\xff", "가나다"}
			ws = append(ws, edits(base[0], nil)...)
			for _, t := range spread(r.raw.Test, c.Pick(12, 60)) {
				ws = append(ws, t[0])
			}
			ws = spread(dedup(ws), c.Pick(36, 120))
			for _, a := range ws {
				for _, b := range ws {
					cs := orderCase{lang, []Str{Str(a), Str(b), Str(a)}}
					Run(w, cs, func(orderCase) (string, string) { return r.inOrder(cs) })
				}
				if c.Expired() {
					return "", ""
				}
			}
			return "", ""
		})
		if fail != "" {
			c.Fail("", orderCase{lang, nil}, fail)
		}
	})
	var across []acrossCase
	for _, a := range specFiles() {
		for _, b := range specFiles() {
			for _, wd := range []string{"Alexandria", "München-čaša", "Москва", "アリス 1"} {
				across = append(across, acrossCase{[]string{langOf(a), langOf(b), langOf(a)}, Str(wd)})
			}
		}
	}
	c.Par(len(across), func(w *Worker, i int) { Run(w, across[i], checkAcross) })
	c.States(len(c.distinct))
	c.Transitions(int(trans.Load()))
	c.TracesValidated(int(c.evals.Load()))
	c.Sample(pureCase{"ita", hist[len(hist)-1]})
}

// ---- C19

// specText2 tells everything public about a spec.
func fieldsOf(s *hangulize.Spec) (out []string) {
	add := func(f string, a ...any) { out = append(out, sprintf(f, a...)) }
	add("id %q codes %q english %q korean %q script %q translit %q", s.Lang.ID, s.Lang.Codes, s.Lang.English, s.Lang.Korean, s.Lang.Script, s.Lang.Translit)
	add("authors %q stage %q", s.Config.Authors, s.Config.Stage)
	add("string %q %q", s.String(), s.Lang.String())
	for _, k := range sortedKeys(s.Macros) {
		add("macro %q %q", k, s.Macros[k])
	}
	for _, k := range sortedKeys(s.Vars) {
		add("var %q %q", k, s.Vars[k])
	}
	for _, k := range sortedKeys(s.Normalize) {
		add("normalize %q %q", k, s.Normalize[k])
	}
	for name, rs := range map[string][]hangulize.Rule{"rewrite": s.Rewrite, "transcribe": s.Transcribe} {
		for i, r := range rs {
			add("%s %04d %d %q %q", name, i, r.ID, r.From.String(), r.To.String())
		}
	}
	for i, t := range s.Test {
		add("test %04d %q", i, t)
	}
	sort.Strings(out)
	return
}

func (s rawSpec) fields() (out []string) {
	add := func(f string, a ...any) { out = append(out, sprintf(f, a...)) }
	add("id %q codes %q english %q korean %q script %q translit %q", s.ID, []string{s.Codes1, s.Codes2}, s.English, s.Korean, s.Script, s.Translit)
	add("authors %q stage %q", s.Authors, s.Stage)
	add("string %q %q", s.ID, s.ID+"("+s.English+")")
	for _, kv := range s.Macros {
		add("macro %q %q", kv.Key, kv.Vals[0])
	}
	for _, kv := range s.Vars {
		add("var %q %q", kv.Key, kv.Vals)
	}
	for _, kv := range s.Normalize {
		add("normalize %q %q", kv.Key, kv.Vals)
	}
	for i, p := range s.Rewrite {
		add("rewrite %04d %d %q %q", i, i, p[0], p[1])
	}
	for i, p := range s.Transcribe {
		add("transcribe %04d %d %q %q", i, i, p[0], p[1])
	}
	for i, t := range s.Test {
		add("test %04d %q", i, t)
	}
	sort.Strings(out)
	return
}

func sameFields(s *hangulize.Spec, ref langRef) string {
	want, source := ref.fields, ref.source
	got := fieldsOf(s)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(want):
			return "unexpected " + got[i]
		case i >= len(got):
			return "missing " + want[i]
		case got[i] != want[i]:
			return sprintf("%s, expected %s", got[i], want[i])
		}
	}
	if s.Source != source {
		return "the source is not the file"
	}
	return ""
}

type langCase struct{ Lang string }

func specPath(lang string) string { return repoDir + "/specs/" + lang + ".hsl" }

func checkLang(cs langCase) (string, string) {
	spec, err := hangulize.LoadSpec(cs.Lang)
	if err != nil {
		return "", err.Error()
	}
	if f := sameFields(spec, refOf(cs.Lang)); f != "" {
		return "", f
	}
	return cs.Lang, ""
}

type oddName struct{ Name Str }

func checkOddName(cs oddName) (string, string) {
	before := strings.Join(hangulize.ListLangs(), " ")
	for i := 0; i < 3; i++ {
		spec, err := hangulize.LoadSpec(string(cs.Name))
		if spec != nil || !errors.Is(err, hangulize.ErrSpecNotFound) {
			return "", sprintf("LoadSpec(%s) = %v, %v", q(string(cs.Name)), spec, err)
		}
		got, err := hangulize.Hangulize(string(cs.Name), "word")
		if got != "word" || !errors.Is(err, hangulize.ErrSpecNotFound) {
			return "", sprintf("Hangulize(%s, word) = %s, %v", q(string(cs.Name)), got, err)
		}
		if i == 1 {
			hangulize.UnloadSpec(string(cs.Name))
		}
	}
	if after := strings.Join(hangulize.ListLangs(), " "); after != before {
		return "", "ListLangs has changed"
	}
	return string(cs.Name), ""
}

// loadHist is a history over two languages: l, L load, u, U unload, s, S load
// and change the spec, n an unknown name, i list and spoil, c, C transcribe.
type loadHist struct {
	A, B string
	Ops  string
}

type langRef struct {
	fields []string
	source string
}

var langRefs sync.Map

// refOf reads the file of a language once.
func refOf(lang string) langRef {
	if v, ok := langRefs.Load(lang); ok {
		return v.(langRef)
	}
	text := readFile(specPath(lang))
	raw, _ := rawOf(text)
	r := langRef{raw.fields(), text}
	langRefs.Store(lang, r)
	return r
}

func checkLoad(cs loadHist) (string, string) {
	ls, err := bundled()
	if err != nil {
		return "", err.Error()
	}
	var all []string
	for _, l := range ls {
		all = append(all, l.lang)
	}
	sort.Strings(all)
	names := [2]string{cs.A, cs.B}
	hangulize.UnloadSpec(cs.A)
	hangulize.UnloadSpec(cs.B)
	defer hangulize.UnloadSpec(cs.A)
	defer hangulize.UnloadSpec(cs.B)
	var at [2]*hangulize.Spec // the loaded spec
	var spoiled [2]bool
	var refs [2]*bundledLang
	for _, l := range ls {
		for k := range names {
			if l.lang == names[k] {
				refs[k] = l
			}
		}
	}
	out := ""
	for i, op := range cs.Ops {
		k := 0
		low := op
		if op >= 'A' && op <= 'Z' {
			k, low = 1, op+32
		}
		bad := func(s string) (string, string) { return "", sprintf("after %s, %c: %s", cs.Ops[:i], op, s) }
		switch low {
		case 'l', 's':
			spec, err := hangulize.LoadSpec(names[k])
			if err != nil {
				return bad(err.Error())
			}
			if at[k] != nil && spec != at[k] {
				return bad("another spec than the loaded one")
			}
			at[k] = spec
			if !spoiled[k] {
				if f := sameFields(spec, refOf(names[k])); f != "" {
					return bad(f)
				}
			}
			if low == 's' {
				spec.Lang.English = "spoiled"
				spec.Test = nil
				spec.Source = ""
				spoiled[k] = true
			}
			out += "l"
		case 'u':
			hangulize.UnloadSpec(names[k])
			at[k], spoiled[k] = nil, false
		case 'n':
			if spec, err := hangulize.LoadSpec(names[k] + "?"); spec != nil || !errors.Is(err, hangulize.ErrSpecNotFound) {
				return bad("unknown name loaded")
			}
		case 'c':
			t := refs[k].raw.Test[0]
			got, err := hangulize.Hangulize(names[k], t[0])
			if err != nil || got != t[1] {
				return bad(sprintf("Hangulize(%s) = %s, %v", t[0], got, err))
			}
			spec, _ := hangulize.LoadSpec(names[k])
			if at[k] != nil && spec != at[k] {
				return bad("another spec than the loaded one")
			}
			at[k] = spec
		case 'i':
			got := hangulize.ListLangs()
			if !reflect.DeepEqual(got, all) {
				return bad(sprintf("ListLangs = %q, expected %q", got, all))
			}
			for j := range got {
				got[j] = "spoiled"
			}
		}
	}
	return sprintf("%v %v %s", at[0] != nil, at[1] != nil, out), ""
}

// crowd loads every language; Noise tells how many times an unknown or a
// loaded language is loaded between.
type crowd struct {
	Reverse bool
	Noise   int
}

func checkCrowd(cs crowd) (string, string) {
	var langs []string
	for _, f := range specFiles() {
		langs = append(langs, langOf(f))
	}
	sort.Strings(langs)
	if cs.Reverse {
		for i, j := 0, len(langs)-1; i < j; i, j = i+1, j-1 {
			langs[i], langs[j] = langs[j], langs[i]
		}
	}
	unload := func() {
		for _, l := range langs {
			hangulize.UnloadSpec(l)
		}
	}
	unload()
	defer unload()
	at := map[string]*hangulize.Spec{}
	load := func(l string) string {
		s, err := hangulize.LoadSpec(l)
		if err != nil {
			return sprintf("LoadSpec(%s): %v", l, err)
		}
		if at[l] != nil && s != at[l] {
			return sprintf("LoadSpec(%s) gives another spec than the loaded one, with %d languages loaded", l, len(at))
		}
		at[l] = s
		return ""
	}
	noise := func(i int) string {
		for k := 0; k < cs.Noise; k++ {
			name := sprintf("%s-%d", langs[k%len(langs)], k+1000*i)
			if s, err := hangulize.LoadSpec(name); s != nil || !errors.Is(err, hangulize.ErrSpecNotFound) {
				return sprintf("LoadSpec(%s) = %v, %v", name, s, err)
			}
			if f := load(langs[k%(i+1)]); f != "" {
				return f
			}
		}
		return ""
	}
	for i, l := range langs {
		if f := load(l); f != "" {
			return "", f
		}
		if f := noise(i); f != "" {
			return "", f
		}
		for _, k := range langs[:i+1] {
			if f := load(k); f != "" {
				return "", f
			}
		}
	}
	for _, l := range langs {
		if f := sameFields(at[l], refOf(l)); f != "" {
			return "", f
		}
	}
	if cs.Noise > 1 {
		return sprintf("crowd %v", cs), ""
	}
	for _, l := range langs {
		hangulize.UnloadSpec(l)
		old := at[l]
		delete(at, l)
		for _, k := range langs {
			if k != l {
				if f := load(k); f != "" {
					return "", sprintf("after unloading %s: %s", l, f)
				}
			}
		}
		if f := load(l); f != "" {
			return "", f
		}
		if at[l] == old {
			continue // equal is enough
		}
		if f := sameFields(at[l], refOf(l)); f != "" {
			return "", f
		}
	}
	return sprintf("crowd %v", cs), ""
}

func runC19(c *Ctx) {
	depth := c.Pick(4, 5)
	c.Rule(sprintf("every sequence of up to %d loads, unloads, changes of a loaded spec, unknown names, lists and transcriptions over pairs of languages, against a model of the cache; every language against an independent reading of its file; every one-edit variant of every name and odd names", depth))
	var langs []string
	for _, f := range specFiles() {
		langs = append(langs, langOf(f))
	}
	if got := hangulize.ListLangs(); !reflect.DeepEqual(got, func() []string { s := append([]string{}, langs...); sort.Strings(s); return s }()) {
		c.Fail("", langCase{"list"}, sprintf("ListLangs = %q", got))
	}
	c.Par(len(langs), func(w *Worker, i int) {
		for k := 0; k < 3; k++ {
			Run(w, langCase{langs[i]}, checkLang)
			hangulize.UnloadSpec(langs[i])
		}
	})
	names := map[string]bool{}
	for _, n := range []string{"", ".", "..", "*", "?", "/", "specs", "specs/ita", "../specs/ita", "./ita", "ita/", "ita.hsl", "ita\x00", "\xff", "\xffita", "[ita]", "i*a", strings.Repeat("ita", 500), "it\\a", "한국어", "kor", "eng", "%", "%s%d", "\n", "ita\nrus", "no:such", "go.mod"} {
		names[n] = true
	}
	for _, l := range langs {
		for _, v := range edits(l, []string{"a", "/", ".", "-", "\x00"}) {
			names[v] = true
		}
		for i := range l {
			names[l[:i]] = true
		}
		for _, r := range langs {
			names[l+r] = true
			names[l+"/"+r] = true
		}
	}
	for _, l := range langs {
		delete(names, l)
	}
	odd := sortedKeys(names)
	c.Extra("odd_names", len(odd))
	c.Par(len(odd), func(w *Worker, i int) { Run(w, oddName{Str(odd[i])}, checkOddName) })

	pairs := [][2]string{{"sqi", "vie"}, {"spa", "hbs"}, {"ita", "epo"}, {"tur", "hun"}, {"fin", "cat"}, {"ron", "ces"}, {"est", "kat-1"}, {"lat", "por"}}
	letters := "lusnicLUSNC"
	var hist []string
	for l := 1; l <= depth; l++ {
		for _, ix := range seqs(len(letters), l) {
			b := make([]byte, l)
			for j, x := range ix {
				b[j] = letters[x]
			}
			hist = append(hist, string(b))
		}
	}
	// Loading is serial, so long histories go to the pair which loads fastest,
	// up to swapping the two languages.
	var trans atomic.Int64
	c.Extra("histories", len(hist))
	c.Par(len(pairs), func(w *Worker, i int) {
		for k, h := range hist {
			if len(h) > 2 && (i != 0 || h[0] < 'a') {
				continue
			}
			trans.Add(int64(len(h)))
			Run(w, loadHist{pairs[i][0], pairs[i][1], h}, checkLoad)
			if k&31 == i && c.Expired() {
				return
			}
		}
	})
	// Histories over every language.
	c.Rule("every language loaded one after another (in two orders), each kept while all the others are loaded, used, listed, unloaded and loaded again; every language unloaded alone; many unknown names and repeated loads between")
	c.Par(1, func(w *Worker, i int) {
		for _, cs := range []crowd{{false, 0}, {true, 0}, {false, 1}, {true, 300}, {false, 5000}} {
			Run(w, cs, checkCrowd)
		}
	})
	c.States(len(c.distinct))
	c.Transitions(int(trans.Load()))
	c.TracesValidated(int(c.evals.Load()))
	c.Sample(loadHist{"kat-1", "kat-2", "lsLul"})
}

func init() {
	kind(checkPure)
	kind(checkOrder)
	kind(checkAcross)
	kind(checkLang)
	kind(checkOddName)
	kind(checkLoad)
	kind(checkCrowd)
	register(&Prop{ID: "C13", Level: "model_checking", Run: runC13})
	register(&Prop{ID: "C19", Level: "model_checking", Run: runC19})
}
