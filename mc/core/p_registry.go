package main

import (
	"errors"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

// fake is a translit which appends a mark, or fails.
type fake struct {
	scheme string
	mark   string
	fail   bool
	log    *[]string
	mode   byte // e gives nothing, r the mark only, i the word itself, g fails with the word
}

func (f *fake) out(w string) string {
	switch f.mode {
	case 'e':
		return ""
	case 'r':
		return f.mark
	case 'i', 'g':
		return w
	}
	return w + f.mark
}

var errFake = errors.New("fake failure")

func (f *fake) Scheme() string { return f.scheme }
func (f *fake) Transliterate(w string) (string, error) {
	if f.log != nil {
		*f.log = append(*f.log, f.scheme+"/"+f.mark+"("+w+")")
	}
	if f.fail {
		if f.mode == 'g' {
			return w, errFake
		}
		return "junk", errFake
	}
	return f.out(w), nil
}

type registry interface {
	UseTranslit(hangulize.Translit) bool
	UnuseTranslit(string) bool
	Translits() map[string]hangulize.Translit
}

type defaultReg struct{}

func (defaultReg) UseTranslit(t hangulize.Translit) bool    { return hangulize.UseTranslit(t) }
func (defaultReg) UnuseTranslit(s string) bool              { return hangulize.UnuseTranslit(s) }
func (defaultReg) Translits() map[string]hangulize.Translit { return hangulize.Translits() }

func textMap(m map[string]hangulize.Translit, own func(string) bool) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		if own(k) {
			b.WriteString(sprintf("%q:%p ", k, m[k]))
		}
	}
	return b.String()
}

// ---- C17

// regCase is a history over three registries: each op is a letter.
type regCase struct {
	Schemes []Str
	Ops     []int
}

var regSerial atomic.Int64

// The operations: 9 uses, 6 unuses, 3 reads whose result is then spoiled.
const regOps = 18

func checkRegistry(cs regCase) (string, string) {
	id := sprintf("~%d", regSerial.Add(1))
	x, y := string(cs.Schemes[0])+id, string(cs.Schemes[1])+id
	own := func(s string) bool { return s == x || s == y }
	spec, err := hangulize.ParseSpec(strings.NewReader(""))
	if err != nil {
		return "", err.Error()
	}
	regs := []registry{hangulize.New(spec), hangulize.New(spec), defaultReg{}}
	defer func() { hangulize.UnuseTranslit(x); hangulize.UnuseTranslit(y) }()
	ts := []*fake{{scheme: x, mark: "1"}, {scheme: x, mark: "2"}, {scheme: y, mark: "3"}}
	model := []map[string]hangulize.Translit{{}, {}, {}}
	type kept struct {
		got  map[string]hangulize.Translit
		want string
	}
	var keep []kept
	for i, op := range cs.Ops {
		at := func() string { return sprintf("after ops %v, op %d", cs.Ops[:i], op) }
		switch {
		case op < 9:
			r, t := op/3, ts[op%3]
			_, has := model[r][t.scheme]
			if got := regs[r].UseTranslit(t); got == has {
				return "", sprintf("%s: UseTranslit = %v", at(), got)
			}
			if !has {
				model[r][t.scheme] = t
			}
		case op < 15:
			r, s := (op-9)/2, []string{x, y}[(op-9)%2]
			_, has := model[r][s]
			if got := regs[r].UnuseTranslit(s); got != has {
				return "", sprintf("%s: UnuseTranslit = %v", at(), got)
			}
			delete(model[r], s)
		default:
			r := op - 15
			m := regs[r].Translits()
			m[x+"junk"] = ts[0]
			m[x] = ts[1]
			delete(m, y)
		}
		for r := range regs {
			m := regs[r].Translits()
			want := textMap(model[r], own)
			if got := textMap(m, own); got != want {
				return "", sprintf("%s: registry %d holds %s, expected %s", at(), r, got, want)
			}
			if r < 2 && len(m) != len(model[r]) {
				return "", sprintf("%s: registry %d holds %d translits, expected %d", at(), r, len(m), len(model[r]))
			}
			if r == op%3 {
				keep = append(keep, kept{m, want})
			}
		}
		for _, k := range keep {
			if got := textMap(k.got, own); got != k.want {
				return "", sprintf("%s: a map returned before has changed to %s from %s", at(), got, k.want)
			}
		}
	}
	var st strings.Builder
	for r := range model {
		for _, k := range []string{x, y} {
			if t, ok := model[r][k]; ok {
				st.WriteString(t.(*fake).mark)
			} else {
				st.WriteString(".")
			}
		}
	}
	return st.String(), ""
}

// regMany puts many schemes.
type regMany struct{ N int }

func checkRegMany(cs regMany) (string, string) {
	id := sprintf("~%d", regSerial.Add(1))
	spec, _ := hangulize.ParseSpec(strings.NewReader(""))
	own := func(s string) bool { return strings.HasSuffix(s, id) }
	for k, r := range []registry{hangulize.New(spec), defaultReg{}} {
		model := map[string]hangulize.Translit{}
		step := func(i int) string {
			f := &fake{scheme: sprintf("s%d%s", i, id)}
			_, has := model[f.scheme]
			if r.UseTranslit(f) == has {
				return sprintf("registry %d: UseTranslit(%s) = %v among %d", k, f.scheme, has, len(model))
			}
			if !has {
				model[f.scheme] = f
			}
			return ""
		}
		same := func() string {
			if g, w := textMap(r.Translits(), own), textMap(model, own); g != w {
				return sprintf("registry %d holds %s, expected %s", k, g, w)
			}
			return ""
		}
		defer func() {
			for s := range model {
				r.UnuseTranslit(s)
			}
		}()
		for round := 0; round < 3; round++ {
			for i := 0; i < cs.N; i++ {
				if f := step(i); f != "" {
					return "", f
				}
			}
			if f := same(); f != "" {
				return "", f
			}
			for i := round; i < cs.N; i += 2 {
				s := sprintf("s%d%s", i, id)
				_, has := model[s]
				if r.UnuseTranslit(s) != has {
					return "", sprintf("registry %d: UnuseTranslit(%s) = %v", k, s, !has)
				}
				delete(model, s)
			}
			if f := same(); f != "" {
				return "", f
			}
		}
	}
	return sprintf("many %d", cs.N), ""
}

func runC17(c *Ctx) {
	depth := c.Pick(4, 5)
	c.Rule(sprintf("every sequence of up to %d of the operations (use one of three translits, two of one scheme; unuse; read and spoil the map) on two hangulizers and the default registry, each step against a map model; every step reads all three registries", depth))
	var hist [][]int
	for l := 1; l <= depth-1; l++ {
		hist = append(hist, seqs(regOps, l)...)
	}
	schemes := [][]Str{{"x", "y"}, {"", " "}, {"a[b]", "a"}, {"é", "é"}, {"A", "a"}, {Str(strings.Repeat("s", 5000)), Str(strings.Repeat("s", 5000) + "t")}}
	pref := seqs(regOps, depth-1)
	states := map[string]bool{}
	trans := atomic.Int64{}
	c.Par(len(hist), func(w *Worker, i int) {
		trans.Add(int64(len(hist[i])))
		Run(w, regCase{schemes[0], hist[i]}, checkRegistry)
		if len(hist[i]) <= 2 {
			for _, s := range schemes[1:] {
				Run(w, regCase{s, hist[i]}, checkRegistry)
			}
		}
	})
	c.Par(len(pref), func(w *Worker, i int) {
		for op := 0; op < regOps; op++ {
			trans.Add(int64(depth))
			Run(w, regCase{schemes[0], append(append([]int{}, pref[i]...), op)}, checkRegistry)
		}
	})
	for _, n := range []int{3, 8, 9, 16, 17, 64, 65, 300} {
		c.Par(1, func(w *Worker, _ int) { Run(w, regMany{n}, checkRegMany) })
	}
	_ = states
	c.States(len(c.distinct))
	c.Transitions(int(trans.Load()))
	c.TracesValidated(int(c.evals.Load()))
	c.Extra("depth", depth)
	c.Sample(regCase{schemes[0], []int{0, 6, 9, 2}})
}

// ---- C18

// translitCase gives each of the schemes s, t, u a state: '-' not in use,
// 'o' in use, 'f' in use and failing, or a mode of a fake.
type translitCase struct {
	List   string
	States string
	Word   Str
	Extra  bool
}

func translitSpec(list string) rawSpec {
	s := rawSpec{Script: "Latn", Normalize: []kvs{{"q", []string{"xy"}}}, Rewrite: [][2]string{{"ab", "c"}}, Transcribe: [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}, {"c", "ㅋ"}, {"q", "ㅠ"}, {"x", "ㅅ"}, {"y", "ㅣ"}}}
	for _, l := range list {
		s.Translit = append(s.Translit, string(l))
	}
	return s
}

// expectTranslit runs the model of the translit step.
func expectTranslit(list []string, in map[string]*fake, word string) (steps []refTrace, log []string, wantErr error, scheme string) {
	for _, s := range list {
		f, ok := in[s]
		if !ok {
			return steps, log, hangulize.ErrTranslitNotImported, s
		}
		log = append(log, f.scheme+"/"+f.mark+"("+word+")")
		if f.fail {
			return steps, log, hangulize.ErrTranslit, s
		}
		word = f.out(word)
		steps = append(steps, refTrace{"Transliterate", word, s, -1})
	}
	return
}

// judgeErr compares an error with the expected kind.
func judgeErr(err, want error, scheme string) string {
	for _, k := range []error{hangulize.ErrTranslitNotImported, hangulize.ErrTranslit, hangulize.ErrSpecNotFound} {
		if errors.Is(err, k) != (k == want) {
			return sprintf("error %v, expected %v", err, want)
		}
	}
	if (err == nil) != (want == nil) {
		return sprintf("error %v, expected %v", err, want)
	}
	if want != nil && !strings.Contains(err.Error(), scheme) {
		return sprintf("error %v does not tell %s", err, scheme)
	}
	return ""
}

func checkTranslit(cs translitCase) (string, string) {
	raw := translitSpec(cs.List)
	spec, ref, fail := parseRaw(raw)
	if spec == nil {
		return "", fail
	}
	var log []string
	in := map[string]*fake{}
	h := hangulize.New(spec)
	for i, st := range cs.States {
		scheme := string("stu"[i])
		if st == '-' {
			continue
		}
		in[scheme] = &fake{scheme: scheme, mark: string("xyb"[i]), fail: st == 'f' || st == 'g', log: &log, mode: byte(st)}
		h.UseTranslit(in[scheme])
	}
	if cs.Extra {
		for i := 0; i < 20; i++ {
			h.UseTranslit(&fake{scheme: sprintf("extra%d", i), mark: "z", log: &log})
		}
	}
	return callTranslit(h, spec, ref, raw.Translit, in, &log, string(cs.Word))
}

func callTranslit(h hangulize.Hangulizer, spec *hangulize.Spec, ref *refSpec, list []string, in map[string]*fake, log *[]string, word string) (string, string) {
	steps, wantLog, wantErr, scheme := expectTranslit(list, in, word)
	for round := 0; round < 2; round++ {
		*log = nil
		var events []hangulize.Trace
		h.Trace(func(t hangulize.Trace) { events = append(events, t) })
		if round == 1 {
			h.Trace(nil)
		}
		got, err := h.Hangulize(word)
		if f := judgeErr(err, wantErr, scheme); f != "" {
			return "", f
		}
		if sprintf("%q", *log) != sprintf("%q", wantLog) {
			return "", sprintf("translits ran as %q, expected %q", *log, wantLog)
		}
		if wantErr != nil {
			if got != "" {
				return "", sprintf("Hangulize(%s) = %s although %v", q(word), q(got), err)
			}
			for _, e := range events {
				if e.Step != "Input" && e.Step != "Transliterate" {
					return "", sprintf("event %+v although %v", e, err)
				}
			}
			continue
		}
		want := ref.run(word, steps)
		if got != want.word {
			return "", sprintf("Hangulize(%s) = %s, expected %s", q(word), q(got), q(want.word))
		}
		if round == 0 {
			if d := diffTraces(events, want.traces); d != "" {
				return "", d
			}
		}
	}
	return sprintf("%v %s %d %q", wantErr, scheme, len(wantLog), wantLog), ""
}

// translitHist is a history on one hangulizer whose spec lists s, t, s:
// 1..3 use s (ok, ok with another mark, failing), 4..6 use t, 7, 8 unuse s, t,
// c call.
type translitHist struct{ Ops string }

func checkTranslitHist(cs translitHist) (string, string) {
	raw := translitSpec("sts")
	spec, ref, fail := parseRaw(raw)
	if spec == nil {
		return "", fail
	}
	h := hangulize.New(spec)
	var log []string
	in := map[string]*fake{}
	out := ""
	for i, op := range cs.Ops {
		switch {
		case op >= '1' && op <= '6':
			k := int(op - '1')
			f := &fake{scheme: string("st"[k/3]), mark: string("abxbxy"[k]), fail: k%3 == 2, log: &log}
			_, has := in[f.scheme]
			if h.UseTranslit(f) == has {
				return "", sprintf("%s: UseTranslit = %v", cs.Ops[:i+1], has)
			}
			if !has {
				in[f.scheme] = f
			}
		case op == '7' || op == '8':
			s := string("st"[op-'7'])
			_, has := in[s]
			if h.UnuseTranslit(s) != has {
				return "", sprintf("%s: UnuseTranslit = %v", cs.Ops[:i+1], !has)
			}
			delete(in, s)
		default:
			o, f := callTranslit(h, spec, ref, raw.Translit, in, &log, "ab")
			if f != "" {
				return "", sprintf("%s: %s", cs.Ops[:i+1], f)
			}
			out += o
		}
	}
	return out, ""
}

// defaultHist is a history on the default registry: o, p use a translit, f a
// failing one, u unuses it, c calls, n asks for an unknown language, h calls a
// hangulizer of its own.
type defaultHist struct{ Lang, Scheme, Ops string }

func checkDefaultHist(cs defaultHist) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) {
		hangulize.UnuseTranslit(cs.Scheme)
		defer hangulize.UnuseTranslit(cs.Scheme)
		var log []string
		in := map[string]*fake{}
		word := r.raw.Test[0][0]
		own := hangulize.New(r.spec)
		out := ""
		for i, op := range cs.Ops {
			at := func(s string) (string, string) { return "", sprintf("%s: %s", cs.Ops[:i+1], s) }
			switch op {
			case 'o', 'p', 'f':
				f := &fake{scheme: cs.Scheme, mark: map[rune]string{'o': "", 'p': "ア a", 'f': ""}[op], fail: op == 'f', log: &log}
				_, has := in[cs.Scheme]
				if hangulize.UseTranslit(f) == has {
					return at("UseTranslit")
				}
				if !has {
					in[cs.Scheme] = f
				}
			case 'u':
				_, has := in[cs.Scheme]
				if hangulize.UnuseTranslit(cs.Scheme) != has {
					return at("UnuseTranslit")
				}
				delete(in, cs.Scheme)
			case 'n':
				for _, lang := range []string{"zzz", "", "ITA"} {
					got, err := hangulize.Hangulize(lang, word)
					if !errors.Is(err, hangulize.ErrSpecNotFound) || got != word || !strings.Contains(err.Error(), lang) {
						return at(sprintf("Hangulize(%q, %q) = %q, %v", lang, word, got, err))
					}
				}
			case 'h':
				got, err := own.Hangulize(word)
				if f := judgeErr(err, hangulize.ErrTranslitNotImported, cs.Scheme); f != "" || got != "" {
					return at(got + f)
				}
			case 'c':
				log = nil
				steps, wantLog, wantErr, scheme := expectTranslit(r.raw.Translit, in, word)
				got, err := hangulize.Hangulize(cs.Lang, word)
				if f := judgeErr(err, wantErr, scheme); f != "" {
					return at(f)
				}
				if sprintf("%q", log) != sprintf("%q", wantLog) {
					return at(sprintf("translits ran as %q, expected %q", log, wantLog))
				}
				want := ""
				if wantErr == nil {
					want = r.ref.run(word, steps).word
				}
				if got != want {
					return at(sprintf("Hangulize(%q) = %q, expected %q", word, got, want))
				}
				out += sprintf("%v ", wantErr)
			}
		}
		return out, ""
	})
}

func runC18(c *Ctx) {
	c.Rule("every list of up to three translits with repeats x every state (missing, appending, giving nothing, giving a word of its own, changing nothing, failing) of each x words x unused extras; every history of using, unusing and calling up to a length on a hangulizer and on the default registry; non-trivial: by error kind, scheme and the calls made")
	var lists []string
	for l := 0; l <= 3; l++ {
		for _, ix := range seqs(3, l) {
			s := ""
			for _, k := range ix {
				s += string("stu"[k])
			}
			lists = append(lists, s)
		}
	}
	lists = append(lists, strings.Repeat("s", 70), strings.Repeat("st", 40)+"u", "ststst"+strings.Repeat("u", 10))
	var cases []translitCase
	for _, l := range lists {
		for _, ix := range seqs(7, 3) {
			const sts = "-oferig"
			st := string([]byte{sts[ix[0]], sts[ix[1]], sts[ix[2]]})
			for _, w := range []string{"", "ab", "Xa b", "1"} {
				for _, e := range []bool{false, true} {
					cases = append(cases, translitCase{l, st, Str(w), e})
				}
			}
		}
	}
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[i], checkTranslit) })
	pre := seqs(9, c.Pick(4, 6))
	c.Par(len(pre), func(w *Worker, i int) {
		b := make([]byte, 0, 8)
		for _, k := range pre[i] {
			b = append(b, "12345678c"[k])
		}
		Run(w, translitHist{string(b) + "c"}, checkTranslitHist)
	})
	langs := []defaultHist{{"jpn", "furigana", ""}, {"chi", "pinyin", ""}, {"rus", "cyrillic[ru]", ""}, {"ukr", "cyrillic[ua]", ""}, {"bul", "cyrillic[bg]", ""}, {"mkd", "cyrillic[mk]", ""}}
	hist := seqs(7, c.Pick(4, 5))
	c.Par(len(langs), func(w *Worker, i int) {
		for _, ix := range hist {
			b := make([]byte, 0, 8)
			for _, k := range ix {
				b = append(b, "opfucnh"[k])
			}
			cs := langs[i]
			cs.Ops = string(b) + "c"
			Run(w, cs, checkDefaultHist)
		}
	})
	c.Sample(cases[len(cases)/2])
	c.Sample(translitHist{"13c7c"})
}

// ---- C23

// installCase begins with some schemes in use, then each op: i installs, 0-5
// unuses a scheme, a-f uses a fake of a scheme.
type installCase struct {
	Default bool
	Present int
	Ops     string
}

func checkInstall(cs installCase) (string, string) {
	std := translit.Translits()
	want := []string{"cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]", "furigana", "pinyin"}
	by := map[string]hangulize.Translit{}
	for _, t := range std {
		by[t.Scheme()] = t
	}
	if got := sortedKeys(by); strings.Join(got, " ") != strings.Join(want, " ") || len(std) != len(want) {
		return "", sprintf("the standard translits are %q", got)
	}
	spec, err := hangulize.ParseSpec(strings.NewReader(""))
	if err != nil {
		return "", err.Error()
	}
	h, other := hangulize.New(spec), hangulize.New(spec)
	var reg, away registry = h, other
	if cs.Default {
		reg = defaultReg{}
	}
	defer func() {
		if cs.Default {
			for s := range hangulize.Translits() {
				hangulize.UnuseTranslit(s)
			}
		}
	}()
	model := map[string]hangulize.Translit{}
	keep := &fake{scheme: "unrelated"}
	model["unrelated"] = keep
	reg.UseTranslit(keep)
	use := func(i int) bool {
		f := &fake{scheme: want[i], mark: "f"}
		_, has := model[want[i]]
		if !has {
			model[want[i]] = f
		}
		return reg.UseTranslit(f) == !has
	}
	for i := range want {
		if cs.Present>>i&1 == 1 && !use(i) {
			return "", "UseTranslit " + want[i]
		}
	}
	all := func(string) bool { return true }
	out := ""
	for i, op := range "." + cs.Ops {
		switch {
		case op == 'i':
			ok := true
			for _, s := range want {
				if _, has := model[s]; has {
					ok = false
				}
			}
			var got bool
			if cs.Default {
				got = translit.Install()
			} else {
				got = translit.Install(h)
			}
			if got != ok {
				return "", sprintf("present %06b, ops %s: Install = %v at op %d", cs.Present, cs.Ops, got, i)
			}
			if ok {
				for s, t := range by {
					model[s] = t
				}
			}
			out += sprintf("%v", ok)
		case op >= '0' && op <= '5':
			s := want[op-'0']
			_, has := model[s]
			if reg.UnuseTranslit(s) != has {
				return "", sprintf("UnuseTranslit(%s) = %v", s, !has)
			}
			delete(model, s)
		case op >= 'a' && op <= 'f':
			if !use(int(op - 'a')) {
				return "", "UseTranslit " + want[op-'a']
			}
		}
		if g, w := textMap(reg.Translits(), all), textMap(model, all); g != w {
			return "", sprintf("present %06b, ops %s: after op %d the registry holds %s, expected %s", cs.Present, cs.Ops, i, g, w)
		}
		if len(away.Translits()) != 0 || cs.Default && len(h.Translits()) != 0 {
			return "", "another hangulizer was touched"
		}
	}
	return sprintf("%d %s", len(model), out), ""
}

func runC23(c *Ctx) {
	c.Rule("every subset of the schemes already in use x every sequence up to a length of installing, unusing and using, on a hangulizer and on the default registry, each step against a map model")
	letters := "i012345abcdef"
	depth := c.Pick(3, 4)
	ops := []string{""}
	prev := []string{""}
	for l := 0; l < depth; l++ {
		var next []string
		for _, p := range prev {
			for _, x := range letters {
				next = append(next, p+string(x))
			}
		}
		ops = append(ops, next...)
		prev = next
	}
	sort.Slice(ops, func(i, j int) bool { return len(ops[i]) < len(ops[j]) })
	var trans atomic.Int64
	// The default registry is one for the whole process.
	c.Par(1, func(w *Worker, _ int) {
		for present := 0; present < 64; present++ {
			for _, o := range ops {
				if len(o) < depth {
					trans.Add(int64(len(o)) + 1)
					Run(w, installCase{true, present, o + "i"}, checkInstall)
				}
			}
		}
	})
	before := textMap(hangulize.Translits(), func(string) bool { return true })
	c.Par(len(ops), func(w *Worker, i int) {
		for present := 0; present < 64; present++ {
			trans.Add(int64(len(ops[i])) + 1)
			Run(w, installCase{false, present, ops[i] + "i"}, checkInstall)
		}
	})
	if after := textMap(hangulize.Translits(), func(string) bool { return true }); after != before {
		c.Fail("", installCase{false, 0, "i"}, sprintf("installing into hangulizers changed the default registry to %s", after))
	}
	c.States(len(c.distinct))
	c.Transitions(int(trans.Load()))
	c.TracesValidated(int(c.evals.Load()))
	c.Sample(installCase{false, 5, "i0i"})
}

func init() {
	kind(checkRegistry)
	kind(checkRegMany)
	kind(checkTranslit)
	kind(checkTranslitHist)
	kind(checkDefaultHist)
	kind(checkInstall)
	register(&Prop{ID: "C17", Level: "model_checking", Run: runC17})
	register(&Prop{ID: "C18", Level: "fault_enumeration", Run: runC18})
	register(&Prop{ID: "C23", Level: "model_checking", Run: runC23})
}
