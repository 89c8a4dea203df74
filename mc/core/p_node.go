package main

// The WebAssembly programs, run by node and driven by js/wasm.js.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf16"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit"
)

// jsProc is one node process with one program.
type jsProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err bytes.Buffer
}

var jsPools = map[string]chan *jsProc{}
var jsPoolsMu sync.Mutex
var jsFails atomic.Int64

func jsPool(program string) chan *jsProc {
	jsPoolsMu.Lock()
	defer jsPoolsMu.Unlock()
	p := jsPools[program]
	if p == nil {
		p = make(chan *jsProc, workers)
		for i := 0; i < workers; i++ {
			p <- nil
		}
		jsPools[program] = p
	}
	return p
}

// startJS starts a node process; a program which does not start is a failure.
func startJS(program string) (*jsProc, string) {
	work := os.Getenv("VERIF_WORK")
	goroot := os.Getenv("GOROOT")
	if goroot == "" {
		goroot = runtime.GOROOT()
	}
	args := []string{filepath.Join(verifDir, "mc/js/wasm.js"), filepath.Join(goroot, "lib/wasm/wasm_exec.js"), filepath.Join(work, program)}
	if program == "web" || program == "page" {
		args = []string{filepath.Join(verifDir, "mc/js", program+".js"), filepath.Join(work, "web")}
	}
	p := &jsProc{cmd: exec.Command("node", append([]string{"--stack-size=8192"}, args...)...)}
	p.cmd.Env = []string{"HOME=/nonexistent", "PATH=" + os.Getenv("PATH")}
	p.cmd.Stderr = &p.err
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(out, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	if l, err := p.out.ReadString('\n'); err != nil || l != "ready\n" {
		p.in.Close()
		p.cmd.Wait()
		return nil, sprintf("%s does not start: %s", program, firstLines(p.err.String(), 12))
	}
	return p, ""
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ask sends one request line and reads the events.
func ask(program string, req any, resp any) (fail string) {
	pool := jsPool(program)
	p := <-pool
	defer func() { pool <- p }()
	if p == nil {
		if p, fail = startJS(program); p == nil {
			return
		}
	}
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	p.in.Write(append(b, '\n'))
	l, err := p.out.ReadBytes('\n')
	if err != nil {
		p.in.Close()
		p.cmd.Wait()
		fail = sprintf("the program ended: %s", firstLines(p.err.String(), 12))
		p = nil
		return
	}
	d := json.NewDecoder(bytes.NewReader(l))
	if err := d.Decode(resp); err != nil {
		panic(sprintf("driver: %v in %.200s", err, l))
	}
	return ""
}

func stopJS() {
	for _, pool := range jsPools {
		for i := 0; i < workers; i++ {
			if p := <-pool; p != nil {
				p.in.Close()
				p.cmd.Wait()
			}
		}
	}
	jsPools = map[string]chan *jsProc{}
}

// jsStep is one step of a scenario.
type jsStep struct {
	Op     string   `json:"op"`
	Scheme string   `json:"scheme,omitempty"`
	Fn     string   `json:"fn,omitempty"`
	Lang   string   `json:"lang,omitempty"`
	Word   string   `json:"word,omitempty"`
	Units  []uint16 `json:"units,omitempty"`
	Trace  string   `json:"trace,omitempty"`
	I      int      `json:"i"`
	Reject bool     `json:"reject,omitempty"`
	Arg    string   `json:"arg,omitempty"`
}

func (s jsStep) String() string {
	switch s.Op {
	case "use":
		return sprintf("use(%s, %s)", s.Scheme, s.Fn)
	case "unuse":
		return sprintf("unuse(%s)", s.Scheme)
	case "call":
		return sprintf("hangulize(%s, %s%v, trace=%s)", s.Lang, q(s.Word), s.Units, s.Trace)
	}
	return sprintf("settle(%d, reject=%v, %s)", s.I, s.Reject, s.Arg)
}

// jsCase is a scenario.
type jsCase struct {
	Steps  []jsStep
	Packed bool // all steps in one turn of the event loop
}

type jsReq struct {
	Steps   []jsStep `json:"steps"`
	Packed  bool     `json:"packed"`
	Open    int      `json:"open"`
	Schemes []string `json:"schemes"`
}

// jsAnswer is how a pending translit was settled.
type jsAnswer struct {
	reject bool
	arg    string
}

var errJSPending = errors.New("pending")

// jsFake plays a JavaScript translit natively.
type jsFake struct {
	scheme, kind string
	later        func(word string) (string, error)
	called       func(scheme, word string)
}

func (f *jsFake) Scheme() string { return f.scheme }
func (f *jsFake) Transliterate(word string) (string, error) {
	f.called(f.scheme, word)
	how, arg, _ := strings.Cut(f.kind, ":")
	switch how {
	case "add", "async", "slow", "twice":
		return word + arg, nil
	case "const":
		return arg, nil
	case "nest":
		return native("ita", arg, nil).result, nil
	case "later":
		return f.later(word)
	}
	return "", errors.New("rejected")
}

// jsExpect is what a call should lead to.
type jsExpect struct {
	result  string
	err     string
	pending bool
	traces  []string
	fns     []string
}

func traceText(step, word, why string, id, from, to string, rule bool) string {
	if rule {
		return sprintf("%s|%s|%s|%s %s %s", step, word, why, id, from, to)
	}
	return sprintf("%s|%s|%s", step, word, why)
}

// native does what the call does with the library itself.
func native(lang, word string, fns map[string]string, answers ...jsAnswer) (e jsExpect) {
	spec, err := hangulize.LoadSpec(lang)
	if err != nil {
		e.err = err.Error()
		return
	}
	h := hangulize.New(spec)
	n := 0
	for s, k := range fns {
		h.UseTranslit(&jsFake{s, k, func(word string) (string, error) {
			if n == len(answers) {
				panic(errJSPending)
			}
			a := answers[n]
			n++
			if a.reject {
				return "", errors.New(a.arg)
			}
			return word + a.arg, nil
		}, func(scheme, word string) { e.fns = append(e.fns, scheme+"("+word+")") }})
	}
	h.Trace(func(t hangulize.Trace) {
		if t.Rule == nil {
			e.traces = append(e.traces, traceText(t.Step, t.Word, t.Why, "", "", "", false))
			return
		}
		e.traces = append(e.traces, traceText(t.Step, t.Word, t.Why, strconv.Itoa(t.Rule.ID), t.Rule.From.String(), t.Rule.To.String(), true))
	})
	defer func() {
		if r := recover(); r == errJSPending {
			e.pending = true
		} else if r != nil {
			panic(r)
		}
	}()
	r, err := h.Hangulize(word)
	if err != nil {
		e.err = err.Error()
		return
	}
	e.result = r
	return
}

func jsWord(s jsStep) string {
	if s.Units != nil {
		return string(utf16.Decode(s.Units))
	}
	return s.Word
}

func checkJS(cs jsCase) (string, string) {
	out, fail := checkJS1(cs)
	if fail != "" {
		jsFails.Add(1)
	}
	return out, fail
}

func checkJS1(cs jsCase) (string, string) {
	type call struct {
		at      int
		step    jsStep
		answers []jsAnswer
		want    []jsExpect // any of these
	}
	var calls []*call
	var pend []*call
	reg := map[string]string{}
	var states []map[string]string
	var rets []bool
	req := jsReq{Steps: cs.Steps, Packed: cs.Packed}
	note := func(c *call) {
		if c.want[0].pending {
			pend = append(pend, c)
		}
	}
	for i, s := range cs.Steps {
		switch s.Op {
		case "use":
			_, ok := reg[s.Scheme]
			rets = append(rets, !ok)
			if !ok {
				reg[s.Scheme] = s.Fn
			}
			req.Schemes = append(req.Schemes, s.Scheme)
		case "unuse":
			_, ok := reg[s.Scheme]
			rets = append(rets, ok)
			delete(reg, s.Scheme)
		case "call":
			c := &call{at: i, step: s}
			calls = append(calls, c)
			if !cs.Packed {
				st := map[string]string{}
				for k, v := range reg {
					st[k] = v
				}
				c.step.Units = s.Units
				c.want = []jsExpect{native(s.Lang, jsWord(s), st)}
				c.at = len(states)
				states = append(states, st)
				note(c)
			}
		case "settle":
			if s.I >= len(pend) {
				return "", "" // not a scenario
			}
			c := pend[s.I]
			c.answers = append(c.answers, jsAnswer{s.Reject, s.Arg})
			c.want = []jsExpect{native(c.step.Lang, jsWord(c.step), states[c.at], c.answers...)}
			note(c)
		}
		if cs.Packed {
			st := map[string]string{}
			for k, v := range reg {
				st[k] = v
			}
			states = append(states, st)
		}
	}
	if cs.Packed {
		for _, c := range calls {
			for _, st := range states[c.at:] {
				c.want = append(c.want, native(c.step.Lang, jsWord(c.step), st))
			}
		}
	}
	for _, c := range calls {
		if c.want[0].pending {
			req.Open++
		}
	}

	var events [][]any
	if f := ask("hangulize.wasm", req, &events); f != "" {
		return "", f
	}
	traces := map[string][]string{}
	settled := map[string][]any{}
	var gotRets []bool
	var fns []string
	str := func(v any) string { s, _ := v.(string); return s }
	for _, e := range events {
		switch e[0] {
		case "ret":
			b, _ := e[1].(bool)
			gotRets = append(gotRets, b)
		case "fn":
			fns = append(fns, str(e[1])+"("+str(e[2])+")")
		case "trace":
			id := str(e[1])
			if settled[id] != nil {
				return "", sprintf("call %s: trace %v after the promise was settled", id, e)
			}
			if r, ok := e[5].([]any); ok {
				traces[id] = append(traces[id], traceText(str(e[2]), str(e[3]), str(e[4]), fmtAny(r[0]), fmtAny(r[1]), fmtAny(r[2]), true))
			} else {
				traces[id] = append(traces[id], traceText(str(e[2]), str(e[3]), str(e[4]), "", "", "", false))
			}
		case "ok", "err":
			settled[str(e[1])] = e
		case "notpromise", "nopending", "driver":
			return "", sprintf("%v", e)
		}
	}
	if !reflect.DeepEqual(rets, gotRets) {
		return "", sprintf("useTranslit and unuseTranslit returned %v, want %v", gotRets, rets)
	}
	var wantFns []string
	for i, c := range calls {
		id := strconv.Itoa(i)
		got := settled[id]
		fail := ""
		for _, w := range c.want {
			fail = ""
			switch {
			case w.pending:
				if got != nil {
					fail = sprintf("settled as %v while its translit is pending", got)
				}
			case got == nil:
				fail = "never settled"
			case c.step.Trace == "throw":
			case w.err != "":
				if got[0] != "err" || got[2] != true || got[3] != w.err {
					fail = sprintf("settled as %v, want the error %q", got, w.err)
				}
			default:
				if got[0] != "ok" || got[2] != w.result {
					fail = sprintf("settled as %v, want %s", got, q(w.result))
				}
			}
			if fail == "" && c.step.Trace != "throw" {
				wt := w.traces
				switch c.step.Trace {
				case "log", "ret", "nest":
				default:
					wt = nil
				}
				if !(len(wt) == 0 && len(traces[id]) == 0) && !reflect.DeepEqual(wt, traces[id]) {
					fail = sprintf("trace events:\n%s\nwant:\n%s", strings.Join(traces[id], "\n"), strings.Join(wt, "\n"))
				}
			}
			if fail == "" {
				break
			}
		}
		if fail != "" {
			return "", sprintf("call %d %s: %s", i, c.step, fail)
		}
		if c.step.Trace != "throw" {
			wantFns = append(wantFns, c.want[0].fns...)
		}
		if c.step.Trace == "nest" {
			for j := range traces[id] {
				nid := id + "." + strconv.Itoa(j)
				if n := settled[nid]; n == nil || n[0] != "ok" || n[2] != "가토" {
					return "", sprintf("call %d: the call made in its trace function settled as %v", i, n)
				}
			}
		}
	}
	throws := false
	for _, c := range calls {
		throws = throws || c.step.Trace == "throw"
	}
	if !cs.Packed && !throws {
		sort.Strings(fns)
		sort.Strings(wantFns)
		if strings.Join(fns, " ") != strings.Join(wantFns, " ") {
			return "", sprintf("translits were called as %q, want %q", fns, wantFns)
		}
	}
	return sprintf("%v", settled), ""
}

func fmtAny(v any) string {
	if f, ok := v.(float64); ok {
		return strconv.Itoa(int(f))
	}
	return sprintf("%v", v)
}

// jsSpecsCase compares the catalogue.
type jsSpecsCase struct{}

func checkJSSpecs(jsSpecsCase) (string, string) {
	var events [][]any
	if f := ask("hangulize.wasm", jsReq{Steps: []jsStep{{Op: "specs"}}}, &events); f != "" {
		return "", f
	}
	want := map[string]any{}
	for _, lang := range hangulize.ListLangs() {
		spec, err := hangulize.LoadSpec(lang)
		if err != nil {
			panic(err)
		}
		tests := []any{}
		for _, t := range spec.Test {
			tests = append(tests, map[string]any{"word": t[0], "result": t[1]})
		}
		list := func(l []string) []any {
			o := []any{}
			for _, s := range l {
				o = append(o, s)
			}
			return o
		}
		want[lang] = map[string]any{
			"lang": map[string]any{"id": spec.Lang.ID, "code2": spec.Lang.Codes[0], "code3": spec.Lang.Codes[1],
				"english": spec.Lang.English, "korean": spec.Lang.Korean, "script": spec.Lang.Script, "translit": list(spec.Lang.Translit)},
			"config": map[string]any{"authors": list(spec.Config.Authors), "stage": spec.Config.Stage},
			"test":   tests, "source": spec.Source,
		}
	}
	got, _ := events[0][1].(map[string]any)
	for lang, w := range want {
		g, _ := got[lang].(map[string]any)
		for k, v := range w.(map[string]any) {
			if !reflect.DeepEqual(g[k], v) {
				return "", sprintf("specs.%s.%s is %.300v, want %.300v", lang, k, g[k], v)
			}
		}
	}
	if len(got) != len(want) {
		return "", sprintf("%d specs, want %d", len(got), len(want))
	}
	return "specs", ""
}

// jsTranslitCase sends words to a translit program.
type jsTranslitCase struct {
	Program string
	Scheme  string
	Words   []string
}

func checkJSTranslit(cs jsTranslitCase) (string, string) {
	req := jsReq{Packed: true}
	var impl hangulize.Translit
	for _, t := range translit.Translits() {
		if t.Scheme() == cs.Scheme {
			impl = t
		}
	}
	for _, w := range cs.Words {
		req.Steps = append(req.Steps, jsStep{Op: "translit", Scheme: cs.Scheme, Word: w})
	}
	var events [][]any
	if f := ask(cs.Program+".translit.wasm", req, &events); f != "" {
		jsFails.Add(1)
		return "", f
	}
	for i, w := range cs.Words {
		want, err := impl.Transliterate(w)
		if err != nil {
			panic(err)
		}
		if got := events[i][1]; got != want {
			jsFails.Add(1)
			return "", sprintf("translit(%s, %s) is %v, want %s", cs.Scheme, q(w), got, q(want))
		}
	}
	return cs.Scheme + cs.Words[0], ""
}

func init() {
	kind(checkJS)
	kind(checkJSSpecs)
	kind(checkJSTranslit)
	register(&Prop{ID: "C28", Level: "model_checking", Run: runWasm})
}

func runWasm(c *Ctx) {
	var states, trans atomic.Int64
	run := func(cases []jsCase) {
		c.Par(len(cases), func(w *Worker, i int) {
			if jsFails.Load() > 12 {
				c.stop.Store(true)
				return
			}
			Run(w, cases[i], checkJS)
			states.Add(1)
			trans.Add(int64(len(cases[i].Steps)))
		})
	}
	call := func(lang, word, trace string) jsStep { return jsStep{Op: "call", Lang: lang, Word: word, Trace: trace} }
	use := func(scheme, fn string) jsStep { return jsStep{Op: "use", Scheme: scheme, Fn: fn} }
	unuse := func(scheme string) jsStep { return jsStep{Op: "unuse", Scheme: scheme} }

	// The catalogue, and the translit programs.
	c.Par(1, func(w *Worker, _ int) { Run(w, jsSpecsCase{}, checkJSSpecs) })

	// Every kind of translit and trace function, alone and two at a time.
	kinds := []string{"", "add:か", "const:アイ", "async:か", "slow:か", "twice:か", "rej:bad", "rejtype:bad", "rejstr:bad", "rejundef", "rejnull", "rejnum", "rejobj", "throw:bad", "throwstr:bad", "nest:gatto", "nestfail:x"}
	modes := []string{"", "undefined", "null", "log", "ret", "nest", "throw"}
	var cs []jsCase
	for _, k := range kinds {
		for _, m := range modes {
			one := []jsStep{call("jpn", "あい", m)}
			if k != "" {
				one = append([]jsStep{use("furigana", k)}, one...)
			}
			for _, packed := range []bool{false, true} {
				cs = append(cs, jsCase{one, packed})
				for _, m2 := range modes {
					for _, l := range [][2]string{{"ita", "Cappuccino, gatto"}, {"jpn", "うえ"}, {"nope", "x"}} {
						cs = append(cs, jsCase{append(append([]jsStep{}, one...), call(l[0], l[1], m2), call("ita", "ciao", "")), packed})
					}
				}
				if k != "" {
					for _, k2 := range kinds[1:] {
						// a second translit for the scheme is refused; another one in its stead
						cs = append(cs, jsCase{append(append([]jsStep{}, one...), use("furigana", k2), call("jpn", "う", m), unuse("furigana"), use("furigana", k2), call("jpn", "え", m)), packed})
					}
				}
			}
		}
	}
	// Two translits in a row.
	for _, k := range kinds {
		for _, k2 := range kinds {
			for _, m := range []string{"", "log", "throw"} {
				for _, packed := range []bool{false, true} {
					var s []jsStep
					if k != "" {
						s = append(s, use("p", k))
					}
					if k2 != "" {
						s = append(s, use("q", k2))
					}
					s = append(s, call("zzb", "ba1", m), call("zzb", "áx2", m))
					cs = append(cs, jsCase{s, packed})
				}
			}
		}
	}
	run(cs)
	c.Rule(sprintf("%d kinds of JavaScript translits (resolving at once or later, rejecting with and throwing any kind of value, calling back) x %d kinds of trace functions x one to three calls x languages with none, one and two translits, in one turn and in several", len(kinds), len(modes)))

	// Every order of calls, registrations and settlements.
	depth := c.Pick(6, 8)
	var seqsOf func(done []jsStep, pend int, left int, out *[]jsCase)
	seqsOf = func(done []jsStep, pend, left int, out *[]jsCase) {
		if len(done) > 0 {
			if l := done[len(done)-1].Op; l == "call" || l == "settle" {
				*out = append(*out, jsCase{append([]jsStep{}, done...), false})
			}
		}
		if left == 0 {
			return
		}
		go1 := func(s jsStep, more int) {
			seqsOf(append(done[:len(done):len(done)], s), pend+more, left-1, out)
		}
		nPend, reg := jsPending(done)
		n := 0
		for _, s := range done {
			if s.Op == "call" {
				n++
			}
		}
		if reg["furigana"] == "" {
			go1(use("furigana", "later"), 0)
			go1(use("furigana", "add:か"), 0)
		} else {
			go1(unuse("furigana"), 0)
		}
		if reg["p"] == "" && reg["q"] == "" {
			go1(use("p", "later"), 0)
		} else if reg["q"] == "" {
			go1(use("q", "later"), 0)
		}
		words := []string{"あい", "うえ", "おか", "きく", "けこ", "さし", "すせ"}
		go1(call("jpn", words[n%7], "log"), 0)
		if n > 0 || len(done) > 1 {
			go1(call("ita", "gatto", "log"), 0)
		}
		if reg["p"] != "" {
			go1(call("zzb", []string{"ba1", "bx2", "a1", "c2", "e", "y", "x"}[n%7], "log"), 0)
		}
		for _, i := range nPend {
			go1(jsStep{Op: "settle", I: i, Arg: sprintf("%d", i+1)}, 0)
			go1(jsStep{Op: "settle", I: i, Reject: true, Arg: "bad"}, 0)
		}
	}
	cs = nil
	seqsOf(nil, 0, depth, &cs)
	c.Extra("sequences", len(cs))
	run(cs)
	c.Rule(sprintf("every sequence of up to %d registrations, removals, calls of three languages and settlements (resolved or rejected, in every order) of pending translits", depth))

	// Every bundled example, with the real translits' answers.
	cs = nil
	for _, lang := range hangulize.ListLangs() {
		spec, _ := hangulize.LoadSpec(lang)
		for i, t := range spec.Test {
			if c.Quick() && i%4 != 0 {
				continue
			}
			var s []jsStep
			for _, scheme := range spec.Lang.Translit {
				for _, tr := range translit.Translits() {
					if tr.Scheme() == scheme {
						r, err := tr.Transliterate(t[0])
						if err != nil {
							panic(err)
						}
						s = append(s, use(scheme, "const:"+r))
					}
				}
			}
			cs = append(cs, jsCase{append(s, call(lang, t[0], "log")), true})
		}
	}
	// Odd words.
	for _, lang := range []string{"ita", "hun", "ell"} {
		for _, w := range []string{"", " ", "\x00", "a\x00b", "\n", "a\nb", "가나다", "😀", "a😀b", "a\u200bb", "ﬁ", "Ａｂ", "e\u0301", strings.Repeat("gatto ", 2000), strings.Repeat("ö", 3000), "{}", "<a>", "\"'\\", "a\ufeff", "\uffff"} {
			cs = append(cs, jsCase{[]jsStep{call(lang, w, "log")}, false})
		}
		for _, u := range [][]uint16{{0xd800}, {'a', 0xd800, 'b'}, {0xdc00, 'a'}, {0xd83d, 0xde00}, {0xde00, 0xd83d}, {0xd800, 0xd800, 0xdc00}} {
			cs = append(cs, jsCase{[]jsStep{{Op: "call", Lang: lang, Units: u, Trace: "log"}}, false})
		}
	}
	for _, lang := range []string{"", "ITA", "ita ", "nope", "../ita", "ita.hsl", "undefined"} {
		cs = append(cs, jsCase{[]jsStep{call(lang, "gatto", "log")}, false})
	}
	run(cs)
	c.Rule("bundled examples of every language with their traces, odd words (lone surrogates, NUL, very long) and unknown languages")

	// The translit programs.
	var ts []jsTranslitCase
	byScheme := map[string][]string{}
	for _, lang := range hangulize.ListLangs() {
		spec, _ := hangulize.LoadSpec(lang)
		for _, s := range spec.Lang.Translit {
			for _, t := range spec.Test {
				byScheme[s] = append(byScheme[s], t[0])
			}
		}
	}
	var single []string
	for _, r := range [][2]rune{{0x20, 0x7f}, {0x400, 0x52f}, {0x3040, 0x30ff}, {0x4e00, rune(c.Pick(0x5200, 0x9fff))}} {
		for x := r[0]; x <= r[1]; x++ {
			single = append(single, string(x))
		}
	}
	for _, t := range translit.Translits() {
		s := t.Scheme()
		prog, _, _ := strings.Cut(s, "[")
		all := append(append([]string{"", " ", "a b", "😀", "\x00"}, byScheme[s]...), single...)
		for len(all) > 0 {
			n := 200
			if n > len(all) {
				n = len(all)
			}
			ts = append(ts, jsTranslitCase{prog, s, all[:n]})
			all = all[n:]
		}
	}
	c.Par(len(ts), func(w *Worker, i int) {
		if jsFails.Load() > 12 {
			c.stop.Store(true)
			return
		}
		Run(w, ts[i], checkJSTranslit)
		states.Add(1)
		trans.Add(int64(len(ts[i].Words)))
	})
	c.Rule("the examples and every single letter of their scripts through the four translit programs")
	c.States(int(states.Load()))
	c.Transitions(int(trans.Load()))
	c.TracesValidated(int(states.Load()))
	c.Assume("node runs the WebAssembly programs as browsers do; the real programs are run, the reference is the library built natively")
	stopJS()
}

// jsPending lists the pending translits after some steps.
func jsPending(steps []jsStep) (open []int, reg map[string]string) {
	reg = map[string]string{}
	type p struct {
		lang string
		n    int
		reg  map[string]string
	}
	var pend []p
	state := map[int]bool{}
	add := func(x p) {
		state[len(pend)] = true
		pend = append(pend, x)
	}
	for _, s := range steps {
		switch s.Op {
		case "use":
			reg[s.Scheme] = s.Fn
		case "unuse":
			delete(reg, s.Scheme)
		case "call":
			if s.Lang == "jpn" && reg["furigana"] == "later" {
				add(p{lang: "jpn"})
			}
			if s.Lang == "zzb" && reg["p"] == "later" {
				add(p{"zzb", 0, map[string]string{"q": reg["q"]}})
			}
		case "settle":
			delete(state, s.I)
			if x := pend[s.I]; x.lang == "zzb" && x.n == 0 && !s.Reject && x.reg["q"] == "later" {
				add(p{"zzb", 1, nil})
			}
		}
	}
	for i := range pend {
		if state[i] {
			open = append(open, i)
		}
	}
	return
}
