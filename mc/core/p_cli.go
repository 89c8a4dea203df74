package main

// The command-line tools, built from the working tree and run as processes.

import (
	"bytes"
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/hangulize/hangulize/translit"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
)

type outcome struct {
	out, err string
	code     int
}

var scratchOnce sync.Once
var scratchRoot string
var scratchN atomic.Int64

// scratch makes a directory for one case.
func scratch() string {
	scratchOnce.Do(func() {
		root := os.Getenv("VERIF_WORK")
		if root == "" {
			panic("VERIF_WORK is not set")
		}
		var err error
		if scratchRoot, err = os.MkdirTemp(root, "cli"); err != nil {
			panic(err)
		}
	})
	d := filepath.Join(scratchRoot, strconv.FormatInt(scratchN.Add(1), 10))
	if err := os.Mkdir(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// tool runs one of the built tools in a directory.
func tool(name, dir string, args []string, stdin string) (outcome, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_WORK"), name), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := outcome{o.String(), e.String(), 0}
	if ctx.Err() != nil {
		return r, sprintf("%s %q did not end in 60 s", name, args)
	}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.code = x.ExitCode()
	}
	if strings.Contains(r.err, "goroutine ") && (strings.Contains(r.err, "panic:") || strings.Contains(r.err, "fatal error:")) {
		return r, sprintf("%s %q crashed: %s", name, args, r.err)
	}
	return r, ""
}

// installed makes a hangulizer as the tool does.
func installed(spec *hangulize.Spec) hangulize.Hangulizer {
	h := hangulize.New(spec)
	translit.Install(h)
	return h
}

// expectWords gives the expected output of the tool for the words: results,
// traces, and whether a word failed.
func expectWords(spec *hangulize.Spec, words []string, verbose bool) (out, trace string, failed bool) {
	h := installed(spec)
	var ob, tb strings.Builder
	for _, w := range words {
		var ts []hangulize.Trace
		if verbose {
			h.Trace(func(t hangulize.Trace) { ts = append(ts, t) })
		}
		res, err := h.Hangulize(w)
		if err != nil {
			return ob.String(), tb.String(), true
		}
		ob.WriteString(res + "\n")
		tracefmt.FprintTraces(&tb, ts)
	}
	return ob.String(), tb.String(), false
}

// inputWords reads the standard input as described.
func inputWords(stdin string) (words []string) {
	for _, l := range strings.Split(stdin, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			break
		}
		words = append(words, l)
	}
	return
}

func judgeWords(spec *hangulize.Spec, words []string, verbose bool, r outcome) (string, string) {
	out, trace, failed := expectWords(spec, words, verbose)
	if r.out != out {
		return "", sprintf("printed %s, expected %s (status %d, errors %s)", q(r.out), q(out), r.code, q(r.err))
	}
	if failed {
		if r.code == 0 {
			return "", "a word failed, but the status is 0"
		}
		if r.err == "" {
			return "", "a word failed without a message"
		}
		return out + r.err, ""
	}
	if r.code != 0 {
		return "", sprintf("status %d: %s", r.code, r.err)
	}
	if r.err != trace {
		return "", sprintf("printed traces %s, expected %s", q(r.err), q(trace))
	}
	return out + trace, ""
}

// ---- C24

// cliCase is a run of the tool with words as arguments or on the input.
type cliCase struct {
	Lang    string
	Words   []Str `json:",omitempty"`
	Stdin   Str   `json:",omitempty"`
	Verbose int   `json:",omitempty"` // 1: flag first, 2: flag last, 3: long flag in the middle, -1: -- before the words
}

func withVerbose(args []string, v int) []string {
	switch v {
	case 1:
		return append([]string{"-v"}, args...)
	case 2:
		return append(append([]string{}, args...), "-v")
	case 3:
		return append(append([]string{args[0]}, "--verbose"), args[1:]...)
	case -1:
		return append(append([]string{args[0]}, "--"), args[1:]...)
	}
	return args
}

func checkCLI(cs cliCase) (string, string) {
	args := []string{cs.Lang}
	var words []string
	for _, w := range cs.Words {
		args = append(args, string(w))
		if w != "" {
			words = append(words, string(w))
		}
	}
	if len(cs.Words) == 0 {
		words = inputWords(string(cs.Stdin))
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	r, fail := tool("hangulize", dir, withVerbose(args, cs.Verbose), string(cs.Stdin))
	if fail != "" {
		return "", fail
	}
	spec, err := hangulize.LoadSpec(cs.Lang)
	if err != nil {
		if r.code == 0 {
			return "", sprintf("language %s is not supported, but the status is 0", q(cs.Lang))
		}
		return sprintf("%d %s", r.code, r.err), ""
	}
	return judgeWords(spec, words, cs.Verbose > 0, r)
}

// devCase is a run of the tool on a rule file.
type devCase struct {
	File    string // contents, or a special file: "missing", "directory"
	Stdin   Str
	Verbose int `json:",omitempty"`
}

func checkDev(cs devCase) (string, string) {
	dir := scratch()
	defer os.RemoveAll(dir)
	name := "x.hsl"
	putFile(dir, name, cs.File)
	r, fail := tool("hangulize", dir, withVerbose([]string{"dev", name}, cs.Verbose), string(cs.Stdin))
	if fail != "" {
		return "", fail
	}
	spec, err := hangulize.ParseSpec(strings.NewReader(cs.File))
	if err != nil || special[cs.File] {
		if r.code == 0 {
			return "", "the rule file is invalid, but the status is 0"
		}
		return sprintf("%d %s", r.code, r.err), ""
	}
	return judgeWords(spec, inputWords(string(cs.Stdin)), cs.Verbose > 0, r)
}

// badText has one code only.
const badText = "lang:\n    id = \"x\"\n    codes = \"x\"\n"

var special = map[string]bool{"missing": true, "directory": true}

func putFile(dir, name, text string) {
	p := filepath.Join(dir, name)
	if d, _ := filepath.Split(name); d != "" {
		if err := os.MkdirAll(dir+"/"+d, 0o755); err != nil { // as written: a/.. needs a
			panic(err)
		}
		if strings.HasPrefix(d, "a/") {
			os.MkdirAll(dir+"/a", 0o755)
		}
	}
	switch text {
	case "missing":
	case "directory":
		if err := os.Mkdir(p, 0o755); err != nil {
			panic(err)
		}
	default:
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
}

type cliNone struct{ Args []string }

// checkNone runs the tool without anything to do.
func checkNone(cs cliNone) (string, string) {
	dir := scratch()
	defer os.RemoveAll(dir)
	r, fail := tool("hangulize", dir, cs.Args, "")
	if fail != "" {
		return "", fail
	}
	if r.code == 0 {
		return "", sprintf("status 0 for %q", cs.Args)
	}
	return r.err, ""
}

func runC24(c *Ctx) {
	c.Rule("every list of up to 3 arguments over a set of words; every input text of up to 4 (thorough: 5) pieces over words, blanks and line ends; all examples of every bundled language; rule files valid, invalid, missing and failing; with and without traces; output, errors and status of the built tool compared with the library's; non-trivial: by output")
	c.Assume("the results of the library itself are decided by the other properties")
	n3 := func(al []string, max int) (out [][]Str) {
		for l := 1; l <= max; l++ {
			for _, ix := range seqs(len(al), l) {
				var ws []Str
				for _, k := range ix {
					ws = append(ws, Str(al[k]))
				}
				out = append(out, ws)
			}
		}
		return
	}
	var cases []cliCase
	for _, ws := range n3([]string{"gnocchi", "", "a b", " x ", "riso\n", "é", "ls"}, 3) {
		for v := 0; v < 4; v++ {
			if v == 0 || len(ws) < 3 {
				cases = append(cases, cliCase{Lang: "ita", Words: ws, Verbose: v})
			}
		}
	}
	for ch := rune(1); ch < 0x180; ch++ {
		w := Str(string(ch))
		if c.Quick() && ch >= 0x80 && ch%8 != 0 {
			continue
		}
		cases = append(cases, cliCase{Lang: "ita", Words: []Str{"riso", w, "riso"}}, cliCase{Lang: "ita", Stdin: "riso\n" + w + "a\n" + w})
	}
	for _, ws := range n3([]string{"-", "-v", "--", "--help", "-a"}, 2) {
		if len(ws) > 0 {
			cases = append(cases, cliCase{Lang: "ita", Words: ws, Verbose: -1})
		}
	}
	pieces := []string{"gnocchi", "x y", "\n", "\r\n", " ", "\t", "é", "\u3000", "\xff"}
	for _, s := range dedup(append(words(pieces, c.Pick(3, 5)), words(pieces[:6], c.Pick(4, 6))...)) {
		cases = append(cases, cliCase{Lang: "ita", Stdin: Str(s)})
	}
	for _, s := range words(pieces, 2) {
		for v := 1; v < 4; v++ {
			cases = append(cases, cliCase{Lang: "ita", Stdin: Str(s + "\ngnocchi\n" + s), Verbose: v})
		}
		cases = append(cases, cliCase{Lang: "ita", Words: []Str{"riso"}, Stdin: Str(s)})
	}
	ls, err := bundled()
	if err != nil {
		panic(err)
	}
	for _, l := range ls {
		var ex []Str
		for _, t := range l.raw.Test {
			if !strings.HasPrefix(t[0], "-") && strings.TrimSpace(t[0]) == t[0] && t[0] != "" {
				ex = append(ex, Str(t[0]))
			}
		}
		all := make([]string, len(ex))
		for i := range ex {
			all[i] = string(ex[i])
		}
		for v := 0; v < 3; v++ {
			cases = append(cases, cliCase{Lang: l.lang, Words: ex, Verbose: v},
				cliCase{Lang: l.lang, Stdin: Str(strings.Join(all, "\n")), Verbose: v},
				cliCase{Lang: l.lang, Stdin: Str(" " + strings.Join(all, "\t\r\n ") + "\n"), Verbose: v})
		}
	}
	for _, k := range []int{10, 100, 1000, 5000} {
		cases = append(cases, cliCase{Lang: "ita", Stdin: Str(strings.Repeat("riso\n", k))},
			cliCase{Lang: "ita", Stdin: Str(strings.Repeat("riso\n", k) + "\nriso")})
	}
	var many []Str
	for i := 0; i < 3000; i++ {
		many = append(many, Str([]string{"riso", "gnocchi", ""}[i%3]))
	}
	cases = append(cases, cliCase{Lang: "ita", Words: many})
	for _, lang := range []string{"xxx", "ITA", "ita ", "", "ita.hsl", "../specs/ita", "한국어"} {
		cases = append(cases, cliCase{Lang: lang, Words: []Str{"a"}}, cliCase{Lang: lang, Stdin: "a\n"})
	}
	c.Extra("runs_with_words", len(cases))
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[i], checkCLI) })

	one := &Worker{c: c, set: &localSet{c, map[uint64]struct{}{}}}
	for _, args := range [][]string{{}, {"-v"}, {"--nope"}, {"dev"}, {"dev", "a", "b"}, {"test"}, {"ita", "--nope", "x"}} {
		Run(one, cliNone{args}, checkNone)
	}
	one.set.flush()

	spec := rawSpec{Script: "Latn", Rewrite: [][2]string{{"a", "b"}, {"b", "c"}}, Transcribe: [][2]string{{"b", "ㅂ"}, {"c", "ㅊ"}, {"d", "ㄷ-"}}}
	fails := spec
	fails.Translit = []string{"nope"}
	withT := spec
	withT.Translit = []string{"cyrillic[ru]", "pinyin", "furigana"}
	files := []string{spec.hsl(), fails.hsl(), withT.hsl(), "missing", "directory", "", "lang:\n  id = \"x\n", "test:\n \"a\" -> \"b\"\n", "nope nope"}
	var devs []devCase
	for _, f := range files {
		for _, s := range words([]string{"abc", "d d", "\n", " ", "!", "я"}, 3) {
			devs = append(devs, devCase{File: f, Stdin: Str(s)})
			if len(s) < 5 {
				devs = append(devs, devCase{f, Str(s), 1}, devCase{f, Str(s), 2})
			}
		}
	}
	for _, k := range []int{4000, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 70000} {
		for _, f := range files[:2] {
			devs = append(devs, devCase{f, Str("a\n" + strings.Repeat("!", k) + "\nb\n"), 0}, devCase{f, Str(strings.Repeat(" ", k) + "a"), 0})
		}
	}
	c.Extra("runs_with_files", len(devs))
	c.Par(len(devs), func(w *Worker, i int) { Run(w, devs[i], checkDev) })
	c.Sample(cases[300])
	c.Sample(devs[30])
}

// ---- C25

// testFile is a rule file to test. Special texts are as for devCase.
type testCase struct {
	Files []testFile
	Args  []int    `json:",omitempty"` // order of the files, all in order by default
	Mode  int      // 0: plain, 1: --cover, 2: --coverprofile, 3: both, 4: to a directory
	Old   int      `json:",omitempty"` // length of an existing profile
	Names []string `json:",omitempty"`
}

type testFile struct {
	Text string
	Bad  bool `json:",omitempty"` // has an unknown translit
}

// verdict is what the model expects of a file.
type verdict struct {
	bad     bool // invalid
	fails   [][3]string
	errors  int
	rules   []ruleLine
	covered int
}

type ruleLine struct {
	line, width int
	hit         bool
}

// judgeFile tests a rule file with the model.
func judgeFile(f testFile) verdict {
	if special[f.Text] || f.Text == badText {
		return verdict{bad: true}
	}
	raw, lines := rawOf(f.Text)
	return judgeRaw(f, raw, lines)
}

func judgeRaw(f testFile, raw rawSpec, lines map[string][]bundledLine) (v verdict) {
	ref, err := raw.compile()
	if err != nil {
		return verdict{bad: true}
	}
	hits := [2]map[int]bool{{}, {}}
	for _, t := range raw.Test {
		w := t[0]
		var steps []refTrace
		failed := false
		for _, s := range raw.Translit {
			x := translitOf(s)
			if x == nil {
				failed = true
				break
			}
			out, err := x.Transliterate(w)
			if err != nil {
				panic(err)
			}
			w = out
			steps = append(steps, refTrace{"Transliterate", w, s, -1})
		}
		if failed {
			v.fails = append(v.fails, [3]string{t[0], "", t[1]})
			v.errors++
			continue
		}
		r := ref.run(t[0], steps)
		for _, x := range r.traces {
			switch x.Step {
			case "Rewrite":
				hits[0][x.Rule] = true
			case "Transcribe":
				hits[1][x.Rule] = true
			}
		}
		if r.word != t[1] {
			v.fails = append(v.fails, [3]string{t[0], r.word, t[1]})
		}
	}
	text := strings.Split(f.Text, "\n")
	for k, sec := range []string{"rewrite", "transcribe"} {
		for i, l := range lines[sec] {
			v.rules = append(v.rules, ruleLine{l.line, len(strings.TrimSuffix(text[l.line-1], "\r")), hits[k][i]})
			if hits[k][i] {
				v.covered++
			}
		}
	}
	return
}

func translitOf(scheme string) hangulize.Translit {
	if scheme == "pinyin" {
		return pinyin.T
	}
	if scheme == "furigana" {
		return furigana.T
	}
	for _, t := range cyrillic.Ts {
		if t.Scheme() == scheme {
			return t
		}
	}
	return nil
}

func checkTestRun(cs testCase) (string, string) {
	vs := make([]verdict, len(cs.Files))
	for i, f := range cs.Files {
		vs[i] = judgeFile(f)
	}
	return judgeTestRun(cs, vs)
}

func judgeTestRun(cs testCase, vs []verdict) (string, string) {
	dir := scratch()
	defer os.RemoveAll(dir)
	names := make([]string, len(cs.Files))
	for i, f := range cs.Files {
		names[i] = sprintf("f%d.hsl", i)
		if cs.Names != nil {
			names[i] = cs.Names[i]
		}
		putFile(dir, names[i], f.Text)
	}
	order := cs.Args
	if order == nil {
		for i := range cs.Files {
			order = append(order, i)
		}
	}
	profile := filepath.Join(dir, "profile")
	var args []string
	switch cs.Mode {
	case 1:
		args = []string{"test", "--cover"}
	case 2:
		args = []string{"test", "--coverprofile", profile}
	case 3:
		args = []string{"test", "--coverprofile=" + profile, "--cover"}
	case 4:
		args = []string{"test", "--coverprofile", dir}
	default:
		args = []string{"test"}
	}
	old := strings.Repeat("old\n", cs.Old)
	if cs.Old > 0 {
		putFile(dir, "profile", old)
	}
	for _, k := range order {
		args = append(args, names[k])
	}
	r, fail := tool("hangulize", dir, args, "")
	if fail != "" {
		return "", fail
	}
	bad, failed := false, false
	all := r.out + r.err
	var fails int
	rest := all
	for _, k := range order {
		v := vs[k]
		if v.bad {
			bad = true
			break // ends at the first file which is not valid
		}
		for _, f := range v.fails {
			failed = true
			fails++
			// The failing examples are named in order.
			for _, s := range []string{names[k], f[0], f[1], f[2]} {
				i := strings.Index(rest, s)
				if i < 0 {
					return "", sprintf("the failing example %q of %s is not named in order in %s", f, names[k], q(all))
				}
				rest = rest[i+len(s):]
			}
		}
	}
	if n := strings.Count(all, ", expected: "); n != fails {
		return "", sprintf("%d examples fail, %d are named in %s", fails, n, q(all))
	}
	if bad || failed || cs.Mode == 4 {
		if r.code == 0 {
			return "", sprintf("status 0 with %d failing examples, invalid file %v: %s", fails, bad, q(all))
		}
		if cs.Mode != 4 && cs.Old > 0 {
			if b, _ := os.ReadFile(profile); string(b) != old {
				return "", "the profile was written though the tests failed"
			}
		}
		return all, ""
	}
	if r.code != 0 {
		return "", sprintf("status %d though every example passes: %s", r.code, q(all))
	}
	if cs.Mode == 0 {
		if strings.Contains(all, "coverage") {
			return "", "coverage printed unasked: " + q(all)
		}
		return all, ""
	}
	// The coverage of the files, each counted once.
	total, covered := 0, 0
	want := []string{"mode: count"}
	seen := map[int]bool{}
	for _, k := range order {
		if seen[k] {
			continue
		}
		seen[k] = true
		total += len(vs[k].rules)
		covered += vs[k].covered
		for _, l := range vs[k].rules {
			hit := 0
			if l.hit {
				hit = 1
			}
			want = append(want, sprintf("%s:%d.1,%d.%d 1 %d", names[k], l.line, l.line, l.width+1, hit))
		}
	}
	i := strings.Index(all, "coverage: ")
	if i < 0 {
		return "", "no coverage in " + q(all)
	}
	if total > 0 {
		num, _, _ := strings.Cut(all[i+len("coverage: "):], "%")
		f, err := strconv.ParseFloat(num, 64)
		exact := 100 * float64(covered) / float64(total)
		if err != nil || f < exact-0.0501 || f > exact+0.0501 {
			return "", sprintf("coverage %s, but %d of %d rules are covered", q(num), covered, total)
		}
	}
	if cs.Mode >= 2 {
		b, err := os.ReadFile(profile)
		if err != nil {
			return "", "no profile: " + err.Error()
		}
		got := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if got[0] != want[0] {
			return "", "profile begins with " + q(got[0])
		}
		sort.Strings(got[1:])
		sort.Strings(want[1:])
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return "", sprintf("profile\n%s\nexpected (in any order)\n%s", string(b), strings.Join(want, "\n"))
		}
		return all + string(b), ""
	}
	return all, ""
}

// bundledTest tests a bundled file with one expected result altered.
type bundledTest struct {
	Lang  string
	Alter int // -1 none
	Mode  int
}

func checkBundledTest(cs bundledTest) (string, string) {
	text := readFile(specPath(cs.Lang))
	raw, lines := rawOf(text)
	f := testFile{Text: text}
	v := judgeRaw(f, raw, lines)
	return alteredTest(cs, f, raw, lines, v)
}

func alteredTest(cs bundledTest, f testFile, raw rawSpec, lines map[string][]bundledLine, v verdict) (string, string) {
	if len(v.fails) > 0 {
		return "", sprintf("the model fails %q of %s", v.fails[0], cs.Lang)
	}
	if cs.Alter >= 0 {
		t := raw.Test[cs.Alter]
		n := lines["test"][cs.Alter].line - 1
		ls := strings.Split(f.Text, "\n")
		i := strings.LastIndex(ls[n], hslQuote(t[1]))
		if i < 0 {
			return "", "" // written in another way
		}
		bad := t[1] + "ㅎ"
		ls[n] = ls[n][:i] + hslQuote(bad) + ls[n][i+len(hslQuote(t[1])):]
		f.Text = strings.Join(ls, "\n")
		v.fails = [][3]string{{t[0], t[1], bad}}
	}
	return judgeTestRun(testCase{Files: []testFile{f}, Mode: cs.Mode}, []verdict{v})
}

// testLayouts writes a spec in several ways.
func testLayouts(s rawSpec) []string {
	base := s.hsl()
	ls := strings.Split(base, "\n")
	out := []string{base, strings.TrimSuffix(base, "\n"), strings.ReplaceAll(base, "\n", "\r\n"), "# a\n\n" + strings.ReplaceAll(base, "\n", " # ->\n\n")}
	// transcribe before rewrite
	secs := map[string][]string{}
	var names []string
	for _, l := range ls {
		if strings.HasSuffix(l, ":") && !strings.HasPrefix(l, " ") {
			names = append(names, l)
		}
		if len(names) > 0 {
			secs[names[len(names)-1]] = append(secs[names[len(names)-1]], l)
		}
	}
	var rev []string
	for i := len(names) - 1; i >= 0; i-- {
		for _, l := range secs[names[i]] {
			if l != "" {
				rev = append(rev, l)
			}
		}
	}
	return append(out, strings.Join(rev, "\n")+"\n")
}

func runC25(c *Ctx) {
	c.Rule("every small rule file with up to 2 rules of each kind and up to 2 examples which pass or fail, in every layout, with and without coverage and an old profile; every sequence of up to 3 files which pass, fail, have errors or are invalid; every bundled file as it is and with one expected result altered; the tool's verdict, messages, coverage and profile compared with the model's; non-trivial: by output")
	c.Assume("the coverage of files without rules is left open")
	rw := [][2]string{{"a", "b"}, {"zz", "y"}, {"b", "c"}, {"a", "a"}}
	tr := [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}, {"zz", "ㅋ"}}
	pick := func(al [][2]string, max int) (out [][][2]string) {
		for l := 0; l <= max; l++ {
			for _, ix := range seqs(len(al), l) {
				var rs [][2]string
				for _, k := range ix {
					rs = append(rs, al[k])
				}
				out = append(out, rs)
			}
		}
		return
	}
	type exm struct {
		word string
		pass bool
	}
	exms := []exm{{"a", true}, {"a", false}, {"ab", true}, {"!", false}}
	empty := func(k int) bool { return k == 3 } // expected to be empty, but it is not
	var cases []testCase
	mk := func(r, t [][2]string, ix []int, bad bool) rawSpec {
		s := rawSpec{Script: "Latn", Rewrite: r, Transcribe: t}
		ref, err := s.compile()
		if err != nil {
			panic(err)
		}
		for _, k := range ix {
			res := ref.run(exms[k].word, nil).word
			if empty(k) && res != "" {
				res = ""
			} else if !exms[k].pass {
				res += "x"
			}
			if bad {
				res = [2]string{"", "x"}[k%2]
			}
			s.Test = append(s.Test, [2]string{exms[k].word, res})
		}
		if bad {
			s.Translit = []string{"nope"}
		}
		return s
	}
	max := c.Pick(2, 3)
	for _, r := range pick(rw, max) {
		for _, t := range pick(tr, 2) {
			for l := 0; l <= 2; l++ {
				for _, ix := range seqs(len(exms), l) {
					s := mk(r, t, ix, false)
					small := len(r) <= 1 && len(t) <= 1
					lay := testLayouts(s)
					if !small {
						lay = lay[:1]
					}
					for _, text := range lay {
						f := []testFile{{Text: text}}
						cases = append(cases, testCase{Files: f, Mode: 2, Old: len(cases) % 3 * 40})
						if small {
							cases = append(cases, testCase{Files: f, Mode: 0}, testCase{Files: f, Mode: 1}, testCase{Files: f, Mode: 3, Old: 50})
						}
					}
				}
			}
		}
	}
	// Words which fail.
	for l := 0; l <= 2; l++ {
		for _, ix := range seqs(len(exms), l) {
			for m := 0; m < 4; m++ {
				cases = append(cases, testCase{Files: []testFile{{mk(rw[:1], tr[:1], ix, true).hsl(), true}}, Mode: m, Old: 20})
			}
		}
	}
	// Several files.
	kinds := []testFile{
		{Text: mk(rw[:1], tr[:2], []int{0}, false).hsl()},
		{Text: mk(rw[1:3], tr[1:], []int{2}, false).hsl()},
		{Text: mk(rw[:2], tr[:1], []int{1, 3}, false).hsl()},
		{Text: mk(rw[:2], tr[:1], []int{0}, true).hsl(), Bad: true},
		{Text: mk(nil, nil, []int{2}, false).hsl()},
		{Text: badText},
		{Text: "missing"},
		{Text: "directory"},
	}
	for l := 1; l <= 3; l++ {
		for _, ix := range seqs(len(kinds), l) {
			// the same kind twice is the same file given twice
			var fs []testFile
			var order []int
			at := map[int]int{}
			for _, k := range ix {
				if _, ok := at[k]; !ok {
					at[k] = len(fs)
					fs = append(fs, kinds[k])
				}
				order = append(order, at[k])
			}
			for m := 0; m < 3; m++ {
				if l < 3 || m == 2 {
					cases = append(cases, testCase{Files: fs, Args: order, Mode: m, Old: 30 * (m % 2)})
				}
			}
		}
	}
	// Many rules, long lines and names.
	for _, k := range []int{10, 64, 65, 300, 2000} {
		var r, t [][2]string
		var ix []int
		for i := 0; i < k; i++ {
			r = append(r, [2]string{sprintf("a%d$", i), "b"})
			t = append(t, [2]string{sprintf("b%d$", i), "ㅂ"})
			ix = append(ix, 0)
		}
		cases = append(cases, testCase{Files: []testFile{{Text: mk(r, append(t, tr...), ix[:1], false).hsl()}}, Mode: 2},
			testCase{Files: []testFile{{Text: mk(append(r, rw...), t, ix, false).hsl()}}, Mode: 2, Old: 100000})
	}
	for _, k := range []int{4000, 4100, 65500, 65536, 70000} {
		s := mk([][2]string{{strings.Repeat("z", k), "y"}}, tr, []int{0}, false)
		cases = append(cases, testCase{Files: []testFile{{Text: s.hsl()}}, Mode: 2})
	}
	cases = append(cases, testCase{Files: kinds[:1], Mode: 4})
	// Names: the same one in several directories, odd ones.
	dirs := []string{"f.hsl", "a/f.hsl", "b/f.hsl", "a/b/f.hsl", "./g.hsl", "a/../h.hsl", "f", "f.hsl.hsl", "f.txt", "f 1.hsl", "한.hsl", "f:1.hsl", "f%d.hsl", "F.hsl"}
	for _, ix := range seqs(len(dirs), 2) {
		if ix[0] == ix[1] {
			continue
		}
		for _, k := range [][]int{{0, 1}, {4, 0}, {0, 0}, {1, 4}, {0, 2}} {
			cases = append(cases, testCase{Files: []testFile{kinds[k[0]], kinds[k[1]]}, Mode: 2 - len(cases)%2*2, Names: []string{dirs[ix[0]], dirs[ix[1]]}})
			if k[1] != 2 {
				cases = append(cases, testCase{Files: []testFile{kinds[k[0]], kinds[k[1]]}, Mode: 2, Names: []string{dirs[ix[0]], dirs[ix[1]]}})
			}
		}
	}
	c.Extra("runs", len(cases))
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[i], checkTestRun) })

	ls, err := bundled()
	if err != nil {
		panic(err)
	}
	var alter []bundledTest
	type known struct {
		f     testFile
		lines map[string][]bundledLine
		v     verdict
	}
	vs := make([]known, len(ls))
	for i, l := range ls {
		f := testFile{Text: readFile(specPath(l.lang))}
		_, lines := rawOf(f.Text)
		vs[i] = known{f, lines, judgeRaw(f, l.raw, lines)}
	}
	var at []int
	for i, l := range ls {
		for m := 0; m < 4; m++ {
			alter, at = append(alter, bundledTest{l.lang, -1, m}), append(at, i)
		}
		for k := range l.raw.Test {
			if !c.Quick() || k == 0 || k == len(l.raw.Test)/2 || k == len(l.raw.Test)-1 {
				alter, at = append(alter, bundledTest{l.lang, k, k % 3}), append(at, i)
			}
		}
	}
	c.Extra("runs_of_bundled_files", len(alter))
	c.Par(len(alter), func(w *Worker, i int) {
		Run(w, alter[i], func(cs bundledTest) (string, string) {
			k := at[i]
			return alteredTest(cs, vs[k].f, ls[k].raw, vs[k].lines, vs[k].v)
		})
	})
	// All of them at once.
	one := &Worker{c: c, set: &localSet{c, map[uint64]struct{}{}}}
	Run(one, allTest{}, func(allTest) (string, string) {
		var cs testCase
		var v []verdict
		for i := range vs {
			cs.Files = append(cs.Files, vs[i].f)
			v = append(v, vs[i].v)
		}
		cs.Mode = 2
		return judgeTestRun(cs, v)
	})
	one.set.flush()
	c.Sample(cases[40])
	c.Sample(alter[len(alter)/2])
}

type allTest struct{}

func checkAllTest(allTest) (string, string) {
	ls, err := bundled()
	if err != nil {
		return "", err.Error()
	}
	var cs testCase
	for _, l := range ls {
		cs.Files = append(cs.Files, testFile{Text: readFile(specPath(l.lang))})
	}
	cs.Mode = 2
	return checkTestRun(cs)
}

// ---- C26

// A set of bundled rule files: 0 for those of the repository, n for the n-th one
// for which the tools have been built again.
type lsCase struct {
	Files []string
	Set   int   `json:",omitempty"`
	Args  []int `json:",omitempty"` // the files given, each one once by default
}

func setTool(name string, set int) string {
	if set > 0 {
		return sprintf("set%d/%s", set-1, name)
	}
	return name
}

func setFiles(set int) []string {
	if set == 0 {
		return specFiles()
	}
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_WORK"), sprintf("set%d", set-1), "specs", "*.hsl"))
	sort.Strings(fs)
	return fs
}

func listRow(s rawSpec) string {
	return strings.Join(strings.Fields(strings.Join([]string{s.ID, s.Stage, s.English, s.Korean}, " ")), " ")
}

func checkLs(cs lsCase) (string, string) {
	dir := scratch()
	defer os.RemoveAll(dir)
	args := []string{"ls"}
	var want []string
	for i, f := range cs.Files {
		putFile(dir, sprintf("f%d.hsl", i), f)
	}
	given := cs.Args
	if given == nil {
		for i := range cs.Files {
			given = append(given, i)
		}
	}
	for _, i := range given {
		f := cs.Files[i]
		args = append(args, sprintf("f%d.hsl", i))
		if special[f] || f == badText {
			continue
		}
		if _, err := hangulize.ParseSpec(strings.NewReader(f)); err == nil {
			raw, _ := rawOf(f)
			want = append(want, listRow(raw))
		}
	}
	sorted := len(cs.Files) == 0
	if sorted {
		for _, f := range setFiles(cs.Set) {
			raw, _ := rawOf(readFile(f))
			if raw.ID != langOf(f) {
				return "", sprintf("%s has the identifier %s", f, raw.ID)
			}
			want = append(want, listRow(raw))
		}
	}
	r, fail := tool(setTool("hangulize", cs.Set), dir, args, "")
	if fail != "" {
		return "", fail
	}
	if r.code != 0 {
		return "", sprintf("status %d: %s", r.code, r.err)
	}
	all := r.out + r.err
	lines := strings.Split(strings.TrimSuffix(all, "\n"), "\n")
	var got []string
	for _, l := range lines[1:] {
		got = append(got, strings.Join(strings.Fields(l), " "))
	}
	if !strings.Contains(lines[0], "LANG") {
		return "", "no heading in " + q(all)
	}
	if sorted {
		sort.Strings(got)
		sort.Strings(want)
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		return "", sprintf("listed %q, expected %q", got, want)
	}
	return all, ""
}

type manifestCase struct {
	Set int `json:",omitempty"`
}

func checkManifest(cs manifestCase) (string, string) {
	dir := scratch()
	defer os.RemoveAll(dir)
	r, fail := tool(setTool("manifest", cs.Set), dir, nil, "")
	if fail != "" {
		return "", fail
	}
	if r.code != 0 {
		return "", sprintf("status %d: %s", r.code, r.err)
	}
	type exm struct{ Word, Result string }
	type entry struct {
		Lang struct {
			ID, Code2, Code3, English, Korean, Script string
			Translit                                  []string
		}
		Config struct {
			Authors []string
			Stage   string
		}
		Test []exm
	}
	var m struct {
		Version   *string
		Specs     map[string]entry
		Translits []string
	}
	// A repeated key would be lost in a map.
	dec := json.NewDecoder(strings.NewReader(r.out))
	if err := dec.Decode(&m); err != nil {
		return "", "not JSON: " + err.Error()
	}
	if dec.More() || m.Version == nil {
		return "", "unexpected form of the manifest"
	}
	var want, got []string
	schemes := map[string]bool{}
	for _, f := range setFiles(cs.Set) {
		s, _ := rawOf(readFile(f))
		e := entry{}
		e.Lang.ID, e.Lang.Code2, e.Lang.Code3, e.Lang.English, e.Lang.Korean, e.Lang.Script, e.Lang.Translit = s.ID, s.Codes1, s.Codes2, s.English, s.Korean, s.Script, s.Translit
		e.Config.Authors, e.Config.Stage = s.Authors, s.Stage
		for _, t := range s.Test {
			e.Test = append(e.Test, exm{t[0], t[1]})
		}
		want = append(want, langOf(f)+" "+sprintf("%q", e))
		for _, t := range s.Translit {
			schemes[t] = true
		}
	}
	for k, e := range m.Specs {
		got = append(got, k+" "+sprintf("%q", e))
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			return "", sprintf("manifest has %s, expected %s", g, want[i])
		}
	}
	if len(got) != len(want) {
		return "", sprintf("manifest has %s as well", got[len(want)])
	}
	sort.Strings(m.Translits)
	if a, b := sprintf("%q", m.Translits), sprintf("%q", sortedKeys(schemes)); a != b {
		return "", sprintf("translits %s, expected %s", a, b)
	}
	return r.out, ""
}

func runC26(c *Ctx) {
	c.Rule("the list of all bundled languages and the manifest, compared with an independent reading of the rule files; every sequence of up to 4 (thorough: 5) files valid, invalid, missing; every bundled file alone, in pairs with an invalid one; non-trivial: by output")
	full := rawSpec{ID: "aa", English: "Alpha Beta", Korean: "알파", Script: "Latn", Stage: "draft", Authors: []string{"A", "B"}, Codes1: "aa", Codes2: "aaa"}
	other := full
	other.ID, other.Stage, other.Translit, other.English = "b", "", []string{"nope"}, strings.Repeat("Long ", 12)
	other.Korean = strings.Repeat("긴 ", 20)
	kinds := []string{full.hsl(), other.hsl(), rawSpec{Script: "Cyrl"}.hsl(), "lang:\n id = \"x", "missing", "directory", badText, "", "config:\n  stage = \"no language\"\n"}
	var cases []lsCase
	cases = append(cases, lsCase{})
	for l := 1; l <= c.Pick(4, 5); l++ {
		for _, ix := range seqs(len(kinds), l) {
			var fs []string
			for _, k := range ix {
				fs = append(fs, kinds[k])
			}
			cases = append(cases, lsCase{Files: fs})
		}
	}
	var all []string
	for _, f := range specFiles() {
		t := readFile(f)
		all = append(all, t)
		cases = append(cases, lsCase{Files: []string{t}}, lsCase{Files: []string{"missing", t, badText}}, lsCase{Files: []string{t, t}})
	}
	// The same file given several times.
	for _, ix := range append(seqs(2, 2), seqs(2, 3)...) {
		cases = append(cases, lsCase{Files: kinds[:2], Args: ix})
	}
	// Texts wider than the columns.
	for k := 0; k < 4; k++ {
		for _, n := range []int{1, 7, 8, 9, 10, 16, 23, 24, 25, 26, 31, 32, 33, 48, 63, 64, 65, 80, 100, 200} {
			for _, letter := range []string{"x", "é", "긴", "x "} {
				wide := full
				v := strings.TrimSpace(strings.Repeat(letter, n)) + "y"
				switch k {
				case 0:
					wide.ID = v
				case 1:
					wide.Stage = v
				case 2:
					wide.English = v
				case 3:
					wide.Korean = v
				}
				cases = append(cases, lsCase{Files: []string{wide.hsl(), kinds[0]}})
			}
		}
	}
	cases = append(cases, lsCase{Files: all}, lsCase{Files: append(append([]string{}, all...), all...)})
	var many []string
	for i := 0; i < 600; i++ {
		many = append(many, kinds[i%len(kinds)])
	}
	cases = append(cases, lsCase{Files: many})
	c.Extra("lists", len(cases))
	c.Par(len(cases), func(w *Worker, i int) { Run(w, cases[i], checkLs) })
	c.Rule("the list and the manifest of the tools built again with other bundled files: one language, several with names of other orders, and every combination of lists of translits, authors, stages and examples")
	n := 0
	for len(setFiles(n)) > 0 {
		n++
	}
	c.Extra("bundles", n)
	c.Par(16, func(w *Worker, i int) { Run(w, manifestCase{}, checkManifest) })
	c.Par(4*n-4, func(w *Worker, i int) {
		Run(w, manifestCase{1 + i/4}, checkManifest)
		Run(w, lsCase{Set: 1 + i/4}, checkLs)
	})
	c.Sample(cases[60])
}

func init() {
	kind(checkCLI)
	kind(checkDev)
	kind(checkNone)
	kind(checkTestRun)
	kind(checkBundledTest)
	kind(checkAllTest)
	kind(checkLs)
	kind(checkManifest)
	register(&Prop{ID: "C24", Level: "exploration", Run: runC24})
	register(&Prop{ID: "C25", Level: "exploration", Run: runC25})
	register(&Prop{ID: "C26", Level: "exploration", Run: runC26})
}
