package main

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/mattn/go-runewidth"
)

// fmtTrace is a trace to print. Rule 0 is none.
type fmtTrace struct {
	Step string
	Word Str
	Why  string
	Rule int
}

type fmtCase struct{ Traces []fmtTrace }

// fmtLang prints the traces of words of a bundled language.
type fmtLang struct {
	Lang string
	Word Str
}

var fmtRules = sync.OnceValue(func() []hangulize.Rule {
	spec, err := hangulize.ParseSpec(strings.NewReader("lang:\n id = \"x\"\n codes = \"x\", \"xxx\"\n english = \"X\"\n korean = \"X\"\n script = \"Latn\"\nconfig:\n stage = \"\"\n author = \"\"\nrewrite:\n \"a\" -> \"b\"\n \"^k{e|i}\" -> \"%\", \"x\"\n"))
	if err != nil {
		panic(err)
	}
	return spec.Rewrite
})

func (t fmtTrace) real() hangulize.Trace {
	x := hangulize.Trace{Step: t.Step, Word: string(t.Word), Why: t.Why}
	if t.Rule > 0 {
		r := fmtRules()[t.Rule-1]
		x.Rule = &r
	}
	return x
}

// simpleWidth is the display width, for letters of well known widths.
func simpleWidth(s string) (int, bool) {
	n := 0
	for _, r := range s {
		switch {
		case r >= 0x20 && r < 0x7f:
			n++
		case r >= 0xac00 && r <= 0xd7a3, r >= 0x4e00 && r < 0x9fff, r >= 0x3041 && r <= 0x3096, r >= 0x30a1 && r <= 0x30ff:
			n += 2
		case r >= 0x300 && r < 0x370:
		default:
			return 0, false
		}
	}
	return n, true
}

// checkPrinted compares printed traces with the list.
func checkPrinted(out string, ts []hangulize.Trace) string {
	rest := out
	step := ""
	widest, column := 0, -1
	take := func(s string) bool {
		var ok bool
		rest, ok = strings.CutPrefix(rest, s)
		return ok
	}
	for i, t := range ts {
		if t.Step != step {
			step = t.Step
			if !take("[" + step + "]\n") {
				return sprintf("no heading %q before trace %d", step, i)
			}
		}
		if !take("  " + t.Word) {
			return sprintf("no word %q of trace %d", t.Word, i)
		}
		pad := len(rest) - len(strings.TrimLeft(rest, " "))
		rest = rest[pad:]
		tail := ""
		if t.Rule != nil {
			tail = "\"" + t.Rule.From.String() + "\" -> \"" + t.Rule.To.String() + "\""
		} else if t.Why != "" {
			tail = "(" + t.Why + ")"
		}
		if tail != "" {
			if !take("| " + tail) {
				return sprintf("no reason %q of trace %d", tail, i)
			}
			if pad == 0 {
				return sprintf("nothing between word and reason of trace %d", i)
			}
			w, ok := simpleWidth(t.Word)
			if !ok {
				w = runewidth.StringWidth(t.Word)
			}
			col := w + pad
			if w > widest {
				widest, column = w, col
			} else if column < 0 {
				column = col
			} else if col != column {
				return sprintf("reason of trace %d at column %d, not at %d", i, col, column)
			}
		}
		// A word without a reason may set the column as well.
		if w := runewidth.StringWidth(t.Word); tail == "" && w > widest {
			widest, column = w, -1
		}
		if !take("\n") {
			return sprintf("no line end after trace %d", i)
		}
	}
	if rest != "" {
		return sprintf("%q after the last trace", rest)
	}
	return ""
}

type badWriter struct{ n int }

func (b *badWriter) Write(p []byte) (int, error) {
	if b.n--; b.n < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func checkFmt(cs fmtCase) (string, string) {
	ts := make([]hangulize.Trace, len(cs.Traces))
	for i, t := range cs.Traces {
		ts[i] = t.real()
	}
	return printedOK(ts)
}

func printedOK(ts []hangulize.Trace) (string, string) {
	var b bytes.Buffer
	tracefmt.FprintTraces(&b, ts)
	if f := checkPrinted(b.String(), ts); f != "" {
		return "", sprintf("%s in\n%s", f, b.String())
	}
	return b.String(), ""
}

func checkFmtLang(cs fmtLang) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) { return r.printed(string(cs.Word)) })
}

func (r *bundledReal) printed(word string) (string, string) {
	h := hangulize.New(r.spec)
	for _, t := range r.ts {
		h.UseTranslit(t)
	}
	var ts []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { ts = append(ts, t) })
	if _, err := h.Hangulize(word); err != nil {
		return "", err.Error()
	}
	return printedOK(ts)
}

// fmtStdout prints on the standard output and on failing writers.
type fmtStdout struct{ N, FailAt int }

func checkFmtStdout(cs fmtStdout) (string, string) {
	var ts []hangulize.Trace
	for i := 0; i < cs.N; i++ {
		ts = append(ts, fmtTrace{Step: []string{"A", "B"}[i/2%2], Word: Str(strings.Repeat("가", i)), Why: "w"}.real())
	}
	if cs.FailAt >= 0 {
		tracefmt.FprintTraces(&badWriter{cs.FailAt}, ts)
		return sprintf("%d", cs.FailAt), ""
	}
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		return "", err.Error()
	}
	os.Stdout = w
	got := make(chan string)
	go func() { b, _ := io.ReadAll(r); got <- string(b) }()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		tracefmt.PrintTraces(ts)
	}()
	out := <-got
	r.Close()
	if f := checkPrinted(out, ts); f != "" {
		return "", f + " in\n" + out
	}
	return out, ""
}

func init() {
	kind(checkFmt)
	kind(checkFmtLang)
	kind(checkFmtStdout)
	register(&Prop{ID: "C27", Level: "exploration", Run: func(c *Ctx) {
		c.Rule("every sequence of traces up to a length over steps, words of every width class and rule or reason, every sequence of widths up to a length, the traces of every bundled example; printed text parsed back into the list, columns measured by display width; every failure position of a writer; non-trivial: by printed text")
		ws := []string{"", "a", "abcdefg", "abcdefgh", "abcdefghi", "가", "가나다", "가나다라", "가나다라a", strings.Repeat("漢", 8), strings.Repeat("x", 17), "e\u0301", " b ", "a\nb", "a|b", "a | (w)", "%s%d%%", "[A]"}
		var atoms []fmtTrace
		for _, s := range []string{"A", "B"} {
			for _, w := range ws {
				for k := 0; k < 4; k++ {
					if w == " b " && k == 0 {
						continue
					}
					t := fmtTrace{s, Str(w), "", 0}
					if k&1 > 0 {
						t.Why = "why % d"
					}
					if k&2 > 0 {
						t.Rule = 1 + len(w)%2
					}
					atoms = append(atoms, t)
				}
			}
		}
		c.Extra("trace_kinds", len(atoms))
		n := len(atoms)
		c.Par(n*n, func(w *Worker, i int) {
			a, b := atoms[i/n], atoms[i%n]
			Run(w, fmtCase{[]fmtTrace{a}}, checkFmt)
			Run(w, fmtCase{[]fmtTrace{a, b}}, checkFmt)
			for _, x := range atoms {
				Run(w, fmtCase{[]fmtTrace{a, b, x}}, checkFmt)
			}
		})
		Run(&Worker{c: c, set: &localSet{c, map[uint64]struct{}{}}}, fmtCase{}, checkFmt)
		// The steps of the procedure, in every order.
		steps := []string{"Input", "Transliterate", "Normalize", "Rewrite", "Transcribe", "Syllabify", "Localize", "x"}
		sk := seqs(len(steps)*4, 3)
		c.Par(len(sk), func(w *Worker, i int) {
			var cs fmtCase
			for j, x := range sk[i] {
				cs.Traces = append(cs.Traces, fmtTrace{steps[x/4], Str([]string{"gloria", "글로리아", "가"}[(j+x)%3]), []string{"", "Latn"}[x&1], x & 2})
			}
			Run(w, cs, checkFmt)
		})
		// Widths.
		wide := func(k, kind int) Str {
			switch kind {
			case 1:
				return Str(strings.Repeat("가", k/2) + strings.Repeat("a", k%2))
			case 2:
				return Str(strings.Repeat("e\u0301", k))
			}
			return Str(strings.Repeat("a", k))
		}
		widths := []int{0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 24, 25}
		l := c.Pick(4, 6)
		sq := seqs(len(widths), l)
		c.Par(len(sq), func(w *Worker, i int) {
			for k := 0; k < 3; k++ {
				var cs fmtCase
				for j, x := range sq[i] {
					cs.Traces = append(cs.Traces, fmtTrace{[]string{"A", "B"}[j*2/l], wide(widths[x], k), "w", 0})
				}
				Run(w, cs, checkFmt)
			}
		})
		// Sizes.
		c.Par(400, func(w *Worker, k int) {
			for kind := 0; kind < 3; kind++ {
				Run(w, fmtCase{[]fmtTrace{{"A", wide(k, kind), "w", 0}, {"A", "a", "w", 0}, {"B", wide(k/2, 0), "w", 0}}}, checkFmt)
				var up, down fmtCase
				for j := 0; j < k; j++ {
					up.Traces = append(up.Traces, fmtTrace{sprintf("S%d", j/7), wide(j, kind), "w", 0})
					down.Traces = append(down.Traces, fmtTrace{sprintf("S%d", j/5), wide(k-j, kind), "w", j % 3})
				}
				Run(w, up, checkFmt)
				Run(w, down, checkFmt)
			}
		})
		// Very long words, reasons and lists; reasons of every form.
		for _, k := range []int{1000, 1025, 4100, 33000, 70000} {
			x := strings.Repeat("x", k)
			var many fmtCase
			for j := 0; j < k/10; j++ {
				many.Traces = append(many.Traces, fmtTrace{[]string{"A", "B"}[j/50%2], wide(j%30, j%3), "w", j % 3})
			}
			cs := []fmtCase{many, {[]fmtTrace{{"A", Str(x), "w", 0}, {"A", "a", "w", 0}}}, {[]fmtTrace{{"A", "a", x, 0}, {"A", Str(x), "", 1}, {"A", "ab", "w", 2}}}, {[]fmtTrace{{x, "a", "w", 0}, {x, "b", "", 0}, {"x", "b", "", 0}}}}
			c.Par(len(cs), func(w *Worker, i int) { Run(w, cs[i], checkFmt) })
		}
		whys := []string{" ", "a\nb", "(w)", "|", "%d", "\x00", "가", "\xff", "\"a\" -> \"b\"", "\t", "  w  ", "\u200b", "\\"}
		c.Par(len(whys)*len(whys), func(w *Worker, i int) {
			a, b := whys[i%len(whys)], whys[i/len(whys)]
			Run(w, fmtCase{[]fmtTrace{{"A", "ab", a, 0}, {"A", "a", b, 0}, {"B", "a", b, 1}}}, checkFmt)
			Run(w, fmtCase{[]fmtTrace{{a, "ab", "w", 0}, {b, "a", "w", 0}, {b, "a", b, 0}}}, checkFmt)
		})
		// Every letter alone.
		c.Par(0x20000/256, func(w *Worker, i int) {
			for r := rune(i * 256); r < rune(i*256+256); r++ {
				if !utf8.ValidRune(r) || unicode.IsSpace(r) {
					continue
				}
				Run(w, fmtCase{[]fmtTrace{{"A", "abcdefghijk", "w", 0}, {"A", Str(string(r)), "w", 0}, {"A", Str("a" + string(r) + "b"), "w", 1}}}, checkFmt)
			}
		})
		eachBundled(c, func(l *bundledLang) []string {
			var ws []string
			for _, t := range l.raw.Test {
				ws = append(ws, t[0], t[0]+" "+t[0])
			}
			return dedup(ws)
		}, func(w *Worker, r *bundledReal, ws []string) {
			for _, wd := range ws {
				Run(w, fmtLang{r.lang, Str(wd)}, func(fmtLang) (string, string) { return r.printed(wd) })
			}
		})
		one := &Worker{c: c, set: &localSet{c, map[uint64]struct{}{}}}
		for k := 0; k < 40; k++ {
			Run(one, fmtStdout{k, -1}, checkFmtStdout)
			for f := 0; f < 60; f++ {
				Run(one, fmtStdout{k, f}, checkFmtStdout)
			}
		}
		one.set.flush()
		c.Sample(fmtCase{[]fmtTrace{atoms[5], atoms[40], atoms[60]}})
	}})
}
