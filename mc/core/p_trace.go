package main

import (
	"strings"

	"github.com/hangulize/hangulize"
)

// histTrace is a history of trace settings and calls: "0" removes the trace
// function, "1" and "2" set one, "3" one which transcribes, "4" one which takes
// itself away, "5" one which puts the first in its place, "6" one which uses
// the hangulizer, "a", "b", "c" transcribe a word.
type histTrace struct {
	Lang string
	Ops  string
}

var histWords = map[byte]string{'a': "Cappuccino bianco", 'b': "gli 1 ghi", 'c': ""}

type logged struct {
	fn int
	t  refTrace
}

func checkHistTrace(cs histTrace) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) {
		h := hangulize.New(r.spec)
		other := hangulize.New(r.spec)
		for _, t := range r.ts {
			h.UseTranslit(t)
		}
		var log, wantLog []logged
		var otherLog int
		other.Trace(func(hangulize.Trace) { otherLog++ })
		set := 0
		for i := 0; i < len(cs.Ops); i++ {
			switch op := cs.Ops[i]; op {
			case '0':
				h.Trace(nil)
				set = 0
			case '1', '2', '3', '4', '5', '6':
				k := int(op - '0')
				fn := func(k int) func(t hangulize.Trace) {
					return func(t hangulize.Trace) {
						log = append(log, logged{k, tracesText([]hangulize.Trace{t})[0]})
					}
				}
				h.Trace(func(t hangulize.Trace) {
					fn(k)(t)
					switch k {
					case 3:
						// a traced function may use the library itself
						hangulize.New(h.Spec()).Hangulize("riso")
					case 4:
						h.Trace(nil)
					case 5:
						h.Trace(fn(1))
					case 6:
						for s := range h.Translits() {
							if !h.UnuseTranslit(s) {
								panic("the translit is not there")
							}
						}
						for _, t := range r.ts {
							h.UseTranslit(t)
						}
						hangulize.LoadSpec(cs.Lang)
					}
				})
				set = k
			default:
				w := histWords[op]
				want, _ := r.want(w)
				got, err := h.Hangulize(w)
				if err != nil || got != want.word {
					return "", sprintf("after %s, Hangulize(%s) = %s, %v, expected %s", cs.Ops[:i], q(w), q(got), err, q(want.word))
				}
				if set != 0 {
					for _, t := range want.traces {
						wantLog = append(wantLog, logged{set, t})
					}
					// What a function changes goes for the calls to come.
					if len(want.traces) > 0 && set == 4 {
						set = 0
					} else if len(want.traces) > 0 && set == 5 {
						set = 1
					}
				}
			}
			if len(log) != len(wantLog) {
				return "", sprintf("after %s: %d events %+v, expected %d %+v", cs.Ops[:i+1], len(log), log, len(wantLog), wantLog)
			}
			for j := range log {
				if log[j] != wantLog[j] {
					return "", sprintf("after %s: event %d is %+v, expected %+v", cs.Ops[:i+1], j, log[j], wantLog[j])
				}
			}
			if otherLog != 0 {
				return "", sprintf("after %s: another hangulizer's function got an event", cs.Ops[:i+1])
			}
		}
		return sprintf("%d %d %c", len(log), set, cs.Ops[len(cs.Ops)-1]), ""
	})
}

func checkBundledTrace(cs bundledTrace) (string, string) {
	return withBundled(cs.Lang, func(r *bundledReal) (string, string) { return r.checkTrace(string(cs.Word)) })
}

func (r *bundledReal) checkTrace(word string) (string, string) {
	want, fail := r.want(word)
	if fail != "" {
		return "", fail
	}
	h := hangulize.New(r.spec)
	for _, t := range r.ts {
		h.UseTranslit(t)
	}
	return compareTrace(h, r.spec, want, word)
}

func init() {
	kind(checkHistTrace)
	kind(checkBundledTrace)
	register(&Prop{ID: "C16", Level: "exploration", Run: func(c *Ctx) {
		c.Rule("every history of setting, replacing and removing the trace function between calls and from within one, up to a length; the C08 specs x words; the bundled languages on their examples and one-edit variants: events compared one by one with the model's; non-trivial: by list of events")
		c.Assume("words with a NUL are excluded, since a NUL is printed as the mark of a transcribed letter")
		var hist []histTrace
		for l := 1; l <= c.Pick(5, 6); l++ {
			for _, ix := range seqs(c.Pick(8, 9), l) {
				b := make([]byte, l)
				for i, k := range ix {
					b[i] = "01a45b632"[k]
				}
				if b[l-1] >= 'a' {
					hist = append(hist, histTrace{"ita", string(b)})
				}
			}
		}
		for _, lang := range []string{"rus", "jpn", "nld"} {
			for _, ix := range seqs(9, 3) {
				b := []byte{"0123456ac"[ix[0]], "0123456ac"[ix[1]], "0123456ac"[ix[2]]}
				hist = append(hist, histTrace{lang, string(b)})
			}
		}
		c.Par(len(hist), func(w *Worker, i int) { Run(w, hist[i], checkHistTrace) })
		c.Extra("histories", len(hist))

		big := bigSpecs()
		c.Par(len(big), func(w *Worker, i int) { Run(w, traceCase(big[i]), checkTrace) })

		eachBundled(c, func(l *bundledLang) []string {
			var ws []string
			for i, t := range l.raw.Test {
				ws = append(ws, t[0])
				if c.Quick() && i%8 != 0 {
					continue
				}
				ws = append(ws, edits(t[0], []string{"'", "1"})...)
			}
			return dedup(ws)
		}, func(w *Worker, r *bundledReal, ws []string) {
			for _, wd := range ws {
				if strings.ContainsRune(wd, 0) {
					continue
				}
				Run(w, bundledTrace{r.lang, Str(wd)}, func(bundledTrace) (string, string) { return r.checkTrace(wd) })
			}
		})

		specs := spread(pipeSpecs(true), c.Pick(6000, 1000000))
		wds := spread(pipeWords(true), c.Pick(300, 100000))
		c.Extra("specs", len(specs))
		c.Extra("words", len(wds))
		eachSpec(c, specs, func(w *Worker, raw rawSpec, spec *hangulize.Spec, ref *refSpec) {
			h := hangulize.New(spec)
			for _, wd := range wds {
				Run(w, traceCase{raw, Str(wd)}, func(traceCase) (string, string) { return runTrace(h, spec, ref, wd) })
			}
		})
		c.Sample(hist[len(hist)/2])
	}})
}
