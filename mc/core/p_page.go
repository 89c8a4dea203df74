package main

// The web application's page, explored by js/page.js.

import (
	"strings"
	"sync/atomic"

	"github.com/hangulize/hangulize"
)

// pageJob is one exploration: every order of the events of what a user does.
type pageJob struct {
	Start  string         `json:"start"` // the address which is opened
	Acts   [][]any        `json:"acts"`
	Specs  map[string]any `json:"specs"`
	Specs2 map[string]any `json:"specs2,omitempty"` // those of the worker, if they are others
	Errors bool           `json:"errors,omitempty"` // calls may fail
	Late   bool           `json:"late,omitempty"`   // the worker's version and specs arrive at any time
	Random int            `json:"random"`           // what is drawn
	Fits   []int          `json:"fits,omitempty"`   // the largest sizes which fit
	Once   bool           `json:"once,omitempty"`   // try the search
	Flags  bool           `json:"flags,omitempty"`
	Prefix []string       `json:"prefix,omitempty"`
	MS     int            `json:"ms,omitempty"`
}

func checkPage(j pageJob) (string, string) {
	o, _, f := runPage(j)
	return o, f
}

func runPage(j pageJob) (string, webReport, string) {
	if j.Acts == nil {
		j.Acts = [][]any{}
	}
	var r webReport
	if f := ask("page", j, &r); f != "" {
		panic(f)
	}
	if r.Harness != "" {
		panic(r.Harness)
	}
	if r.Fail != "" {
		return "", r, sprintf("after %s: %s", strings.Join(r.Path, ", "), r.Fail)
	}
	return sprintf("%v %d %d", j.Acts, r.Paths, r.States), r, ""
}

func init() {
	kind(checkPage)
	register(&Prop{ID: "C30", Level: "model_checking", Run: runPageProp})
}

func pageSpec(id, code2, code3, english, korean string, words ...string) map[string]any {
	tests := []any{}
	for _, w := range words {
		tests = append(tests, map[string]any{"word": w, "result": "x"})
	}
	return map[string]any{"test": tests, "lang": map[string]any{"id": id, "code2": code2, "code3": code3, "english": english, "korean": korean, "script": "latin", "translit": []any{}}}
}

func runPageProp(c *Ctx) {
	// Languages without examples, with some and with more than are shown;
	// words and identifiers which an address has to escape, words without a
	// result (they begin with e).
	specs := map[string]any{
		"ita": pageSpec("ita", "it", "ita", "Italian", "이탈리아어", "gloria", "a&b"),
		"deu": pageSpec("deu", "de", "deu", "German", "독일어"),
		"fra": pageSpec("fra", "fr", "fra", "French", "프랑스어", "c+d", "e#f%41", "%", "ñ ö", "p", "q=?"),
		"kat": pageSpec("kat", "ka", "kat", "Georgian", "조지아어", "lone"),
	}
	// The worker knows more languages than the manifest, and other names.
	more := map[string]any{
		"aaa": pageSpec("aaa", "aa", "aaa", "Afar", "가가어", "new"),
		"zzz": pageSpec("zzz", "zz", "zzz", "Zaza", "힣어"),
	}
	for k, s := range specs {
		more[k] = s
	}
	more["fra"] = pageSpec("fra", "fr", "fra", "French", "불어", "c+d", "e#f%41", "%", "ñ ö", "p", "q=?")
	var jobs []pageJob
	add := func(start string, acts [][]any, opt func(*pageJob)) {
		j := pageJob{Start: start, Acts: acts, Specs: specs}
		if opt != nil {
			opt(&j)
		}
		jobs = append(jobs, j)
	}
	alphabet := [][]any{
		{"word", "y"}, {"lang", "fra"}, {"word", "e1"}, {"example", 1}, {"go", "?lang=fra"}, {"back", 0}, {"word", " "}, {"lang", "deu"},
		{"word", ""}, {"word", "a&b=c+%41#x"}, {"go", "?lang=deu&word=z"}, {"go", ""}, {"shuffle", 0}, {"resize", 0}, {"example", 0}, {"go", "?word=y"}, {"lang", "kat"}, {"go", "?lang=kat"},
	}
	each := func(l, of int, f func([][]any)) {
		for _, s := range seqs(of, l) {
			acts := [][]any{}
			for _, i := range s {
				acts = append(acts, alphabet[i])
			}
			f(acts)
		}
	}
	starts := []string{"?lang=ita&word=x", "", "?lang=fra", "?word=y", "?lang=deu", "?lang=ita&word=", "?word=e&lang=fra", "?lang=ita&word=a%26b&x=1", "?lang=kat"}
	// The size of the result: which sizes fit changes with the result and the window.
	n := c.Pick(3, 4)
	for _, s := range seqs(5, n) {
		for _, a := range [][][]any{{{"word", "yy"}, {"resize", 0}}, {{"word", "y"}, {"word", "z"}}, {{"resize", 0}, {"resize", 0}, {"word", "yyy"}}, {{"word", ""}, {"word", "yy"}}} {
			add(starts[0], a, func(j *pageJob) { j.Fits = append([]int{}, s...) })
		}
	}
	c.Rule(sprintf("the size of the result: every table of up to %d of the sizes which fit x changes of the result and of the window", n))
	// The bundled languages.
	bundled := map[string]any{}
	for _, lang := range hangulize.ListLangs() {
		spec, err := hangulize.LoadSpec(lang)
		if err != nil {
			panic(err)
		}
		var words []string
		for _, t := range spec.Test {
			words = append(words, t[0])
		}
		l := spec.Lang
		bundled[lang] = pageSpec(l.ID, l.Codes[0], l.Codes[1], l.English, l.Korean, words...)
	}
	for _, lang := range hangulize.ListLangs() {
		for r := 0; r < 27; r += c.Pick(2, 1) {
			add("?lang="+lang, [][]any{{"example", r}}, func(j *pageJob) { j.Specs, j.Random, j.Once, j.Flags = bundled, r, r == 0, true })
		}
	}
	c.Rule("the bundled languages: the order, flag, search and examples of each")
	all := len(alphabet)
	for i, s := range starts {
		for r := 0; r < 27; r++ {
			for _, late := range []bool{false, true} {
				add(s, nil, func(j *pageJob) { j.Random, j.Late, j.Errors, j.Once = r, late, true, true })
			}
			each(1, all, func(a [][]any) {
				// In a quick run every draw is tried where examples are drawn again.
				if what := sprintf("%v", a); c.Quick() && r%9 != 4 && !strings.Contains(what, "shuffle") && !strings.Contains(what, "fra") {
					return
				}
				add(s, a, func(j *pageJob) { j.Random = r })
			})
		}
		each(1, all, func(a [][]any) {
			add(s, a, func(j *pageJob) { j.Errors, j.Late = true, !c.Quick() })
			add(s, a, func(j *pageJob) { j.Late, j.Specs2 = true, more })
			add(s, a, func(j *pageJob) { j.Specs2, j.Once = more, true })
		})
		if i > 2 && c.Quick() {
			continue
		}
		each(2, all, func(a [][]any) {
			add(s, a, nil)
			if !c.Quick() {
				add(s, a, func(j *pageJob) { j.Errors = true })
				add(s, a, func(j *pageJob) { j.Late, j.Random, j.Specs2 = true, 5, more })
			}
		})
	}
	each(2, c.Pick(6, all), func(a [][]any) { add(starts[0], a, func(j *pageJob) { j.Errors = true }) })
	each(3, c.Pick(5, all), func(a [][]any) { add(starts[0], a, nil) })
	if !c.Quick() {
		each(3, 8, func(a [][]any) { add(starts[1], a, func(j *pageJob) { j.Errors = true }) })
		each(4, 6, func(a [][]any) { add(starts[0], a, nil) })
	}
	c.Rule(sprintf("the page: %d addresses to open x every sequence of up to %d acts of a user (typing, choosing languages and examples, opening addresses, going back, shuffling, resizing) x every order of acts, timers, replies, failed replies and the arrival of the worker's version and specs x what is drawn at random", len(starts), c.Pick(3, 4)))

	var paths, steps, states, bad atomic.Int64
	c.Par(len(jobs), func(w *Worker, i int) {
		if bad.Load() > 20 {
			c.stop.Store(true)
			return
		}
		Run(w, jobs[i], func(j pageJob) (string, string) {
			j.MS = 60000
			o, r, f := runPage(j)
			if r.Cut {
				c.expired.Store(true)
			}
			if f != "" {
				bad.Add(1)
			}
			paths.Add(int64(r.Paths))
			steps.Add(int64(r.Steps))
			states.Add(int64(r.States))
			return o, f
		})
	})
	c.States(int(states.Load()))
	c.Transitions(int(steps.Load()))
	c.TracesValidated(int(paths.Load()))
	c.Extra("scenarios", len(jobs))
	c.Assume("React, the router, the widgets, layout, the random draws and the search index are stand-ins (mc/js/page.js): effects run before the next event, a size fits if no larger one than a given one is asked for, the index finds what contains the query")
	stopJS()
}
