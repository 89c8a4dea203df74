package main

// The web application's hook and workers, explored by js/web.js.

import (
	"strings"
	"sync/atomic"
)

// webJob is one exploration: every order of the events of a scenario.
type webJob struct {
	Kind   string         `json:"kind"`
	Worker string         `json:"worker,omitempty"`
	Calls  [][]string     `json:"calls,omitempty"`
	Inputs [][2]string    `json:"inputs,omitempty"`
	Specs  map[string]any `json:"specs,omitempty"`
	Specs2 map[string]any `json:"specs2,omitempty"`

	Translits []string `json:"translits"`
	Late      bool     `json:"late,omitempty"`   // the worker's version and specs arrive at any time
	Lazy      bool     `json:"lazy,omitempty"`   // renders and effects run at any time
	Errors    bool     `json:"errors,omitempty"` // calls may fail
	Routes    bool     `json:"routes,omitempty"`
	Shard     int      `json:"shard"`
	Shards    int      `json:"shards"`
	Prefix    []string `json:"prefix,omitempty"`
	Only      bool     `json:"only,omitempty"`
	MS        int      `json:"ms,omitempty"` // time limit
}

type webReport struct {
	Paths, Steps, States int
	Fail, Harness        string
	Cut                  bool
	Path                 []string
}

func checkWeb(j webJob) (string, string) {
	o, _, f := runWeb(j)
	return o, f
}

func runWeb(j webJob) (string, webReport, string) {
	var r webReport
	if f := ask("web", j, &r); f != "" {
		panic(f)
	}
	if r.Harness != "" {
		panic(r.Harness)
	}
	if r.Fail != "" {
		return "", r, sprintf("after %s: %s", strings.Join(r.Path, ", "), r.Fail)
	}
	return sprintf("%v %d %d", j.Inputs, r.Paths, r.States), r, ""
}

func init() {
	kind(checkWeb)
	register(&Prop{ID: "C29", Level: "model_checking", Run: runWebProp})
}

func runWebProp(c *Ctx) {
	specs := map[string]any{"ita": map[string]any{}, "deu": map[string]any{}}
	specs2 := map[string]any{"ita": map[string]any{}, "deu": map[string]any{}, "neu": map[string]any{}}
	var jobs []webJob
	hook := func(in [][2]string, shards int, opt func(*webJob)) {
		for s := 0; s < shards; s++ {
			j := webJob{Kind: "hook", Inputs: in, Specs: specs, Specs2: specs2, Translits: []string{"cyrillic[ru]", "furigana"}, Shard: s, Shards: shards}
			opt(&j)
			jobs = append(jobs, j)
		}
	}
	// How translits are routed, for every list of up to three schemes.
	schemes := []string{"cyrillic[ru]", "cyrillic[ua]", "furigana", "pinyin"}
	for n := 0; n <= len(schemes); n++ {
		for _, s := range seqs(len(schemes), n) {
			var ts []string
			seen := map[int]bool{}
			for _, i := range s {
				if !seen[i] {
					ts = append(ts, schemes[i])
				}
				seen[i] = true
			}
			if len(ts) == n {
				hook([][2]string{{"ita", "a"}}, 1, func(j *webJob) { j.Routes = true; j.Translits = append([]string{}, ts...) })
			}
		}
	}
	// Inputs which differ in the word only, in the language only, or in both.
	alphabet := [][2]string{{"ita", "a"}, {"deu", "a"}, {"ita", " "}, {"neu", "a"}, {"ita", "b"}, {"deu", "b"}}
	each := func(l, of int, f func(in [][2]string)) {
		alphabet := alphabet[:of]
		for _, s := range seqs(len(alphabet), l) {
			var in [][2]string
			for _, i := range s {
				in = append(in, alphabet[i])
			}
			f(in)
		}
	}
	for l := 1; l <= 2; l++ {
		each(l, 6, func(in [][2]string) {
			for k := 0; k < 8; k++ {
				if l == 2 && (k == 7 || k&2 > 0 && c.Quick() && (in[0][1] == "b" || in[1][1] == "b")) {
					continue
				}
				hook(in, 1, func(j *webJob) { j.Late, j.Lazy, j.Errors = k&1 > 0, k&2 > 0, k&4 > 0 })
			}
		})
	}
	each(3, 6, func(in [][2]string) {
		hook(in, 1, func(j *webJob) {})
		hook(in, 1, func(j *webJob) { j.Errors = true })
		hook(in, 1, func(j *webJob) { j.Late = true })
		if !c.Quick() {
			hook(in, 1, func(j *webJob) { j.Late, j.Errors = true, true })
			hook(in, 4, func(j *webJob) { j.Lazy = true })
		}
	})
	each(4, 4, func(in [][2]string) {
		hook(in, 1, func(j *webJob) {})
		if !c.Quick() {
			hook(in, 1, func(j *webJob) { j.Errors = true })
			hook(in, 4, func(j *webJob) { j.Late = true })
		}
	})
	if !c.Quick() {
		each(5, 4, func(in [][2]string) { hook(in, 1, func(j *webJob) {}) })
	}
	c.Rule(sprintf("the hook: every sequence of up to %d inputs (valid ones which differ in the word, the language or both, a blank one, one of a language which only the worker knows) x every order of inputs, timers, replies, failed replies, the arrival of the worker's version and specs, and (shorter sequences) renders and effects", c.Pick(4, 5)))

	worker := func(name string, alphabet [][]string, l int) {
		for n := 0; n <= l; n++ {
			for _, s := range seqs(len(alphabet), n) {
				var calls [][]string
				for _, i := range s {
					calls = append(calls, alphabet[i])
				}
				jobs = append(jobs, webJob{Kind: "worker", Worker: name, Calls: calls, Shards: 1})
			}
		}
	}
	depth := c.Pick(4, 5)
	worker("translit.worker", [][]string{{"load", "cyrillic[ru]"}, {"load", "furigana"}, {"load", "nope"}, {"transliterate", "cyrillic[ru]", "a"}, {"transliterate", "furigana", "b"}, {"transliterate", "furigana", "bad"}}, depth)
	worker("hangulize.worker", [][]string{{"hangulize", "ita", "a"}, {"hangulize", "ita", "b", "trace"}, {"hangulize", "ita", "bad"}, {"getVersion"}, {"getSpecs"}, {"useTranslit", "furigana", "fn"}}, depth)
	c.Rule(sprintf("the workers: every sequence of up to %d calls with the program starting at any point", depth))

	var paths, steps, states, bad atomic.Int64
	c.Par(len(jobs), func(w *Worker, i int) {
		if bad.Load() > 20 {
			c.stop.Store(true)
			return
		}
		Run(w, jobs[i], func(j webJob) (string, string) {
			j.MS = 60000
			o, r, f := runWeb(j)
			if r.Cut {
				c.expired.Store(true)
			}
			if f != "" {
				bad.Add(1)
			}
			paths.Add(int64(r.Paths))
			steps.Add(int64(r.Steps))
			states.Add(int64(r.States))
			return o, f
		})
	})
	c.States(int(states.Load()))
	c.Transitions(int(steps.Load()))
	c.TracesValidated(int(paths.Load()))
	c.Extra("scenarios", len(jobs))
	c.Assume("React, Comlink, timers, fetch and WebAssembly loading are stand-ins (mc/js/web.js): state updates are batched, effects run after their render and before the next one, messages between threads keep their order, timers fire in order of time but as late as they like")
	stopJS()
}
