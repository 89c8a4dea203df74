package main

import "github.com/hangulize/hangulize/translit/furigana"

// poolCase transcribes words one after the other with a pool of lattice nodes
// (in the tokenizer of the furigana translit) which hands out, for the first
// node of the last word, each of the nodes it holds; a sync.Pool may hand out
// any of them.
type poolCase struct{ Words []string }

func checkPool(cs poolCase) (string, string) {
	last := cs.Words[len(cs.Words)-1]
	// run reports the result of the last word and how many nodes the pool held.
	run := func(words []string, k int) (r string, held int) {
		newest := func(n int) int { return n - 1 }
		pick := newest
		setPick(func(n int) int { return pick(n) })
		defer setPick(nil)
		for i, w := range words {
			if i == len(words)-1 {
				pick = func(n int) int {
					pick, held = newest, n
					return k
				}
			}
			var err error
			if r, err = furigana.T.Transliterate(w); err != nil {
				return err.Error(), held
			}
		}
		return
	}
	want, _ := run([]string{last}, -1)
	for k, n := 0, 1; k < n; k++ {
		got, held := run(cs.Words, k)
		n = held
		poolRuns++
		if got != want {
			return "", sprintf("%s became %s when the tokenizer's pool handed out node %d of %d, expected %s", q(last), q(got), k, held, q(want))
		}
	}
	return "", ""
}

var poolRuns int

func runPool(c *Ctx) {
	if setPick == nil {
		return
	}
	c.Par(1, func(w *Worker, i int) {
		Run(w, poolCase{[]string{"突進", "東京"}}, checkPool)
	})
	c.Rule("a history of two words with every choice of the tokenizer's pool of nodes for the first node of the second (KNOWN-FINDING)")
	c.Extra("pool_choices", poolRuns)
}

func init() { kind(checkPool) }
