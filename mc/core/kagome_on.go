//go:build verifkagome

package main

import "github.com/ikawaha/kagome.ipadic/tokenizer"

// setPick gives the pool of kagome's lattice nodes into the caller's hands.
var setPick = tokenizer.SetPick
