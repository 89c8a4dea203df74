//go:build !verifkagome

package main

// setPick is unavailable: this kagome is not the one of the known finding.
var setPick func(func(int) int)
