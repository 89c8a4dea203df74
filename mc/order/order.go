//go:build go1.23

// Package order decides the iteration orders of maps. Instrumented code asks it
// for the order at each range over a map; the functions of package maps are
// given likewise.
package order

import (
	"bytes"
	"fmt"
	"iter"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Used keeps the import used.
const Used = true

// Choose returns the order of n keys at a site, a permutation of 0..n-1 over the
// sorted keys, or nil for the sorted order.
type Choose func(site string, n int) []int

var bound sync.Map // goroutine id -> Choose

// fallback is the chooser of goroutines without their own.
var fallback Choose

// Log, if set, gets each question of a goroutine without its own chooser.
var logFile = os.Getenv("VERIF_ORDER_LOG")

func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}

// With runs f under a chooser, on this goroutine.
func With(c Choose, f func()) {
	id := goid()
	bound.Store(id, c)
	defer bound.Delete(id)
	f()
}

// Entry is a map entry to come. It is skipped if it is gone meanwhile.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

func (e Entry[K, V]) Get() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		return x < b.(string)
	case rune:
		return x < b.(rune)
	case int:
		return x < b.(int)
	}
	return fmt.Sprintf("%#v", a) < fmt.Sprintf("%#v", b)
}

// Iter gives the entries in the chosen order.
func Iter[M ~map[K]V, K comparable, V any](site string, m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{k, m})
	}
	if len(es) < 2 {
		return es
	}
	sort.Slice(es, func(i, j int) bool { return less(es[i].K, es[j].K) })
	ch := fallback
	if c, ok := bound.Load(goid()); ok {
		ch = c.(Choose)
	}
	if ch == nil {
		return es
	}
	p := ch(site, len(es))
	if p == nil {
		return es
	}
	out := make([]Entry[K, V], len(es))
	for i, k := range p {
		out[i] = es[k]
	}
	return out
}

func caller() string {
	_, file, line, _ := runtime.Caller(2)
	return fmt.Sprintf("maps@%s:%d", file[strings.LastIndexByte(file, '/')+1:], line)
}

// The functions of package maps.

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	site := caller()
	return func(yield func(K) bool) {
		for _, e := range Iter(site, m) {
			if _, ok := e.Get(); ok && !yield(e.K) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	site := caller()
	return func(yield func(V) bool) {
		for _, e := range Iter(site, m) {
			if v, ok := e.Get(); ok && !yield(v) {
				return
			}
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	site := caller()
	return func(yield func(K, V) bool) {
		for _, e := range Iter(site, m) {
			if v, ok := e.Get(); ok && !yield(e.K, v) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	c := make(M, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for _, e := range Iter(caller(), m) {
		if v, ok := e.Get(); ok && del(e.K, v) {
			delete(m, e.K)
		}
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	for k, v := range seq {
		m[k] = v
	}
	return m
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		m[k] = v
	}
}

// -----------------------------------------------------------------------------
// Orders by name

// Perm names an order of n keys: "id", "rev", "rot:K", "first:K", "last:K",
// "swap:K", "perm:K" (K-th in lexicographic order, for small n). Numbers are
// taken modulo n.
func Perm(name string, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	kind, num, _ := strings.Cut(name, ":")
	k, _ := strconv.Atoi(num)
	switch kind {
	case "rev":
		for i := range p {
			p[i] = n - 1 - i
		}
	case "rot":
		for i := range p {
			p[i] = (i + k) % n
		}
	case "first", "last":
		k %= n
		rest := append(append([]int{}, p[:k]...), p[k+1:]...)
		if kind == "first" {
			return append([]int{k}, rest...)
		}
		return append(rest, k)
	case "swap":
		if n > 1 {
			k %= n - 1
			p[k], p[k+1] = p[k+1], p[k]
		}
	case "odd": // odd ones first
		q := []int{}
		for i := 1; i < n; i += 2 {
			q = append(q, i)
		}
		for i := 0; i < n; i += 2 {
			q = append(q, i)
		}
		return q
	case "perm": // of the first 8
		if n > 8 {
			n = 8
		}
		rest := append([]int{}, p[:n]...)
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		k %= f
		for i := range p[:n] {
			f /= n - i
			j := k / f
			k %= f
			p[i] = rest[j]
			rest = append(rest[:j:j], rest[j+1:]...)
		}
	}
	return p
}

// Parse reads "order" for every site or "SITE=order;SITE=order;order".
func Parse(s string) Choose {
	bySite := map[string]string{}
	all := "id"
	for _, part := range strings.Split(s, ";") {
		if site, o, ok := strings.Cut(part, "="); ok {
			bySite[site] = o
		} else if part != "" {
			all = part
		}
	}
	return func(site string, n int) []int {
		o, ok := bySite[site]
		if !ok {
			o = all
		}
		if logFile != "" {
			if f, err := os.OpenFile(logFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(f, "%s %d\n", site, n)
				f.Close()
			}
		}
		return Perm(o, n)
	}
}

func init() {
	if s := os.Getenv("VERIF_ORDER"); s != "" {
		fallback = Parse(s)
	}
}
