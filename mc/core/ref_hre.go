package main

// An independent backtracking matcher for the HRE notation. It shares nothing
// with package hre: it does not use regexp at all.

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

type rkind int

const (
	kLit rkind = iota
	kAny
	kSet
	kCat
	kAlt
	kRep
	kVar
	kGroup
	kEmpty
	kEdgeL  // ^ inside of a lookbehind
	kEdgeLL // ^^
	kEdgeR  // $ inside of a lookahead
	kEdgeRR // $$
	kNever
)

type rnode struct {
	kind     rkind
	r        rune
	set      []rune // pairs
	subs     []*rnode
	min, max int // max -1: unlimited
	lazy     bool
	vals     [][]rune
	cap      int // var number in the core, from 1; 0 not captured
}

type refVar struct{ vals []string }

type refPattern struct {
	expr     string
	edgeL    int // number of ^ (2 for more)
	edgeR    int
	lookB    *rnode
	lookA    *rnode
	negB     *rnode
	negA     *rnode
	core     *rnode
	never    bool
	coreVars []refVar // vars of the core in order
	req      []uint64
}

// A word can match only if it has a letter of each of the required sets, which
// are kept as masks of letters modulo 64.
func bit(r rune) uint64 { return 1 << (uint32(r) & 63) }

func (n *rnode) required() []uint64 {
	if n == nil {
		return nil
	}
	switch n.kind {
	case kLit:
		return []uint64{bit(n.r)}
	case kSet:
		m := uint64(0)
		for j := 0; j < len(n.set); j += 2 {
			if n.set[j+1]-n.set[j] > 64 {
				return nil
			}
			for r := n.set[j]; r <= n.set[j+1]; r++ {
				m |= bit(r)
			}
		}
		return []uint64{m}
	case kVar:
		m := uint64(0)
		for _, v := range n.vals {
			if len(v) == 0 {
				return nil
			}
			m |= bit(v[0])
		}
		return []uint64{m}
	case kCat:
		var out []uint64
		for _, s := range n.subs {
			out = append(out, s.required()...)
		}
		return out
	case kGroup:
		return n.subs[0].required()
	case kRep:
		if n.min > 0 {
			return n.subs[0].required()
		}
	case kAlt:
		m := uint64(0)
		for _, s := range n.subs {
			r := s.required()
			if len(r) == 0 {
				return nil
			}
			m |= r[0]
		}
		return []uint64{m}
	}
	return nil
}

// refMacros expands macros: at each place the longest source, no rescan.
func refMacros(expr string, macros map[string]string) string {
	keys := make([]string, 0, len(macros))
	for k := range macros {
		keys = append(keys, k)
	}
	return refReplaceLongest(expr, keys, func(k string) string { return macros[k] })
}

func refReplaceLongest(s string, keys []string, val func(string) string) string {
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) > len(keys[j])
		}
		return keys[i] < keys[j]
	})
	var b strings.Builder
	for i := 0; i < len(s); {
		hit := false
		for _, k := range keys {
			if k != "" && strings.HasPrefix(s[i:], k) {
				b.WriteString(val(k))
				i += len(k)
				hit = true
				break
			}
		}
		if !hit {
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// refParsePattern reads "edges lookbehind core lookahead edges".
func refParsePattern(expr string, macros map[string]string, vars map[string][]string) (*refPattern, error) {
	p := &refPattern{expr: expr}
	e := refMacros(expr, macros)

	// right edge
	for strings.HasSuffix(e, "$") {
		e = e[:len(e)-1]
		p.edgeR++
	}
	// lookahead
	var ahead, behind string
	hasA, hasB := false, false
	if strings.HasSuffix(e, "}") && !strings.HasSuffix(e, "{}") {
		i := strings.LastIndexByte(e, '{')
		if i < 0 {
			return nil, fmt.Errorf("unbalanced }")
		}
		ahead, e, hasA = e[i+1:len(e)-1], e[:i], true
	}
	for strings.HasPrefix(e, "^") {
		e = e[1:]
		p.edgeL++
	}
	if strings.HasPrefix(e, "{") && !strings.HasPrefix(e, "{}") {
		i := strings.IndexByte(e, '}')
		if i < 0 {
			return nil, fmt.Errorf("unbalanced {")
		}
		behind, e, hasB = e[1:i], e[i+1:], true
	}
	// An empty {} is the chunk mark itself, two letters like any other.
	if strings.ContainsAny(strings.ReplaceAll(e, "{}", ""), "{}") {
		return nil, fmt.Errorf("zero-width in the middle")
	}
	if p.edgeL > 2 {
		p.edgeL = 2
	}
	if p.edgeR > 2 {
		p.edgeR = 2
	}
	var err error
	ps := &rparser{vars: vars, p: p, capture: true, s: []rune(e)}
	if p.core, err = ps.parseAll(); err != nil {
		return nil, err
	}
	sub := func(s string) (*rnode, error) {
		return (&rparser{vars: vars, p: p, s: []rune(s)}).parseAll()
	}
	if hasA {
		neg := strings.HasPrefix(ahead, "~")
		switch {
		case neg:
			// A chunk ends right here or is continued by a separator; a
			// forbidden letter cannot follow anyway.
			if p.edgeR == 0 {
				if p.negA, err = sub(ahead[1:]); err != nil {
					return nil, err
				}
			}
		case p.edgeR > 0:
			p.never = true // something must follow and nothing may follow
		default:
			if p.lookA, err = sub(ahead); err != nil {
				return nil, err
			}
		}
	}
	if hasB {
		neg := strings.HasPrefix(behind, "~")
		switch {
		case neg:
			if p.edgeL == 0 {
				if p.negB, err = sub(behind[1:]); err != nil {
					return nil, err
				}
			}
		case p.edgeL > 0:
			p.never = true
		default:
			if p.lookB, err = sub(behind); err != nil {
				return nil, err
			}
		}
	}
	p.req = append(append(p.core.required(), p.lookA.required()...), p.lookB.required()...)
	return p, nil
}

type rparser struct {
	s       []rune
	i       int
	vars    map[string][]string
	p       *refPattern
	capture bool
}

func (ps *rparser) parseAll() (*rnode, error) {
	n, err := ps.alt()
	if err != nil {
		return nil, err
	}
	if ps.i != len(ps.s) {
		return nil, fmt.Errorf("unexpected %q at %d", ps.s[ps.i], ps.i)
	}
	return n, nil
}

func (ps *rparser) peek() rune {
	if ps.i < len(ps.s) {
		return ps.s[ps.i]
	}
	return -1
}

func (ps *rparser) alt() (*rnode, error) {
	var alts []*rnode
	for {
		n, err := ps.cat()
		if err != nil {
			return nil, err
		}
		alts = append(alts, n)
		if ps.peek() != '|' {
			break
		}
		ps.i++
	}
	if len(alts) == 1 {
		return alts[0], nil
	}
	return &rnode{kind: kAlt, subs: alts}, nil
}

func (ps *rparser) cat() (*rnode, error) {
	var subs []*rnode
	for {
		c := ps.peek()
		if c == -1 || c == '|' || c == ')' {
			break
		}
		var n *rnode
		ps.i++
		switch c {
		case '(':
			if ps.peek() == '?' {
				if ps.i+1 < len(ps.s) && ps.s[ps.i+1] == ':' {
					ps.i += 2
				} else {
					return nil, fmt.Errorf("unsupported group")
				}
			}
			sub, err := ps.alt()
			if err != nil {
				return nil, err
			}
			if ps.peek() != ')' {
				return nil, fmt.Errorf("missing )")
			}
			ps.i++
			n = &rnode{kind: kGroup, subs: []*rnode{sub}}
		case '<':
			j := ps.i
			for j < len(ps.s) && ps.s[j] != '>' {
				j++
			}
			if j == len(ps.s) || j == ps.i {
				n = &rnode{kind: kLit, r: '<'}
				break
			}
			name := string(ps.s[ps.i:j])
			ps.i = j + 1
			n = &rnode{kind: kVar}
			for _, v := range ps.vars[name] {
				n.vals = append(n.vals, []rune(v))
			}
			if len(ps.vars[name]) == 0 {
				n.vals = [][]rune{{}}
			}
			if ps.capture {
				ps.p.coreVars = append(ps.p.coreVars, refVar{ps.vars[name]})
				n.cap = len(ps.p.coreVars)
			}
		case '.':
			n = &rnode{kind: kAny}
		case '[':
			var set []rune
			for ps.peek() != ']' {
				a := ps.peek()
				if a == -1 || a == '^' || a == '\\' {
					return nil, fmt.Errorf("unsupported class")
				}
				ps.i++
				b := a
				if ps.peek() == '-' && ps.i+1 < len(ps.s) && ps.s[ps.i+1] != ']' {
					b = ps.s[ps.i+1]
					ps.i += 2
				}
				set = append(set, a, b)
			}
			ps.i++
			n = &rnode{kind: kSet, set: set}
		case '^':
			n = &rnode{kind: kEdgeL}
			for ps.peek() == '^' {
				ps.i++
				n.kind = kEdgeLL
			}
		case '$':
			n = &rnode{kind: kEdgeR}
			for ps.peek() == '$' {
				ps.i++
				n.kind = kEdgeRR
			}
		case '{':
			if ps.peek() != '}' {
				return nil, fmt.Errorf("unsupported %q", c)
			}
			ps.i++
			subs = append(subs, &rnode{kind: kLit, r: '{'})
			n = &rnode{kind: kLit, r: '}'}
		case '\\':
			c = ps.peek()
			if c == -1 || !strings.ContainsRune(`.()|*+?[]\-`, c) {
				return nil, fmt.Errorf("unsupported escape")
			}
			ps.i++
			n = &rnode{kind: kLit, r: c}
		case '*', '+', '?', '}':
			return nil, fmt.Errorf("unsupported %q", c)
		default:
			n = &rnode{kind: kLit, r: c}
		}
		switch ps.peek() {
		case '*':
			ps.i++
			n = &rnode{kind: kRep, min: 0, max: -1, subs: []*rnode{n}}
		case '+':
			ps.i++
			n = &rnode{kind: kRep, min: 1, max: -1, subs: []*rnode{n}}
		case '?':
			ps.i++
			n = &rnode{kind: kRep, min: 0, max: 1, subs: []*rnode{n}}
		}
		if n.kind == kRep && ps.peek() == '?' {
			ps.i++
			n.lazy = true
		}
		if c := ps.peek(); c == '?' || c == '*' || c == '+' {
			return nil, fmt.Errorf("unsupported repetition")
		}
		subs = append(subs, n)
	}
	if len(subs) == 0 {
		return &rnode{kind: kEmpty}, nil
	}
	if len(subs) == 1 {
		return subs[0], nil
	}
	return &rnode{kind: kCat, subs: subs}, nil
}

// rword is a word prepared for matching.
type rword struct {
	s    string
	rs   []rune
	pos  []int // byte offset of each rune, and the length
	mask uint64
}

func newRword(s string) *rword {
	w := &rword{s: s, rs: make([]rune, 0, len(s)), pos: make([]int, 0, len(s)+1)}
	for i := 0; i < len(s); {
		r, size := utf8.DecodeRuneInString(s[i:])
		w.rs = append(w.rs, r)
		w.mask |= bit(r)
		w.pos = append(w.pos, i)
		i += size
	}
	w.pos = append(w.pos, len(s))
	return w
}

// rmatch is one matching attempt.
type rmatch struct {
	w    *rword
	from int // the search began here
	caps []int
}

func isReSpace(r rune) bool {
	return r == ' ' || r == '\t' || r == '\n' || r == '\f' || r == '\r'
}

// edgeL tries the ways a chunk may start at i.
func (m *rmatch) edgeL(i int, k func(int) bool) bool {
	rs := m.w.rs
	zero := i == 0
	if i == m.from && i > 0 {
		// The separator before has been consumed by the previous match.
		zero = isReSpace(rs[i-1]) || (i > 1 && rs[i-2] == '{' && rs[i-1] == '}')
	}
	if zero && k(i) {
		return true
	}
	return m.sep(i, k)
}

// sep consumes whitespace (as much as possible first) or {}.
func (m *rmatch) sep(i int, k func(int) bool) bool {
	rs := m.w.rs
	j := i
	for j < len(rs) && isReSpace(rs[j]) {
		j++
	}
	for ; j > i; j-- {
		if k(j) {
			return true
		}
	}
	if i+1 < len(rs) && rs[i] == '{' && rs[i+1] == '}' {
		return k(i + 2)
	}
	return false
}

func (m *rmatch) edgeR(i int, k func(int) bool) bool {
	if i == len(m.w.rs) && k(i) {
		return true
	}
	return m.sep(i, k)
}

func (m *rmatch) match(n *rnode, i int, k func(int) bool) bool {
	rs := m.w.rs
	switch n.kind {
	case kEmpty:
		return k(i)
	case kNever:
		return false
	case kLit:
		return i < len(rs) && rs[i] == n.r && k(i+1)
	case kAny:
		return i < len(rs) && rs[i] != '\n' && k(i+1)
	case kSet:
		if i >= len(rs) {
			return false
		}
		for j := 0; j < len(n.set); j += 2 {
			if n.set[j] <= rs[i] && rs[i] <= n.set[j+1] {
				return k(i + 1)
			}
		}
		return false
	case kVar:
		for _, v := range n.vals {
			if i+len(v) > len(rs) {
				continue
			}
			ok := true
			for j, r := range v {
				if rs[i+j] != r {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			if n.cap == 0 {
				if k(i + len(v)) {
					return true
				}
				continue
			}
			c0, c1 := m.caps[n.cap*2], m.caps[n.cap*2+1]
			m.caps[n.cap*2], m.caps[n.cap*2+1] = i, i+len(v)
			if k(i + len(v)) {
				return true
			}
			m.caps[n.cap*2], m.caps[n.cap*2+1] = c0, c1
		}
		return false
	case kGroup:
		return m.match(n.subs[0], i, k)
	case kAlt:
		for _, s := range n.subs {
			if m.match(s, i, k) {
				return true
			}
		}
		return false
	case kCat:
		return m.cat(n.subs, i, k)
	case kRep:
		return m.rep(n, 0, i, k)
	case kEdgeL:
		return m.edgeL(i, k)
	case kEdgeLL:
		return i == 0 && k(i)
	case kEdgeR:
		return m.edgeR(i, k)
	case kEdgeRR:
		return i == len(rs) && k(i)
	}
	panic("unknown node")
}

func (m *rmatch) cat(subs []*rnode, i int, k func(int) bool) bool {
	if len(subs) == 0 {
		return k(i)
	}
	if len(subs) == 1 {
		return m.match(subs[0], i, k)
	}
	if subs[0].kind == kLit {
		if i >= len(m.w.rs) || m.w.rs[i] != subs[0].r {
			return false
		}
		return m.cat(subs[1:], i+1, k)
	}
	return m.match(subs[0], i, func(j int) bool { return m.cat(subs[1:], j, k) })
}

func (m *rmatch) rep(n *rnode, done, i int, k func(int) bool) bool {
	if n.lazy && done >= n.min && k(i) {
		return true
	}
	if n.max == -1 || done < n.max {
		if m.match(n.subs[0], i, func(j int) bool {
			if j == i && done >= n.min {
				return false // an empty repetition brings nothing
			}
			return m.rep(n, done+1, j, k)
		}) {
			return true
		}
	}
	return !n.lazy && done >= n.min && k(i)
}

type refFound struct {
	start, stop int   // bytes
	caps        []int // bytes, by var number from 1
}

// find locates all matches. zeroWidth tells that a match was empty, for which
// the notation defines nothing.
func (p *refPattern) find(word string) (found []refFound, zeroWidth bool) {
	if p.never {
		return nil, false
	}
	return p.findIn(newRword(word))
}

// canMatch is a quick necessary condition for a match.
func (p *refPattern) canMatch(w *rword) bool {
	for _, m := range p.req {
		if m&w.mask == 0 {
			return false
		}
	}
	return true
}

func (p *refPattern) findIn(w *rword) (found []refFound, zeroWidth bool) {
	n := len(w.rs)
	m := &rmatch{w: w, caps: make([]int, len(p.coreVars)*2+2)}
	from := 0
	for from < n {
		m.from = from
		start, stop := -1, -1
		for s := from; s <= n; s++ {
			for i := range m.caps {
				m.caps[i] = -1
			}
			if p.tryAt(m, s, &start, &stop) {
				break
			}
			start, stop = -1, -1
		}
		if start == -1 {
			break
		}
		if start == stop {
			return found, true
		}
		from = stop
		if p.negA != nil {
			nm := &rmatch{w: w, caps: m.caps, from: -1}
			if nm.match(p.negA, stop, func(int) bool { return true }) {
				continue
			}
		}
		if p.negB != nil {
			hit := false
			for s := start; s >= 0 && !hit; s-- {
				nm := &rmatch{w: w, caps: m.caps, from: -1}
				hit = nm.match(p.negB, s, func(j int) bool { return j == start })
			}
			if hit {
				continue
			}
		}
		f := refFound{start: w.pos[start], stop: w.pos[stop]}
		for _, c := range m.caps {
			if c >= 0 {
				c = w.pos[c]
			}
			f.caps = append(f.caps, c)
		}
		found = append(found, f)
	}
	return found, false
}

func (p *refPattern) tryAt(m *rmatch, s int, start, stop *int) bool {
	tail := func(i int) bool {
		done := func(int) bool { return true }
		switch p.edgeR {
		case 1:
			return m.edgeR(i, done)
		case 2:
			return i == len(m.w.rs)
		}
		return true
	}
	afterCore := func(i int) bool {
		*stop = i
		if p.lookA != nil {
			return m.match(p.lookA, i, tail)
		}
		return tail(i)
	}
	atCore := func(i int) bool {
		*start = i
		return m.match(p.core, i, afterCore)
	}
	atLook := func(i int) bool {
		if p.lookB != nil {
			return m.match(p.lookB, i, atCore)
		}
		return atCore(i)
	}
	switch p.edgeL {
	case 1:
		return m.edgeL(s, atLook)
	case 2:
		return s == 0 && atLook(s)
	}
	return atLook(s)
}

// -----------------------------------------------------------------------------

type refReplacement struct {
	parts []refRPart
}
type refRPart struct {
	lit   string
	isVar bool
	vals  []string
}

func refParseReplacement(expr string, macros map[string]string, vars map[string][]string) *refReplacement {
	e := refMacros(expr, macros)
	r := &refReplacement{}
	for len(e) > 0 {
		i := strings.IndexByte(e, '<')
		j := -1
		if i >= 0 && i+2 <= len(e) {
			j = strings.IndexByte(e[i+2:], '>')
			if j >= 0 {
				j += i + 2
			}
		}
		if i < 0 || j < 0 {
			r.parts = append(r.parts, refRPart{lit: e})
			break
		}
		if i > 0 {
			r.parts = append(r.parts, refRPart{lit: e[:i]})
		}
		r.parts = append(r.parts, refRPart{isVar: true, vals: vars[e[i+1:j]]})
		e = e[j+1:]
	}
	return r
}

// text gives the replacement for a match, or false when some var has no
// counterpart.
func (r *refReplacement) text(p *refPattern, word string, f refFound) (string, bool) {
	var b strings.Builder
	k := 0
	for _, part := range r.parts {
		if !part.isVar {
			b.WriteString(part.lit)
			continue
		}
		k++
		if k > len(p.coreVars) || len(part.vals) == 0 {
			return "", false
		}
		if f.caps[2*k] < 0 {
			return "", false
		}
		val := word[f.caps[2*k]:f.caps[2*k+1]]
		idx := -1
		for i, v := range p.coreVars[k-1].vals {
			if v == val {
				idx = i
				break
			}
		}
		if idx < 0 {
			return "", false
		}
		b.WriteString(part.vals[idx%len(part.vals)])
	}
	return b.String(), true
}

type refRule struct {
	id       int
	from, to string
	pat      *refPattern
	rep      *refReplacement
}

type refRepl struct {
	start, stop int
	text        string
}

// apply lists the replacements of the rule in a word.
func (r *refRule) apply(w *rword) []refRepl {
	if r.pat.never || !r.pat.canMatch(w) {
		return nil
	}
	word := w.s
	found, zw := r.pat.findIn(w)
	if zw {
		panic("zero-width match")
	}
	var out []refRepl
	for _, f := range found {
		if t, ok := r.rep.text(r.pat, word, f); ok {
			out = append(out, refRepl{f.start, f.stop, t})
		}
	}
	return out
}
