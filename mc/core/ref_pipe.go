package main

// An independent model of the transcription procedure over rawSpecs. It shares
// no code with the library.

import (
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

type kvs struct {
	Key  string
	Vals []string
}

// rawSpec is a spec as written.
type rawSpec struct {
	ID, Codes1, Codes2, English, Korean string `json:",omitempty"`
	Script                              string
	Translit                            []string `json:",omitempty"`
	Authors                             []string `json:",omitempty"`
	Stage                               string   `json:",omitempty"`
	Macros                              []kvs    `json:",omitempty"`
	Vars                                []kvs    `json:",omitempty"`
	Normalize                           []kvs    `json:",omitempty"`
	Rewrite                             [][2]string
	Transcribe                          [][2]string
	Test                                [][2]string `json:",omitempty"`
}

// hsl writes the spec as an HSL document.
func (s rawSpec) hsl() string {
	var b strings.Builder
	qs := func(vs []string) string {
		out := make([]string, len(vs))
		for i, v := range vs {
			out[i] = hslQuote(v)
		}
		return strings.Join(out, ", ")
	}
	c1, c2 := s.Codes1, s.Codes2
	if c1 == "" {
		c1, c2 = "tt", "ttt"
	}
	id := s.ID
	if id == "" {
		id = "tst"
	}
	b.WriteString("lang:\n    id = " + hslQuote(id) + "\n    codes = " + qs([]string{c1, c2}) + "\n    script = " + hslQuote(s.Script) + "\n")
	if s.English != "" {
		b.WriteString("    english = " + hslQuote(s.English) + "\n    korean = " + hslQuote(s.Korean) + "\n")
	}
	if len(s.Translit) > 0 {
		b.WriteString("    translit = " + qs(s.Translit) + "\n")
	}
	if s.Stage != "" || len(s.Authors) > 0 {
		b.WriteString("config:\n    author = " + qs(s.Authors) + "\n    stage = " + hslQuote(s.Stage) + "\n")
	}
	for _, sec := range []struct {
		n string
		d []kvs
	}{{"macros", s.Macros}, {"vars", s.Vars}, {"normalize", s.Normalize}} {
		if len(sec.d) > 0 {
			b.WriteString(sec.n + ":\n")
			for _, kv := range sec.d {
				b.WriteString("    " + hslQuote(kv.Key) + " = " + qs(kv.Vals) + "\n")
			}
		}
	}
	for _, sec := range []struct {
		n string
		d [][2]string
	}{{"rewrite", s.Rewrite}, {"transcribe", s.Transcribe}, {"test", s.Test}} {
		if len(sec.d) > 0 {
			b.WriteString(sec.n + ":\n")
			for _, p := range sec.d {
				b.WriteString("    " + hslQuote(p[0]) + " -> " + hslQuote(p[1]) + "\n")
			}
		}
	}
	return b.String()
}

// refSpec is a compiled rawSpec.
type refSpec struct {
	raw        rawSpec
	normalize  map[string]string
	normKeys   []string
	exempt     map[rune]bool
	puncts     map[rune]bool
	rewrite    []*refRule
	transcribe []*refRule
}

type ruleCache map[string]*refRule

func (s rawSpec) compile() (*refSpec, error) {
	macros, vars := map[string]string{}, map[string][]string{}
	for _, kv := range s.Macros {
		macros[kv.Key] = kv.Vals[0]
	}
	for _, kv := range s.Vars {
		vars[kv.Key] = kv.Vals
	}
	return s.compileWith(macros, vars, nil)
}

func (s rawSpec) compileWith(macros map[string]string, vars map[string][]string, cache ruleCache) (*refSpec, error) {
	r := &refSpec{raw: s, normalize: map[string]string{}, exempt: map[rune]bool{}, puncts: map[rune]bool{}}
	for _, kv := range s.Normalize {
		for _, let := range kv.Key {
			r.exempt[let] = true
		}
		for _, from := range kv.Vals {
			r.normalize[from] = kv.Key
			r.normKeys = append(r.normKeys, from)
		}
	}
	mk := func(pairs [][2]string) ([]*refRule, error) {
		var out []*refRule
		for i, p := range pairs {
			key := p[0] + "\x01" + p[1]
			if c := cache[key]; c != nil {
				cc := *c
				cc.id = i
				out = append(out, &cc)
				continue
			}
			pat, err := refParsePattern(p[0], macros, vars)
			if err != nil {
				return nil, err
			}
			rule := &refRule{i, p[0], p[1], pat, refParseReplacement(p[1], macros, vars)}
			if cache != nil {
				cache[key] = rule
			}
			out = append(out, rule)
		}
		return out, nil
	}
	var err error
	if r.rewrite, err = mk(s.Rewrite); err != nil {
		return nil, err
	}
	if r.transcribe, err = mk(s.Transcribe); err != nil {
		return nil, err
	}
	// Punctuation is meaningful if some rule looks for it, unless an earlier
	// rewrite rule (or the rule itself) writes it as a hint.
	hints := map[rune]bool{}
	collect := func(p *refPattern) {
		for let := range p.letters() {
			if unicode.IsPunct(let) && !hints[let] && let != '{' && let != '}' {
				r.puncts[let] = true
			}
		}
	}
	for _, rule := range r.rewrite {
		for _, let := range rule.to {
			if !strings.ContainsRune(`\.+*?()|[]{}^$`, let) {
				hints[let] = true
			}
		}
		collect(rule.pat)
	}
	for _, rule := range r.transcribe {
		collect(rule.pat)
	}
	return r, nil
}

// letters lists the literal letters of a pattern.
func (p *refPattern) letters() map[rune]bool {
	m := map[rune]bool{}
	var walk func(n *rnode)
	walk = func(n *rnode) {
		if n == nil {
			return
		}
		switch n.kind {
		case kLit:
			m[n.r] = true
		case kSet:
			for _, r := range n.set {
				m[r] = true
			}
			for i := 0; i < len(n.set); i += 2 {
				if n.set[i] != n.set[i+1] {
					m['-'] = true
				}
			}
		case kVar:
			for _, v := range n.vals {
				for _, r := range v {
					if !strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
						m[r] = true
					}
				}
			}
		}
		for _, s := range n.subs {
			walk(s)
		}
	}
	if p.never {
		return m
	}
	for _, n := range []*rnode{p.core, p.lookA, p.lookB, p.negA, p.negB} {
		walk(n)
	}
	return m
}

// scripts

func refIs(script string, r rune) bool {
	switch script {
	case "", "Latn":
		return unicode.Is(unicode.Latin, r)
	case "Cyrl":
		return unicode.Is(unicode.Cyrillic, r) || unicode.IsMark(r)
	case "Grek":
		return unicode.Is(unicode.Greek, r)
	case "Geor":
		return unicode.Is(unicode.Georgian, r)
	case "Hrkt":
		return r == 'ー' || unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r)
	}
	panic("script " + script)
}

func refFold(script string, r rune) rune {
	switch script {
	case "", "Latn":
		for _, b := range norm.NFD.String(string(r)) {
			return unicode.ToLower(b)
		}
	case "Cyrl", "Grek":
		return unicode.ToLower(r)
	case "Hrkt":
		if r >= 'ぁ' && r <= 'ゖ' || r == 'ゝ' || r == 'ゞ' || r == 'ゟ' {
			return r - 'ぁ' + 'ァ'
		}
	}
	return r
}

var refPunct = map[rune]string{
	'。': ". ", '、': ", ", '：': ": ", '！': "! ", '？': "? ", '〜': "~",
	'「': " '", '」': "' ", '『': ` "`, '』': `" `,
}

// chunk is a piece of text of one level.
type chunk struct {
	s   string
	lvl int
}

func mergeChunks(cs []chunk) []chunk {
	var out []chunk
	for _, c := range cs {
		if c.s == "" {
			continue
		}
		if n := len(out); n > 0 && out[n-1].lvl == c.lvl {
			out[n-1].s += c.s
			continue
		}
		out = append(out, c)
	}
	return out
}

// leveled is a text with a level for each byte.
type leveled struct {
	s   string
	lvl []byte
}

func newLeveled(s string, lvl int) leveled {
	l := make([]byte, len(s))
	for i := range l {
		l[i] = byte(lvl)
	}
	return leveled{s, l}
}

func (t leveled) replace(rs []refRepl, lvl int) leveled {
	if len(rs) == 0 {
		return t
	}
	var b strings.Builder
	var l []byte
	at := 0
	for _, r := range rs {
		b.WriteString(t.s[at:r.start])
		l = append(l, t.lvl[at:r.start]...)
		b.WriteString(r.text)
		for k := 0; k < len(r.text); k++ {
			l = append(l, byte(lvl))
		}
		at = r.stop
	}
	b.WriteString(t.s[at:])
	l = append(l, t.lvl[at:]...)
	return leveled{b.String(), l}
}

func (t leveled) chunks() []chunk {
	var out []chunk
	for i := 0; i < len(t.s); {
		j := i
		for j < len(t.s) && t.lvl[j] == t.lvl[i] {
			j++
		}
		out = append(out, chunk{t.s[i:j], int(t.lvl[i])})
		i = j
	}
	return out
}

type refTrace struct {
	Step, Word, Why string
	Rule            int // -1 none
}

type refRun struct {
	word   string
	traces []refTrace
	prev   string
	zero   bool // a zero-width match was met, for which nothing is defined
	levels string
	last   []chunk // chunks after transcription
	hits   map[string]bool
}

func (r *refRun) trace(step, word, why string, rule int) {
	if word == r.prev {
		return
	}
	r.prev = word
	r.traces = append(r.traces, refTrace{step, word, why, rule})
}

func toValid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

// run transcribes a transliterated word. steps are the transliterations before.
func (s *refSpec) run(word string, steps []refTrace) (r refRun) {
	defer func() {
		if e := recover(); e != nil {
			if e == any("zero-width match") {
				r.zero = true
				return
			}
			panic(e)
		}
	}()
	r.trace("Input", word, "", -1)
	for _, t := range steps {
		r.trace(t.Step, t.Word, t.Why, -1)
		word = t.Word
	}
	script := s.raw.Script

	// normalize
	word = refReplaceLongest(word, s.normKeys, func(k string) string { return s.normalize[k] })
	r.trace("Normalize", word, "", -1)
	var b strings.Builder
	for _, let := range word {
		if refIs(script, let) && !s.exempt[let] {
			let = refFold(script, let)
		}
		b.WriteRune(let)
	}
	word = b.String()
	r.trace("Normalize", word, script, -1)

	// partition
	var cs []chunk
	for _, let := range word {
		lvl := 0
		if refIs(script, let) || s.puncts[let] || unicode.IsSpace(let) {
			lvl = 1
		}
		cs = append(cs, chunk{string(let), lvl})
	}
	cs = mergeChunks(cs)

	// rewrite
	texts := make([]leveled, len(cs))
	for i, c := range cs {
		texts[i] = newLeveled(c.s, c.lvl)
	}
	join := func() string {
		var b strings.Builder
		for _, t := range texts {
			b.WriteString(t.s)
		}
		return b.String()
	}
	ws := make([]*rword, len(cs))
	for i, c := range cs {
		ws[i] = newRword(c.s)
	}
	for _, rule := range s.rewrite {
		changed := false
		for i := range texts {
			if rs := rule.apply(ws[i]); len(rs) > 0 {
				texts[i] = texts[i].replace(rs, 1)
				ws[i] = newRword(texts[i].s)
				changed = true
			}
		}
		if changed {
			r.trace("Rewrite", join(), "", rule.id)
		}
	}
	cs = cs[:0:0]
	for _, t := range texts {
		cs = append(cs, t.chunks()...)
	}
	cs = mergeChunks(cs)

	// transcribe
	texts = make([]leveled, len(cs))
	masked := make([]*rword, len(cs))
	for i, c := range cs {
		texts[i] = newLeveled(c.s, c.lvl)
		masked[i] = newRword(c.s)
	}
	for _, rule := range s.transcribe {
		changed := false
		for i := range texts {
			if cs[i].lvl == 0 {
				continue
			}
			rs := rule.apply(masked[i])
			if len(rs) == 0 {
				continue
			}
			changed = true
			texts[i] = texts[i].replace(rs, 2)
			m := newLeveled(masked[i].s, 0)
			for k := range rs {
				rs[k].text = strings.Repeat("\x00", len(rs[k].text))
			}
			masked[i] = newRword(m.replace(rs, 0).s)
		}
		if changed {
			r.trace("Transcribe", join(), "", rule.id)
		}
	}
	cs = cs[:0:0]
	for _, t := range texts {
		cs = append(cs, t.chunks()...)
	}
	cs = mergeChunks(cs)
	var kept []chunk
	for _, c := range cs {
		if c.lvl == 1 {
			if strings.IndexFunc(c.s, unicode.IsSpace) >= 0 {
				kept = append(kept, chunk{" ", 1})
			}
			continue
		}
		kept = append(kept, c)
	}
	r.last = kept

	// syllabify
	b.Reset()
	pend := ""
	flush := func() {
		t, ok := refCompose(pend)
		if !ok {
			t = pend
			r.zero = true
		}
		b.WriteString(t)
		pend = ""
	}
	for _, c := range kept {
		if c.lvl == 0 {
			flush()
			b.WriteString(c.s)
		} else {
			pend += c.s
		}
	}
	flush()
	word = b.String()
	r.trace("Syllabify", word, "", -1)

	// localize
	b.Reset()
	rs := []rune(word)
	edge := func(i int) bool {
		return i < 0 || i >= len(rs) || unicode.IsPunct(rs[i]) || unicode.IsSpace(rs[i])
	}
	for i, let := range rs {
		if let == '\u200b' {
			continue
		}
		t := string(let)
		if p, ok := refPunct[let]; ok && script == "Hrkt" && unicode.IsPunct(let) {
			t = p
			if edge(i - 1) {
				t = strings.TrimLeft(t, " ")
			}
			if edge(i + 1) {
				t = strings.TrimRight(t, " ")
			}
		}
		b.WriteString(t)
	}
	r.word = b.String()
	r.trace("Localize", r.word, script, -1)
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
