package main

import (
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize/internal/jamo"
)

var jLeads = []rune("ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ")
var jVowels = []rune("ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ")
var jTails = []rune("ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ")

func runeIndex(rs []rune, r rune) int {
	for i, x := range rs {
		if x == r {
			return i
		}
	}
	return -1
}

// jstate is the state of the model: indexes plus one, zero for an empty slot.
type jstate struct{ l, m, t int }

func (s jstate) empty() bool { return s == jstate{} }

func (s jstate) out() string {
	if s.empty() {
		return ""
	}
	l, m := s.l-1, s.m-1
	if s.l == 0 {
		l = runeIndex(jLeads, 'ㅇ')
	}
	if s.m == 0 {
		m = runeIndex(jVowels, 'ㅡ')
	}
	return string(rune(0xAC00 + (l*21+m)*28 + s.t))
}

// jsym is an input symbol of the model.
type jsym struct {
	s    string
	kind int // 0 lead 1 vowel 2 tail 3 syllable 4 other
	idx  int // index, or code point for 3
}

// step is the transition function.
func (s jstate) step(x jsym) (jstate, string) {
	switch x.kind {
	case 0:
		return jstate{l: x.idx + 1}, s.out()
	case 1:
		if s.m != 0 || s.t != 0 {
			return jstate{m: x.idx + 1}, s.out()
		}
		s.m = x.idx + 1
		return s, ""
	case 2:
		if s.t != 0 {
			return jstate{t: x.idx + 1}, s.out()
		}
		s.t = x.idx + 1
		return s, ""
	case 3:
		n := x.idx - 0xAC00
		return jstate{n/588 + 1, n%588/28 + 1, n % 28}, s.out()
	}
	return jstate{}, s.out() + x.s
}

// refSymbols reads a Jamo text; ok is false for letters the notation does not
// use in that place.
func refSymbols(s string) (syms []jsym, ok bool) {
	hy := false
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		c := s[:n]
		if r == utf8.RuneError {
			c = "\ufffd"
		}
		s = s[n:]
		if r == '-' {
			hy = true
			continue
		}
		switch {
		case r >= 0xAC00 && r <= 0xD7A3:
			syms = append(syms, jsym{c, 3, int(r)})
		case runeIndex(jVowels, r) >= 0:
			syms = append(syms, jsym{c, 1, runeIndex(jVowels, r)})
		case r >= 'ㄱ' && r <= 'ㅎ':
			if hy {
				i := runeIndex(jTails, r)
				if i < 0 {
					return nil, false
				}
				syms = append(syms, jsym{"-" + c, 2, i})
			} else {
				i := runeIndex(jLeads, r)
				if i < 0 {
					return nil, false
				}
				syms = append(syms, jsym{c, 0, i})
			}
		case r >= 0x1100 && r <= 0x11FF:
			return nil, false
		default:
			syms = append(syms, jsym{c, 4, int(r)})
		}
		hy = false
	}
	return syms, true
}

func refCompose(s string) (string, bool) {
	syms, ok := refSymbols(s)
	if !ok {
		return "", false
	}
	var b strings.Builder
	var st jstate
	for _, x := range syms {
		var o string
		st, o = st.step(x)
		b.WriteString(o)
	}
	b.WriteString(st.out())
	return b.String(), true
}

type jamoCase struct{ Text Str }

func checkJamo(cs jamoCase) (string, string) {
	got := jamo.ComposeHangul(string(cs.Text))
	want, ok := refCompose(string(cs.Text))
	if !ok {
		return "", ""
	}
	if got != want {
		return "", sprintf("ComposeHangul(%s) = %s, expected %s", q(string(cs.Text)), q(got), q(want))
	}
	return "", ""
}

type jamoRound struct{ A, B Str }

// spell decomposes a syllable into separate Jamo.
func spell(r rune) string {
	n := int(r) - 0xAC00
	s := string(jLeads[n/588]) + string(jVowels[n%588/28])
	if t := n % 28; t > 0 {
		s += "-" + string(jTails[t-1])
	}
	return s
}

func checkJamoRound(cs jamoRound) (string, string) {
	a, b := string(cs.A), string(cs.B)
	in := ""
	for _, r := range b {
		in += spell(r)
	}
	if got := jamo.ComposeHangul(a + in); got != a+b {
		return "", sprintf("ComposeHangul(%s) = %s, expected %s", q(a+in), q(got), q(a+b))
	}
	return "", ""
}

func init() {
	kind(checkJamo)
	kind(checkJamoRound)
	register(&Prop{ID: "C07", Level: "model_checking", Run: func(c *Ctx) {
		var syms []jsym
		for i, r := range jLeads {
			syms = append(syms, jsym{string(r), 0, i})
		}
		for i, r := range jVowels {
			syms = append(syms, jsym{string(r), 1, i})
		}
		for i, r := range jTails {
			syms = append(syms, jsym{"-" + string(r), 2, i})
		}
		for _, r := range "가각값히힣아앙으응넋" {
			syms = append(syms, jsym{string(r), 3, int(r)})
		}
		for _, r := range "!a é가"[:4] {
			syms = append(syms, jsym{string(r), 4, int(r)})
		}
		for _, r := range []string{"☃", "\u200b", "カ", "\x00", "😀", "ㆍ", "ㅤ", "\n"} {
			syms = append(syms, jsym{r, 4, 0})
		}
		// Every state of the model with a word leading to it.
		access := map[jstate]string{{}: ""}
		queue := []jstate{{}}
		transitions := 0
		for len(queue) > 0 {
			s := queue[0]
			queue = queue[1:]
			for _, x := range syms {
				t, _ := s.step(x)
				transitions++
				if _, ok := access[t]; !ok {
					access[t] = access[s] + x.s
					queue = append(queue, t)
				}
			}
		}
		var states []jstate
		for s := range access {
			states = append(states, s)
		}
		c.States(len(states))
		c.Transitions(transitions)
		c.Rule("model: lead/vowel/tail automaton, every (state, symbol) pair over all leads, vowels, tails, syllable classes and separators; each transition is replayed on ComposeHangul with three different continuations")
		probes := []string{"", "-ㄴ", "ㅏ", "ㄱ"}
		c.Par(len(states), func(w *Worker, i int) {
			a := access[states[i]]
			for _, x := range syms {
				for _, p := range probes {
					Run(w, jamoCase{Str(a + x.s + p)}, checkJamo)
				}
				w.set.add(sprintf("%v %s", states[i], x.s))
			}
			c.TracesValidated(len(syms))
		})
		c.Rule("every symbol sequence up to a length over a representative alphabet (with stray hyphens, syllables with and without tail, separators)")
		alpha := []string{"ㄱ", "ㅇ", "ㅏ", "ㅡ", "-ㄴ", "-ㅇ", "가", "각", "!", " ", "-", "☃", "-a", "ㄸ"}
		ws := words(alpha, c.Pick(5, 6))
		c.Par(len(ws), func(w *Worker, i int) { Run(w, jamoCase{Str(ws[i])}, checkJamo) })
		c.TracesValidated(len(ws))
		c.Rule("every code point alone, after and between Jamo")
		c.Par(0x110000/64, func(w *Worker, i int) {
			for r := rune(i * 64); r < rune(i*64+64); r++ {
				s := string(r)
				if r >= 0xD800 && r < 0xE000 {
					continue
				}
				for _, t := range []string{s, "ㄱ" + s + "ㅏ", "ㄱㅏ" + s + "-ㄴ", "-" + s, "가" + s + "ㅏ", s + "-ㄴ", "각" + s + "-ㅇ"} {
					Run(w, jamoCase{Str(t)}, checkJamo)
				}
			}
		})
		c.Rule("round trip of all 11172 syllables, alone and after syllables of every class, spelled")
		firsts := []rune("가각갂값까낧댷힣히아앙")
		c.Par(11172, func(w *Worker, i int) {
			r := rune(0xAC00 + i)
			Run(w, jamoRound{"", Str(r)}, checkJamoRound)
			Run(w, jamoRound{"", Str(string(r) + string(r) + "가" + string(r))}, checkJamoRound)
			for _, f := range firsts {
				Run(w, jamoRound{Str(f), Str(r)}, checkJamoRound)
				Run(w, jamoRound{"", Str(string(r) + string(f))}, checkJamoRound)
				Run(w, jamoRound{"", Str(string(f) + string(r))}, checkJamoRound)
			}
		})
		c.TracesValidated(11172)
		c.Rule("every syllable followed by every symbol, and by two tails")
		c.Par(11172, func(w *Worker, i int) {
			s := string(rune(0xAC00 + i))
			for _, x := range syms {
				Run(w, jamoCase{Str(s + x.s)}, checkJamo)
				if x.kind == 2 {
					Run(w, jamoCase{Str("ㄱ" + s + x.s + "-ㄹㅏ")}, checkJamo)
				}
			}
		})
		c.Rule("scale: repetitions up to several read buffers long, shifted by every byte offset of a letter")
		var long []string
		for _, u := range []string{"ㄱㅏ", "ㄱㅏ-ㄴ", "ㅏ-ㄴ", "-ㄴ", "ㄱ", "가-ㄴ", "각-ㄴ!", "ㅎㅔ-ㄹㄹㅗ "} {
			for _, n := range []int{100, 1360, 1361, 1362, 1363, 1364, 1365, 1366, 2731, 5000} {
				for _, pre := range []string{"", "a", "ab", "é", "ㄱ"} {
					long = append(long, pre+strings.Repeat(u, n))
				}
			}
		}
		c.Par(len(long), func(w *Worker, i int) { Run(w, jamoCase{Str(long[i])}, checkJamo) })
		bad := []string{"\xff", "ㄱ\xffㅏ", "가\xe3\x84", "-\xff-ㄴ"}
		c.Par(len(bad), func(w *Worker, i int) { Run(w, jamoCase{Str(bad[i])}, checkJamo) })
		c.Sample(jamoCase{Str(ws[len(ws)*2/3])})
		c.Sample(jamoCase{Str(access[states[7]] + "-ㄴ")})
		c.Assume("a letter which cannot be a lead or tail (ㄳ as a lead, ㄸ as a tail) and conjoining Jamo are only required not to fail")
	}})
}
