package main

// An independent reading of the bundled rule files: line by line, no lexer.

import (
	"path/filepath"
	"strings"
	"sync"
	"unicode/utf8"
)

// bundledLine is one line of a bundled file.
type bundledLine struct {
	key   string
	arrow bool
	vals  []string
	line  int
}

// readTokens splits one line into literals and marks.
func readTokens(s string) (toks []string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#':
			return
		case c == '"':
			b := []byte{'"'}
			for i++; s[i] != '"'; i++ {
				if s[i] == '\\' && s[i+1] == '"' {
					i++
				}
				b = append(b, s[i])
			}
			i++
			toks = append(toks, string(b))
		case c == ',' || c == ':' || c == '=':
			toks = append(toks, string(c))
			i++
		case strings.HasPrefix(s[i:], "->"):
			toks = append(toks, "->")
			i += 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \t\r#\",:=", rune(s[j])) && !strings.HasPrefix(s[j:], "->") {
				_, n := utf8.DecodeRuneInString(s[j:])
				j += n
			}
			toks = append(toks, "'"+s[i:j])
			i = j
		}
	}
	return
}

// readBundled reads a bundled file into sections.
func readBundled(text string) map[string][]bundledLine {
	out := map[string][]bundledLine{}
	sec := ""
	for n, l := range strings.Split(text, "\n") {
		toks := readTokens(l)
		if len(toks) == 0 {
			continue
		}
		if len(toks) == 2 && toks[1] == ":" {
			sec = toks[0][1:]
			out[sec] = nil
			continue
		}
		if toks[0] == "," || (len(toks) > 1 && toks[1] != "=" && toks[1] != "->") {
			// the list of values goes on
			last := &out[sec][len(out[sec])-1]
			for _, t := range toks {
				if t != "," {
					last.vals = append(last.vals, t[1:])
				}
			}
			continue
		}
		if len(toks) == 1 {
			last := &out[sec][len(out[sec])-1]
			last.vals = append(last.vals, toks[0][1:])
			continue
		}
		bl := bundledLine{key: toks[0][1:], arrow: toks[1] == "->", line: n + 1}
		for _, t := range toks[2:] {
			if t != "," {
				bl.vals = append(bl.vals, t[1:])
			}
		}
		out[sec] = append(out[sec], bl)
	}
	return out
}

func rawOf(text string) (s rawSpec, lines map[string][]bundledLine) {
	lines = readBundled(text)
	one := func(sec, key string) []string {
		for _, l := range lines[sec] {
			if l.key == key {
				return l.vals
			}
		}
		return nil
	}
	first := func(v []string) string {
		if len(v) == 0 {
			return ""
		}
		return v[0]
	}
	s.ID = first(one("lang", "id"))
	if c := one("lang", "codes"); len(c) == 2 {
		s.Codes1, s.Codes2 = c[0], c[1]
	}
	s.English, s.Korean = first(one("lang", "english")), first(one("lang", "korean"))
	s.Script = first(one("lang", "script"))
	s.Translit = one("lang", "translit")
	s.Authors = one("config", "author")
	s.Stage = first(one("config", "stage"))
	dict := func(sec string) (out []kvs) {
		for _, l := range lines[sec] {
			out = append(out, kvs{l.key, l.vals})
		}
		return
	}
	pairs := func(sec string) (out [][2]string) {
		for _, l := range lines[sec] {
			out = append(out, [2]string{l.key, first(l.vals)})
		}
		return
	}
	s.Macros, s.Vars, s.Normalize = dict("macros"), dict("vars"), dict("normalize")
	s.Rewrite, s.Transcribe, s.Test = pairs("rewrite"), pairs("transcribe"), pairs("test")
	return
}

// bundledLang is a bundled language as the model sees it.
type bundledLang struct {
	lang string
	raw  rawSpec
	ref  *refSpec
}

var bundledOnce sync.Once
var bundledAll []*bundledLang
var bundledErr error

func langOf(file string) string { return strings.TrimSuffix(filepath.Base(file), ".hsl") }

// bundled lists the bundled languages in order of the file names.
func bundled() ([]*bundledLang, error) {
	bundledOnce.Do(func() {
		for _, f := range specFiles() {
			raw, _ := rawOf(readFile(f))
			ref, err := raw.compile()
			if err != nil {
				bundledErr = errorf("%s: %v", f, err)
				return
			}
			bundledAll = append(bundledAll, &bundledLang{langOf(f), raw, ref})
		}
	})
	return bundledAll, bundledErr
}
