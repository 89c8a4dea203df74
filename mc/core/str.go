package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"unicode/utf8"
)

// Str is a string which survives JSON even if it is not valid UTF-8.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"quoted": strconv.QuoteToASCII(string(s))})
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if json.Unmarshal(b, &t) == nil {
		*s = Str(t)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	u, err := strconv.Unquote(m["quoted"])
	*s = Str(u)
	return err
}

func q(s string) string { return strconv.Quote(s) }

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

func errorf(f string, a ...any) error { return fmt.Errorf(f, a...) }
