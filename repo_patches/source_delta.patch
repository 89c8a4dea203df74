From 7ff6446dd9a9de7085ef8f3908cf8538a17a6e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 01/40] fix: make the Cyrillic transliteration independent of
 the map iteration order

---
 translit/cyrillic/cyrillic.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..1aa85f1 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,22 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
+	// A longer source takes precedence over its prefixes. Don't rely on the
+	// random iteration order of the map.
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
 	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From 7625966b0e3bcd3c7eafc4c99e94d20d99b05f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 02/40] fix: expand overlapping HRE macros in a deterministic
 order

---
 pkg/hre/macro.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..0277632 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,6 +1,7 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
@@ -8,11 +9,24 @@ import (
 func expandMacros(expr string, macros map[string]string) string {
 	args := make([]string, len(macros)*2)
 
+	// A longer source takes precedence over its prefixes. Don't rely on the
+	// random iteration order of the map.
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
 	i := 0
-	for src, dst := range macros {
+	for _, src := range srcs {
 		args[i] = src
 		i++
-		args[i] = dst
+		args[i] = macros[src]
 		i++
 	}
 
-- 
2.43.0


From eb8d50fb3a8c0606738d081e1789b53981d7f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 03/40] fix: apply overlapping normalize entries in a
 deterministic order

---
 spec.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/spec.go b/spec.go
index 3a97367..0776cd1 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -171,6 +172,9 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 			args = append(args, from, to)
 		}
 	}
+	// A longer source takes precedence over its prefixes. Don't rely on the
+	// random iteration order of the map.
+	args = sortReplacerArgs(args)
 	normReplacer := strings.NewReplacer(args...)
 
 	// letters in normalize
@@ -210,6 +214,32 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// sortReplacerArgs sorts the old-new pairs for strings.NewReplacer. The longest
+// old string comes first.
+func sortReplacerArgs(args []string) []string {
+	pairs := make([][2]string, 0, len(args)/2)
+	for i := 0; i+1 < len(args); i += 2 {
+		pairs = append(pairs, [2]string{args[i], args[i+1]})
+	}
+
+	sort.Slice(pairs, func(i, j int) bool {
+		a, b := pairs[i], pairs[j]
+		if len(a[0]) != len(b[0]) {
+			return len(a[0]) > len(b[0])
+		}
+		if a[0] != b[0] {
+			return a[0] < b[0]
+		}
+		return a[1] < b[1]
+	})
+
+	sorted := make([]string, 0, len(args))
+	for _, pair := range pairs {
+		sorted = append(sorted, pair[0], pair[1])
+	}
+	return sorted
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From 0d0bc1de2cccd15021476801a54acbc6e792d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 04/40] fix: guard the cached specs from concurrent LoadSpec
 and UnloadSpec

---
 specs.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/specs.go b/specs.go
index ea2d727..8ba9b14 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -37,9 +38,15 @@ func ListLangs() []string {
 // Cached specs.
 var specs = make(map[string]*Spec)
 
+// specsMutex guards the cached specs.
+var specsMutex sync.Mutex
+
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
+	specsMutex.Lock()
+	defer specsMutex.Unlock()
+
 	var spec *Spec
 
 	spec, ok := specs[lang]
@@ -69,5 +76,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMutex.Lock()
+	defer specsMutex.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From 2607ac86a350433ee9fea3959584d3bebff2501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 05/40] fix: guard the Translit registries from concurrent use

---
 translit.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/translit.go b/translit.go
index 7a821e7..11fde11 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -14,8 +16,14 @@ type Translit interface {
 // translitRegistry is a registry holding Translits.
 type translitRegistry map[string]Translit
 
+// translitMutex guards every translitRegistry. A registry is just a map.
+var translitMutex sync.RWMutex
+
 // Detach copies the registry as map[string]Translit.
 func (r translitRegistry) Detach() map[string]Translit {
+	translitMutex.RLock()
+	defer translitMutex.RUnlock()
+
 	copied := make(map[string]Translit, len(r))
 	for m, t := range r {
 		copied[m] = t
@@ -27,6 +35,9 @@ func (r translitRegistry) Detach() map[string]Translit {
 func (r translitRegistry) Add(t Translit) bool {
 	scheme := t.Scheme()
 
+	translitMutex.Lock()
+	defer translitMutex.Unlock()
+
 	if _, ok := r[scheme]; ok {
 		// already exists
 		return false
@@ -38,6 +49,9 @@ func (r translitRegistry) Add(t Translit) bool {
 
 // Remove deregisters a Translit from the registry.
 func (r translitRegistry) Remove(scheme string) bool {
+	translitMutex.Lock()
+	defer translitMutex.Unlock()
+
 	_, ok := r[scheme]
 	if ok {
 		delete(r, scheme)
-- 
2.43.0


From 8b7315e74b056816995af8e202d3ca8d5288adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 06/40] fix: load the Kagome dictionary of furigana once under
 concurrent use

---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..18ea31e 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -18,19 +20,20 @@ var T hangulize.Translit = &furigana{}
 
 type furigana struct {
 	kagome *kagome.Tokenizer
+	once   sync.Once
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From 39bd017347a83dde1532bcdd82d8eef4c877daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 07/40] fix: report an unterminated quoted string in HSL
 instead of looping forever

---
 pkg/hsl/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..05528cd 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -154,6 +154,11 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
+		if ch == eof {
+			// The quote has never been closed.
+			return Illegal, `"` + buf.String()
+		}
+
 		if ch == '"' {
 			if escaped {
 				escaped = false
-- 
2.43.0


From f8e18034d43398d4a2f576e465723da343703aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 08/40] fix: report an incomplete arrow in HSL instead of
 panicking

---
 pkg/hsl/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 05528cd..95bf32c 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -188,7 +188,8 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		l.unread()
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
-- 
2.43.0


From b18460a29866c53c0de3c4dbf041d7a11c3d82e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 09/40] fix: return an error for a duplicated key in an HSL
 dictionary instead of panicking

---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..df48191 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From cfc79b32d353b6800fa54d05571184b733d1c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 10/40] fix: end the values of an HSL pair at a trailing
 comment

---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index df48191..7b09f9a 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -122,7 +122,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment lasts until the end of the line. So do the values.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 556f36a35321c8b084ecfdce93c1793bbf6d9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 11/40] fix: return the error of the reader from HSL parsing

---
 pkg/hsl/hsl.go   | 9 ++++++++-
 pkg/hsl/lexer.go | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/hsl.go b/pkg/hsl/hsl.go
index 0ed4af6..4b328cf 100644
--- a/pkg/hsl/hsl.go
+++ b/pkg/hsl/hsl.go
@@ -31,11 +31,18 @@ The media type of HSL files: application/vnd.hsl
 package hsl
 
 import (
+	"fmt"
 	"io"
 )
 
 // Parse parses an HSL formatted text.
 func Parse(r io.Reader) (HSL, error) {
 	p := newParser(r)
-	return p.parse()
+	hsl, err := p.parse()
+
+	// Don't confuse a failure of the reader with the end of the source.
+	if p.lexer.err != nil {
+		return nil, fmt.Errorf("parse: %w", p.lexer.err)
+	}
+	return hsl, err
 }
diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 95bf32c..c231141 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// err is the error from the underlying reader except io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
 const eof = rune(0)
@@ -33,6 +36,9 @@ func (l *lexer) read() rune {
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF {
+			l.err = err
+		}
 		return eof
 	}
 
-- 
2.43.0


From 4e3ec2903f8a1bfcd1bd524c42d201b1253d8c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 12/40] fix: don't take a NULL character for the end of an HSL
 source

---
 pkg/hsl/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index c231141..1420ec6 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -24,7 +24,8 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
-const eof = rune(0)
+// eof is not a valid rune. NULL in the source is not the end of the source.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
-- 
2.43.0


From 0d52c05a366d6248ebf22a4bd15284ebb8b44408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 13/40] fix: reject an HSL section of an unexpected kind in
 ParseSpec instead of panicking

---
 spec.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/spec.go b/spec.go
index 0776cd1..680359a 100644
--- a/spec.go
+++ b/spec.go
@@ -70,6 +70,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 
 	source := sourceBuf.String()
 
+	if err := checkSections(h); err != nil {
+		return nil, errors.Wrap(err, "failed to parse HSL source")
+	}
+
 	// -------------------------------------------------------------------------
 	// Every sections are optional. An empty HSL source is also valid spec.
 
@@ -214,6 +218,33 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// checkSections checks if each well-known section is of the expected kind. A
+// pair in a list section needs the right.
+func checkSections(h hsl.HSL) error {
+	for _, name := range []string{"lang", "config", "macros", "vars", "normalize"} {
+		if sec, ok := h[name]; ok {
+			if _, ok := sec.(*hsl.DictSection); !ok {
+				return errors.Errorf("section %s must be a dictionary", name)
+			}
+		}
+	}
+
+	for _, name := range []string{"rewrite", "transcribe", "test"} {
+		if sec, ok := h[name]; ok {
+			if _, ok := sec.(*hsl.ListSection); !ok {
+				return errors.Errorf("section %s must be a pair list", name)
+			}
+			for _, pair := range sec.Pairs() {
+				if len(pair.Right()) == 0 {
+					return errors.Errorf("%s in section %s has no right", pair, name)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 // sortReplacerArgs sorts the old-new pairs for strings.NewReplacer. The longest
 // old string comes first.
 func sortReplacerArgs(args []string) []string {
-- 
2.43.0


From 40ed55b642e5f4bb9815ab821c201340c1db6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 14/40] fix: measure the width of an HRE negative lookaround in
 runes and within the word

---
 pkg/hre/pattern.go |  4 ++--
 pkg/hre/util.go    | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..ade5989 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -227,7 +227,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				negAStop = skipRunes(word, negAStart, p.negAWidth)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -243,7 +243,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				negBStart = rewindRunes(word, negBStop, p.negBWidth)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..1471178 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,24 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// skipRunes moves the position in s forward by up to n runes.
+func skipRunes(s string, pos int, n int) int {
+	for ; n > 0 && 0 <= pos && pos < len(s); n-- {
+		_, size := utf8.DecodeRuneInString(s[pos:])
+		pos += size
+	}
+	return pos
+}
+
+// rewindRunes moves the position in s backward by up to n runes.
+func rewindRunes(s string, pos int, n int) int {
+	for ; n > 0 && 0 < pos && pos <= len(s); n-- {
+		_, size := utf8.DecodeLastRuneInString(s[:pos])
+		pos -= size
+	}
+	return pos
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From 9b6d04e8ad286ee937df8835328a6dc84e78892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 15/40] fix: keep the unlimited width in a limited repeat of an
 HRE pattern

---
 pkg/hre/width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..a43cb0e 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,11 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 {
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From 261dca4368aae494ef1a486fb4f18985565b109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 16/40] fix: don't match an HRE left edge in the middle of a
 word after the previous match

---
 pkg/hre/assertions.go | 25 +++++++++++++++++++++++++
 pkg/hre/pattern.go    | 26 ++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..b60005b 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -217,3 +217,28 @@ func expandEdges(expr string) string {
 	})
 	return expr
 }
+
+// expandEdgesInside is expandEdges for a search which begins inside of a word.
+// The beginning of the search is not an edge unless it is a start of chunk.
+func expandEdgesInside(expr string, startOfChunk bool) string {
+	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e != `^` {
+			// ^^... never matches inside of a word.
+			return `[^\x00-\x{10FFFF}]`
+		}
+		if startOfChunk {
+			return `(?:\A|\s+|{})`
+		}
+		return `(?:\s+|{})`
+	})
+	return reRightEdge.ReplaceAllStringFunc(expr, expandEdges)
+}
+
+// isStartOfChunk checks whether the position in the word is just after a
+// whitespace or a zero-width space.
+func isStartOfChunk(word string, pos int) bool {
+	if strings.HasSuffix(word[:pos], `{}`) {
+		return true
+	}
+	return pos > 0 && strings.IndexByte("\t\n\f\r ", word[pos-1]) != -1
+}
diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index ade5989..7d22987 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -38,6 +38,8 @@ type Pattern struct {
 	expr string
 
 	re   *regexp.Regexp // positive regexp
+	reC  *regexp.Regexp // positive regexp inside of a word at a start of chunk
+	reI  *regexp.Regexp // positive regexp inside of a word
 	negA *regexp.Regexp // negative ahead regexp
 	negB *regexp.Regexp // negative behind regexp
 
@@ -81,6 +83,8 @@ func NewPattern(
 		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
 	}
 
+	reCExpr := expandEdgesInside(reExpr, true)
+	reIExpr := expandEdgesInside(reExpr, false)
 	reExpr = expandEdges(reExpr)
 
 	// Collect letters in the regexps.
@@ -96,6 +100,15 @@ func NewPattern(
 		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
 	}
 
+	reC, err := regexp.Compile(reCExpr)
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
+	}
+	reI, err := regexp.Compile(reIExpr)
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to compile pattern: %#v", expr)
+	}
+
 	// Compile negative lookahead/behind regexps.
 	var negA *regexp.Regexp
 	var negB *regexp.Regexp
@@ -116,7 +129,7 @@ func NewPattern(
 		}
 	}
 
-	p := &Pattern{expr, re, negA, negB, negAWidth, negBWidth, letters, usedVars}
+	p := &Pattern{expr, re, reC, reI, negA, negB, negAWidth, negBWidth, letters, usedVars}
 	return p, nil
 }
 
@@ -182,8 +195,17 @@ func (p *Pattern) Find(word string, n int) [][]int {
 	length := len(word)
 
 	for offset < length && (n < 0 || len(matches) < n) {
+		// The beginning of a shifted word is not an edge of the word.
+		re := p.re
+		if offset > 0 {
+			re = p.reI
+			if isStartOfChunk(word, offset) {
+				re = p.reC
+			}
+		}
+
 		// Find submatches on a shifted word.
-		m := p.re.FindStringSubmatchIndex(word[offset:])
+		m := re.FindStringSubmatchIndex(word[offset:])
 		for i := range m {
 			if m[i] != -1 {
 				m[i] += offset
-- 
2.43.0


From 45932832a42f07cf67613e1692f4072cb90b7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 17/40] fix: align HRE var-to-var mapping with the capturing
 groups of the core match

---
 pkg/hre/assertions.go |  6 ++++++
 pkg/hre/pattern.go    | 12 ++++++++++--
 pkg/hre/rpattern.go   |  6 +++++-
 pkg/hre/var.go        | 27 +++++++++++++++++++++++++++
 4 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index b60005b..69c4ef8 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -191,6 +191,12 @@ func expandLookbehind(expr string) (string, string, int) {
 	return posExpr, negBExpr, negBWidth
 }
 
+// stripLookaround leaves only the core of the expression.
+func stripLookaround(expr string) string {
+	expr = expr[:reLookahead.FindStringIndex(expr)[0]]
+	return expr[reLookbehind.FindStringIndex(expr)[1]:]
+}
+
 func mustNoZeroWidth(expr string) error {
 	if reZeroWidth.MatchString(expr) {
 		return fmt.Errorf("zero-width group found in middle: %#v", expr)
diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 7d22987..8f1a3df 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -51,6 +51,9 @@ type Pattern struct {
 
 	// References to expanded vars.
 	usedVars [][]string
+
+	// The capturing group number of each used var in the core match.
+	varGroups []int
 }
 
 func (p *Pattern) String() string {
@@ -75,7 +78,12 @@ func NewPattern(
 
 	reExpr = expandMacros(reExpr, macros)
 
-	reExpr, usedVars := expandVars(reExpr, vars)
+	// Lookarounds don't capture anything. So vars in them cannot be mapped.
+	coreExpr := stripLookaround(reExpr)
+	_, usedVars := expandVars(coreExpr, vars)
+	varGroups := findVarGroups(coreExpr)
+
+	reExpr, _ = expandVars(reExpr, vars)
 
 	reExpr, negAExpr, negBExpr, negAWidth, negBWidth, err :=
 		expandLookaround(reExpr)
@@ -129,7 +137,7 @@ func NewPattern(
 		}
 	}
 
-	p := &Pattern{expr, re, reC, reI, negA, negB, negAWidth, negBWidth, letters, usedVars}
+	p := &Pattern{expr, re, reC, reI, negA, negB, negAWidth, negBWidth, letters, usedVars, varGroups}
 	return p, nil
 }
 
diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..be69aa2 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -116,10 +116,14 @@ func (rp *RPattern) Interpolate(
 				return "", err
 			}
 			fromVar := p.usedVars[varIndex]
-			fromVal := captured(word, m, varIndex+1)
+			fromVal := captured(word, m, p.varGroups[varIndex])
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 || len(part.usedVar) == 0 {
+				err := errors.Errorf("cannot map %#v to %s", fromVal, part.lit)
+				return "", err
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
diff --git a/pkg/hre/var.go b/pkg/hre/var.go
index ea76aaf..a65c6a5 100644
--- a/pkg/hre/var.go
+++ b/pkg/hre/var.go
@@ -41,3 +41,30 @@ func getVar(expr string, vars map[string][]string) (string, []string) {
 
 	return name, vals
 }
+
+// findVarGroups finds the capturing group number of each var in the expression.
+func findVarGroups(expr string) []int {
+	var groups []int
+
+	group := 0
+	for i := 0; i < len(expr); i++ {
+		switch expr[i] {
+		case '\\':
+			// Skip the escaped character.
+			i++
+		case '(':
+			if !strings.HasPrefix(expr[i:], `(?`) {
+				group++
+			}
+		case '<':
+			m := reVar.FindStringIndex(expr[i:])
+			if m != nil && m[0] == 0 {
+				group++
+				groups = append(groups, group)
+				i += m[1] - 1
+			}
+		}
+	}
+
+	return groups
+}
-- 
2.43.0


From 2f037c1cadf6f0717ceebcad75076bd1f38ceeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 18/40] fix: keep the base letter of a Latin letter decomposed
 into a non-ASCII one

---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From f0d50c8247d0bd0eccfdd8d164901154fa0570e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 19/40] fix: keep every letter of a normalize target from the
 script normalization

---
 spec.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spec.go b/spec.go
index 680359a..ff7879d 100644
--- a/spec.go
+++ b/spec.go
@@ -184,11 +184,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for more := to; len(more) > 0; {
+			let, size := utf8.DecodeRuneInString(more)
 			normLetters[let] = true
-			more -= size
+			more = more[size:]
 		}
 	}
 
-- 
2.43.0


From dbda4cc9de6c91e008a8b4ef28c6159d7732cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 20/40] fix: truncate the existing coverage profile before
 writing

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..009557e 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -110,7 +110,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From 5ab9ee628668e70fd1e145d8514e15f833bdd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 21/40] fix: write a coverage profile for a spec without
 rewrite or transcribe sections

---
 cmd/hangulize/cover.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..a75a787 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -128,7 +128,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
+		rewritePairs := sectionPairs(hsl, "rewrite")
 		for _, rule := range spec.Rewrite {
 			line := rewritePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -136,7 +136,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
+		transcribePairs := sectionPairs(hsl, "transcribe")
 		for _, rule := range spec.Transcribe {
 			line := transcribePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -148,6 +148,14 @@ func (c *cover) WriteProfile(w io.Writer) error {
 	return nil
 }
 
+// sectionPairs returns the pairs in the section. A section is optional.
+func sectionPairs(h hsl.HSL, name string) []hsl.Pair {
+	if sec, ok := h[name]; ok {
+		return sec.Pairs()
+	}
+	return nil
+}
+
 func btoi(b bool) int {
 	if b {
 		return 1
-- 
2.43.0


From 7ce67930ff1fed5dd637a4f1c218bb487b76a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 22/40] fix: transcribe the last line of stdin without a
 newline

---
 cmd/hangulize/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..4465761 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -85,6 +85,10 @@ func readWords(ch chan<- string, args []string) {
 		for {
 			word, err := reader.ReadString('\n')
 			if err != nil {
+				// The last line may not end with a newline.
+				if word = strings.TrimSpace(word); word != "" {
+					ch <- word
+				}
 				break
 			}
 			word = strings.TrimSpace(word)
-- 
2.43.0


From a2a1d19b98570a78c6b4240eb1e985903af17fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 23/40] fix: use the bundled translits in the test and dev
 commands

---
 cmd/hangulize/dev.go  | 2 ++
 cmd/hangulize/test.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/hangulize/dev.go b/cmd/hangulize/dev.go
index 7a649ae..4ed291c 100644
--- a/cmd/hangulize/dev.go
+++ b/cmd/hangulize/dev.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -32,6 +33,7 @@ var devCmd = &cobra.Command{
 
 		// Test the spec.
 		h := hangulize.New(spec)
+		translit.Install(h)
 		hangulizeStream(cmd, args, h)
 		return nil
 	},
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index 009557e..c5c6e21 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -62,6 +63,7 @@ var testCmd = &cobra.Command{
 				traces   []hangulize.Trace
 			)
 			h := hangulize.New(spec)
+			translit.Install(h)
 
 			// Run test.
 			for _, exm := range spec.Test {
-- 
2.43.0


From fd62d3480fe648f61799c68f186e7c78fbf71adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 24/40] fix: apply the edges inside of an HRE negative
 lookaround

---
 pkg/hre/assertions.go | 8 +++++++-
 pkg/hre/pattern.go    | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 69c4ef8..01fa6ad 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -95,7 +95,7 @@ func dissolveLookaround(
 		)
 
 		if !hasEdge {
-			negExpr = fmt.Sprintf(format, lookExpr[1:])
+			negExpr = fmt.Sprintf(format, expandEdgesNarrow(lookExpr[1:]))
 
 			re, err := syntax.Parse(negExpr, syntax.Perl)
 			if err != nil {
@@ -224,6 +224,12 @@ func expandEdges(expr string) string {
 	return expr
 }
 
+// expandEdgesNarrow is expandEdges for a negative lookaround. A single
+// whitespace is enough there, so that the width keeps limited.
+func expandEdgesNarrow(expr string) string {
+	return strings.ReplaceAll(expandEdges(expr), `|\s+|{})`, `|\s|{})`)
+}
+
 // expandEdgesInside is expandEdges for a search which begins inside of a word.
 // The beginning of the search is not an edge unless it is a start of chunk.
 func expandEdgesInside(expr string, startOfChunk bool) string {
diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 8f1a3df..687201a 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -257,7 +257,8 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = skipRunes(word, negAStart, p.negAWidth)
+				// One more letter to tell the edge of the word.
+				negAStop = skipRunes(word, negAStart, p.negAWidth+1)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -273,7 +274,8 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = rewindRunes(word, negBStop, p.negBWidth)
+				// One more letter to tell the edge of the word.
+				negBStart = rewindRunes(word, negBStop, p.negBWidth+1)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
-- 
2.43.0


From 9e2357d87c49ebbef692e2a584dc6e9840cfacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 25/40] fix: keep non-capturing groups and escapes in an HRE
 lookaround

---
 pkg/hre/util.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 1471178..1a70897 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -1,6 +1,7 @@
 package hre
 
 import (
+	"bytes"
 	"regexp"
 	"strings"
 	"unicode/utf8"
@@ -64,7 +65,19 @@ func captured(s string, m []int, n int) string {
 
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	var buf bytes.Buffer
+	for i := 0; i < len(expr); i++ {
+		buf.WriteByte(expr[i])
+		switch {
+		case expr[i] == '\\' && i+1 < len(expr):
+			// Keep the escaped character.
+			i++
+			buf.WriteByte(expr[i])
+		case expr[i] == '(' && !strings.HasPrefix(expr[i:], "(?"):
+			buf.WriteString("?:")
+		}
+	}
+	return buf.String()
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 28ea57301b82fdc797004c45d9505c4017878c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 26/40] fix: report an invalid HRE lookaround or core
 expression

---
 pkg/hre/assertions.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 01fa6ad..c4bc019 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -64,10 +64,15 @@ var (
 )
 
 func expandLookaround(expr string) (string, string, string, int, int, error) {
+	err := mustValidParts(expr)
+	if err != nil {
+		return ``, ``, ``, 0, 0, err
+	}
+
 	posExpr, negAExpr, negAWidth := expandLookahead(expr)
 	posExpr, negBExpr, negBWidth := expandLookbehind(posExpr)
 
-	err := mustNoZeroWidth(posExpr)
+	err = mustNoZeroWidth(posExpr)
 	if err != nil {
 		return ``, ``, ``, 0, 0, err
 	}
@@ -197,6 +202,23 @@ func stripLookaround(expr string) string {
 	return expr[reLookbehind.FindStringIndex(expr)[1]:]
 }
 
+// mustValidParts checks if the core and each lookaround are valid on their own.
+// Otherwise, one of them could break into the groups built around them.
+func mustValidParts(expr string) error {
+	parts := []string{stripLookaround(expr)}
+	for _, m := range reZeroWidth.FindAllStringSubmatch(expr, -1) {
+		parts = append(parts, noCapture(strings.TrimPrefix(m[1], `~`)))
+	}
+
+	for _, part := range parts {
+		_, err := syntax.Parse(part, syntax.Perl)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func mustNoZeroWidth(expr string) error {
 	if reZeroWidth.MatchString(expr) {
 		return fmt.Errorf("zero-width group found in middle: %#v", expr)
-- 
2.43.0


From 55c29cce5fddce836856fdabf14941d87343409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 27/40] fix: return the error of a reader which fails in the
 middle of an HSL letter

---
 pkg/hsl/lexer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 1420ec6..dded09c 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -21,7 +21,24 @@ type lexer struct {
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
+	l := &lexer{line: 1, prevLine: 1}
+	l.r = bufio.NewReader(&errReader{r, l})
+	return l
+}
+
+// errReader keeps the error from the underlying reader in the lexer, as soon as
+// it happens. It may happen in the middle of a letter.
+type errReader struct {
+	r io.Reader
+	l *lexer
+}
+
+func (r *errReader) Read(p []byte) (int, error) {
+	n, err := r.r.Read(p)
+	if err != nil && err != io.EOF {
+		r.l.err = err
+	}
+	return n, err
 }
 
 // eof is not a valid rune. NULL in the source is not the end of the source.
-- 
2.43.0


From 074f251309f4b31cfb9df48d18936dc25fcbdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 28/40] fix: fail a test example which cannot be transcribed
 even if nothing is expected

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5c6e21..f007292 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -90,7 +90,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From 5ceddf805a7b7ffe22834f04610d9de3d7634504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:54 +0000
Subject: [PATCH 29/40] fix: write a coverage profile for a file with a line
 longer than 64 KiB

---
 cmd/hangulize/cover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index a75a787..bc90638 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/hangulize/hangulize"
@@ -123,6 +124,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 
 		cols := make([]int, 0)
 		scanner := bufio.NewScanner(file)
+		scanner.Buffer(nil, math.MaxInt32)
 		for scanner.Scan() {
 			col := len(scanner.Text()) + 1
 			cols = append(cols, col)
-- 
2.43.0


From 13e9de5bd4574d73b7ec83a9120771aa7430037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 30/40] fix: list the files of a coverage profile in a fixed
 order

---
 cmd/hangulize/cover.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index bc90638..1b7e130 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 	"github.com/hangulize/hangulize/pkg/hsl"
@@ -98,7 +99,13 @@ func (c *cover) WriteProfile(w io.Writer) error {
 		return fmt.Errorf("cover: %w", err)
 	}
 
+	names := make([]string, 0, len(c.names))
 	for name := range c.names {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	for _, name := range names {
 		file, err := os.Open(name)
 		if err != nil {
 			return fmt.Errorf("cover: %w", err)
-- 
2.43.0


From f9227e19472c3617e094019f82bb9cf367ea1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:55 +0000
Subject: [PATCH 31/40] fix: list the translits of the manifest in a fixed
 order

---
 cmd/manifest.json/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/manifest.json/main.go b/cmd/manifest.json/main.go
index 3f18ec2..2f6139a 100644
--- a/cmd/manifest.json/main.go
+++ b/cmd/manifest.json/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
 
 	"github.com/hangulize/hangulize"
 )
@@ -82,6 +83,8 @@ func main() {
 		translits = append(translits, id)
 	}
 
+	sort.Strings(translits)
+
 	b, err := json.Marshal(manifest{version, specs, translits})
 	if err != nil {
 		panic(err)
-- 
2.43.0


From f54224fb66ed666c9aa3d40aae08eebbb1399bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:34 +0000
Subject: [PATCH 32/40] fix: read the authors of a spec from the documented
 author key

---
 spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec.go b/spec.go
index ff7879d..f0d1e9e 100644
--- a/spec.go
+++ b/spec.go
@@ -320,7 +320,7 @@ type Config struct {
 
 func newConfig(dict *hsl.DictSection) (*Config, error) {
 	config := Config{
-		Authors: dict.All("authors"),
+		Authors: append(dict.All("author"), dict.All("authors")...),
 		Stage:   dict.One("stage"),
 	}
 	return &config, nil
-- 
2.43.0


From 1b3dcb24e5acc2b2dae229b686935fe232200fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 33/40] fix: guard the trace function of a hangulizer from
 concurrent use

---
 hangulize.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hangulize.go b/hangulize.go
index 59707fa..19b6a8b 100644
--- a/hangulize.go
+++ b/hangulize.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Hangulize transcribes a non-Korean word into Hangul, which is the Korean
 // alphabet.
 //
@@ -12,7 +14,7 @@ func Hangulize(lang string, word string) (string, error) {
 		return word, err
 	}
 
-	h := &hangulizer{spec, defaultTranslitRegistry, nil}
+	h := &hangulizer{spec: spec, translitRegistry: defaultTranslitRegistry}
 	return h.Hangulize(word)
 }
 
@@ -42,11 +44,14 @@ type hangulizer struct {
 	spec             *Spec
 	translitRegistry translitRegistry
 	traceFunc        func(Trace)
+
+	// traceMutex guards traceFunc.
+	traceMutex sync.RWMutex
 }
 
 // New creates a hangulizer for a Spec.
 func New(spec *Spec) Hangulizer {
-	return &hangulizer{spec, make(translitRegistry), nil}
+	return &hangulizer{spec: spec, translitRegistry: make(translitRegistry)}
 }
 
 // Spec returns the underlying Spec.
@@ -71,11 +76,18 @@ func (h *hangulizer) UnuseTranslit(scheme string) bool {
 
 // Trace registers a tracing function.
 func (h *hangulizer) Trace(fn func(Trace)) {
+	h.traceMutex.Lock()
+	defer h.traceMutex.Unlock()
+
 	h.traceFunc = fn
 }
 
 // Hangulize transcribes a non-Korean word into Hangul.
 func (h *hangulizer) Hangulize(word string) (string, error) {
-	p := newProcedure(h.Spec(), h.Translits(), h.traceFunc)
+	h.traceMutex.RLock()
+	traceFunc := h.traceFunc
+	h.traceMutex.RUnlock()
+
+	p := newProcedure(h.Spec(), h.Translits(), traceFunc)
 	return p.forward(word)
 }
-- 
2.43.0


From d790bf7b7bcf9eb2d460b3af22358a324ff65a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 34/40] fix: fail the call, not the program, when a JavaScript
 translit throws or rejects with any value

---
 cmd/hangulize.wasm/translit.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..c932ab8 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -38,12 +38,13 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	})
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
-		catchCh <- err
+		catchCh <- jsError(args[0])
 		return nil
 	})
 
-	p.fn.Invoke(word).Call("then", then).Call("catch", catch)
+	// Call the function within a promise so that what it throws is caught and
+	// what it returns may be any value, as in JavaScript.
+	js.Global().Get("Promise").Call("resolve", word).Call("then", p.fn).Call("then", then).Call("catch", catch)
 
 	select {
 	case result := <-thenCh:
@@ -53,6 +54,17 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	}
 }
 
+// jsError converts a JavaScript value which was thrown, an Error usually but
+// not always, as an error.
+func jsError(reason js.Value) error {
+	if reason.Type() == js.TypeObject {
+		if message := reason.Get("message"); message.Type() == js.TypeString {
+			return errors.New(message.String())
+		}
+	}
+	return errors.New(reason.String())
+}
+
 // jsUseTranslit wraps hangulize.UseTranslit in JavaScript.
 //
 //	useTranslit(scheme: string, fn: (word: string) => Promise<string>) => boolean
-- 
2.43.0


From f52e4a675a9391df97dd94a89c643f3520912b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 35/40] fix: reject the call when its JavaScript trace function
 throws, and take null as no trace function

---
 cmd/hangulize.wasm/hangulize.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index 95e964a..55855ca 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -31,6 +31,17 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		// Blocking code needs a new goroutine to avoid deadlock in a
 		// JavaScript build.
 		go func() {
+			// The trace function may throw.
+			defer func() {
+				switch r := recover().(type) {
+				case nil:
+				case js.Error:
+					reject.Invoke(r.Value)
+				default:
+					panic(r)
+				}
+			}()
+
 			spec, err := hangulize.LoadSpec(lang)
 			if err != nil {
 				throw(err)
@@ -42,7 +53,7 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 				h.UseTranslit(translit)
 			}
 
-			if !traceFn.IsUndefined() {
+			if !traceFn.IsUndefined() && !traceFn.IsNull() {
 				h.Trace(func(t hangulize.Trace) {
 					traceFn.Invoke(jsTrace(t))
 				})
-- 
2.43.0


From 24ec3b21e997c2276dc149267e5e5350d8a6eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 36/40] fix: expose unuseTranslit to JavaScript as documented

---
 cmd/hangulize.wasm/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hangulize.wasm/main.go b/cmd/hangulize.wasm/main.go
index c933c38..e154e47 100644
--- a/cmd/hangulize.wasm/main.go
+++ b/cmd/hangulize.wasm/main.go
@@ -15,6 +15,7 @@ func main() {
 	js.Global().Get("hangulize").Set("version", version)
 	js.Global().Get("hangulize").Set("specs", jsSpecs(hangulize.ListLangs()))
 	js.Global().Get("hangulize").Set("useTranslit", jsUseTranslit)
+	js.Global().Get("hangulize").Set("unuseTranslit", jsUnuseTranslit)
 
 	<-make(chan struct{}, 0)
 }
-- 
2.43.0


From dd0e91bc1a44f21001531fb66897bbc5b67da2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 37/40] fix: drop the result of a running job when the input
 becomes invalid

---
 web/src/hangulize/useHangulize.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/src/hangulize/useHangulize.ts b/web/src/hangulize/useHangulize.ts
index 49a6b69..364f729 100644
--- a/web/src/hangulize/useHangulize.ts
+++ b/web/src/hangulize/useHangulize.ts
@@ -122,6 +122,9 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
         setResult('')
         setState(HangulizeState.IDLE)
 
+        // Drop the result of a job which may be running still.
+        target.current = { lang: '', word: '' }
+
         if (delayTimer.current !== null) {
           clearTimeout(delayTimer.current)
           delayTimer.current = null
-- 
2.43.0


From 9519c1a5d9e07e670f544b1cdb36fc689da3f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 38/40] fix: skip an input which is not the last one after
 waiting for the running job

---
 web/src/hangulize/useHangulize.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/src/hangulize/useHangulize.ts b/web/src/hangulize/useHangulize.ts
index 364f729..68d845e 100644
--- a/web/src/hangulize/useHangulize.ts
+++ b/web/src/hangulize/useHangulize.ts
@@ -164,6 +164,7 @@ export function useHangulize(): [Hangulize, SetHangulizeInput] {
       // probably will be dropped.
       if (processing.current !== null) {
         await processing.current
+        if (target.current !== input) return
       }
 
       // This is the last request. Hangulize it.
-- 
2.43.0


From 69c2d4067e20982c4e270123611bf08eb61bb745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 39/40] fix: stop loading on the page when there is no result

---
 web/src/components/App.tsx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/src/components/App.tsx b/web/src/components/App.tsx
index 82d58b0..21c9eef 100644
--- a/web/src/components/App.tsx
+++ b/web/src/components/App.tsx
@@ -21,7 +21,8 @@ function determineLoadingResult(
   }
 
   if (!hangulize.result) {
-    return [true, '…']
+    // There may be no result even after the job is done.
+    return hangulize.state === HangulizeState.IDLE ? [false, ''] : [true, '…']
   }
 
   if (hangulize.state === HangulizeState.PROCESSING_DELAYED) {
-- 
2.43.0


From 2cd17c0b5d4c0a50829ca36d9bcd6b5c421a3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 40/40] fix: escape the word in the link of an example

---
 web/src/components/Examples.tsx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/components/Examples.tsx b/web/src/components/Examples.tsx
index 9fbc5f0..c2db8a6 100644
--- a/web/src/components/Examples.tsx
+++ b/web/src/components/Examples.tsx
@@ -34,7 +34,7 @@ export default function Examples({ specs, lang }: ExamplesProps) {
       <label>예시</label> <Icon name="shuffle" link onClick={shuffle} />
       {examples.map((x, i) => {
         return (
-          <Label as={Link} to={`?lang=${lang}&word=${x.word}`} key={i}>
+          <Label as={Link} to={`?lang=${lang}&word=${encodeURIComponent(x.word)}`} key={i}>
             {x.word}
           </Label>
         )
-- 
2.43.0

