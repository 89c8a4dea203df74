package main

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifmc/order"
	"github.com/hangulize/hangulize/pkg/hsl"
	"github.com/hangulize/hangulize/translit/cyrillic"
)

// ---- C14
//
// The library is compiled with every range over a map replaced by one over an
// order the harness chooses (mc/rewrite). A case fixes the orders; a run of it
// is compared with the independent model, and with the run in sorted order.

type point struct {
	site string
	n    int
}

// dev is an order other than the sorted one, at the At-th range of the run, or
// at each range of a site, or at all.
type dev struct {
	At    int    // -1: see Site
	Site  string // "": everywhere
	Order string
}

// under runs f under deviations and tells the ranges passed.
func under(devs []dev, f func()) (pts []point) {
	order.With(func(site string, n int) []int {
		at := len(pts)
		pts = append(pts, point{site, n})
		for _, d := range devs {
			if d.At == at || d.At < 0 && (d.Site == "" || d.Site == site) {
				return order.Perm(d.Order, n)
			}
		}
		return nil
	}, f)
	return
}

// ordersOf lists the orders tried for n keys: all of them for up to max keys.
func ordersOf(n, max int) (out []string) {
	if n <= max {
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		for k := 1; k < f; k++ {
			out = append(out, sprintf("perm:%d", k))
		}
		return
	}
	out = append(out, "rev", "odd")
	for k := 0; k < n; k++ {
		if k > 0 {
			out = append(out, sprintf("rot:%d", k), sprintf("first:%d", k))
		}
		if k < n-1 {
			out = append(out, sprintf("last:%d", k))
		}
		if k < n-2 {
			out = append(out, sprintf("swap:%d", k))
		}
	}
	return
}

// specOrder is a spec and words under an order.
type specOrder struct {
	Text  Str
	Words []Str
	Devs  []dev
}

// observe tells everything visible of a spec.
func observe(text string, words []Str) (out []string) {
	h, err := hsl.Parse(strings.NewReader(text))
	out = append(out, sprintf("hsl error %v", err != nil))
	for _, name := range sortedNames(h) {
		s := h[name]
		l := sprintf("%s %d", name, s.Line())
		if d, ok := s.(*hsl.DictSection); ok {
			l += mapText(d.Map())
			m, err := d.Injective()
			l += sprintf(" %v", err != nil)
			if err == nil {
				for _, k := range sortedKeys(m) {
					l += sprintf(" %q=%q", k, m[k])
				}
			}
			var ps []string
			for _, p := range d.Pairs() {
				ps = append(ps, sprintf("%q%q%d", p.Left(), p.Right(), p.Line()))
			}
			sort.Strings(ps)
			l += strings.Join(ps, ",")
		} else {
			for _, p := range s.Pairs() {
				l += sprintf("%q%q%d", p.Left(), p.Right(), p.Line())
			}
		}
		out = append(out, l)
	}
	s, err := hangulize.ParseSpec(strings.NewReader(text))
	if err != nil {
		return append(out, "spec error")
	}
	out = append(out, specText(s))
	for _, rs := range [][]hangulize.Rule{s.Rewrite, s.Transcribe} {
		for _, r := range rs {
			a, b := r.From.NegativeLookaroundWidths()
			out = append(out, sprintf("%s %q %q %d %d", r, string(r.From.Letters()), string(r.To.Letters()), a, b))
		}
	}
	hz := hangulize.New(s)
	for i, sc := range s.Lang.Translit {
		hz.UseTranslit(&fake{scheme: sc, mark: sprintf("%c", 'a'+i)})
	}
	var ts []string
	for sc, t := range hz.Translits() {
		ts = append(ts, sc+t.Scheme())
	}
	sort.Strings(ts)
	out = append(out, sprintf("%q", ts))
	hz.Trace(func(t hangulize.Trace) {
		out = append(out, sprintf("%s %q %q %v", t.Step, t.Word, t.Why, t.Rule))
	})
	for _, w := range words {
		got, err := hz.Hangulize(string(w))
		out = append(out, sprintf("%q -> %q %v", w, got, err))
	}
	return
}

func sortedNames(h hsl.HSL) (out []string) {
	for k := range h {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func mapText(m map[string][]string) (out string) {
	for _, k := range sortedKeys(m) {
		out += sprintf(" %q=%q", k, m[k])
	}
	return
}

func differ(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return sprintf("in this order %s, but in the sorted order %s", x, y)
		}
	}
	return ""
}

var baseOrder sync.Map

func checkSpecOrder(cs specOrder) (string, string) {
	key := string(cs.Text) + sprintf("%q", cs.Words)
	var want []string
	if v, ok := baseOrder.Load(key); ok {
		want = v.([]string)
	} else {
		under(nil, func() { want = observe(string(cs.Text), cs.Words) })
		baseOrder.Store(key, want)
	}
	var got []string
	under(cs.Devs, func() { got = observe(string(cs.Text), cs.Words) })
	if f := differ(got, want); f != "" {
		return "", f
	}
	return sprintf("%s %v", cs.Text, cs.Devs), ""
}

// refOrder compares a spec with the model, in any order.
type refOrder struct {
	Spec  rawSpec
	Words []Str
	Devs  []dev
}

func checkRefOrder(cs refOrder) (string, string) {
	ref, err := cs.Spec.compile()
	if err != nil {
		return "", err.Error()
	}
	fail, out := "", ""
	under(cs.Devs, func() {
		s, err := hangulize.ParseSpec(strings.NewReader(cs.Spec.hsl()))
		if err != nil {
			fail = err.Error()
			return
		}
		h := hangulize.New(s)
		for _, w := range cs.Words {
			want := ref.run(string(w), nil).word
			got, err := h.Hangulize(string(w))
			if err != nil || got != want {
				fail = sprintf("%s becomes %s, %v, expected %s", q(string(w)), q(got), err, q(want))
				return
			}
			out += got
		}
	})
	return out, fail
}

func cyrWords() (out []Str) {
	set := map[string]bool{}
	for _, country := range []string{"bg", "mk", "ru", "ua"} {
		srcs := sortedKeys(cyrTable(country))
		for i, a := range srcs {
			set[a] = true
			for j, b := range srcs {
				if (i+j)%7 == 0 {
					set[a+b] = true
				}
			}
		}
	}
	for _, k := range sortedKeys(set) {
		out = append(out, Str(k))
	}
	return
}

func childInit() string {
	var b strings.Builder
	for _, w := range cyrWords() {
		for _, t := range cyrillic.Ts {
			r, err := t.Transliterate(string(w))
			b.WriteString(sprintf("%s %q -> %q %v\n", t.Scheme(), w, r, err))
		}
	}
	return b.String()
}

func runOrdered(orders, log string, dir, name string, args ...string) (string, string, int) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VERIF_ORDER="+orders, "VERIF_ORDER_LOG="+log)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	code := 0
	var x *exec.ExitError
	if errors.As(err, &x) {
		code = x.ExitCode()
	} else if err != nil {
		code = -1
	}
	return o.String(), e.String(), code
}

// sitesOf runs a command and tells the ranges passed.
func sitesOf(dir, name string, args ...string) []point {
	log := filepath.Join(os.Getenv("VERIF_WORK"), "order"+sprintf("%d", len(args))+filepath.Base(name)+".log")
	os.Remove(log)
	runOrdered("id", log, dir, name, args...)
	b, _ := os.ReadFile(log)
	max := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		if site, n, ok := strings.Cut(l, " "); ok {
			k := atoi(n)
			if k > max[site] {
				max[site] = k
			}
		}
	}
	var out []point
	for _, s := range sortedKeys(max) {
		out = append(out, point{s, max[s]})
	}
	return out
}

func atoi(s string) (n int) {
	for _, c := range s {
		if c >= '0' && c <= '9' {
			n = n*10 + int(c-'0')
		}
	}
	return
}

// procOrder runs a command under orders; all runs must give the same. The
// commands are in commandsOf.
type procOrder struct {
	Cmd    int
	Orders string
}

var commandsOnce sync.Once
var orderCommands [][]string
var orderDir string

// commandsOf lists the commands: the harness itself for the package
// initialization, the manifest, and the tool on files.
func commandsOf() [][]string {
	commandsOnce.Do(func() {
		self, _ := os.Executable()
		work := os.Getenv("VERIF_WORK")
		tool, man := filepath.Join(work, "hangulize"), filepath.Join(work, "manifest")
		dir, err := os.MkdirTemp(work, "order")
		if err != nil {
			panic(err)
		}
		orderDir = dir
		sp := func(i int) string {
			s := rawSpec{Script: "Latn", Macros: []kvs{{"@", []string{"<v>"}}, {"@@", []string{"b"}}}, Vars: []kvs{{"v", []string{"a", "e"}}},
				Rewrite:    [][2]string{{"@@", "c"}, {"@", "x"}, {"zz", "y"}},
				Transcribe: [][2]string{{"x", "ㅏ"}, {"c", "ㄱ"}, {"q", "ㅂ"}},
				Test:       [][2]string{{"ab", "아브"}, {"e", "아"}}}
			if i%2 == 0 {
				s.Test = [][2]string{{"zz", ""}}
			}
			if i == 3 {
				s.Rewrite = s.Rewrite[:2]
			}
			return s.hsl()
		}
		names := []string{"b.hsl", "a.hsl", "é.hsl", "c.hsl", "aa.hsl"}
		for i, n := range names {
			os.WriteFile(filepath.Join(dir, n), []byte(sp(i)), 0o644)
		}
		all := append([]string{tool, "test", "--cover", "--coverprofile=/dev/stdout"}, names...)
		orderCommands = [][]string{
			{self, "-child", "init"},
			{man},
			{tool, "ls"},
			append([]string{tool, "ls"}, names...),
			all,
			{tool, "test", "--cover", "b.hsl", "a.hsl", "b.hsl"},
			{tool, "rus", "Владивосток", "-v"},
			{tool, "jpn", "東京", "-v"},
			{tool, "chi", "北京", "-v"},
		}
	})
	return orderCommands
}

type procOut struct {
	out, err string
	code     int
}

var procBase sync.Map

func checkProcOrder(cs procOrder) (string, string) {
	cmd := commandsOf()[cs.Cmd]
	run := func(orders string) procOut {
		o, e, code := runOrdered(orders, "", orderDir, cmd[0], cmd[1:]...)
		return procOut{o, e, code}
	}
	v, ok := procBase.Load(cs.Cmd)
	if !ok {
		v = run("id")
		procBase.Store(cs.Cmd, v)
	}
	want, got := v.(procOut), run(cs.Orders)
	if got != want {
		return "", sprintf("%q under %s: exit %d %s%s, in the sorted order: exit %d %s%s", cmd[1:], cs.Orders, got.code, firstDiff(got.out, want.out), firstDiff(got.err, want.err), want.code, firstDiff(want.out, got.out), firstDiff(want.err, got.err))
	}
	return sprintf("%d %s", cs.Cmd, cs.Orders), ""
}

// firstDiff gives the first line of a which differs from b.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i, l := range x {
		if i >= len(y) || y[i] != l {
			if len(l) > 200 {
				for j := range l {
					if j >= len(y[i]) || y[i][j] != l[j] {
						k := j - 60
						if k < 0 {
							k = 0
						}
						e := j + 100
						if e > len(l) {
							e = len(l)
						}
						return l[k:e]
					}
				}
			}
			return l
		}
	}
	return ""
}

// bundledOrder is a bundled language parsed under an order.
type bundledOrder struct {
	Lang string
	Devs []dev
}

var bundledBase sync.Map

func (cs bundledOrder) observe() (out []string) {
	r := refOf(cs.Lang)
	var words []Str
	withBundled(cs.Lang, func(b *bundledReal) (string, string) {
		for _, t := range spread(b.raw.Test, 6) {
			words = append(words, Str(t[0]))
		}
		return "", ""
	})
	under(cs.Devs, func() { out = observe(r.source, words) })
	return
}

func checkBundledOrder(cs bundledOrder) (string, string) {
	v, ok := bundledBase.Load(cs.Lang)
	if !ok {
		v = bundledOrder{Lang: cs.Lang}.observe()
		bundledBase.Store(cs.Lang, v)
	}
	if f := differ(cs.observe(), v.([]string)); f != "" {
		return "", f
	}
	return sprintf("%v", cs), ""
}

// orderSpecs are small specs whose tables have overlapping entries.
func orderSpecs(quick bool) (out []rawSpec) {
	names := []string{"@", "@@", "a", "ab", "abc", "b", "bc"}
	base := func() rawSpec {
		return rawSpec{Script: "Latn", Rewrite: [][2]string{{"abc", "x"}, {"@@@", "y"}, {"ab", "z"}, {"@", "w"}}, Transcribe: [][2]string{{"x", "ㅏ"}, {"y", "ㅑ"}, {"z", "ㅓ"}, {"w", "ㅗ"}, {"b", "ㅂ"}, {"c", "ㅊ"}, {"a", "ㅣ"}}}
	}
	n := 3
	if quick {
		n = 2
	}
	// macros: every set of two or three overlapping names
	vals := []string{"d", "bb", "e"}
	var rec func(at int, ms []kvs)
	rec = func(at int, ms []kvs) {
		if len(ms) >= 2 {
			s := base()
			s.Macros = append([]kvs{}, ms...)
			out = append(out, s)
		}
		if len(ms) == n {
			return
		}
		for i := at; i < len(names); i++ {
			rec(i+1, append(ms[:len(ms):len(ms)], kvs{names[i], []string{vals[len(ms)]}}))
		}
	}
	rec(0, nil)
	// normalize: every set of two or three overlapping sources to targets
	srcs := []string{"a", "ab", "abc", "b", "bc", "é", "éa"}
	var rec2 func(at int, ns []kvs)
	rec2 = func(at int, ns []kvs) {
		if len(ns) >= 2 {
			s := base()
			s.Normalize = append([]kvs{}, ns...)
			out = append(out, s)
			// the same with several sources for one target
			if len(ns) == 3 {
				s := base()
				s.Normalize = []kvs{{"ab", append(append([]string{}, ns[0].Vals...), ns[2].Vals...)}, {"C", ns[1].Vals}}
				out = append(out, s)
			}
		}
		if len(ns) == 3 {
			return
		}
		for i := at; i < len(srcs); i++ {
			rec2(i+1, append(ns[:len(ns):len(ns)], kvs{[]string{"x", "bc", "Éa"}[len(ns)], []string{srcs[i]}}))
		}
	}
	rec2(0, nil)
	// vars and everything together
	for k := 0; k < 4; k++ {
		s := base()
		s.Vars = []kvs{{"v", []string{"a", "b"}}, {"w", []string{"x", "y"}}, {"vv", []string{"c", "ab"}}}[:2+k%2]
		s.Rewrite = append([][2]string{{"<v>c", "<w>"}, {"a{<v>}", "b"}, {"{~<w>}b", "c"}}, s.Rewrite...)
		if k >= 2 {
			s.Macros = []kvs{{"@", []string{"<v>"}}, {"@@", []string{"<w>"}}, {"!", []string{"a"}}}
			s.Normalize = []kvs{{"a", []string{"q", "qq"}}, {"b", []string{"qqq", "aq"}}}
			s.Rewrite = append([][2]string{{"!.,'-", "b"}, {"'", "a"}, {"c@", "a@@"}}, s.Rewrite...)
		}
		out = append(out, s)
	}
	return
}

func runC14(c *Ctx) {
	c.Assume("map iterations of the module's own code are explored (range statements and package maps); the text of an error and the order of DictSection.Pairs, which is documented as unordered, are not results; within reflect, sync.Map and dependencies the runtime's own order is used")
	words := []Str{"abc", "ab", "a", "aabcb", "@@@@", "@", "bcab", "éab", "qqqa", "a.b,c'", "xyzw", ""}
	c.Rule("small specs with every set of 2 or 3 overlapping macro names or normalize sources: every order of every single range passed while parsing and transcribing, every order at each site, and every pair of ranges in deviating orders; against the independent model and the run in sorted order")
	specs := orderSpecs(c.Quick())
	var trans, pointsAll int
	var mu sync.Mutex
	c.Par(len(specs), func(w *Worker, i int) {
		s := specs[i]
		text := Str(s.hsl())
		var pts []point
		pts = under(nil, func() { observe(string(text), words) })
		mu.Lock()
		pointsAll += len(pts)
		mu.Unlock()
		max := c.Pick(4, 5)
		try := func(ds []dev) {
			mu.Lock()
			trans += len(pts)
			mu.Unlock()
			Run(w, specOrder{text, words, ds}, checkSpecOrder)
			Run(w, refOrder{s, words, ds}, checkRefOrder)
		}
		try(nil)
		bySite := map[string]int{}
		for _, p := range pts {
			if p.n > bySite[p.site] {
				bySite[p.site] = p.n
			}
		}
		for _, o := range ordersOf(4, 4) {
			try([]dev{{-1, "", o}})
		}
		for _, o := range []string{"rev", "odd", "rot:1", "rot:2", "first:1", "first:2", "last:0", "last:1"} {
			try([]dev{{-1, "", o}})
		}
		for _, site := range sortedKeys(bySite) {
			for _, o := range ordersOf(bySite[site], max) {
				try([]dev{{-1, site, o}})
			}
		}
		// single ranges
		singles := []dev{}
		seen := map[point]int{}
		for at, p := range pts {
			seen[p]++
			if c.Quick() && seen[p] > 3 {
				continue
			}
			for _, o := range ordersOf(p.n, max) {
				singles = append(singles, dev{at, "", o})
				try([]dev{{at, "", o}})
			}
		}
		if c.Expired() {
			return
		}
		if c.Quick() {
			singles = spread(singles, 14)
		} else {
			singles = spread(singles, 60)
		}
		for a := range singles {
			for b := 0; b < a; b++ {
				if singles[a].At != singles[b].At {
					try([]dev{singles[b], singles[a]})
				}
			}
		}
	})
	c.Rule("specs with up to 40 macros, vars, normalize entries and letters, and specs with errors or duplicates: every listed order (reversed, every rotation, every key first, last or swapped) at each site and everywhere")
	var texts []specOrder
	for _, n := range []int{5, 8, 9, 17, 40} {
		s := rawSpec{Script: "Latn", Transcribe: [][2]string{{"a", "ㅏ"}, {"b", "ㅂ"}}}
		var ws []Str
		for i := 0; i < n; i++ {
			s.Macros = append(s.Macros, kvs{strings.Repeat("@", 1+i%6) + sprintf("%d", i/6), []string{string(rune('a' + i%26))}})
			s.Vars = append(s.Vars, kvs{sprintf("v%d", i), []string{"a", "b"}})
			s.Normalize = append(s.Normalize, kvs{sprintf("%c%d", 'a'+i%26, i), []string{strings.Repeat("z", i+1), "q" + strings.Repeat("k", i)}})
			if i < 9 {
				s.Rewrite = append(s.Rewrite, [2]string{sprintf("<v%d>%s%d", i, strings.Repeat("@", 1+i%6), i/6), "b"})
			}
			ws = append(ws, Str(strings.Repeat("z", i)+"qkkk"), Str("ab"+strings.Repeat("@", i)+"0"))
		}
		texts = append(texts, specOrder{Text: Str(s.hsl()), Words: spread(ws, 12)})
	}
	for _, t := range []string{
		"macros:\n a = b\n c = \"d\", \"e\"\n", "normalize:\n a = x\n b = x\n c = x, y\n", "normalize:\n a = x, xx\n b = xx, x\n",
		"macros:\n a = b, c\n b = c, d\n e = f\n", "lang:\n id = a\n codes = b\n script = Latn\n", "lang:\n x = a\n y = b\n z = c, d\n", "vars:\n a = b\n b = c, d, e\n c = \n",
		"macros:\n a = b\n b = c\n c = a\nrewrite:\n abc -> cab\n", "macros:\n a = ab\n b = ba\nrewrite:\n a -> b\n b -> a\n ab -> ba\n",
		"lang:\n id = x\n codes = \"aa\", \"aaa\"\n script = Latn\n translit = p, q, r\ntranscribe:\n p -> \"ㅂ\"\n",
		"lang:\n id = x\n codes = \"aa\", \"aaa\"\n script = Latn\nnormalize:\n a = x\n b = x\n c = x, y\n d = y\ntranscribe:\n a -> \"ㅏ\"\n b -> \"ㅂ\"\n c -> \"ㅊ\"\n d -> \"ㄷ\"\n",
	} {
		texts = append(texts, specOrder{Text: Str(t), Words: []Str{"xyab", "p", "q"}})
	}
	c.Par(len(texts), func(w *Worker, i int) {
		t := texts[i]
		pts := under(nil, func() { observe(string(t.Text), t.Words) })
		bySite, max := map[string]int{"": 0}, 0
		for _, p := range pts {
			if p.n > bySite[p.site] {
				bySite[p.site] = p.n
			}
			if p.n > max {
				max = p.n
			}
		}
		bySite[""] = max
		for _, site := range sortedKeys(bySite) {
			os := ordersOf(bySite[site], 4)
			if c.Quick() {
				os = append(spread(os, 40), "rev", "odd", "rot:1", "first:1", "last:0")
			}
			for _, o := range os {
				Run(w, specOrder{t.Text, t.Words, []dev{{-1, site, o}}}, checkSpecOrder)
			}
			if c.Expired() {
				return
			}
		}
	})
	c.Rule("every bundled language parsed and used under reversed, odd-first, rotated and key-first orders, everywhere and at each site")
	var langs []string
	for _, f := range specFiles() {
		langs = append(langs, langOf(f))
	}
	type bo struct {
		cs bundledOrder
	}
	var bos []bundledOrder
	global := []string{"rev", "odd", "rot:1", "rot:2", "first:1", "first:2", "last:0", "swap:0", "perm:3", "rot:5", "first:3", "first:4", "first:5"}
	if c.Quick() {
		global = global[:7]
	}
	for _, lang := range langs {
		for _, o := range global {
			bos = append(bos, bundledOrder{lang, []dev{{-1, "", o}}})
		}
	}
	for i, lang := range langs {
		if c.Quick() && i%4 != 0 {
			continue
		}
		bySite := map[string]bool{}
		for _, p := range under(nil, func() { observe(refOf(lang).source, nil) }) {
			bySite[p.site] = true
		}
		for _, s := range sortedKeys(bySite) {
			for _, o := range []string{"rev", "odd", "first:1"} {
				bos = append(bos, bundledOrder{lang, []dev{{-1, s, o}}})
			}
		}
	}
	c.Par(len(bos), func(w *Worker, i int) { Run(w, bos[i], checkBundledOrder) })

	c.Rule("whole processes (package initialization with the Cyrillic tables, manifest, lists, tests with coverage and profile, traced transcriptions): every order of every site, and everywhere")
	var procs []procOrder
	sites := map[string]bool{}
	for k, cmd := range commandsOf() {
		pts := sitesOf(orderDir, cmd[0], cmd[1:]...)
		for _, o := range []string{"rev", "odd", "rot:1", "first:1", "first:2", "last:0", "perm:3", "perm:5"} {
			procs = append(procs, procOrder{k, o})
		}
		for _, p := range pts {
			sites[p.site] = true
			os := ordersOf(p.n, 4)
			if c.Quick() {
				limit := 8
				if k == 0 {
					limit = 60
				}
				os = spread(os, limit)
			}
			for _, o := range os {
				procs = append(procs, procOrder{k, p.site + "=" + o})
			}
		}
	}
	procs = dedupBy(procs)
	c.Par(len(procs), func(w *Worker, i int) { Run(w, procs[i], checkProcOrder) })
	c.Extra("sites_in_processes", sortedKeys(sites))
	c.Extra("specs", len(specs))
	c.Extra("ranges_in_small_specs", pointsAll)
	c.States(len(c.distinct))
	c.Transitions(trans)
	c.TracesValidated(int(c.evals.Load()))
	c.Sample(specOrder{Str(specs[3].hsl()), words[:3], []dev{{2, "", "perm:1"}}})
	c.Sample(procs[len(procs)/2])
}

func dedupBy(in []procOrder) (out []procOrder) {
	seen := map[procOrder]bool{}
	for _, p := range in {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return
}

func init() {
	kind(checkSpecOrder)
	kind(checkRefOrder)
	kind(checkProcOrder)
	kind(checkBundledOrder)
	children["init"] = func() { os.Stdout.WriteString(childInit()) }
	register(&Prop{ID: "C14", Level: "model_checking", Run: runC14})
}
