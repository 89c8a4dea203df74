package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/verifmc/sched"
	"github.com/hangulize/hangulize/translit"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
)

// ---- C15
//
// The library is compiled with the race detector and with sync and sync/atomic
// replaced by a scheduler (mc/sched, mc/zsync, mc/zatomic). Small programs of
// several threads are run under every schedule up to a bound of preemptions. A
// run must have no data race, deadlock or panic, and its history must be one
// of a sequential order.

// An op is a kind and arguments, as "use D p 1".
type conc struct {
	Init    []string
	Threads [][]string
	Picks   []int // the schedule: the choice at each point with several threads
}

type opDone struct {
	op         string
	thread     int
	start, end int64
	res        string
	ptr        *hangulize.Spec
}

// concFake is a translit whose calls are points of the schedule.
type concFake struct {
	scheme, mark string
	w            *concWorld
}

func (f *concFake) Scheme() string { sched.Yield(); return f.scheme }
func (f *concFake) Transliterate(w string) (string, error) {
	sched.Yield()
	if f.mark == "!" {
		return "", errFake
	}
	if f.mark == "R" {
		f.w.use()
	}
	return w + f.mark, nil
}

// use is a translit or trace function which uses the library itself.
func (w *concWorld) use() {
	w.h.Trace(nil)
	w.h.Translits()
	hangulize.Translits()
	w.h.UnuseTranslit("none")
	hangulize.UnuseTranslit("none")
	hangulize.UnloadSpec("none")
	hangulize.LoadSpec("zza")
	hangulize.Hangulize("zza", "b")
}

// The small specs which the harness puts among the bundled ones.
func concSpecs() map[string]rawSpec {
	// They are small, for parsing takes most of a run.
	base := rawSpec{Script: "Latn", Macros: []kvs{{"@", []string{"<v>"}}}, Vars: []kvs{{"v", []string{"a", "e"}}, {"w", []string{"x", "y"}}}, Normalize: []kvs{{"a", []string{"á", "àà"}}},
		Rewrite:    [][2]string{{"b@", "c<w>"}},
		Transcribe: [][2]string{{"{~c}x", "ㄱㅏ"}, {"c", "ㅊ"}, {"a", "ㅣ"}}}
	a, b := base, base
	a.ID, b.ID = "zza", "zzb"
	b.Translit = []string{"p", "q"}
	b.Transcribe = [][2]string{{"cx", "ㅊㅗ"}, {"1", "ㅁ"}, {"2", "ㅂ"}}
	return map[string]rawSpec{"zza": a, "zzb": b}
}

var concWords = []string{"bab xcx!", "bá, cáx k"}

type concWorld struct {
	h     hangulize.Hangulizer // shared by the threads
	other hangulize.Hangulizer // of the same spec, too
	spec  *hangulize.Spec
	spec2 *hangulize.Spec
	furi  hangulize.Translit
	sink  [sched.MaxThreads + 1]string // what the trace functions got from the calls of each thread
}

var concParsed struct {
	once sync.Once
	a, b *hangulize.Spec
}

func newConcWorld(fresh bool) *concWorld {
	concParsed.once.Do(func() {
		var err error
		concParsed.a, err = hangulize.ParseSpec(strings.NewReader(concSpecs()["zza"].hsl()))
		if err == nil {
			concParsed.b, err = hangulize.ParseSpec(strings.NewReader(concSpecs()["zzb"].hsl()))
		}
		if err != nil {
			panic(err)
		}
	})
	w := &concWorld{spec: concParsed.b, spec2: concParsed.a}
	if fresh {
		// specs which nothing has used yet
		w.spec, _ = hangulize.ParseSpec(strings.NewReader(concSpecs()["zzb"].hsl()))
		w.spec2, _ = hangulize.ParseSpec(strings.NewReader(concSpecs()["zza"].hsl()))
	}
	w.h, w.other = hangulize.New(w.spec), hangulize.New(w.spec)
	w.furi = reflect.New(reflect.TypeOf(furigana.T).Elem()).Interface().(hangulize.Translit)
	return w
}

func clearGlobals() {
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	hangulize.UnloadSpec("zza")
	hangulize.UnloadSpec("zzb")
}

func (w *concWorld) reg(name string) registry {
	switch name {
	case "H":
		return w.h
	case "O":
		return w.other
	}
	return defaultReg{}
}

func errText(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, hangulize.ErrSpecNotFound):
		return "no spec"
	case errors.Is(err, hangulize.ErrTranslitNotImported):
		return "not imported " + err.Error()
	case errors.Is(err, hangulize.ErrTranslit):
		return "failed " + err.Error()
	}
	return err.Error()
}

func regText(m map[string]hangulize.Translit) string {
	var out []string
	for s, t := range m {
		mark := "std"
		if f, ok := t.(*concFake); ok {
			mark = f.mark
		}
		out = append(out, s+":"+mark)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func concEvent(fn string, t refTrace) string {
	return sprintf("%s:%s %s %s %d;", fn, t.Step, t.Word, t.Why, t.Rule)
}

// do runs an op.
func (w *concWorld) do(op string) (res string, ptr *hangulize.Spec) {
	f := strings.Fields(op)
	arg := func(i int) string {
		if i < len(f) {
			return f[i]
		}
		return ""
	}
	word := func(i int) string {
		return concWords[atoi(arg(i))]
	}
	switch f[0] {
	case "use":
		return sprintf("%v", w.reg(f[1]).UseTranslit(&concFake{f[2], f[3], w})), nil
	case "unuse":
		return sprintf("%v", w.reg(f[1]).UnuseTranslit(f[2])), nil
	case "list":
		m := w.reg(f[1]).Translits()
		res = regText(m)
		for s := range m {
			delete(m, s)
		}
		m["spoiled"] = nil
		return res, nil
	case "load":
		s, err := hangulize.LoadSpec(f[1])
		return errText(err), s
	case "unload":
		hangulize.UnloadSpec(f[1])
		return "", nil
	case "langs":
		l := hangulize.ListLangs()
		res = strings.Join(l, " ")
		for i := range l {
			l[i] = ""
		}
		return res, nil
	case "hz":
		got, err := hangulize.Hangulize(f[1], word(2))
		return got + " " + errText(err), nil
	case "tr":
		h := w.h
		if f[1] == "O" {
			h = w.other
		}
		got, err := h.Hangulize(word(2))
		return got + " " + errText(err), nil
	case "trs": // with what is traced
		h := w.h
		if f[1] == "O" {
			h = w.other
		}
		at := &w.sink[sched.Self()+1]
		*at = ""
		got, err := h.Hangulize(word(2))
		return got + " " + errText(err) + " " + *at, nil
	case "trace":
		fn := func(hangulize.Trace) { sched.Yield() }
		switch f[2] {
		case "off":
			fn = nil
		case "R":
			fn = func(hangulize.Trace) { w.use() }
		case "a", "b":
			fn = func(t hangulize.Trace) {
				sched.Yield()
				w.sink[sched.Self()+1] += concEvent(f[2], tracesText([]hangulize.Trace{t})[0])
			}
		}
		h := w.h
		if f[1] == "O" {
			h = w.other
		}
		h.Trace(fn)
		return "", nil
	case "traced": // a hangulizer of its own, of the same spec
		h := hangulize.New(w.spec2)
		var evs []string
		h.Trace(func(t hangulize.Trace) {
			sched.Yield()
			evs = append(evs, sprintf("%s %s %s %v", t.Step, t.Word, t.Why, t.Rule))
		})
		got, err := h.Hangulize(word(1))
		return got + errText(err) + strings.Join(evs, ";"), nil
	case "spec":
		return specText(w.h.Spec()), nil
	case "rule":
		for _, s := range []*hangulize.Spec{w.spec, w.spec2} {
			for _, r := range append(append([]hangulize.Rule{}, s.Rewrite...), s.Transcribe...) {
				a, b := r.From.NegativeLookaroundWidths()
				res += sprintf("%v %v %q %q %d %d %v;", r, r.Replace(word(1)), string(r.From.Letters()), string(r.To.Letters()), a, b, r.From.Find(word(1), -1))
				for _, x := range [][]rune{r.From.Letters(), r.To.Letters()} {
					for i := range x {
						x[i] = 'Z'
					}
				}
			}
		}
		return res, nil
	case "parse":
		s, err := hangulize.ParseSpec(strings.NewReader(concSpecs()[f[1]].hsl()))
		if err != nil {
			return err.Error(), nil
		}
		return specText(s), nil
	case "badparse":
		_, err := hangulize.ParseSpec(strings.NewReader("rewrite:\n \"<nope>{}(\" -> \"a\"\n"))
		return sprintf("%v", err != nil), nil
	case "furi":
		got, err := w.furi.Transliterate([]string{"東京", "山々とこゝろ"}[atoi(f[1])])
		return sprintf("%s %v", got, err), nil
	case "pin":
		got, err := pinyin.T.Transliterate([]string{"北京ab", "上海"}[atoi(f[1])])
		return sprintf("%s %v", got, err), nil
	case "cyr":
		got, err := cyrillic.Ts[atoi(f[2])].Transliterate([]string{"Shhyodro", "zhivot"}[atoi(f[1])])
		return sprintf("%s %v", got, err), nil
	case "install":
		return sprintf("%v", translit.Install()), nil
	case "installH":
		return sprintf("%v", translit.Install(w.h)), nil
	}
	panic("unknown op " + op)
}

// -----------------------------------------------------------------------------
// The sequential model

var stdSchemes = []string{"furigana", "pinyin", "cyrillic[bg]", "cyrillic[mk]", "cyrillic[ru]", "cyrillic[ua]"}

type concModel struct {
	regs  map[string]map[string]string
	cache map[string]*hangulize.Spec // nil: loaded, yet unseen
	trace map[string]string
}

func newConcModel() *concModel {
	return &concModel{map[string]map[string]string{"D": {}, "H": {}, "O": {}}, map[string]*hangulize.Spec{}, map[string]string{}}
}

func (m *concModel) copy() *concModel {
	c := newConcModel()
	for r, x := range m.regs {
		for k, v := range x {
			c.regs[r][k] = v
		}
	}
	for k, v := range m.cache {
		c.cache[k] = v
	}
	for k, v := range m.trace {
		c.trace[k] = v
	}
	return c
}

var concAlone = map[string]string{}
var concRefs = map[string]*refSpec{}

// alone is what a stateless op gives by itself.
func alone(op string) string {
	if v, ok := concAlone[op]; ok {
		return v
	}
	r, _ := newConcWorld(true).do(op)
	concAlone[op] = r
	return r
}

func (m *concModel) hangulize(lang, reg string, word string) string {
	ref := concRefs[lang]
	if ref == nil {
		raw := concSpecs()[lang]
		r, err := raw.compile()
		if err != nil {
			panic(err)
		}
		concRefs[lang], ref = r, r
	}
	var steps []refTrace
	w := word
	for _, s := range ref.raw.Translit {
		mark, ok := m.regs[reg][s]
		if !ok {
			return " not imported translit not imported: " + s
		}
		if mark == "!" {
			return " failed translit error: " + s
		}
		w += mark
		steps = append(steps, refTrace{"Transliterate", w, s, -1})
	}
	key := lang + reg + w + " " + m.trace[reg]
	if v, ok := concAlone[key]; ok {
		return v
	}
	run := ref.run(word, steps)
	v := run.word + " ok"
	if fn := m.trace[reg]; fn != "" {
		v += " "
		if fn == "a" || fn == "b" {
			for _, t := range run.traces {
				v += concEvent(fn, t)
			}
		}
	}
	concAlone[key] = v
	return v
}

// step applies an op; it tells whether the outcome agrees.
func (m *concModel) step(d opDone) bool {
	f := strings.Fields(d.op)
	switch f[0] {
	case "use":
		_, has := m.regs[f[1]][f[2]]
		if !has {
			m.regs[f[1]][f[2]] = f[3]
		}
		return d.res == sprintf("%v", !has)
	case "unuse":
		_, has := m.regs[f[1]][f[2]]
		delete(m.regs[f[1]], f[2])
		return d.res == sprintf("%v", has)
	case "list":
		var out []string
		for s, mark := range m.regs[f[1]] {
			out = append(out, s+":"+mark)
		}
		sort.Strings(out)
		return d.res == strings.Join(out, " ")
	case "install", "installH":
		r := m.regs["D"]
		if f[0] == "installH" {
			r = m.regs["H"]
		}
		ok := true
		for _, s := range stdSchemes {
			if _, has := r[s]; has {
				ok = false
			}
		}
		if ok {
			for _, s := range stdSchemes {
				r[s] = "std"
			}
		}
		return d.res == sprintf("%v", ok)
	case "load":
		if concSpecs()[f[1]].ID == "" {
			return d.ptr == nil && d.res == "no spec"
		}
		if d.res != "ok" || d.ptr == nil {
			return false
		}
		if p, ok := m.cache[f[1]]; ok && p != nil && p != d.ptr {
			return false
		}
		m.cache[f[1]] = d.ptr
		return true
	case "unload":
		delete(m.cache, f[1])
		return true
	case "hz":
		if concSpecs()[f[1]].ID == "" {
			return d.res == concWords[atoi(f[2])]+" no spec"
		}
		if _, ok := m.cache[f[1]]; !ok {
			m.cache[f[1]] = nil
		}
		return d.res == m.hangulize(f[1], "D", concWords[atoi(f[2])])
	case "tr":
		was := m.trace[f[1]]
		m.trace[f[1]] = ""
		want := m.hangulize("zzb", f[1], concWords[atoi(f[2])])
		m.trace[f[1]] = was
		return d.res == want
	case "trs":
		if m.trace[f[1]] == "" {
			m.trace[f[1]] = "off"
		}
		return d.res == m.hangulize("zzb", f[1], concWords[atoi(f[2])])
	case "trace":
		m.trace[f[1]] = f[2]
		return true
	}
	return d.res == alone(d.op)
}

// linear finds a sequential order of the calls.
func linear(m *concModel, ds []opDone) bool {
	if len(ds) == 0 {
		return true
	}
	for i, d := range ds {
		first := true
		for j, e := range ds {
			if j != i && (e.end < d.start || e.thread == d.thread && e.start < d.start) {
				first = false
			}
		}
		if !first {
			continue
		}
		n := m.copy()
		if n.step(d) {
			rest := append(append([]opDone{}, ds[:i]...), ds[i+1:]...)
			if linear(n, rest) {
				return true
			}
		}
	}
	return false
}

// -----------------------------------------------------------------------------

// runConc runs a program once. pick chooses among the enabled threads.
func runConc(cs conc, fresh bool, pick func(n int, c sched.Choice) int) (sched.Result, string) {
	clearGlobals()
	w := newConcWorld(fresh)
	model := newConcModel()
	for _, op := range cs.Init {
		r, p := w.do(op)
		if !model.step(opDone{op: op, res: r, ptr: p}) {
			return sched.Result{}, sprintf("%s gives %s at first", op, r)
		}
	}
	done := make([][]opDone, len(cs.Threads))
	fs := make([]func(), len(cs.Threads))
	for i := range cs.Threads {
		i := i
		fs[i] = func() {
			for _, op := range cs.Threads[i] {
				d := opDone{op: op, thread: i, start: sched.Tick()}
				d.res, d.ptr = w.do(op)
				d.end = sched.Tick()
				done[i] = append(done[i], d)
			}
		}
	}
	races := sched.Errors()
	res := sched.Run(fs, pick)
	switch {
	case sched.Errors() > races:
		return res, "data race"
	case res.Deadlock:
		return res, "deadlock"
	case res.Stuck:
		return res, "a call does not return"
	case res.Panic != "":
		return res, "panic: " + res.Panic
	}
	var all []opDone
	for _, ds := range done {
		all = append(all, ds...)
	}
	hist := all
	// What is left in the end.
	last := []string{"list D", "list H", "list O"}
	if text := sprintf("%q %q", cs.Init, cs.Threads); strings.Contains(text, "zza") || strings.Contains(text, "zzb") {
		last = append(last, "load zza", "load zza", "load zzb", "load zzb")
	}
	for _, op := range last {
		d := opDone{op: op, thread: -1, start: sched.Tick()}
		d.res, d.ptr = w.do(op)
		d.end = sched.Tick()
		hist = append(hist, d)
	}
	if !linear(model, hist) {
		var out []string
		for _, d := range hist {
			p := ""
			if d.ptr != nil {
				p = sprintf(" %p", d.ptr)
			}
			out = append(out, sprintf("%d: %s [%d,%d] = %q%s", d.thread, d.op, d.start, d.end, d.res, p))
		}
		return res, "no sequential order gives this history: " + strings.Join(out, "; ")
	}
	return res, ""
}

func checkConc(cs conc) (string, string) {
	res, f := runConc(cs, freshNeeded(cs), func(n int, c sched.Choice) int {
		if n < len(cs.Picks) && cs.Picks[n] < len(c.Enabled) {
			return cs.Picks[n]
		}
		return stay(c)
	})
	return sprintf("%d", res.Points), f
}

// stay goes on with the running thread, or the first one.
func stay(c sched.Choice) int {
	for k, id := range c.Enabled {
		if id == c.Cur {
			return k
		}
	}
	return 0
}

// freshNeeded tells whether the program is on specs which are not used before.
func freshNeeded(cs conc) bool {
	for _, t := range cs.Threads {
		for _, op := range t {
			switch strings.Fields(op)[0] {
			case "tr", "trs", "rule", "traced", "spec":
				return true
			}
		}
	}
	return false
}

// explore runs a program under every schedule with at most bound preemptions.
func explore(cs conc, bound int, found func(conc, string), stop func() bool) (runs, points int) {
	fresh := freshNeeded(cs)
	prefix := []int{}
	for {
		res, f := runConc(cs, fresh, func(n int, c sched.Choice) int {
			if n < len(prefix) {
				return prefix[n]
			}
			return stay(c)
		})
		runs++
		points += res.Points
		if f != "" {
			bad := cs
			for _, c := range res.Choices {
				bad.Picks = append(bad.Picks, c.Pick)
			}
			found(bad, f)
			return
		}
		if stop() {
			return
		}
		// The next schedule: change the last choice which can be.
		cost := make([]int, len(res.Choices)+1)
		for i, c := range res.Choices {
			cost[i+1] = cost[i]
			if c.Cur >= 0 && c.Enabled[c.Pick] != c.Cur {
				cost[i+1]++
			}
		}
		next := -1
		var pick int
		for i := len(res.Choices) - 1; i >= 0 && next < 0; i-- {
			c := res.Choices[i]
			// The order of choices at a point: stay first, then the rest.
			order := []int{stay(c)}
			for k := range c.Enabled {
				if k != order[0] {
					order = append(order, k)
				}
			}
			at := 0
			for k := range order {
				if order[k] == c.Pick {
					at = k
				}
			}
			for _, k := range order[at+1:] {
				extra := 0
				if c.Cur >= 0 && c.Enabled[k] != c.Cur {
					extra = 1
				}
				if cost[i]+extra <= bound {
					next, pick = i, k
					break
				}
			}
		}
		if next < 0 {
			return
		}
		prefix = prefix[:0]
		for i := 0; i < next; i++ {
			prefix = append(prefix, res.Choices[i].Pick)
		}
		prefix = append(prefix, pick)
	}
}

// concPrograms lists the programs.
type program struct {
	cs    conc
	bound int
	group string
}

func concPrograms(quick bool) (out []program) {
	group := ""
	two := func(ops []string, inits [][]string, l1, l2, bound int) {
		var ths [][]string
		for l := 1; l <= l1; l++ {
			for _, ix := range seqs(len(ops), l) {
				t := []string{}
				for _, k := range ix {
					t = append(t, ops[k])
				}
				ths = append(ths, t)
			}
		}
		for _, init := range inits {
			for i, a := range ths {
				for _, b := range ths[i:] {
					if len(a)+len(b) > l1+l2 {
						continue
					}
					out = append(out, program{conc{Init: init, Threads: [][]string{a, b}}, bound, group})
				}
			}
		}
	}
	three := func(ops []string, inits [][]string, bound int) {
		for _, init := range inits {
			for i := range ops {
				for j := i; j < len(ops); j++ {
					for k := j; k < len(ops); k++ {
						out = append(out, program{conc{Init: init, Threads: [][]string{{ops[i]}, {ops[j]}, {ops[k]}}}, bound, group})
					}
				}
			}
		}
	}
	long := 2
	b2, b3, bt := 2, 1, 2
	if !quick {
		b2, b3, bt = 6, 4, 4
	}
	for _, r := range []string{"D", "H"} {
		group = "registry " + r
		tr := "tr H 0"
		if r == "D" {
			tr = "hz zzb 0"
		}
		ops := []string{"use " + r + " p 1", "use " + r + " p 2", "use " + r + " q 1", "unuse " + r + " p", "list " + r, tr}
		inits := [][]string{nil, {"use " + r + " p 2", "use " + r + " q 2"}}
		if quick {
			two(ops, inits, long, 1, b2)
			if r == "H" {
				two(ops[:5], inits[1:], long, long, 1)
			}
		} else {
			two(ops, inits, long, long, b2)
		}
		three(ops, inits, b3)
	}
	group = "cache"
	cache := []string{"load zza", "unload zza", "hz zza 0", "load zzb", "langs", "load zzc", "hz zzc 0"}
	if quick {
		two(cache[:4], [][]string{nil, {"load zza"}}, 2, 1, b2)
		two(cache[:4], [][]string{nil}, 2, 2, 1)
		two(cache, [][]string{nil}, 1, 1, 4)
	} else {
		two(cache, [][]string{nil, {"load zza"}}, 2, 2, b2)
	}
	three(cache, [][]string{nil, {"load zza"}}, b3)
	group = "transcription"
	run := []string{"tr H 0", "tr H 1", "tr O 1", "hz zza 1", "hz zzb 0", "traced 0", "rule 0", "parse zza", "badparse", "spec", "trace H on", "trace H off", "list H", "langs", "unload zza"}
	init := []string{"use H p 1", "use H q 2", "use O p 2", "use O q 1", "use D p 1", "use D q 1"}
	two(run, [][]string{init, append([]string{"trace H on"}, init...)}, 1, 1, bt)
	if quick {
		two(run[:6], [][]string{init}, 2, 1, 1)
		three(run[:8], [][]string{init}, 1)
	} else {
		two(run, [][]string{init}, 2, 2, 2)
		three(run, [][]string{init}, 2)
	}
	two([]string{"tr H 0", "tr H 1"}, [][]string{{"use H p !", "use H q 1"}, {"use H p 1"}}, 2, 2, bt)
	group = "trace functions"
	sinks := []string{"trs H 0", "trs H 1", "trace H a", "trace H b", "trace H off", "trs O 0"}
	two(sinks, [][]string{init, append([]string{"trace H b"}, init...)}, 1, 1, bt)
	two(sinks[:5], [][]string{append([]string{"trace H b"}, init...)}, 2, 1, 1)
	three(sinks[:4], [][]string{init}, b3)
	group = "callbacks"
	back := []string{"tr H 0", "hz zza 1", "list H", "trace H R", "trace H off", "unload zza", "use H p 1", "unuse H p"}
	for _, init := range [][]string{{"use H p R", "use H q 2"}, {"use H p 1", "use H q R", "trace H R"}} {
		two(back, [][]string{init}, 1, 1, b2-1)
		if !quick {
			two(back, [][]string{init}, 2, 1, 2)
		}
	}
	group = "bundled translits"
	std := []string{"furi 0", "furi 1", "pin 0", "pin 1", "cyr 0 2", "cyr 1 2", "cyr 0 3"}
	two(std, [][]string{nil}, 1, 1, 4)
	two(std, [][]string{nil}, 2, 1, 1)
	three(std, [][]string{nil}, 2)
	group = "install"
	two([]string{"install"}, [][]string{nil, {"use D pinyin 1"}}, 2, 2, bt)
	two([]string{"installH"}, [][]string{nil, {"use H pinyin 1"}}, 2, 2, bt)
	out = append(out, program{conc{Threads: [][]string{{"install"}, {"install"}, {"install"}}}, 2, group},
		program{conc{Threads: [][]string{{"install"}, {"installH"}, {"furi 0"}}}, 2, group})
	return
}

type concReport struct {
	Case conc
	Fail string
	Runs int
	Pts  int
	Done int
	Cut  bool
	Of   string
}

// childConc explores the programs named on standard input and reports on
// standard output.
func childConc() {
	debug.SetGCPercent(800)
	quick := os.Getenv("VERIF_TIER") != "thorough"
	limit := time.Now().Add(time.Duration(atoi(os.Getenv("VERIF_SECS"))) * time.Second)
	out := json.NewEncoder(os.Stdout)
	ps := concPrograms(quick)
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		p := ps[atoi(in.Text())]
		cut := false
		runs, pts := explore(p.cs, p.bound, func(cs conc, f string) {
			out.Encode(concReport{Case: cs, Fail: f})
		}, func() bool { cut = time.Now().After(limit); return cut })
		out.Encode(concReport{Runs: runs, Pts: pts, Done: 1, Cut: cut, Of: p.group})
	}
}

func runC15(c *Ctx) {
	c.Assume("threads switch at synchronization operations, translit and trace calls; that is complete for programs without data races, and the race detector reports those in every schedule explored; translit.Install is a sequence of UseTranslit calls, explored with other installs only; specs are parsed afresh where their first use may matter")
	c.Rule("all programs of 2 threads with up to 2 calls and of 3 threads with 1 call over groups of operations (registries, spec cache, transcription and traces, rules, parsing, bundled translits, installs) from several initial states; every schedule up to a bound of preemptions; race detector, deadlock, and a sequential model of registries and cache (linearizability with the order of calls in time)")
	for name, raw := range concSpecs() {
		if s, err := hangulize.LoadSpec(name); err != nil || s.Source != raw.hsl() {
			c.Fail("", conc{}, sprintf("the small spec %s is not in place: %v", name, err))
			return
		}
	}
	ps := concPrograms(c.Quick())
	var mu sync.Mutex
	var wg sync.WaitGroup
	runs, pts, progs, bad := 0, 0, 0, 0
	groups := map[string]int{}
	// Programs of the Japanese translit load its dictionary, so they go to one
	// process each for a start.
	var slow, rest []int
	for i := range ps {
		if text := sprintf("%q", ps[i].cs.Threads); strings.Contains(text, "furi") {
			slow = append(slow, i)
		} else {
			rest = append(rest, i)
		}
	}
	mixed := append([]int{}, rest...)
	order := stride(len(rest))
	for i := range rest {
		mixed[i] = rest[order(i)]
	}
	take := func(k int) int {
		mu.Lock()
		defer mu.Unlock()
		from := &mixed
		if k < 2 && len(slow) > 0 {
			from = &slow
		}
		if len(*from) == 0 || bad > 4 || c.Expired() {
			return -1
		}
		p := (*from)[0]
		*from = (*from)[1:]
		return p
	}
	self, _ := os.Executable()
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			cmd := exec.Command(self, "-child", "conc")
			log := filepath.Join(os.Getenv("VERIF_WORK"), sprintf("race%d", k))
			cmd.Env = append(os.Environ(), sprintf("VERIF_SECS=%d", int(time.Until(c.Limit).Seconds())), "VERIF_TIER="+c.Tier,
				"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+log, "GOMAXPROCS=2")
			errFile, _ := os.Create(log + ".err")
			cmd.Stderr = errFile
			pipe, err := cmd.StdoutPipe()
			feed, _ := cmd.StdinPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				c.Fail("", conc{}, err.Error())
				return
			}
			sc := bufio.NewScanner(pipe)
			sc.Buffer(nil, 64<<20)
			next := func() {
				if p := take(k); p >= 0 {
					feed.Write([]byte(sprintf("%d\n", p)))
				} else {
					feed.Close()
				}
			}
			next()
			for sc.Scan() {
				var r concReport
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				mu.Lock()
				runs += r.Runs
				pts += r.Pts
				progs += r.Done
				groups[r.Of] += r.Runs
				if r.Fail != "" {
					bad++
				}
				mu.Unlock()
				if r.Done > 0 {
					next()
				}
				if r.Cut {
					c.expired.Store(true)
				}
				if r.Fail != "" {
					f := r.Fail
					if f == "data race" {
						logs, _ := filepath.Glob(log + ".*")
						for _, l := range logs {
							b, _ := os.ReadFile(l)
							if t := string(b); strings.Contains(t, "DATA RACE") {
								f += ": " + raceWhere(t)
								break
							}
						}
					}
					c.Fail("", r.Case, f)
				}
			}
			if err := cmd.Wait(); err != nil {
				errFile.Close()
				b, _ := os.ReadFile(log + ".err")
				if len(b) > 3000 {
					b = b[:3000]
				}
				c.Fail("", conc{}, sprintf("the exploring process ends with %v: %s", err, b))
			}
			errFile.Close()
		}(k)
	}
	wg.Wait()
	c.evals.Add(int64(runs))
	c.States(runs)
	c.Transitions(pts)
	c.TracesValidated(runs)
	c.Extra("programs", progs)
	c.Extra("programs_planned", len(ps))
	c.Extra("schedules", groups)
	c.Extra("race_detector", sched.Race)
	c.Sample(ps[10].cs)
	c.Sample(ps[len(ps)/2].cs)
}

// raceWhere picks the module's places out of a race report.
func raceWhere(t string) string {
	t, _, _ = strings.Cut(t[strings.Index(t, "DATA RACE"):], "==================")
	var out []string
	for _, l := range strings.Split(t, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, ".go:"); i >= 0 && !strings.Contains(l, "/go1.") && len(out) < 8 {
			l, _, _ = strings.Cut(l, " ")
			out = append(out, l[strings.LastIndexByte(l, '/')+1:])
		}
	}
	return strings.Join(out, " < ")
}

func init() {
	kind(checkConc)
	children["conc"] = childConc
	children["concspecs"] = func() {
		for name, s := range concSpecs() {
			os.WriteFile(filepath.Join(verifDir, "mc/specs", name+".hsl"), []byte(s.hsl()), 0o644)
		}
	}
	register(&Prop{ID: "C15", Level: "model_checking", Run: runC15})
}
