// Explores every order of events of the web page (App and its components with
// the real hook).  usage: node page.js DIR   (DIR holds the bundle)
// One job per line on standard input, one report per line on standard output.
'use strict'
const fs = require('fs')
const path = require('path')
const vm = require('vm')
const util = require('util')
const realImmediate = setImmediate
const realTimeout = setTimeout
const realClear = clearTimeout
const dir = process.argv[2]
const say = (s) => fs.writeSync(1, s + '\n')
const turn = () => new Promise((r) => realImmediate(r))
const eq = (a, b) => util.isDeepStrictEqual(a, b)
let script
function load() {
  if (!script) {
    const f = path.join(dir, 'App.js')
    script = new vm.Script('(function (module, exports) {' + fs.readFileSync(f, 'utf8') + '\n})', { filename: f })
  }
  const m = { exports: {} }
  script.runInThisContext()(m, m.exports)
  return m.exports
}

// ---- a small React: components with hooks, hosts without a document ----
const Fragment = Symbol('fragment')
const ELEMENT = Symbol('element')
const jsx = (type, props, key) => ({ [ELEMENT]: true, type, props: props || {}, key: key === undefined ? null : key })
const isElement = (x) => x !== null && typeof x === 'object' && x[ELEMENT] === true
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]))
let cur = null // the instance which renders

class Instance {
  constructor(tree, type) { this.tree = tree; this.type = type; this.hooks = []; this.queue = []; this.kids = new Map(); this.doms = new Map(); this.dirty = true; this.dead = false }
  slot(init) { const i = this.i++; if (!(i in this.hooks)) this.hooks[i] = init(); return this.hooks[i] }
  render(props) {
    this.props = props
    this.dirty = false
    for (const [s, f] of this.queue) s.v = f(s.v)
    this.queue = []
    this.i = 0
    const outer = cur
    cur = this
    let out
    try { out = this.type(props) } finally { cur = outer }
    const kids = new Map(), doms = new Map()
    this.out = this.place(out, '', kids, doms)
    for (const [k, c] of this.kids) if (kids.get(k) !== c) c.unmount()
    for (const [k, d] of this.doms) if (!doms.has(k) && d.ref) d.ref.current = null
    this.kids = kids
    this.doms = doms
    this.tree.rendered.push(this)
    if (++this.tree.renders > 3000) throw new Error('renders without end')
  }
  // Replaces components by instances; strings, hosts and instances remain.
  place(x, at, kids, doms) {
    if (x === null || x === undefined || typeof x === 'boolean') return []
    if (typeof x === 'string' || typeof x === 'number') return [String(x)]
    if (Array.isArray(x)) return x.flatMap((y, i) => this.place(y, `${at}/${isElement(y) && y.key !== null ? '$' + y.key : i}`, kids, doms))
    if (!isElement(x)) throw new Error('not a child: ' + util.inspect(x))
    if (x.type === Fragment) return this.place(x.props.children, at + '/f', kids, doms)
    const k = `${at}/${x.key !== null ? '$' + x.key : ''}`
    if (typeof x.type === 'function') {
      let c = this.kids.get(k)
      if (!c || c.type !== x.type) c = new Instance(this.tree, x.type)
      kids.set(k, c)
      c.render(x.props)
      return [c]
    }
    const dom = this.doms.get(k) || new Dom(this.tree)
    doms.set(k, dom)
    dom.type = x.type
    dom.props = x.props
    if (x.props.ref) { dom.ref = x.props.ref; dom.ref.current = dom }
    // Elements may be children or other props.
    dom.kids = Object.keys(x.props).flatMap((p) => {
      const v = x.props[p]
      return p === 'children' || isElement(v) ? this.place(v, `${k}/${p}`, kids, doms) : []
    })
    return [dom]
  }
  unmount() {
    this.dead = true
    for (const h of this.hooks) if (h && typeof h.clean === 'function') h.clean()
    for (const c of this.kids.values()) c.unmount()
    for (const d of this.doms.values()) if (d.ref) d.ref.current = null
  }
}

// Dom is a host. Its layout follows from the class of its element.
class Dom {
  constructor(tree) { this.tree = tree; this.kids = [] }
  get firstChild() { return this.kids.find((k) => k instanceof Dom) || null }
  get className() { return this.props.className || '' }
  get parent() { return this.tree.hosts().find((d) => d.kids.includes(this)) }
  get offsetHeight() {
    const p = this.parent
    const size = p && /\bsize-(\d)\b/.exec(p.className)
    if (!size) return 0
    // The largest size which fits fills the box exactly.
    const spare = this.tree.page.fit(text(this)) - (Number(size[1]) - 1)
    return spare === 0 ? 120 : spare > 0 ? 120 - spare * 10 : 121 - spare * 5
  }
  get clientHeight() { return this.offsetHeight }
  get scrollHeight() { return this.offsetHeight }
}
function flat(list) {
  return list.flatMap((x) => (x instanceof Instance ? flat(x.out) : [x]))
}
const text = (d) => flat(d.kids).map((x) => (typeof x === 'string' ? x : text(x))).join('')

class Tree {
  constructor(page, type) { this.page = page; this.renders = 0; this.rendered = []; this.passive = []; this.root = new Instance(this, type) }
  hosts() {
    const out = []
    const walk = (l) => { for (const x of flat(l)) if (x instanceof Dom) { out.push(x); walk(x.kids) } }
    walk(this.root.out)
    return out
  }
  instances() {
    const out = []
    const walk = (i) => { out.push(i); for (const c of i.kids.values()) walk(c) }
    walk(this.root)
    return out
  }
  // Commits what was rendered, children first.
  commit() {
    const done = this.rendered
    this.rendered = []
    for (const i of done) i.seen = false
    const order = []
    for (const i of done) if (!i.seen && !i.dead) { i.seen = true; order.push(i) }
    for (const kind of ['layout', 'passive']) {
      for (const i of order) for (const h of i.hooks) {
        if (!h || h.effect !== kind || !h.due) continue
        h.due = false
        const run = () => { if (i.dead) return; if (typeof h.clean === 'function') h.clean(); h.clean = h.f() }
        if (kind === 'layout') run(); else this.passive.push(run)
      }
    }
  }
  flush() { const p = this.passive; this.passive = []; for (const f of p) f() }
  start(props) { this.root.render(props); this.commit() }
  dirty() { return this.instances().find((i) => i.dirty) }
  stable() { return !this.dirty() && this.passive.length === 0 }
  step() {
    this.flush()
    const i = this.dirty()
    if (i) {
      i.render(i.props)
      this.commit()
    }
  }
}
const effect = (kind) => (f, deps) => {
  const h = cur.slot(() => ({ effect: kind, fresh: true }))
  if (h.fresh || !deps || changed(h.deps, deps)) { h.f = f; h.due = true }
  h.fresh = false
  h.deps = deps
}
const React = {
  __esModule: true, Fragment, createElement: (t, p, ...c) => { const { key, ...q } = p || {}; if (c.length) q.children = c.length === 1 ? c[0] : c; return jsx(t, q, key) },
  useState(init) {
    const i = cur
    const s = i.slot(() => {
      const s = { v: typeof init === 'function' ? init() : init }
      s.set = (v) => {
        if (typeof v !== 'function' && !i.queue.some(([x]) => x === s) && Object.is(v, s.v)) return
        i.queue.push([s, typeof v === 'function' ? v : () => v])
        if (!i.dead) i.dirty = true
      }
      return s
    })
    return [s.v, s.set]
  },
  useReducer(red, init, make) {
    const i = cur
    const s = i.slot(() => { const s = { v: make ? make(init) : init }; s.set = (a) => { i.queue.push([s, (v) => red(v, a)]); if (!i.dead) i.dirty = true }; return s })
    return [s.v, s.set]
  },
  useRef(v) { return cur.slot(() => ({ current: v })) },
  useMemo(f, deps) { const s = cur.slot(() => ({})); if (changed(s.deps, deps)) { s.v = f(); s.deps = deps } return s.v },
  useCallback(f, deps) { return React.useMemo(() => f, deps) },
  useEffect: effect('passive'), useLayoutEffect: effect('layout'), useInsertionEffect: effect('layout'),
  useId() { return cur.slot(() => ({ id: String(Math.floor(1e9 * 0.5)) })).id },
  useDebugValue() {}, memo: (f) => f, forwardRef: (f) => (p) => f(p, p.ref), startTransition: (f) => f(),
  useTransition: () => [false, (f) => f()], useDeferredValue: (v) => v, StrictMode: Fragment,
}
React.default = React

// ---- timers on a virtual clock ----
let timers = [], now = 0, timerN = 0
function fakeTimers() {
  timers = []; now = 0; timerN = 0
  globalThis.setTimeout = (f, ms, ...a) => { const t = { id: ++timerN, at: now + (ms || 0), f: () => f(...a) }; timers.push(t); return t.id }
  globalThis.clearTimeout = (id) => { timers = timers.filter((t) => t.id !== id) }
}

// ---- small stand-ins of libraries ----
const LEAD = 'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ', VOWEL = 'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ', TAIL = ['', ...'ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ']
const SPLIT = { 'ㄳ': 'ㄱㅅ', 'ㄵ': 'ㄴㅈ', 'ㄶ': 'ㄴㅎ', 'ㄺ': 'ㄹㄱ', 'ㄻ': 'ㄹㅁ', 'ㄼ': 'ㄹㅂ', 'ㄽ': 'ㄹㅅ', 'ㄾ': 'ㄹㅌ', 'ㄿ': 'ㄹㅍ', 'ㅀ': 'ㄹㅎ', 'ㅄ': 'ㅂㅅ', 'ㅘ': 'ㅗㅏ', 'ㅙ': 'ㅗㅐ', 'ㅚ': 'ㅗㅣ', 'ㅝ': 'ㅜㅓ', 'ㅞ': 'ㅜㅔ', 'ㅟ': 'ㅜㅣ', 'ㅢ': 'ㅡㅣ' }
function disassemble(s, grouped) {
  const g = [...String(s)].map((c) => {
    const n = c.codePointAt(0) - 0xac00
    const l = n < 0 || n >= 11172 ? c : LEAD[Math.floor(n / 588)] + VOWEL[Math.floor(n / 28) % 21] + TAIL[n % 28]
    return [...l].flatMap((x) => [...(SPLIT[x] || x)])
  })
  return grouped ? g : g.flat()
}
const at = (o, k) => (typeof k === 'string' ? k.split('.') : k).reduce((x, p) => (x === undefined || x === null ? undefined : x[p]), o)
class Fuse {
  constructor(list, o) { this.list = list || []; this.keys = (o && o.keys) || [] }
  setCollection(l) { this.list = l }
  search(q) {
    return this.list.map((item, refIndex) => ({ item, refIndex })).filter(({ item }) =>
      this.keys.some((k) => { const v = at(item, k && k.name ? k.name : k); return typeof v === 'string' && v.toLowerCase().includes(String(q).toLowerCase()) }))
  }
}
const lodash = (pick) => {
  const values = (c) => (Array.isArray(c) ? c : Object.values(c || {}))
  const it = (f) => (typeof f === 'function' ? f : (x) => at(x, f))
  const by = (fs) => (a, b) => { for (const f of fs) { const x = it(f)(a), y = it(f)(b); if (x < y) return -1; if (x > y) return 1 } return 0 }
  const _ = {
    sample: (c) => { const l = values(c); return l[pick(l.length)] },
    sampleSize: (c, n = 1) => { const l = [...values(c)]; const out = []; while (l.length && out.length < n) out.push(...l.splice(pick(l.length), 1)); return out },
    shuffle: (c) => _.sampleSize(c, Infinity),
    sortBy: (c, ...fs) => values(c).map((v, i) => [v, i]).sort((a, b) => by(fs.flat())(a[0], b[0]) || a[1] - b[1]).map((x) => x[0]),
    floor: Math.floor, ceil: Math.ceil, round: Math.round, min: (l) => Math.min(...l), max: (l) => Math.max(...l), clamp: (x, a, b) => Math.min(Math.max(x, a), b),
    isEmpty: (x) => !x || (Array.isArray(x) || typeof x === 'string' ? x.length : Object.keys(x).length) === 0, isEqual: eq, keys: (o) => Object.keys(o || {}), values,
    map: (c, f) => values(c).map((v, i) => it(f)(v, i)), filter: (c, f) => values(c).filter(it(f)), find: (c, f) => values(c).find(it(f)), get: (o, k, d) => { const v = at(o, k); return v === undefined ? d : v },
    take: (l, n = 1) => values(l).slice(0, n), head: (l) => values(l)[0], first: (l) => values(l)[0], last: (l) => values(l).slice(-1)[0], range: (n) => [...Array(n).keys()], uniq: (l) => [...new Set(l)], random: (a, b) => (b === undefined ? pick(a + 1) : a + pick(b - a + 1)), noop() {}, identity: (x) => x, trim: (s) => String(s || '').trim(), has: (o, k) => o != null && Object.hasOwn(o, k), size: (c) => values(c).length,
    orderBy: (c, fs, os = []) => { const l = _.sortBy(c, ...[fs].flat()); return [os].flat()[0] === 'desc' ? l.reverse() : l }, some: (c, f) => values(c).some(it(f)), every: (c, f) => values(c).every(it(f)), includes: (c, x) => (typeof c === 'string' ? c.includes(x) : values(c).includes(x)), forEach: (c, f) => { values(c).forEach((v, i) => f(v, i)); return c }, flatMap: (c, f) => values(c).flatMap((v, i) => it(f)(v, i)), reduce: (c, f, ...a) => values(c).reduce(f, ...a), mapValues: (o, f) => Object.fromEntries(Object.entries(o || {}).map(([k, v]) => [k, it(f)(v, k)])), keyBy: (c, f) => Object.fromEntries(values(c).map((v) => [it(f)(v), v])), compact: (l) => values(l).filter(Boolean), toPairs: (o) => Object.entries(o || {}), isNil: (x) => x === null || x === undefined, isString: (x) => typeof x === 'string', isUndefined: (x) => x === undefined, join: (l, x) => values(l).join(x === undefined ? ',' : x), times: (n, f) => [...Array(n).keys()].map(f), slice: (l, a, b) => values(l).slice(a, b), sum: (l) => l.reduce((a, b) => a + b, 0),
  }
  return Object.assign((x) => x, _, { default: _, __esModule: true })
}

// ---- the page ----
const result = (lang, word) => (/^e/.test(word) ? '' : `R(${lang},${word})`)
class Page {
  constructor(job) {
    this.job = job
    this.specs = job.specs // what the page knows
    this.n = 0
    this.calls = []
    this.fail = ''
    this.init = {}
    this.delayed = false
    this.done = new Map()
    this.fits = 0
    this.random = 0
    this.sampled = 0
    const page = this
    fakeTimers()
    this.history = [{ search: job.start }]
    this.index = 0
    this.listeners = new Map()
    globalThis.window = {
      addEventListener: (e, f) => { if (!page.listeners.has(e)) page.listeners.set(e, new Set()); page.listeners.get(e).add(f) },
      removeEventListener: (e, f) => { const l = page.listeners.get(e); if (l) l.delete(f) },
      get location() { return { search: page.history[page.index].search, pathname: '/', origin: 'http://app', href: 'http://app/' + page.history[page.index].search } },
      innerWidth: 800, innerHeight: 600, setTimeout: (...a) => globalThis.setTimeout(...a), clearTimeout: (...a) => globalThis.clearTimeout(...a),
    }
    globalThis.document = { title: '', addEventListener() {}, removeEventListener() {} }
    window.document = document
    globalThis.getComputedStyle = window.getComputedStyle = () => ({ maxHeight: '120px', height: '120px' })
    globalThis.Worker = class { constructor(url) { this.url = String(url) } }
    const comlink = {
      __esModule: true, proxy: (f) => f, expose() {}, transfer: (x) => x,
      wrap: (w) => /translit\.worker(\.\w+)?$/.test(w.url) ? { load: async () => {}, transliterate: async (m, x) => x } : {
        hangulize: (lang, word) => new Promise((resolve, reject) => page.calls.push({ lang, word, resolve, reject, open: true })),
        getVersion: () => page.initial('ver', 'v-worker'),
        getSpecs: () => page.initial('specs', job.specs2 || job.specs),
        useTranslit: async () => {},
      },
    }
    comlink.default = comlink
    const semantic = { __esModule: true }
    for (const k of 'Accordion Breadcrumb Button Card Checkbox Comment Confirm Container Dimmer Divider Dropdown Embed Feed Flag Form Grid Header Icon Image Input Item Label List Loader Menu Message Modal Pagination Placeholder Popup Portal Progress Radio Rail Rating Ref Reveal Search Segment Select Sidebar Statistic Step Sticky Tab Table TextArea Transition Visibility'.split(' ')) {
      semantic[k] = (p) => jsx(k, p)
      for (const s of ['Content', 'Subheader', 'Column', 'Row', 'Item', 'Group', 'Menu', 'Header', 'Divider', 'Text', 'Detail', 'Description', 'Meta', 'Field', 'Input']) semantic[k][s] = (p) => jsx(`${k}.${s}`, p)
    }
    const locate = () => {
      const [, set] = React.useState(0)
      React.useEffect(() => { const f = () => set((n) => n + 1); page.routed.add(f); return () => page.routed.delete(f) }, [])
      return { search: page.history[page.index].search, pathname: '/', hash: '', key: String(page.index), state: null }
    }
    this.routed = new Set()
    const params = (x) => new URLSearchParams(typeof x === 'object' && !(x instanceof URLSearchParams) && !Array.isArray(x) ? Object.entries(x).flatMap(([k, v]) => (Array.isArray(v) ? v.map((y) => [k, y]) : [[k, v]])) : x || '')
    const navigate = (to, o) => page.navigate(typeof to === 'number' ? to : typeof to === 'object' ? to.search || '' : String(to), o)
    const router = {
      __esModule: true, Link: (p) => jsx('Link', p), NavLink: (p) => jsx('Link', p), BrowserRouter: (p) => p.children, createSearchParams: params, useLocation: locate, useNavigate: () => navigate,
      useSearchParams(init) {
        const loc = locate()
        const sp = React.useMemo(() => new URLSearchParams(loc.search), [loc.search])
        const set = React.useCallback((next, o) => navigate('?' + params(typeof next === 'function' ? next(sp) : next), o), [sp])
        return [sp, set]
      },
    }
    const pick = (n) => (n === 0 ? 0 : (page.sampled++, [0, n - 1, Math.floor(n / 2)][Math.floor(job.random / 3 ** (page.sampled % 3)) % 3]))
    globalThis.__stub = {
      react: React, 'jsx-runtime': { jsx, jsxs: jsx, Fragment, __esModule: true }, 'react-router-dom': router, 'semantic-ui-react': semantic,
      lodash: lodash(pick), fuse: Object.assign(Fuse, { default: Fuse, __esModule: true }), 'hangul-js': { disassemble, d: disassemble, __esModule: true, default: { disassemble, d: disassemble } },
      comlink, manifest: { version: 'v-manifest', specs: job.specs, translits: [] }, wasm_exec: {},
    }
    this.App = load().default
    this.tree = new Tree(this, this.App)
  }
  initial(k, v) {
    const give = (r) => { if (k === 'specs') this.specs = v; r(JSON.parse(JSON.stringify(v))) }
    return new Promise((r) => { if (this.job.late) this.init[k] = () => give(r); else give(r) })
  }
  fit(t) { return (this.job.fits || [4])[[...t].reduce((n, c) => n + c.codePointAt(0), this.fits) % (this.job.fits || [4]).length] }
  navigate(to, o) {
    if (typeof to === 'number') { this.index = Math.min(Math.max(this.index + to, 0), this.history.length - 1) }
    else {
      const search = to.startsWith('?') ? to.replace(/#.*/, '') : to.includes('?') ? to.slice(to.indexOf('?')).replace(/#.*/, '') : ''
      const loc = { search: search === '?' ? '' : search }
      if (o && o.replace) this.history[this.index] = loc
      else { this.history = [...this.history.slice(0, this.index + 1), loc]; this.index++ }
    }
    for (const f of this.routed) f()
  }
  query() { return new URLSearchParams(this.history[this.index].search) }
  host(type) { return this.tree.hosts().filter((d) => d.type === type) }
  async settle() {
    for (let k = 0; ; k++) {
      await turn()
      if (this.tree.stable()) return
      while (!this.tree.stable()) this.tree.step()
      if (k > 300) throw new Error('does not become stable')
    }
  }
  async start() {
    const q = this.query()
    this.want = { lang: q.get('lang') || null, word: q.has('word') ? q.get('word') : null, index: 0, length: 1 }
    try { this.tree.start({}); await this.settle() } catch (e) { this.fail = 'threw ' + (e && e.stack) }
    this.check()
  }
  enabled() {
    const a = []
    if (this.n < this.job.acts.length) a.push('act')
    if (timers.length) a.push('timer')
    this.calls.forEach((c, i) => { if (c.open) { a.push('ok ' + i); if (this.job.errors) a.push('err ' + i) } })
    for (const k of Object.keys(this.init)) a.push('init ' + k)
    return a
  }
  async act(a) {
    const [op, arg] = a.split(' ')
    try {
      switch (op) {
        case 'act': this.user(this.job.acts[this.n++]); break
        case 'timer': { const t = timers.reduce((x, y) => (y.at < x.at || (y.at === x.at && y.id < x.id) ? y : x)); timers = timers.filter((x) => x !== t); now = Math.max(now, t.at); t.f(); break }
        case 'ok': case 'err': {
          const c = this.calls[arg]
          c.open = false
          const r = op === 'ok' ? result(c.lang, c.word) : ''
          const k = JSON.stringify([c.lang, c.word])
          this.done.set(k, [...(this.done.get(k) || []), r])
          if (op === 'ok') c.resolve(r); else c.reject(new Error('failed'))
          break
        }
        case 'init': { const f = this.init[arg]; delete this.init[arg]; f(); break }
      }
      await this.settle()
    } catch (e) { if (String(e && e.stack).includes('harness:')) throw e; this.fail = this.fail || 'threw ' + (e && e.stack) }
    this.check()
  }
  user([op, arg]) {
    const w = this.want
    w.blank = false // the language was chosen without a word
    switch (op) {
      case 'lang': w.lang = arg; w.blank = w.word === null; this.host('Dropdown')[0].props.onChange({}, { value: arg }); break
      case 'word': w.word = arg; this.host('Input')[0].props.onChange({ target: { value: arg } }, { value: arg }); break
      case 'go': { const q = new URLSearchParams(arg); w.lang = q.get('lang') || null; w.word = q.has('word') ? q.get('word') : null; w.index++; w.length = w.index + 1; this.navigate(arg); break }
      case 'back': if (w.index > 0) { w.index--; const q = new URLSearchParams(this.history[w.index].search); w.lang = q.get('lang'); w.word = q.has('word') ? q.get('word') : null; this.navigate(-1) } break
      case 'example': {
        const l = this.links()
        if (!l.length) break
        const x = l[arg % l.length]
        w.word = text(x); w.index++; w.length = w.index + 1
        const e = { defaultPrevented: false, preventDefault() { e.defaultPrevented = true }, stopPropagation() {} }
        if (typeof x.props.onClick === 'function') x.props.onClick(e)
        if (x.props.to !== undefined && !e.defaultPrevented) this.navigate(typeof x.props.to === 'string' ? x.props.to : x.props.to.search, x.props.replace ? { replace: true } : {})
        break
      }
      case 'shuffle': { const i = this.tree.hosts().find((d) => d.props.name === 'shuffle' || d.props.icon === 'shuffle'); if (i && i.props.onClick) i.props.onClick({}); break }
      case 'resize': this.fits++; for (const f of [...(this.listeners.get('resize') || [])]) f({}); break
      default: throw new Error('harness: ' + op)
    }
  }
  links() { return this.tree.hosts().filter((d) => d.props.to !== undefined || (d.type === 'Label' && typeof d.props.onClick === 'function')) }
  check() {
    if (this.fail) return
    const bad = (s) => { this.fail = this.fail || `${s} (address ${this.history[this.index].search}, want ${JSON.stringify(this.want)})` }
    const q = this.query(), w = this.want, specs = this.specs
    // The address, completed where it tells nothing.
    const lang = q.get('lang')
    if (w.lang === null && specs[lang]) w.lang = lang
    if (w.lang !== lang) return bad(`the address has the language ${lang}`)
    const tests = specs[lang].test
    if (w.word === null && q.has('word') && ((w.blank && !q.get('word')) || tests.some((t) => t.word === q.get('word')))) w.word = q.get('word')
    if (w.word === null ? q.has('word') || tests.length : w.word !== q.get('word')) return bad(`the address has the word ${q.get('word')}`)
    if (this.history.length !== w.length || this.index !== w.index) return bad(`${this.history.length} addresses in the history, at ${this.index}`)
    const word = q.get('word') || ''
    const input = this.host('Input')[0], drop = this.host('Dropdown')[0]
    if (!input || input.props.value !== word) return bad(`the prompt has the word ${input && input.props.value}`)
    if (!drop || drop.props.value !== lang) return bad(`the prompt has the language ${drop && drop.props.value}`)
    if (document.title !== (word ? `한글라이즈: ${word}` : '한글라이즈')) return bad(`the title is ${document.title}`)
    // The examples
    const ex = this.links().map(text)
    if (ex.length !== Math.min(5, tests.length)) return bad(`${ex.length} examples`)
    const left = tests.map((t) => t.word)
    for (const e of ex) { const i = left.indexOf(e); if (i < 0) return bad(`the example ${e}`); left.splice(i, 1) }
    // The languages
    const sorted = Object.values(specs).map((s, i) => [s, i]).sort((a, b) => (a[0].lang.korean < b[0].lang.korean ? -1 : a[0].lang.korean > b[0].lang.korean ? 1 : a[1] - b[1])).map(([s]) => [s.lang.id, s.lang.korean])
    if (!eq((drop.props.options || []).map((o) => [o.value, o.text]), sorted)) return bad(`the languages are ${(drop.props.options || []).map((o) => o.value)}`)
    for (const o of this.job.flags ? drop.props.options : []) if (typeof o.flag !== 'string') return bad(`no flag for ${o.value}`)
    // The result
    const res = this.tree.hosts().find((d) => /\bresult\b/.test(d.className))
    const shown = res ? text(res) : ''
    const loading = !!input.props.loading
    const blank = !word.trim()
    if (res && /\bloading\b/.test(res.className) !== loading) return bad('the result and the prompt disagree about loading')
    if (blank && (res || loading)) return bad('a blank word shows ' + (res ? shown : 'loading'))
    if (res && !shown.trim()) return bad('an empty result is shown')
    const k = JSON.stringify([lang, word])
    if (!this.enabled().length) {
      const outs = this.done.get(k) || []
      if (!blank && !outs.length) return bad('was never transcribed')
      if (!blank && !outs.map((r) => r.trim()).includes(shown)) return bad(`shows ${shown} at the end`)
      if (loading) return bad(`shows loading at the end`)
    } else if (!blank && !timers.length && this.calls.some((c) => c.open) && !loading) {
      return bad('waits long without a mark')
    } else if (!blank && res) {
      // A result of something else than the last input, if any, was given once.
      if (shown !== '…' && ![...this.done.values()].flat().includes(shown)) return bad(`shows ${shown}`)
      if (shown === '…' && !loading) return bad('waits without a mark')
    }
    if (res) {
      const size = /\bsize-(\d)\b/.exec(res.className)
      const fit = Math.max(this.fit(text(res)), 0)
      if (!size || Number(size[1]) - 1 !== fit) return bad(`the size is ${size && size[0]}, but size-${fit + 1} fits ${shown}`)
    }
  }
  // What is there to check once.
  once() {
    const drop = this.host('Dropdown')[0]
    if (typeof drop.props.search === 'function') {
      for (const s of Object.values(this.specs)) {
        const l = s.lang
        const initials = [...l.korean].map((c) => disassemble(c)[0]).join('')
        for (const query of [l.code2, l.code3, l.english, l.korean, initials, l.korean.slice(0, 2)]) {
          const got = drop.props.search(drop.props.options, query)
          if (query && !got.some((o) => o.value === l.id)) return `the search for ${query} gives ${got.map((o) => o.value)}`
          if (got.some((o) => !drop.props.options.includes(o))) return `the search for ${query} gives something else`
        }
      }
    }
    return ''
  }
}

async function replay(job, prefix) {
  const run = new Page(job)
  await run.start()
  if (!run.fail && job.once) run.fail = run.once()
  for (const a of prefix) {
    if (run.fail) break
    if (!run.enabled().includes(a)) throw new Error(`harness: ${a} of ${prefix} is not enabled`)
    await run.act(a)
  }
  return run
}

async function explore(job) {
  let paths = 0, steps = 0, states = 0
  const t0 = Date.now()
  const stack = [job.prefix || []]
  let acts = []
  try {
    while (stack.length) {
      const prefix = stack.pop()
      acts = [...prefix]
      const run = await replay(job, prefix)
      steps += prefix.length
      for (;;) {
        if (run.fail) return { fail: run.fail, path: acts }
        const en = run.enabled()
        states++
        if (!en.length) break
        for (let i = en.length - 1; i > 0; i--) stack.push([...acts, en[i]])
        acts.push(en[0])
        steps++
        await run.act(en[0])
      }
      paths++
      if (job.ms && Date.now() - t0 > job.ms) return { paths, steps, states, cut: true }
    }
  } catch (e) {
    const m = String(e && e.stack)
    return m.includes('harness:') ? { harness: m } : { fail: 'threw ' + m, path: acts }
  }
  return { paths, steps, states }
}

process.on('unhandledRejection', () => {})
console.error = () => {}
;(async () => {
  say('ready')
  for await (const line of require('readline').createInterface({ input: process.stdin })) {
    const r = await explore({ random: 0, ...JSON.parse(line) })
    globalThis.setTimeout = realTimeout
    globalThis.clearTimeout = realClear
    say(JSON.stringify(r))
  }
  process.exit(0)
})()
