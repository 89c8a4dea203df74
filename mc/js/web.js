// Explores every order of events of the web application's hook and workers.
// usage: node web.js DIR   (DIR holds the bundles)
// One job per line on standard input, one report per line on standard output.
'use strict'
const fs = require('fs')
const path = require('path')
const vm = require('vm')
const util = require('util')
const realImmediate = setImmediate
const realTimeout = setTimeout
const dir = process.argv[2]
const say = (s) => fs.writeSync(1, s + '\n')
const scripts = {}
function load(name) {
  if (!scripts[name]) {
    const f = path.join(dir, name + '.js')
    scripts[name] = new vm.Script('(function (module, exports) {' + fs.readFileSync(f, 'utf8') + '\n})', { filename: f })
  }
  const m = { exports: {} }
  scripts[name].runInThisContext()(m, m.exports)
  return m.exports
}
const turn = () => new Promise((r) => realImmediate(r))
const eq = (a, b) => util.isDeepStrictEqual(a, b)

// ---- a small React ----
class Rend {
  constructor(fn) { this.fn = fn; this.hooks = []; this.dirty = true; this.queue = []; this.effects = []; this.value = undefined; this.renders = 0 }
  render() {
    this.flush()
    for (const [s, v] of this.queue) s.v = typeof v === 'function' ? v(s.v) : v
    this.queue = []
    this.dirty = false
    this.i = 0
    Rend.cur = this
    this.value = this.fn()
    Rend.cur = null
    if (++this.renders > 500) throw new Error('renders without end')
  }
  flush() { const e = this.effects; this.effects = []; for (const f of e) f() }
  slot(init) { const i = this.i++; if (!(i in this.hooks)) this.hooks[i] = init(); return this.hooks[i] }
}
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]))
const React = {
  __esModule: true,
  useState(init) {
    const r = Rend.cur
    const s = r.slot(() => {
      const s = { v: typeof init === 'function' ? init() : init }
      s.set = (v) => {
        if (typeof v !== 'function' && !r.queue.some(([x]) => x === s) && Object.is(v, s.v)) return
        r.queue.push([s, v]); r.dirty = true
      }
      return s
    })
    return [s.v, s.set]
  },
  useReducer(red, init) {
    const r = Rend.cur
    const s = r.slot(() => { const s = { v: init }; s.set = (a) => { r.queue.push([s, (v) => red(v, a)]); r.dirty = true }; return s })
    return [s.v, s.set]
  },
  useRef(v) { return Rend.cur.slot(() => ({ current: v })) },
  useMemo(f, deps) { const s = Rend.cur.slot(() => ({})); if (changed(s.deps, deps)) { s.v = f(); s.deps = deps } return s.v },
  useCallback(f, deps) { return React.useMemo(() => f, deps) },
  useEffect(f, deps) {
    const r = Rend.cur
    const s = r.slot(() => ({}))
    if (changed(s.deps, deps)) {
      s.deps = deps
      r.effects.push(() => { if (typeof s.clean === 'function') s.clean(); s.clean = f() })
    }
  },
}
React.useLayoutEffect = React.useEffect
React.default = React

// ---- timers on a virtual clock ----
let timers = [], now = 0, timerN = 0
function fakeTimers() {
  timers = []; now = 0; timerN = 0
  globalThis.setTimeout = (f, ms, ...a) => { const t = { id: ++timerN, at: now + (ms || 0), f: () => f(...a) }; timers.push(t); return t.id }
  globalThis.clearTimeout = (id) => { timers = timers.filter((t) => t.id !== id) }
}
function realTimers() { globalThis.setTimeout = realTimeout }

// ---- the hook ----
const result = (lang, word) => `R(${lang},${word})`
class HookRun {
  constructor(job) {
    this.job = job
    this.ins = 0
    this.calls = []
    this.outcomes = new Map() // input -> possible results
    this.init = {}
    this.fail = ''
    this.reg = []
    this.loads = []
    this.trans = []
    this.workers = []
    const self = this
    fakeTimers()
    globalThis.Worker = class { constructor(url) { this.url = String(url); this.n = self.workers.length; self.workers.push(this) } }
    const comlink = {
      __esModule: true, proxy: (f) => f, expose() {}, transfer: (x) => x, releaseProxy: Symbol('release'),
      wrap: (w) => {
        if (/translit\.worker(\.\w+)?$/.test(w.url)) return {
          load: async (m) => { self.loads.push([w.n, m]) },
          transliterate: (m, word) => { self.trans.push([w.n, m, word]); return word === 'bad' ? Promise.reject(new Error('bad')) : Promise.resolve(`T(${m},${word})`) },
        }
        return {
          hangulize: (lang, word) => new Promise((resolve, reject) => {
            const last = self.ins ? job.inputs[self.ins - 1] : []
            if (!job.lazy && (lang !== last[0] || word !== last[1])) self.fail = self.fail || `transcribes ${lang} ${word} while the last input is ${last}`
            if (self.calls.some((c) => c.open)) self.fail = self.fail || `transcribes ${lang} ${word} while another call runs`
            self.calls.push({ lang, word, resolve, reject, open: true })
          }),
          getVersion: () => self.initial('ver', 'v-worker'),
          getSpecs: () => self.initial('specs', job.specs2),
          useTranslit: async (m, f) => { self.reg.push([m, f]) },
        }
      },
    }
    comlink.default = comlink
    globalThis.__stub = { react: React, comlink, manifest: { version: 'v-manifest', specs: job.specs, translits: job.translits }, wasm_exec: {} }
    const mod = load('useHangulize')
    this.S = mod.HangulizeState
    this.rend = new Rend(() => mod.useHangulize())
  }
  initial(k, v) {
    if (!this.job.late) return Promise.resolve(v)
    return new Promise((r) => { this.init[k] = () => r(v) })
  }
  stable() { return !this.rend.dirty && this.rend.effects.length === 0 }
  async settle() {
    await turn()
    while (!this.job.lazy && !this.stable()) {
      if (this.rend.dirty) this.rend.render()
      this.rend.flush()
      await turn()
    }
  }
  async start() {
    this.rend.render()
    this.rend.flush()
    await this.settle()
  }
  enabled() {
    const a = []
    if (this.ins < this.job.inputs.length) a.push('in')
    if (this.job.lazy && this.rend.dirty) a.push('render')
    if (this.job.lazy && this.rend.effects.length) a.push('effects')
    if (timers.length) a.push('timer')
    this.calls.forEach((c, i) => { if (c.open) { a.push('ok ' + i); if (this.job.errors) a.push('err ' + i) } })
    for (const k of Object.keys(this.init)) a.push('init ' + k)
    return a
  }
  async act(a) {
    const [op, arg] = a.split(' ')
    switch (op) {
      case 'in': this.rend.value[1](...this.job.inputs[this.ins++]); break
      case 'render': this.rend.render(); break
      case 'effects': this.rend.flush(); break
      case 'timer': { const t = timers.reduce((x, y) => (y.at < x.at || (y.at === x.at && y.id < x.id) ? y : x)); timers = timers.filter((x) => x !== t); now = Math.max(now, t.at); t.f(); break }
      case 'ok': case 'err': {
        const c = this.calls[arg]
        c.open = false
        const r = op === 'ok' ? result(c.lang, c.word) : ''
        const k = JSON.stringify([c.lang, c.word])
        if (!this.outcomes.has(k)) this.outcomes.set(k, new Set())
        this.outcomes.get(k).add(r)
        if (op === 'ok') c.resolve(r); else c.reject(new Error('failed'))
        break
      }
      case 'init': { const f = this.init[arg]; delete this.init[arg]; this['got_' + arg] = true; f(); break }
    }
    await this.settle()
    this.check()
  }
  check() {
    if (this.fail || !this.stable()) return
    const h = this.rend.value[0]
    const input = this.ins ? this.job.inputs[this.ins - 1] : ['', '']
    const specs = !this.job.late || this.got_specs ? this.job.specs2 : this.job.specs
    const end = this.enabled().length === 0
    const valid = input[1].trim() !== '' && specs[input[0]] !== undefined
    const say = (s) => { this.fail = `${s}: input ${JSON.stringify(input)}, state ${h.state}, result ${JSON.stringify(h.result)}` }
    if (h.state === this.S.IDLE) {
      if (!valid && h.result !== '') return say('a result is left although the input is not valid')
      if (valid && !(this.outcomes.get(JSON.stringify(input)) || new Set()).has(h.result)) return say('idle without the result of the last input')
    }
    const n = (l, p) => l.filter(p).length
    for (const c of this.calls) {
      const p = (x) => x.lang === c.lang && x.word === c.word
      if (n(this.calls, p) > n(this.job.inputs.slice(0, this.ins), (i) => i[0] === c.lang && i[1] === c.word)) return say(`the same input was transcribed twice`)
      if (!c.word.trim()) return say('a blank word was transcribed')
    }
    if (end) {
      if (h.state !== this.S.IDLE) return say('nothing is under way but the state is not idle')
      if (!eq(h.specs, this.job.specs2) || h.version !== 'v-worker') return say('the specs or the version are not those of the worker')
    }
  }
  // The routing of translits, checked once.
  async routes() {
    const norm = (m) => m.replace(/\[.+\]$/, '')
    const t = this.job.translits
    if (!eq([...this.reg.map((r) => r[0])].sort(), [...new Set(t)].sort())) return `translits registered: ${this.reg.map((r) => r[0])}`
    const names = [...new Set(t.map(norm))]
    if (!eq(this.loads.map((l) => norm(l[1])).sort(), [...names].sort())) return `translits loaded: ${this.loads.map((l) => l[1])}`
    const where = new Map(this.loads.map((l) => [norm(l[1]), l[0]]))
    if (new Set(where.values()).size !== names.length) return 'translit workers are shared'
    for (const [m, f] of this.reg) {
      this.trans = []
      const got = await f('word')
      if (got !== `T(${m},word)` || !eq(this.trans, [[where.get(norm(m)), m, 'word']])) return `the translit ${m} gave ${got} through ${JSON.stringify(this.trans)}`
      const err = await f('bad').then(() => 'no error', (e) => e.message)
      if (err !== 'bad') return `the translit ${m} failed with ${err}`
    }
    return ''
  }
}

// ---- the workers ----
class WorkerRun {
  constructor(job) {
    this.job = job
    this.n = 0
    this.fail = ''
    this.sent = [] // what reached the program
    this.want = []
    this.calls = []
    this.fetched = []
    this.boots = []
    this.running = false
    this.refused = []
    const self = this
    fakeTimers()
    delete globalThis.hangulize
    delete globalThis.translit
    globalThis.fetch = (u) => { self.fetched.push(String(u)); return { url: String(u) } }
    globalThis.Go = class { constructor() { this.importObject = { go: this } } run(inst) { self.run(this, inst); return new Promise(() => {}) } }
    WebAssembly.instantiateStreaming = (r, imp) => new Promise((ok) => { self.boots.push(() => ok({ instance: { url: r.url, go: imp && imp.go } })) })
    globalThis.__stub = { comlink: { __esModule: true, expose: (e) => { self.ep = e }, proxy: (f) => f }, wasm_exec: {} }
    load(job.worker)
  }
  run(go, inst) {
    if (!inst || inst.go !== go) this.fail = 'the program runs without its imports'
    this.running = true
    const f = (...a) => { this.sent.push(a); return a.includes('bad') ? (this.job.worker === 'translit.worker' ? (() => { throw new Error('bad') })() : Promise.reject(new Error('bad'))) : this.job.worker === 'translit.worker' ? `T(${a})` : Promise.resolve(`H(${a.slice(0, 2)})`) }
    if (this.job.worker === 'translit.worker') globalThis.translit = f
    else {
      f.version = 'v1'
      f.specs = { ita: {} }
      f.useTranslit = (...a) => { this.sent.push(['use', ...a]); return true }
      globalThis.hangulize = f
    }
  }
  async start() { await turn() }
  enabled() {
    const a = []
    if (this.n < this.job.calls.length) a.push('call')
    if (this.boots.length) a.push('boot')
    return a
  }
  async act(a) {
    if (a === 'boot') this.boots.shift()()
    else {
      const [m, ...args] = this.job.calls[this.n++]
      const c = { m, args, done: null }
      this.calls.push(c)
      let p
      try { p = this.ep[m](...args) } catch (e) { p = Promise.reject(e) }
      Promise.resolve(p).then((v) => { c.done = ['ok', v] }, (e) => { c.done = ['err', e instanceof Error] })
    }
    await turn()
    await turn()
    this.check()
  }
  check() {
    if (this.fail) return
    const T = this.job.worker === 'translit.worker'
    const sent = []
    let loaded = !T
    const urls = T ? [] : ['http://app/static/hangulize.wasm']
    for (const c of this.calls) {
      let want = null
      const put = (x, res) => { if (this.running) { sent.push(x); want = c.args.includes('bad') && x[0] !== 'use' ? ['err', true] : res } }
      switch (c.m) {
        case 'load': {
          const name = c.args[0].replace(/\[.+\]$/, '')
          if (loaded || !['cyrillic', 'furigana', 'pinyin'].includes(name)) want = ['err', true]
          else { loaded = true; urls.push(`http://app/static/${name}.translit.wasm`); want = ['ok', undefined] }
          break
        }
        case 'transliterate': if (!loaded) want = ['err', true]; else put(c.args, ['ok', `T(${c.args})`]); break
        case 'hangulize': put(c.args.length < 3 ? [...c.args, undefined] : c.args, ['ok', `H(${c.args.slice(0, 2)})`]); break
        case 'getVersion': if (this.running) want = ['ok', 'v1']; break
        case 'getSpecs': if (this.running) want = ['ok', { ita: {} }]; break
        case 'useTranslit': put(['use', ...c.args], ['ok', c.done && c.done[1]]); break
      }
      if (!eq(want, c.done)) { this.fail = `${c.m}(${c.args}) is ${JSON.stringify(c.done)}, want ${JSON.stringify(want)}`; return }
    }
    const trim = (l) => l.map((x) => { x = [...x]; while (x.length && x[x.length - 1] === undefined) x.pop(); return x })
    if (!eq(trim(sent), trim(this.sent))) { this.fail = `the program got ${JSON.stringify(this.sent)}, want ${JSON.stringify(sent)}`; return }
    if (!eq(urls, this.fetched)) this.fail = `fetched ${this.fetched}, want ${urls}`
  }
}

// ---- depth-first search by replay ----
// Runs a prefix; returns the run, or how it failed.
async function replay(job, prefix) {
  const run = new (job.kind === 'hook' ? HookRun : WorkerRun)(job)
  await run.start()
  if (job.routes) run.fail = run.fail || (await run.routes())
  for (const a of prefix) {
    if (run.fail) break
    if (!run.enabled().includes(a)) throw new Error(`harness: ${a} of ${prefix} is not enabled`)
    await run.act(a)
  }
  return run
}

async function explore(job) {
  let paths = 0, steps = 0, states = 0
  const t0 = Date.now()
  // The work is split by the prefixes of a fixed length.
  let stack = [job.prefix || []]
  let acts = []
  try {
    if (job.shards > 1) {
      for (let d = 0; d < 4; d++) {
        const next = []
        for (const p of stack) {
          acts = p
          const run = await replay(job, p)
          if (run.fail) return { fail: run.fail, path: p }
          const en = run.enabled()
          if (!en.length) next.push(p)
          for (const a of en) next.push([...p, a])
        }
        stack = next
      }
      stack = stack.filter((_, i) => i % job.shards === job.shard)
    }
    while (stack.length) {
      const prefix = stack.pop()
      acts = [...prefix]
      const run = await replay(job, prefix)
      steps += prefix.length
      for (;;) {
        if (run.fail) return { fail: run.fail, path: acts }
        const en = run.enabled()
        states++
        if (!en.length || job.only) break
        for (let i = en.length - 1; i > 0; i--) stack.push([...acts, en[i]])
        acts.push(en[0])
        steps++
        await run.act(en[0])
      }
      paths++
      if (job.ms && Date.now() - t0 > job.ms) return { paths, steps, states, cut: true }
    }
  } catch (e) {
    const m = String(e && e.stack)
    return m.includes('harness:') ? { harness: m } : { fail: 'threw ' + m, path: acts }
  }
  return { paths, steps, states }
}

process.on('unhandledRejection', () => {})
console.error = () => {}
;(async () => {
  say('ready')
  for await (const line of require('readline').createInterface({ input: process.stdin })) {
    const job = { inputs: [], calls: [], ...JSON.parse(line) }
    const r = await explore(job)
    realTimers()
    say(JSON.stringify(r))
  }
  process.exit(0)
})()
