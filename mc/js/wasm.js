// Runs one of the WebAssembly programs and plays scenarios against it.
// usage: node wasm.js WASM_EXEC.js PROGRAM.wasm
// One scenario per line on standard input, one line of events per scenario on
// standard output.  The process ends when the program does.
'use strict'
globalThis.require = require
globalThis.fs = require('fs')
globalThis.path = require('path')
// The program's own output goes to standard error.
const say = (s) => fs.writeSync(1, s + '\n')
console.log = (...a) => fs.writeSync(2, a.join(' ') + '\n')
require(process.argv[2])

const turn = () => new Promise((r) => setImmediate(r))
const sleep = (ms) => new Promise((r) => setTimeout(r, ms))
async function until(f, ms) {
  for (let i = 0; i < 50; i++) { if (f()) return true; await turn() }
  const end = Date.now() + ms
  while (!f()) { if (Date.now() > end) return false; await sleep(1) }
  return true
}
const show = (v) => (typeof v === 'string' ? v : '<' + typeof v + '>')

async function play(sc) {
  const log = []
  const ev = (...a) => log.push(a)
  const pend = []
  let open = 0
  let over = false
  function fn(scheme, kind) {
    const [how, arg] = [kind.split(':')[0], kind.slice(kind.indexOf(':') + 1)]
    return (word) => {
      if (over) return Promise.resolve('')
      ev('fn', scheme, show(word))
      switch (how) {
        case 'add': return Promise.resolve(word + arg)
        case 'const': return Promise.resolve(arg)
        case 'async': return (async () => { await null; await turn(); return word + arg })()
        case 'slow': return new Promise((r) => setTimeout(() => r(word + arg), 2))
        case 'later': { const p = { f: [null, null] }; pend.push(p); return new Promise((a, b) => { p.f = [a, b]; p.word = word }) }
        case 'twice': return new Promise((a, b) => { a(word + arg); b(new Error('late')); a('late') })
        case 'rej': return Promise.reject(new Error(arg))
        case 'rejtype': return Promise.reject(new TypeError(arg))
        case 'rejstr': return Promise.reject(arg)
        case 'rejundef': return Promise.reject(undefined)
        case 'rejnull': return Promise.reject(null)
        case 'rejnum': return Promise.reject(7)
        case 'rejobj': return Promise.reject({ code: 1 })
        case 'throw': throw new Error(arg)
        case 'throwstr': throw arg
        case 'nest': return hangulize('ita', arg)
        case 'nestfail': return hangulize('nope', arg)
      }
    }
  }
  function track(id, p) {
    open++
    if (!(p instanceof Promise)) { ev('notpromise', id); open--; return }
    p.then((v) => { ev('ok', id, show(v)); open-- }, (e) => { ev('err', id, e instanceof Error, show(e && e.message)); open-- })
  }
  function cb(id, mode) {
    let nested = 0
    return (...a) => {
      const t = a[0]
      ev('trace', id, t.step, t.word, t.why, t.rule === null ? null : [t.rule.id, t.rule.from, t.rule.to], a.length)
      if (mode === 'throw') throw new Error('callback')
      if (mode === 'nest') track(id + '.' + nested++, hangulize('ita', 'gatto'))
      return mode === 'ret' ? Promise.reject(new Error('callback')).catch(() => {}) && 'junk' : undefined
    }
  }
  let calls = 0
  for (const st of sc.steps) {
    switch (st.op) {
      case 'use': ev('ret', hangulize.useTranslit(st.scheme, fn(st.scheme, st.fn))); break
      case 'unuse': ev('ret', hangulize.unuseTranslit(st.scheme)); break
      case 'call': {
        const id = String(calls++)
        const args = [st.lang || '', st.units ? String.fromCharCode(...st.units) : st.word || '']
        switch (st.trace) {
          case undefined: case '': break
          case 'undefined': args.push(undefined); break
          case 'null': args.push(null); break
          default: args.push(cb(id, st.trace))
        }
        track(id, hangulize(...args))
        break
      }
      case 'settle': {
        if (!(await until(() => pend.length > st.i, 3000))) { ev('nopending', st.i); break }
        if (st.reject) pend[st.i].f[1](new Error(st.arg))
        else pend[st.i].f[0](pend[st.i].word + st.arg)
        break
      }
      case 'translit': ev('ret', (() => { const r = translit(st.scheme, st.word || ''); return r instanceof Error ? ['error', r.message] : r })()); break
      case 'specs': ev('specs', JSON.parse(JSON.stringify(hangulize.specs)), hangulize.version); break
    }
    if (!sc.packed) { for (let i = 0; i < 3; i++) await turn(); ev('step') }
  }
  await until(() => open <= sc.open, 3000)
  await turn()
  const out = log.slice()
  over = true
  // Leave nothing behind.
  for (const p of pend) p.f[0]('')
  await until(() => open === 0, 3000)
  for (const s of sc.schemes || []) for (let i = 0; i < 3 && hangulize.unuseTranslit(s); i++);
  return out
}

process.on('unhandledRejection', () => {})

;(async () => {
  const go = new Go()
  const m = await WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject)
  go.run(m.instance).then(() => { fs.writeSync(2, 'the program has exited\n'); process.exit(3) })
  say('ready')
  for await (const line of require('readline').createInterface({ input: process.stdin })) {
    let out
    try { out = await play(JSON.parse(line)) } catch (e) { out = [['driver', String(e && e.stack)]] }
    say(JSON.stringify(out))
  }
  process.exit(0)
})()
