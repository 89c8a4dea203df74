// Bundles the web application (its hook and workers, or its page) with stand-ins
// for the modules around them.  usage: node bundle.js WEBSRC OUTDIR [page]
'use strict'
const path = require('path')
const esbuild = require('/opt/veriftools/node/node_modules/esbuild')
const [src, out, what] = process.argv.slice(2)
const stub = {
  name: 'stub',
  setup(b) {
    b.onResolve({ filter: /^(react|react\/jsx-runtime|react-router-dom|semantic-ui-react|lodash|fuse\.js|hangul-js|comlink)$|(^|\/)manifest(\.json)?$|(^|\/)wasm_exec(\.js)?$/ }, (a) => ({ path: path.basename(a.path).replace(/\.\w+$/, ''), namespace: 'stub' }))
    b.onLoad({ filter: /.*/, namespace: 'stub' }, (a) => ({ contents: `module.exports = globalThis.__stub[${JSON.stringify(a.path)}]`, loader: 'js' }))
  },
}
const files = what === 'page' ? ['components/App.tsx'] : ['useHangulize', 'hangulize.worker', 'translit.worker'].map((f) => `hangulize/${f}.ts`)
Promise.all(files.map((f) =>
  esbuild.build({
    entryPoints: [path.join(src, f)], outfile: path.join(out, path.basename(f).replace(/\.tsx?$/, '.js')), bundle: true, format: 'cjs', platform: 'neutral', jsx: 'automatic', loader: { '.css': 'empty' },
    target: 'es2022', plugins: [stub], define: { 'import.meta.url': '"http://app/static/main.js"', 'process.env.PUBLIC_URL': '""' }, logLevel: 'error', tsconfigRaw: '{}', mainFields: ['module', 'main'],
  }))).catch(() => process.exit(1))
