// bundle.mjs OUT.mjs LIBRARY.wasm: bundles the client from /repo/sdk/src with the stand-ins of this folder.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')
const here = path.dirname(fileURLToPath(import.meta.url))
const [out, wasm] = process.argv.slice(2)

const module = new WebAssembly.Module(fs.readFileSync(wasm))
const names = WebAssembly.Module.exports(module)
  .filter(e => e.kind === 'function' && !e.name.startsWith('__'))
  .map(e => e.name)
const library = `
import fs from 'node:fs'
import { load } from ${JSON.stringify(path.join(here, 'bindgen.mjs'))}
const w = load(fs.readFileSync(${JSON.stringify(path.resolve(wasm))}))
export const InvariantError = new Proxy({}, { get: (_, name) => name })
${names.map(n => `export const ${n} = w[${JSON.stringify(n)}]`).join('\n')}
`
await esbuild.build({
  entryPoints: [path.join(here, 'entry.mjs')],
  bundle: true,
  format: 'esm',
  platform: 'node',
  target: 'node22',
  outfile: out,
  logLevel: 'error',
  tsconfigRaw: '{}',
  define: { 'import.meta.url': '"file:///repo/sdk/src/utils.ts"' },
  plugins: [
    {
      name: 'stand-ins',
      setup(b) {
        b.onResolve({ filter: /^(@gear-js\/api|sails-js)$/ }, () => ({ path: path.join(here, 'gear.mjs') }))
        b.onResolve({ filter: /^@polkadot\/types$/ }, () => ({ path: path.join(here, 'scale.mjs') }))
        b.onResolve({ filter: /^@invariant-labs\/vara-sdk-wasm$/ }, () => ({ path: 'library', namespace: 'library' }))
        b.onResolve({ filter: /^\/repo\/sdk\/src\/.*\.js$/ }, a => ({ path: a.path.replace(/\.js$/, '.ts') }))
        b.onLoad({ filter: /.*/, namespace: 'library' }, () => ({ contents: library, loader: 'js', resolveDir: here }))
      }
    }
  ]
})
