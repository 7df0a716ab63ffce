// Bundles the client in /repo/sdk/src with stand-ins for its packages, and runs main.mjs on it.
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
const esbuild = createRequire('/opt/veriftools/node/node_modules/')('esbuild')
const here = path.dirname(fileURLToPath(import.meta.url))
const src = '/repo/sdk/src'
const out = path.join(here, 'client.out.mjs')

const text = fs.readdirSync(src).filter(f => f.endsWith('.ts')).map(f => fs.readFileSync(path.join(src, f), 'utf8')).join('\n')
const names = new Set()
for (const [, list] of text.matchAll(/(?:import|export)\s*{([^}]*)}\s*from\s*'@invariant-labs\/vara-sdk-wasm'/g)) {
  for (const n of list.split(',')) if (n.trim()) names.add(n.trim().split(/\s+as\s+/)[0])
}
await esbuild.build({
  stdin: {
    contents: `export * as utils from '${src}/utils.js'
      export { Invariant } from '${src}/invariant.js'
      export { FungibleToken } from '${src}/erc20.js'
      export * as consts from '${src}/consts.js'`,
    resolveDir: here,
    loader: 'ts'
  },
  bundle: true,
  format: 'esm',
  platform: 'node',
  target: 'node22',
  outfile: out,
  logLevel: 'error',
  tsconfigRaw: '{}',
  define: { 'import.meta.url': '"file:///repo/sdk/src/utils.ts"' },
  plugins: [
    {
      name: 'stand-ins',
      setup(b) {
        b.onResolve({ filter: /^(@gear-js\/api|sails-js|@polkadot\/types)$/ }, () => ({ path: path.join(here, 'stub.mjs') }))
        b.onResolve({ filter: /^@invariant-labs\/vara-sdk-wasm$/ }, () => ({ path: 'library', namespace: 'library' }))
        b.onResolve({ filter: /\.js$/ }, a => {
          const p = path.resolve(a.resolveDir, a.path).replace(/\.js$/, '.ts')
          return fs.existsSync(p) ? { path: p } : undefined
        })
        b.onLoad({ filter: /.*/, namespace: 'library' }, () => ({
          contents: [...names]
            .map(n => (n === 'InvariantError' ? `export const ${n} = new Proxy({}, { get: (_, k) => k })` : `export const ${n} = (...a) => globalThis.library.${n}(...a)`))
            .join('\n'),
          loader: 'js',
          resolveDir: here
        }))
      }
    }
  ]
})
const TEN = (n) => 10n ** n
const scales = { FeeGrowth: 28n, FixedPoint: 12n, Liquidity: 5n, Percentage: 12n, Price: 24n, SecondsPerLiquidity: 25n, SqrtPrice: 24n, TokenAmount: 0n }
const known = {
  getGlobalMaxSqrtPrice: () => 65535383934512647000000000000n,
  getGlobalMinSqrtPrice: () => 15258932000000000000n,
  getMaxSwapStep: () => 142n,
  getChunkSize: () => 64n,
  getLiquidityTickLimit: () => 21544n,
  getMaxPoolKeysReturned: () => 9590n,
  getPositionEntriesLimit: () => 1800n,
  getMaxPoolPairsReturned: () => 4012n,
  getTickSearchRange: () => 256n,
  _getMaxTick: s => (221818n / BigInt(s)) * BigInt(s),
  _getMinTick: s => -(221818n / BigInt(s)) * BigInt(s),
  tickIndexToPosition: (t, s) => {
    const b = (BigInt(t) + (221818n / BigInt(s)) * BigInt(s)) / BigInt(s)
    return [b / 64n, b % 64n]
  },
  positionToTick: (c, b, s) => (BigInt(c) * 64n + BigInt(b)) * BigInt(s) - (221818n / BigInt(s)) * BigInt(s),
  _positionToTick: (c, b, s) => known.positionToTick(c, b, s),
  _alignTickToSpacing: (t, s) => Number(t) - (Number(t) % Number(s)),
}
for (const [n, s] of Object.entries(scales)) {
  known[`get${n}Scale`] = () => s
  known[`get${n}Denominator`] = () => TEN(s)
}
globalThis.library = new Proxy(known, {
  get: (t, k) => t[k] ?? (() => { throw new Error(`the stand-in of the library has no ${String(k)}`) })
})
export const check = (ok, text) => {
  if (!ok) {
    console.error(`assertion failed: ${typeof text === 'string' ? text : JSON.stringify(text, (_, v) => (typeof v === 'bigint' ? String(v) : v))}`)
    process.exit(1)
  }
}
const client = await import(out)
const { default: main } = await import(path.join(here, 'main.mjs'))
await main({ ...client, library: known, check })
