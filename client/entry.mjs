// The client under a harness: reads a request per line, runs it, and answers. What the client asks of
// the chain meanwhile goes out as questions, which the harness answers.
import readline from 'node:readline'
import * as utils from '/repo/sdk/src/utils.js'
import * as consts from '/repo/sdk/src/consts.js'
import * as computed from '/repo/sdk/src/computed-consts.js'
import * as serializer from '/repo/sdk/src/wasm-serializer.js'
import * as index from '/repo/sdk/src/index.js'
import { Invariant } from '/repo/sdk/src/invariant.js'
import { FungibleToken } from '/repo/sdk/src/erc20.js'
import { InvariantContract } from '/repo/sdk/src/invariant-contract.js'
import { Erc20Token } from '/repo/sdk/src/erc20-token.js'
import * as wasm from '@invariant-labs/vara-sdk-wasm'
import { GearApi, chain } from './gear.mjs'
import { bytesToHex, hexToBytes } from './scale.mjs'

const pack = x => {
  if (typeof x === 'bigint') return { $n: x.toString() }
  if (x === undefined) return { $u: 1 }
  if (x === null || typeof x === 'string' || typeof x === 'boolean') return x
  if (typeof x === 'number') return Number.isFinite(x) ? x : { $f: String(x) }
  if (x instanceof Uint8Array) return { $b: bytesToHex(x) }
  if (x instanceof Map) return { $m: [...x].map(e => e.map(pack)) }
  if (Array.isArray(x)) return x.map(pack)
  if (typeof x === 'function') return { $c: 1 }
  return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, pack(v)]))
}
const unpack = x => {
  if (x === null || typeof x !== 'object') return x
  if (Array.isArray(x)) return x.map(unpack)
  if ('$n' in x) return BigInt(x.$n)
  if ('$u' in x) return undefined
  if ('$b' in x) return hexToBytes(x.$b)
  if ('$m' in x) return new Map(x.$m.map(e => e.map(unpack)))
  return Object.fromEntries(Object.entries(x).map(([k, v]) => [k, unpack(v)]))
}

// what a subscription hears, without the names of the fields; numbers may come in any notation
const leaves = x => {
  if (x !== null && typeof x === 'object') return Object.values(x).flatMap(leaves)
  if (typeof x === 'number' || typeof x === 'bigint') return BigInt(x).toString()
  if (typeof x === 'string' && /^(0x[0-9a-fA-F]+|[0-9]+)$/.test(x)) return BigInt(x).toString()
  return String(x)
}

// standard output is for the harness; what the client tells a reader is kept
let told = []
for (const way of ['log', 'info', 'debug', 'table', 'dir', 'group', 'trace']) {
  console[way] = (...args) => void told.push(args.map(String).join(' '))
}

const say = o => process.stdout.write(JSON.stringify(o) + '\n')
let questions = 0
const waiting = new Map()
chain.ask = q =>
  new Promise(resolve => {
    const n = ++questions
    waiting.set(n, resolve)
    say({ ask: n, q })
  })

let api, client, token, kept, callbacks, heard, subscriptions
const lib = { ...utils, ...consts, ...computed, ...index }

const texts = e => (e instanceof Error ? (e instanceof WebAssembly.RuntimeError ? 'trap: ' : '') + e.message : typeof e === 'string' ? e : JSON.stringify(e))

async function run(r) {
  const args = (r.args ?? []).map(unpack)
  const on = r.on === 'token' ? token : client
  switch (r.do) {
    case 'reset':
      api = new GearApi()
      client = r.gas ? await Invariant.load(api, r.program, BigInt(r.gas)) : await Invariant.load(api, r.program)
      token = r.gas ? await FungibleToken.load(api, BigInt(r.gas)) : await FungibleToken.load(api)
      if (r.admin) token.setAdmin(unpack(r.admin))
      kept = []
      callbacks = new Map()
      heard = []
      subscriptions = new Map()
      return null
    case 'lib':
      if (typeof lib[r.name] !== 'function') throw new Error(`harness: the client has no function ${r.name}`)
      return lib[r.name](...args)
    case 'wasm':
      if (typeof wasm[r.name] !== 'function') throw new Error(`harness: the library has no function ${r.name}`)
      return wasm[r.name](...args)
    case 'serializer':
      return serializer[r.name](...args)
    case 'const':
      return lib[r.name]
    case 'call':
      if (typeof on[r.name] !== 'function') throw new Error(`harness: the client has no method ${r.name}`)
      return on[r.name](...args)
    case 'tx':
      kept.push(await on[r.name](...args))
      if (r.validate) kept.at(-1).withValidate(utils.validateFungibleTokenResponse)
      return kept.length - 1
    case 'all':
      // all of them begun before any has ended
      return Promise.all(r.calls.map(run))
    case 'send':
      return kept[r.tx].withAccount(args[0]).signAndSend()
    case 'batch': {
      try {
        const responses = await utils.batchTxs(api, args[0], r.txs.map(i => kept[i]))
        return { responses: responses.length }
      } catch (e) {
        if (e instanceof utils.BatchError) return { failed: e.failedTxs, message: e.message }
        throw e
      }
    }
    case 'deploy':
      client = await Invariant.deploy(api, ...args)
      return client.programId()
    case 'deployToken':
      return FungibleToken.deploy(api, ...args)
    case 'on':
    case 'off': {
      if (r.callback !== undefined && !callbacks.has(r.callback)) {
        callbacks.set(r.callback, event => heard.push([r.callback, event]))
      }
      client[r.do]({ ident: r.ident, callback: r.callback === undefined ? undefined : callbacks.get(r.callback) })
      return null
    }
    case 'subscribe': {
      const of = r.token ? new Erc20Token(api, r.program).vft : new InvariantContract(api, r.program).service
      const name = `subscribeTo${r.event}Event`
      if (typeof of[name] !== 'function') throw new Error(`harness: the program's class has no function ${name}`)
      subscriptions.set(r.callback, await of[name](data => void heard.push([r.callback, leaves(data)])))
      return null
    }
    case 'unsubscribe':
      return subscriptions.get(r.callback)()
    case 'connect': {
      GearApi.created = []
      GearApi.fails = r.fails
      told = []
      try {
        const got = await utils.initGearApi(args[0])
        return { asked: GearApi.created.map(c => c.options), same: got === GearApi.created[0]?.api, told }
      } catch (e) {
        return { asked: GearApi.created.map(c => c.options), error: texts(e) }
      } finally {
        GearApi.fails = undefined
      }
    }
    case 'heads': {
      const end = await utils.subscribeToNewHeads(api)
      told = []
      const all = r.heads.map(([number, hash], i) => {
        if (i === r.until) end()
        api.head({ number: { toNumber: () => number }, hash: { toHex: () => hash } })
        return told.splice(0)
      })
      if (r.until >= r.heads.length) end()
      return { told: all, left: api.heads.size }
    }
    case 'delay': {
      const from = performance.now()
      const got = await utils.delay(args[0])
      return { passed: performance.now() - from, got }
    }
    case 'emit':
      api.emit(r.event)
      return heard.splice(0)
  }
  throw new Error('harness: what?')
}

// what nobody waits for does not end the process; the checks look at what is answered
process.on('unhandledRejection', () => {})

const lines = readline.createInterface({ input: process.stdin })
lines.on('line', line => {
  const r = JSON.parse(line)
  if (r.answer !== undefined) {
    const resolve = waiting.get(r.answer)
    waiting.delete(r.answer)
    resolve(r.a)
    return
  }
  let ended = false
  const end = o => {
    if (!ended) say(o)
    ended = true
  }
  run(r).then(
    v => end({ done: 1, value: pack(v) }),
    e => end({ done: 1, error: texts(e) ?? String(e) })
  )
  // a call that waits although nothing is left that could wake it
  let idle = 0
  let since = 0
  const look = ownTimers => {
    if (ended) return
    if (waiting.size > 0 || process.getActiveResourcesInfo().filter(t => !PASSIVE.has(t)).length > ownTimers) idle = 0
    else if (++idle === 1000) since = Date.now()
    else if (idle > 1000 && Date.now() - since > 1000) return end({ done: 1, stuck: 1 })
    if (idle === 0) setTimeout(look, 20, 1)
    else setImmediate(look, 0)
  }
  setImmediate(look, 0)
})
const PASSIVE = new Set(['PipeWrap', 'TTYWrap', 'Immediate', 'SignalWrap'])
lines.on('close', () => process.exit(0))
