// Stand-ins for @gear-js/api and sails-js: the connection to a node. What the client sends goes to the
// harness, which runs the program; what it answers comes back as a node would report it.
import { Payload, TypeRegistry, Value, bytesToHex, hexToBytes } from './scale.mjs'

export const chain = { ask: undefined }

const number = n => ({ toBigInt: () => BigInt(n), toNumber: () => Number(n), toString: () => String(n) })
const fixed = bytes => new Value({ fixed: bytes.length }, bytes)

/** A UserMessageSent event. */
export const userMessage = ({ source, destination, payload, success }) => ({
  data: {
    message: {
      id: fixed(new Uint8Array(32)),
      source: fixed(hexToBytes(source)),
      destination: fixed(hexToBytes(destination)),
      payload: new Payload(hexToBytes(payload)),
      details: { unwrap: () => ({ code: { isSuccess: success, isError: !success } }), isSome: true }
    }
  }
})

let messages = 0

export class GearApi {
  constructor() {
    this.registry = new TypeRegistry()
    this.blockGasLimit = number(750_000_000_000n)
    this.existentialDeposit = number(10_000_000_000_000n)
    this.listeners = []
    this.replies = new Map()
    this.gearEvents = {
      subscribeToGearEvent: (name, callback) => {
        this.listeners.push([name, callback])
        return Promise.resolve(() => {
          this.listeners = this.listeners.filter(l => l[1] !== callback)
        })
      }
    }
    this.message = {
      calculateReply: async ({ destination, origin, payload, value }) => {
        const r = await chain.ask({ what: 'query', destination, origin, payload, value: String(value) })
        if (r.error !== undefined) throw new Error(r.error)
        return { payload: new Payload(hexToBytes(r.payload)) }
      },
      getReplyEvent: async (programId, msgId, blockHash) => {
        const known = this.replies.get(msgId)
        if (!known || known.programId !== programId || known.blockHash !== blockHash) {
          throw new Error(`no reply to ${msgId}`)
        }
        // replies do not arrive in the order of the messages
        for (let turns = (Number(BigInt(msgId)) * 7919) % 5; turns > 0; turns--) await new Promise(r => setImmediate(r))
        return known.event
      }
    }
    this.tx = { utility: { batchAll: txs => this.batch(txs) } }
  }
  static created = []
  static async create(options) {
    const api = new GearApi()
    GearApi.created.push({ api, options })
    if (GearApi.fails === 'create') throw new Error('no node: create')
    return api
  }
  async about(what) {
    await new Promise(r => setImmediate(r))
    if (GearApi.fails === what) throw new Error(`no answer: ${what}`)
    return `the ${what}`
  }
  chain() {
    return this.about('chain')
  }
  nodeName() {
    return this.about('nodeName')
  }
  nodeVersion() {
    return this.about('nodeVersion')
  }
  heads = new Set()
  blocks = {
    subscribeNewHeads: async callback => {
      const one = { callback }
      this.heads.add(one)
      return () => void this.heads.delete(one)
    }
  }
  head(header) {
    for (const one of [...this.heads]) one.callback(header)
  }
  emit(event) {
    for (const [name, callback] of [...this.listeners]) {
      if (name === 'UserMessageSent') callback(userMessage(event))
    }
  }
  getExtrinsicFailedError(event) {
    return new Error(event.data.text)
  }
  async execute(extrinsic, account) {
    const source = addressOf(account)
    const r = await chain.ask({ ...extrinsic, source })
    if (r.refused !== undefined) throw new Error(r.refused)
    messages++
    const msgId = '0x' + messages.toString(16).padStart(64, '0')
    const programId = extrinsic.destination ?? r.programId
    const blockHash = '0x' + (messages * 7).toString(16).padStart(64, '0')
    const event = userMessage({ source: programId, destination: source, payload: r.payload, success: r.success })
    this.replies.set(msgId, { programId, blockHash, event })
    return { msgId, blockHash, programId, event }
  }
  batch(txs) {
    let signer
    return {
      signAsync: async account => {
        signer = account
      },
      send: async callback => {
        if (!signer) throw new Error('not signed')
        callback({ status: { isInBlock: false, isReady: true }, events: [] })
        const refused = await chain.ask({ what: 'batch', source: addressOf(signer), size: txs.length })
        const events = []
        let blockHash = '0x' + 'bb'.repeat(32)
        if (refused.refused !== undefined) {
          events.push({ event: { section: 'system', method: 'ExtrinsicFailed', data: { text: refused.refused } } })
        } else {
          for (const t of txs) {
            const r = await this.execute(t, signer)
            this.replies.set(r.msgId, { ...this.replies.get(r.msgId), blockHash })
            events.push({ event: { section: 'balances', method: 'Withdraw', data: {} } })
            events.push({
              event: {
                section: 'gear',
                method: 'MessageQueued',
                data: { id: fixed(hexToBytes(r.msgId)), destination: fixed(hexToBytes(r.programId)) }
              }
            })
            // what else a block tells of: other pallets, other events of this one
            const other = { id: fixed(new Uint8Array(32).fill(9)), destination: fixed(new Uint8Array(32).fill(8)) }
            events.push({ event: { section: 'other', method: 'MessageQueued', data: other } })
            events.push({ event: { section: 'gear', method: 'MessagesDispatched', data: {} } })
            events.push({ event: { section: 'utility', method: 'ItemCompleted', data: {} } })
          }
          events.push({ event: { section: 'utility', method: 'BatchCompleted', data: {} } })
          events.push({ event: { section: 'system', method: 'ExtrinsicSuccess', data: {} } })
        }
        callback({ status: { isInBlock: true, asInBlock: { toHex: () => blockHash } }, events })
        callback({ status: { isInBlock: false, isFinalized: true }, events })
        return () => {}
      }
    }
  }
}

export const addressOf = account => {
  if (typeof account === 'string') return decodeAddress(account)
  if (account && account.addressRaw) return bytesToHex(account.addressRaw)
  throw new Error('Account is required. Use withAccount() method to set account.')
}

const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
export const decodeAddress = a => {
  if (typeof a !== 'string') throw new Error('Invalid address')
  if (/^0x[0-9a-fA-F]{64}$/.test(a)) return a.toLowerCase()
  let n = 0n
  for (const c of a) {
    const d = ALPHABET.indexOf(c)
    if (d < 0) throw new Error(`Decoding ${a}: Invalid base58 character`)
    n = n * 58n + BigInt(d)
  }
  const h = n.toString(16).padStart(70, '0')
  if (h.length !== 70) throw new Error(`Decoding ${a}: Invalid decoded address length`)
  return '0x' + h.slice(2, 66)
}

export class GearKeyring {}
export const HexString = undefined
export class MessageQueuedData {}
export class UserMessageSent {}
export class ProgramMetadata {}

// ---- sails-js ----

export const ZERO_ADDRESS = '0x' + '00'.repeat(32)

const names = new TypeRegistry()
export const getServiceNamePrefix = payload => part(payload, 0)
export const getFnNamePrefix = payload => part(payload, 1)
const part = (payload, i) =>
  names.createType('(String, String)', hexToBytes(payload))[i].toString()

const resultOf = (type, value) => {
  if (['u64', 'u128', 'U256', 'i64', 'i128'].includes(type)) return value.toBigInt()
  if (['u8', 'u16', 'u32', 'i8', 'i16', 'i32'].includes(type)) return value.toNumber()
  return value.toJSON()
}

export class TransactionBuilder {
  constructor(api, registry, what, payload, payloadType, responseType, programIdOrCode) {
    this.api = api
    this.registry = registry
    this.responseType = responseType
    const bytes = registry.createType(payloadType, payload).toHex()
    this._tx = { what, payload: bytes, value: '0', gas: null }
    if (what === 'send_message') this._tx.destination = programIdOrCode
    else {
      this._tx.code = typeof programIdOrCode === 'string' ? programIdOrCode : bytesToHex(programIdOrCode.subarray(0, 64))
      this._tx.codeLength = programIdOrCode.length
      this.programId = '0x' + 'ee'.repeat(32)
    }
  }
  withAccount(account) {
    this.account = account
    return this
  }
  withGas(gas) {
    this._tx.gas = String(BigInt(gas))
    return this
  }
  withValue(value) {
    this._tx.value = String(BigInt(value))
    return this
  }
  get extrinsic() {
    return this._tx
  }
  async signAndSend() {
    if (this._tx.gas === null) throw new Error('gas is not set')
    const { msgId, blockHash, event } = await this.api.execute(this._tx, this.account)
    return {
      msgId,
      blockHash,
      txHash: msgId,
      response: async () => {
        const { payload, details } = event.data.message
        if (!details.unwrap().code.isSuccess) {
          throw new Error(this.registry.createType('String', payload).toString())
        }
        if (this._tx.what !== 'send_message') return null
        const r = this.registry.createType(`(String, String, ${this.responseType})`, payload)
        return resultOf(this.responseType, r[2])
      }
    }
  }
}
