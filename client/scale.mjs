// The part of @polkadot/types the client uses: a codec for the type strings of its generated files.
// (The package is not installed; this follows its documented behaviour.)
const big = x => {
  if (typeof x === 'bigint') return x
  if (typeof x === 'number') {
    if (!Number.isSafeInteger(x)) throw new Error(`not an integer: ${x}`)
    return BigInt(x)
  }
  if (typeof x === 'string') return BigInt(x.trim() === '' ? 'x' : x)
  if (x instanceof Value && x.kind.int) return x.v
  throw new Error(`not a number: ${typeof x}`)
}

export const hexToBytes = s => {
  const h = s.startsWith('0x') ? s.slice(2) : s
  if (h.length % 2 || !/^[0-9a-fA-F]*$/.test(h)) throw new Error(`not a hex string: ${s}`)
  return Uint8Array.from(h.match(/../g) ?? [], b => parseInt(b, 16))
}
export const bytesToHex = b => '0x' + Array.from(b, x => x.toString(16).padStart(2, '0')).join('')

/** The bytes of a message, as they came. */
export class Payload {
  constructor(bytes) {
    this.bytes = bytes
  }
  toHex() {
    return bytesToHex(this.bytes)
  }
}

const asBytes = x => {
  if (x instanceof Payload) return x.bytes
  if (x instanceof Uint8Array) return x
  if (typeof x === 'string') return hexToBytes(x)
  if (Array.isArray(x)) return Uint8Array.from(x)
  throw new Error('Expected input with bytes, found ' + typeof x)
}

// ---- type strings ----

function split(s) {
  const out = []
  let depth = 0
  let quoted = false
  let from = 0
  for (let i = 0; i < s.length; i++) {
    const c = s[i]
    if (c === '"') quoted = !quoted
    if (quoted) continue
    if ('([{<'.includes(c)) depth++
    if (')]}>'.includes(c)) depth--
    if (depth < 0) throw new Error(`Unable to parse type: ${s}`)
    if (c === ',' && depth === 0) {
      out.push(s.slice(from, i).trim())
      from = i + 1
    }
  }
  if (depth) throw new Error(`Unable to find closing matching brackets in ${s}`)
  const last = s.slice(from).trim()
  if (last) out.push(last)
  return out
}

const ints = { u8: 8, u16: 16, u32: 32, u64: 64, u128: 128, U256: 256, u256: 256, i8: -8, i16: -16, i32: -32, i64: -64, i128: -128 }

export class TypeRegistry {
  constructor() {
    this.types = {}
    this.parsed = new Map()
  }
  setKnownTypes() {}
  register(types) {
    Object.assign(this.types, types)
  }
  parse(t) {
    let k = this.parsed.get(t)
    if (!k) {
      k = this.parseNew(t)
      this.parsed.set(t, k)
    }
    return k
  }
  parseNew(t) {
    if (typeof t === 'object') {
      if (t._enum) {
        if (!Array.isArray(t._enum)) throw new Error('an enum with data')
        return { names: t._enum }
      }
      return { fields: Object.entries(t).map(([n, f]) => [n, this.parse(f)]) }
    }
    t = t.trim()
    if (t in ints) return { int: Math.abs(ints[t]), signed: ints[t] < 0 }
    if (t === 'bool') return { bool: true }
    if (t === 'String' || t === 'Text') return { text: true }
    if (t === 'Null' || t === '()') return { nothing: true }
    if (t === 'Bytes') return { vec: { int: 8 }, bytes: true }
    if (t.startsWith('{')) {
      if (!t.endsWith('}')) throw new Error(`Unable to parse type: ${t}`)
      return this.parse(JSON.parse(t))
    }
    if (t.startsWith('(')) {
      if (!t.endsWith(')')) throw new Error(`Unable to find closing matching brackets in ${t}`)
      const parts = split(t.slice(1, -1)).map(x => this.parse(x))
      return parts.length === 1 ? parts[0] : { tuple: parts }
    }
    let m = /^\[\s*u8\s*;\s*(\d+)\s*\]$/.exec(t)
    if (m) return { fixed: Number(m[1]) }
    m = /^(Vec|Option|Result)<(.*)>$/s.exec(t)
    if (m) {
      const parts = split(m[2]).map(x => this.parse(x))
      if (m[1] === 'Vec') return { vec: parts[0] }
      if (m[1] === 'Option') return { option: parts[0] }
      return { result: parts }
    }
    if (t in this.types) return this.parse(this.types[t])
    throw new Error(`createType(${t}):: unknown type`)
  }
  createType(type, value) {
    const k = this.parse(type)
    if (k.text && value instanceof Payload) return new Value(k, new TextDecoder().decode(value.bytes))
    const wire = value instanceof Payload || value instanceof Uint8Array || (typeof value === 'string' && value.startsWith('0x') && !k.text && !k.int)
    if (wire && !k.fixed) {
      const r = { b: asBytes(value), at: 0 }
      return decode(k, r)
    }
    return build(k, value)
  }
}

// ---- values ----

function build(k, x) {
  if (x instanceof Value) x = x.kind.int ? x.v : x.toJSON()
  if (k.int) {
    const v = x === undefined || x === null ? 0n : big(x)
    const [lo, hi] = k.signed ? [-(1n << BigInt(k.int - 1)), (1n << BigInt(k.int - 1)) - 1n] : [0n, (1n << BigInt(k.int)) - 1n]
    if (v < lo || v > hi) throw new Error(`${k.signed ? 'i' : 'u'}${k.int}: Input too large. Found ${v}`)
    return new Value(k, v)
  }
  if (k.bool) return new Value(k, !!x)
  if (k.text) return new Value(k, x === undefined || x === null ? '' : String(x))
  if (k.nothing) return new Value(k, null)
  if (k.fixed) {
    const b = x === undefined || x === null ? new Uint8Array(k.fixed) : asBytes(x)
    if (b.length !== k.fixed) throw new Error(`Expected input with ${k.fixed} bytes, found ${b.length} bytes`)
    return new Value(k, b)
  }
  if (k.option) return new Value(k, x === undefined || x === null ? null : build(k.option, x))
  if (k.tuple) {
    if (x !== undefined && x !== null && !Array.isArray(x)) throw new Error('Expected a tuple')
    if (x && x.length > k.tuple.length) throw new Error('too many values for a tuple')
    return new Value(k, k.tuple.map((f, i) => build(f, x?.[i])))
  }
  if (k.vec) {
    if (x === undefined || x === null) return new Value(k, [])
    if (k.vec.int === 8 && !Array.isArray(x)) x = Array.from(asBytes(x))
    if (!Array.isArray(x)) throw new Error('Expected a list')
    return new Value(k, x.map(e => build(k.vec, e)))
  }
  if (k.fields) {
    if (x !== undefined && x !== null && typeof x !== 'object') throw new Error(`Struct: Cannot decode value ${x}`)
    if (Array.isArray(x)) return new Value(k, k.fields.map(([, f], i) => build(f, x[i])))
    return new Value(k, k.fields.map(([n, f]) => build(f, x?.[n])))
  }
  if (k.names) {
    const i = typeof x === 'number' ? x : k.names.indexOf(x)
    if (i < 0 || i >= k.names.length) throw new Error(`Cannot map Enum JSON, unable to find '${x}'`)
    return new Value(k, i)
  }
  throw new Error('cannot build this type')
}

const need = (r, n) => {
  if (r.at + n > r.b.length) throw new Error(`required length less than remainder: needed ${n}, found ${r.b.length - r.at}`)
  const s = r.b.subarray(r.at, r.at + n)
  r.at += n
  return s
}
function compact(r) {
  const mode = need(r, 1)[0]
  const first = mode & 3
  if (first === 0) return mode >> 2
  r.at--
  const n = first === 1 ? 2 : 4
  if (first === 3) throw new Error('the length of a list does not fit')
  const b = need(r, n)
  let v = 0
  for (let i = n - 1; i >= 0; i--) v = v * 256 + b[i]
  return Math.floor(v / 4)
}
function decode(k, r) {
  if (k.int) {
    const b = need(r, k.int / 8)
    let v = 0n
    for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i])
    return new Value(k, k.signed ? BigInt.asIntN(k.int, v) : v)
  }
  if (k.bool) return new Value(k, need(r, 1)[0] !== 0)
  if (k.text) return new Value(k, new TextDecoder().decode(need(r, compact(r))))
  if (k.nothing) return new Value(k, null)
  if (k.fixed) return new Value(k, Uint8Array.from(need(r, k.fixed)))
  if (k.option) return new Value(k, need(r, 1)[0] ? decode(k.option, r) : null)
  if (k.result) {
    const side = need(r, 1)[0]
    if (side > 1) throw new Error(`Unable to create Enum via index ${side}, in Ok, Err`)
    return new Value(k, [side, decode(k.result[side], r)])
  }
  if (k.tuple) return new Value(k, k.tuple.map(f => decode(f, r)))
  if (k.vec) {
    const n = compact(r)
    const out = []
    for (let i = 0; i < n; i++) out.push(decode(k.vec, r))
    return new Value(k, out)
  }
  if (k.fields) return new Value(k, k.fields.map(([, f]) => decode(f, r)))
  if (k.names) {
    const i = need(r, 1)[0]
    if (i >= k.names.length) throw new Error(`Unable to create Enum via index ${i}`)
    return new Value(k, i)
  }
  throw new Error('cannot decode this type')
}

function compactBytes(n) {
  if (n < 64) return [n << 2]
  if (n < 16384) return [((n << 2) | 1) & 255, n >> 6]
  const v = n * 4 + 2
  return [v & 255, (v >>> 8) & 255, (v >>> 16) & 255, Math.floor(v / 2 ** 24)]
}

export class Value {
  constructor(kind, v) {
    this.kind = kind
    this.v = v
    const parts = kind.tuple || kind.vec ? v : undefined
    if (parts) parts.forEach((x, i) => (this[i] = x))
    if (kind.fields) kind.fields.forEach(([n], i) => (this[n] = v[i]))
  }
  toU8a() {
    const out = []
    this.write(out)
    return Uint8Array.from(out)
  }
  write(out) {
    const { kind: k, v } = this
    if (k.int) {
      let x = BigInt.asUintN(k.int, v)
      for (let i = 0; i < k.int / 8; i++) {
        out.push(Number(x & 255n))
        x >>= 8n
      }
    } else if (k.bool) out.push(v ? 1 : 0)
    else if (k.text) {
      const b = new TextEncoder().encode(v)
      out.push(...compactBytes(b.length), ...b)
    } else if (k.fixed) out.push(...v)
    else if (k.option) {
      out.push(v ? 1 : 0)
      if (v) v.write(out)
    } else if (k.tuple || k.fields) v.forEach(x => x.write(out))
    else if (k.vec) {
      out.push(...compactBytes(v.length))
      v.forEach(x => x.write(out))
    } else if (k.names) out.push(v)
    else if (k.result) {
      out.push(v[0])
      v[1].write(out)
    }
  }
  toHex() {
    return bytesToHex(this.toU8a())
  }
  toJSON() {
    const { kind: k, v } = this
    if (k.int) {
      // numbers of at most 52 bits, hex strings above and for the widest types
      const used = (v < 0n ? -v : v).toString(2).length
      if (k.int <= 128 && used <= 52) return Number(v)
      return '0x' + BigInt.asUintN(k.int, v).toString(16).padStart(k.int / 4, '0')
    }
    if (k.bool || k.text) return v
    if (k.fixed) return bytesToHex(v)
    if (k.option) return v ? v.toJSON() : null
    if (k.tuple) return v.map(x => x.toJSON())
    if (k.vec) return k.vec.int === 8 ? bytesToHex(v.map(x => Number(x.v))) : v.map(x => x.toJSON())
    if (k.fields) return Object.fromEntries(k.fields.map(([n], i) => [n, v[i].toJSON()]))
    if (k.names) return k.names[v]
    if (k.result) return { [v[0] ? 'err' : 'ok']: v[1].toJSON() }
    return null
  }
  toBigInt() {
    if (!this.kind.int) throw new Error('toBigInt is not a function')
    return this.v
  }
  toNumber() {
    if (!this.kind.int) throw new Error('toNumber is not a function')
    if (!Number.isSafeInteger(Number(this.v))) throw new Error('Number can only safely store up to 53 bits')
    return Number(this.v)
  }
  toString() {
    const { kind: k, v } = this
    return k.text ? v : k.int ? v.toString() : JSON.stringify(this.toJSON())
  }
  get isTrue() {
    return this.kind.bool && this.v
  }
  get isFalse() {
    return this.kind.bool && !this.v
  }
  eq(other) {
    return this.toHex() === new Value(this.kind, asBytes(other)).toHex()
  }
}
