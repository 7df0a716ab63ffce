// The JavaScript half of wasm-bindgen 0.2.93, for the functions the SDK's library needs: the library is
// used as cargo builds it (the wasm-bindgen tool, which would generate this file, is not installed).
// How a function is called is read from the description which the library itself exports.
const FUNCTION = 11, STRING = 14, EXTERNREF = 20, NAMED_EXTERNREF = 21
const RESULT = 27, UNIT = 28, BOOLEAN = 10

export function load(bytes, log) {
  // JsValue indexes: the first 128 are reserved, then undefined, null, true, false
  const objects = new Array(128).fill(undefined)
  objects.push(undefined, null, true, false)
  let next = objects.length
  const add = o => {
    if (next === objects.length) objects.push(objects.length + 1)
    const i = next
    next = objects[i]
    objects[i] = o
    return i
  }
  const get = i => objects[i]
  const drop = i => {
    if (i < 132) return
    objects[i] = next
    next = i
  }
  const take = i => {
    const o = get(i)
    drop(i)
    return o
  }
  let w
  const view = () => new DataView(w.memory.buffer)
  const text = (p, n) => new TextDecoder('utf-8', { fatal: true }).decode(new Uint8Array(w.memory.buffer, p >>> 0, n >>> 0))
  const put = s => {
    const b = new TextEncoder().encode(s)
    const p = w.__wbindgen_malloc(b.length, 1) >>> 0
    new Uint8Array(w.memory.buffer, p, b.length).set(b)
    return [p, b.length]
  }
  const none = x => x === undefined || x === null
  const caught = f => (...a) => {
    try {
      return f(...a)
    } catch (e) {
      w.__wbindgen_exn_store(add(e))
      return 0
    }
  }
  let described = []
  const known = {
    __wbindgen_describe: v => described.push(v >>> 0),
    __wbindgen_object_drop_ref: i => drop(i),
    __wbindgen_object_clone_ref: i => add(get(i)),
    __wbindgen_string_new: (p, n) => add(text(p, n)),
    __wbindgen_number_new: f => add(f),
    __wbindgen_boolean_get: i => (typeof get(i) === 'boolean' ? (get(i) ? 1 : 0) : 2),
    __wbindgen_bigint_from_u64: n => add(BigInt.asUintN(64, n)),
    __wbindgen_bigint_from_i64: n => add(n),
    __wbindgen_bigint_from_u128: (hi, lo) => add((BigInt.asUintN(64, hi) << 64n) | BigInt.asUintN(64, lo)),
    __wbindgen_bigint_from_i128: (hi, lo) => add((hi << 64n) | BigInt.asUintN(64, lo)),
    __wbindgen_mul: (a, b) => add(get(a) * get(b)),
    __wbindgen_add: (a, b) => add(get(a) + get(b)),
    __wbindgen_sub: (a, b) => add(get(a) - get(b)),
    __wbindgen_shl: (a, b) => add(get(a) << get(b)),
    __wbindgen_shr: (a, b) => add(get(a) >> get(b)),
    __wbindgen_bit_or: (a, b) => add(get(a) | get(b)),
    __wbindgen_bit_and: (a, b) => add(get(a) & get(b)),
    __wbindgen_bit_xor: (a, b) => add(get(a) ^ get(b)),
    __wbindgen_neg: a => add(-get(a)),
    __wbindgen_lt: (a, b) => get(a) < get(b),
    __wbindgen_le: (a, b) => get(a) <= get(b),
    __wbindgen_gt: (a, b) => get(a) > get(b),
    __wbindgen_ge: (a, b) => get(a) >= get(b),
    __wbindgen_in: (a, b) => get(a) in get(b),
    __wbindgen_error_new: (p, n) => add(new Error(text(p, n))),
    __wbindgen_string_get: (ret, i) => {
      const s = get(i)
      const [p, n] = typeof s === 'string' ? put(s) : [0, 0]
      view().setInt32(ret, p, true)
      view().setInt32(ret + 4, n, true)
    },
    __wbindgen_debug_string: (ret, i) => {
      const o = get(i)
      const [p, n] = put(typeof o === 'bigint' ? String(o) : (JSON.stringify(o, (_, x) => (typeof x === 'bigint' ? String(x) : x)) ?? String(o)))
      view().setInt32(ret, p, true)
      view().setInt32(ret + 4, n, true)
    },
    __wbindgen_number_get: (ret, i) => {
      const n = typeof get(i) === 'number' ? get(i) : undefined
      view().setInt32(ret, none(n) ? 0 : 1, true)
      view().setFloat64(ret + 8, none(n) ? 0 : n, true)
    },
    __wbindgen_bigint_get_as_i64: (ret, i) => {
      const n = typeof get(i) === 'bigint' ? get(i) : undefined
      view().setInt32(ret, none(n) ? 0 : 1, true)
      view().setBigInt64(ret + 8, none(n) ? 0n : n, true)
    },
    __wbindgen_is_bigint: i => typeof get(i) === 'bigint',
    __wbindgen_is_object: i => typeof get(i) === 'object' && get(i) !== null,
    __wbindgen_is_undefined: i => get(i) === undefined,
    __wbindgen_is_null: i => get(i) === null,
    __wbindgen_is_string: i => typeof get(i) === 'string',
    __wbindgen_is_function: i => typeof get(i) === 'function',
    __wbindgen_jsval_eq: (a, b) => get(a) === get(b),
    __wbindgen_jsval_loose_eq: (a, b) => get(a) == get(b),
    __wbindgen_as_number: i => +get(i),
    __wbindgen_throw: (p, n) => {
      throw new Error(text(p, n))
    },
    __wbindgen_memory: () => add(w.memory),
    __wbindgen_externref_table_grow: () => -1,
    __wbindgen_externref_table_set_null: () => {},
  }
  // what js-sys and serde-wasm-bindgen import, by name without the hash and, where a name is used by
  // several classes, the hash of these versions
  const classes = {
    abda76e883ba8a5f: () => add(new Error()),
    a220cf903aa02ca2: () => add(new Array()),
    '525245e2b9901204': () => add(new Object()),
    ea1883e1e5e86686: i => add(new Uint8Array(get(i))),
    stack_658279fe44541cf6: (ret, i) => known.__wbindgen_debug_string(ret, i),
    error_f851667af71bcfc6: (p, n) => {
      const t = text(p, n)
      w.__wbindgen_free(p, n, 1)
      if (log) log(t)
    },
    getwithrefkey_edc2c8960f0f1191: (o, k) => add(get(o)[get(k)]),
    set_f975102236d3c502: (o, k, v) => {
      get(o)[take(k)] = take(v)
    },
    get_3baa728f9d58d3f6: (o, i) => add(get(o)[i >>> 0]),
    length_ae22078168b726f5: o => get(o).length,
    BigInt_c180ff1ada0e172c: caught(i => add(BigInt(get(i)))),
    next_de3e9db4440638b2: i => add(get(i).next),
    next_f9cb570345655b9a: caught(i => add(get(i).next())),
    done_bfda7aa8f252b39f: i => get(i).done,
    value_6d39332ab4788d86: i => add(get(i).value),
    iterator_888179a48810a9fe: () => add(Symbol.iterator),
    get_224d16597dbbfd96: caught((o, k) => add(Reflect.get(get(o), get(k)))),
    call_1084a111329e68ce: caught((f, t) => add(get(f).call(get(t)))),
    set_673dda6c73d19609: (o, i, v) => {
      get(o)[i >>> 0] = take(v)
    },
    isArray_8364a5371e9737d8: i => Array.isArray(get(i)),
    instanceof_ArrayBuffer_61dfc3198373c902: i => get(i) instanceof ArrayBuffer,
    instanceof_Uint8Array_247a91427532499e: i => get(i) instanceof Uint8Array,
    isSafeInteger_7f1ed56200d90674: i => Number.isSafeInteger(get(i)),
    entries_7a0e06255456ebcd: i => add(Object.entries(get(i))),
    buffer_b7b08af79b0b0974: i => add(get(i).buffer),
    set_d1e79e2388520f18: (a, b, n) => get(a).set(get(b), n >>> 0),
    length_8339fcf5d8ecd12e: i => get(i).length,
  }
  const module = new WebAssembly.Module(bytes)
  const imports = {}
  for (const { module: m, name } of WebAssembly.Module.imports(module)) {
    let f = known[name]
    if (!f && name.startsWith('__wbg_')) {
      const key = name.slice(6)
      f = classes[key] ?? classes[key.slice(key.lastIndexOf('_') + 1)]
    }
    imports[m] ??= {}
    imports[m][name] = f ?? (() => {
      throw new Error(`the library calls ${name}, which is not provided`)
    })
  }
  const fresh = () => {
    w = new WebAssembly.Instance(module, imports).exports
  }
  fresh()

  const out = {}
  for (const { name } of WebAssembly.Module.exports(module)) {
    if (name.startsWith('__') || typeof w[name] !== 'function') continue
    const about = w['__wbindgen_describe_' + name]
    if (!about) continue
    described = []
    about()
    const d = described
    let at = 0
    const type = () => {
      const t = d[at++]
      if (t === NAMED_EXTERNREF) at += 1 + d[at]
      if (t === RESULT) return { result: type() }
      return { t }
    }
    if (d[at++] !== FUNCTION) throw new Error(`${name} is not described as a function`)
    at++
    const n = d[at++]
    const params = []
    for (let i = 0; i < n; i++) params.push(type().t)
    const ret = type()
    const size = { [STRING]: 2 }
    const plain = params.reduce((s, t) => s + (size[t] ?? 1), 0)
    const indirect = w[name].length === plain + 1
    const value = (t, x) => {
      if (t === EXTERNREF || t === NAMED_EXTERNREF) return take(x)
      if (t === UNIT) return undefined
      if (t === BOOLEAN) return x !== 0
      return x
    }
    out[name] = (...args) => {
      try {
        const raw = []
        params.forEach((t, i) => {
          if (t === EXTERNREF || t === NAMED_EXTERNREF) raw.push(add(args[i]))
          else if (t === STRING) raw.push(...put(args[i]))
          else raw.push(args[i])
        })
        if (!indirect) return value(ret.t, w[name](...raw))
        const p = w.__wbindgen_malloc(32, 8) >>> 0
        w[name](p, ...raw)
        const v = view()
        const r = [0, 4, 8].map(o => v.getInt32(p + o, true))
        if (ret.t === STRING) {
          const s = text(r[0], r[1])
          w.__wbindgen_free(r[0], r[1], 1)
          w.__wbindgen_free(p, 32, 8)
          return s
        }
        if (!ret.result) throw new Error(`${name} returns something this file does not know`)
        w.__wbindgen_free(p, 32, 8)
        if (r[2]) throw take(r[1])
        return value(ret.result.t, r[0])
      } catch (e) {
        // a trap leaves the instance in an unknown state
        if (e instanceof WebAssembly.RuntimeError) fresh()
        throw e
      }
    }
  }
  return out
}
