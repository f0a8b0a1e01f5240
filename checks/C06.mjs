const HARD = ['', 'constructor', 'toString', 'valueOf', 'hasOwnProperty', 'isPrototypeOf', '__proto__', '__defineGetter__', 'length', '0', '1', '10', '-1', '01', '1.5', ' ', 'é', '😀', 'keys', 'get']

export default {
  async setup() {
    return await import('@just-web/states')
  },
  async run(T, { createRegistry, createStore, toReadonlyRegistry, toReadonlyStore }) {
    // null-prototype records can hold any key; a plain object cannot hold __proto__ by assignment
    const given = T.weighted([[3, 'none'], [2, 'plain'], [1, 'null']])
    const syms = [Symbol(), Symbol(''), Symbol('s1'), Symbol('s2'), Symbol.for('shared'), Symbol.iterator, Symbol.toStringTag]
    const key = () => T.weighted([[5, () => T.str(60)], [4, () => T.pick(HARD)], [2, () => T.pick(syms)], [1, () => T.range(0, 12)]])()
    const ok = k => given !== 'plain' || k !== '__proto__'
    const value = () => T.weighted([[3, () => T.pick([0, '', false, null, NaN])], [3, () => T.range(1, 100)], [2, () => T.json(1)], [1, () => () => 1], [1, () => Symbol('v')], [0.7, () => undefined]])()
    let init
    if (given !== 'none') {
      init = given === 'plain' ? {} : Object.create(null)
      for (let i = T.size(30, 4); i > 0; i--) { const k = key(); if (ok(k)) init[k] = value() }
    }
    T.step(`createRegistry(${given})`, init)
    const r = given === 'none' ? createRegistry() : createRegistry(init)
    const pool = [...new Set([...HARD, ...syms, ...T.confuse(T.strPool(10)), ...(init ? Reflect.ownKeys(init) : [])])]
    // independent model: entries in insertion order
    let model = new Map()
    const load = o => { model = new Map(); if (o) for (const k of Reflect.ownKeys(o)) model.set(k, o[k]) }
    load(init)
    const order = m => {
      const ks = [...m.keys()]
      const isIndex = k => typeof k === 'string' && /^(0|[1-9]\d*)$/.test(k) && Number(k) < 2 ** 32 - 1
      return [...ks.filter(isIndex).sort((a, b) => a - b), ...ks.filter(k => typeof k === 'string' && !isIndex(k)), ...ks.filter(k => typeof k === 'symbol')]
    }
    // read-only views, made at any time (also after handlers were subscribed, also of other views)
    const views = [], stores = []
    const view = () => {
      const store = T.bool(0.3)
      const n = `read-only ${store ? 'store' : 'registry'} ${views.length + stores.length}`
      const from = store || !views.length || T.bool(0.8) ? r : T.pick(views)[1]
      const v = store ? toReadonlyStore(r) : toReadonlyRegistry(from)
      for (const k of ['set', 'reset', 'add', 'update']) T.ok(!(k in v), () => `${n} has ${k}()`)
      ;(store ? stores : views).push([n, v])
      T.count('views')
      return [n, v]
    }
    const verify = (what, m = model) => {
      const ks = order(m)
      for (const [n, v] of [['registry', r], ...views]) {
        const g = v.get()
        T.is(g, r.get(), `${what}: ${n} get()`)
        T.sameList(Reflect.ownKeys(g), ks, `${what}: ${n} own keys of get()`)
        for (const k of ks) T.is(g[k], m.get(k), `${what}: ${n} get()[${String(k)}]`)
        T.sameList(v.keys(), ks, `${what}: ${n} keys()`)
        // what a caller does with the lists it got is its own business
        if (T.bool(0.1)) { try { v.keys().push('junk'); v.values().reverse().push('junk') } catch {} }
        T.is(v.size(), ks.length, `${what}: ${n} size()`)
        T.sameList(v.values(), ks.map(k => m.get(k)), `${what}: ${n} values()`)
        // (an entry whose value is undefined may or may not count)
        for (const k of pool) if (!m.has(k) || m.get(k) !== undefined) T.is(v.has(k), m.has(k), `${what}: ${n} has(${String(k)})`)
        for (const k of ks) if (m.get(k) !== undefined) T.is(v.has(k), true, `${what}: ${n} has(${String(k)})`)
        for (let i = 0; i < 3; i++) T.is(m.has(String(i)) && m.get(String(i)) === undefined ? true : v.has(i), m.has(String(i)), `${what}: ${n} has(number ${i})`)
        T.is(v.has(`absent ${ks.length}`), m.has(`absent ${ks.length}`), `${what}: ${n} has(absent)`)
      }
      for (const [n, v] of stores) T.is(v.get(), r.get(), `${what}: ${n} get()`)
      T.count('verified')
      if (ks.some(k => HARD.includes(k))) T.count('verified.hard.keys')
      if (ks.some(k => typeof k === 'symbol')) T.count('verified.symbols')
    }
    // handlers on the original and on the views see the same thing
    const log = []
    const offs = []
    const listen = (n, v) => offs.push(v.onChange((a, b) => { log.push([n, a, b]); T.is(v.get(), a, `value in a handler of ${n}`); if (log.length === 1) verify(`in a handler of ${n}`) }))
    const early = T.bool(0.6)
    if (early) r.onChange((v, p) => { log.push(['r', v, p]); verify('in a handler') })
    for (let i = T.range(1, 3); i > 0; i--) { const [n, v] = view(); if (T.bool(0.7)) listen(n, v) }
    if (!early) r.onChange((v, p) => { log.push(['r', v, p]); verify('in a handler') })
    verify('initially')
    const steps = T.steps(8, 30, 120)
    for (let q = 0; q < steps; q++) {
      if (views.length + stores.length < 6 && T.bool(0.06)) { const [n, v] = view(); if (T.bool(0.5)) listen(n, v); T.count('late.views') }
      const before = r.get()
      const existing = order(model)
      const op = T.weighted([[5, 'put'], [existing.length ? 3 : 0, 'delete'], [existing.length ? 2 : 0, 'replace'], [1, 'set'], [0.7, 'reset'], [1, 'many'], [0.7, 'clear']])
      log.length = 0
      let changes = true
      if (op === 'put') {
        const k = T.bool(0.4) ? T.pick(pool) : key()
        if (!ok(k)) continue
        const v = value()
        T.step('put', String(k), v)
        model.set(typeof k === 'number' ? String(k) : k, v)
        changes = !(Object.prototype.hasOwnProperty.call(before, k) && Object.is(before[k], v))
        r.set(d => { d[k] = v })
      } else if (op === 'many') {
        const ks = Array.from({ length: T.size(200, 4) + 1 }, key).filter(ok)
        const vs = ks.map(value)
        T.step('put many', ks.map(String))
        if (!ks.length) continue
        ks.forEach((k, i) => model.set(typeof k === 'number' ? String(k) : k, vs[i]))
        changes = undefined
        r.set(d => { ks.forEach((k, i) => { d[k] = vs[i] }) })
      } else if (op === 'delete') {
        const k = T.pick(existing)
        T.step('delete', String(k))
        model.delete(k)
        r.set(d => { delete d[k] })
        T.count('deleted')
      } else if (op === 'replace') {
        const k = T.pick(existing)
        const v = Symbol('replaced')
        T.step('replace', String(k))
        model.set(k, v)
        r.set(d => { d[k] = v })
      } else if (op === 'set' || op === 'clear') {
        const o = given === 'plain' ? {} : Object.create(null)
        if (op === 'set') for (let i = T.size(20, 4); i > 0; i--) { const k = key(); if (ok(k)) o[k] = value() }
        T.step('set', o)
        load(o)
        r.set(o)
      } else { T.step('reset()'); load(init); changes = undefined; r.reset() }
      verify(`after ${op}`)
      changes ??= r.get() !== before
      T.is(log.length, changes ? 1 + offs.length : 0, `${op}: notifications of the registry and its views`)
      for (const [n, v, p] of log) { T.is(v, r.get(), `${op}: new value given to ${n}`); T.is(p, before, `${op}: old value given to ${n}`) }
    }
    offs.forEach(o => o())
    log.length = 0
    const last = Symbol('last')
    model.set('last', last)
    r.set(d => { d.last = last })
    T.is(log.length, 1, 'notifications after the views have unsubscribed')
    // read-only view of a plain store
    const s = createStore(T.json(2))
    const v = toReadonlyStore(s)
    for (const k of ['set', 'reset', 'add']) T.ok(!(k in v), () => `read-only store has ${k}()`)
    let got
    const off = v.onChange((...a) => { got = a })
    for (let i = 0; i < 3; i++) {
      const prev = s.get()
      const x = { i, x: T.json(1) }
      s.set(x)
      T.is(v.get(), x, 'read-only view of a store')
      T.is(got?.[0], x, 'notification of a read-only view: new value')
      T.is(got?.[1], prev, 'notification of a read-only view: old value')
    }
    off()
    got = undefined
    s.set(17)
    T.is(got, undefined, 'notification of a read-only view after unsubscribing')
    T.interesting()
  }
}
