import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { RecStorage } from '../lib/storage.mjs'

const KEYS = ['a', 'b', 'c', 'toString', '__proto__', 'constructor', 'getItem', 'setItem', 'length', 'key', 'clear', '', ' ', '0', '1', '-1', 'é', '😀', '\u0000', 'undefined', 'null']
const METHODS = ['getItem', 'setItem', 'removeItem', 'clear', 'key']

/** Web Storage by its specification: an ordered list of pairs */
class Model {
  list = []
  at(k) { return this.list.findIndex(e => e[0] === k) }
  get length() { return this.list.length }
  getItem(k) { return this.list[this.at(k)]?.[1] ?? null }
  setItem(k, v) { const i = this.at(k); if (i < 0) this.list.push([k, v]); else this.list[i][1] = v }
  removeItem(k) { const i = this.at(k); if (i >= 0) this.list.splice(i, 1) }
  clear() { this.list.length = 0 }
  key(i) { return this.list[i >>> 0]?.[0] ?? null }
}

const loose = s => ({ ops: s.ops, get length() { return s.length }, getItem: k => s.getItem(k), setItem: (k, v) => s.setItem(k, v), removeItem: k => s.removeItem(k), clear: () => s.clear(), key: i => s.key(i) })

const withHost = async (name, host, real, f) => {
  globalThis[name] = host
  try { return await f() } finally { globalThis[name] = real[name] }
}
const strict = {
  name: 'every method of a session stub on a storage that insists on its receiver',
  run: (T, { stubSessionStorage, real }) => {
    const host = new RecStorage([['a', '1'], ['b', '2']])
    return withHost('sessionStorage', host, real, () => {
      const s = stubSessionStorage({})
      const results = METHODS.map(m => { try { return { m, value: { getItem: () => s.getItem('a'), setItem: () => s.setItem('c', '3'), removeItem: () => s.removeItem('a'), clear: () => s.clear(), key: () => s.key(0) }[m]() } } catch (error) { return { m, error } } })
      T.interesting()
      if (results.every(r => r.error instanceof TypeError) && host.ops.length === 0) T.fail('no forwarded method of a session stub works', 'session-receiver')
      T.eq(results, [{ m: 'getItem', value: '1' }, { m: 'setItem', value: undefined }, { m: 'removeItem', value: undefined }, { m: 'clear', value: undefined }, { m: 'key', value: null }], 'results of the forwarded methods of a session stub')
    })
  }
}
const falsy = {
  name: 'a falsy member is given',
  run: async (T, { stubLocalStorage, stubSessionStorage, real }) => {
    T.interesting()
    for (const [which, make] of [['localStorage', stubLocalStorage], ['sessionStorage', stubSessionStorage]]) {
      const host = loose(new RecStorage([['a', '1'], ['b', '2'], ['c', '3']]))
      const n = await withHost(which, host, real, () => make({ length: 0 }).length)
      if (n === 3) T.fail(`the length given to the stub of ${which} is ignored`, 'falsy-member')
      T.is(n, 0, `the length given to the stub of ${which}`)
    }
  }
}

export default {
  async setup() {
    const { window } = installDom()
    // listeners are removed after each case: the gizmo has no way to do so yet
    const listeners = []
    const add = window.addEventListener.bind(window)
    window.addEventListener = globalThis.addEventListener = function (type, l, o) { if (this !== undefined && this !== globalThis && this !== window) throw new TypeError('Illegal invocation'); listeners.push([type, l, o]); add(type, l, o) }
    const hostFetch = { calls: [] }
    globalThis.fetch = window.fetch = function (...args) {
      if (this !== undefined && this !== globalThis && this !== window) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation")
      hostFetch.calls.push(args)
      return hostFetch.answer
    }
    const real = { sessionStorage: window.sessionStorage, localStorage: window.localStorage, navigator: window.navigator, location: window.location }
    return {
      ...await appLib(), ...await import('@just-web/browser/testing'), ...await import('@just-web/fetch/testing'), ...await import('@just-web/os'), ...await import('@just-web/os/testing'), ...await import('@just-web/commands'),
      window, real, hostFetch, listeners
    }
  },
  directed: [strict, falsy],
  run(T, lib) {
    return T.weighted([[5, storages], [3, proxies], [3, gizmos]])(T, lib)
  }
}

/** independent storages against the model */
async function storages(T, { stubStorage }) {
  const all = []
  const keys = T.bool(0.7) ? [...new Set(T.shuffle(KEYS).slice(0, T.byScale(3, 6, 12)))] : T.strPool(T.byScale(3, 6, 20))
  const create = () => { all.push({ s: stubStorage(), m: new Model() }); T.step('storage', all.length - 1) }
  for (let i = T.range(1, 3); i > 0; i--) create()
  const verify = () => all.forEach(({ s, m }, n) => {
    T.is(s.length, m.length, `length of storage ${n}`)
    for (let i = 0; i < m.length; i++) T.is(s.key(i), m.key(i), `key ${i} of storage ${n}`)
    for (const i of [m.length, m.length + 1, -1, 2 ** 31]) T.is(s.key(i), null, `key ${i} of storage ${n} with ${m.length} items`)
    for (const k of keys) T.is(s.getItem(k), m.getItem(k), `item ${JSON.stringify(k)} of storage ${n}`)
  })
  verify()
  const steps = T.steps(12, 40, 150)
  for (let i = 0; i < steps; i++) {
    if (T.bool(0.008)) {
      const { s, m } = T.pick(all)
      const n = T.bulk()
      T.step('set', n, 'items')
      for (let j = 0; j < n; j++) { s.setItem(`bulk ${j}`, `${j}`); m.setItem(`bulk ${j}`, `${j}`) }
      verify()
      for (let j = T.int(3); j < n; j += T.range(1, 3)) { s.removeItem(`bulk ${j}`); m.removeItem(`bulk ${j}`) }
      verify()
      if (T.bool()) { s.clear(); m.clear() } else for (let j = 0; j < n; j++) { s.removeItem(`bulk ${j}`); m.removeItem(`bulk ${j}`) }
      verify()
      T.count('bulk')
    }
    if (T.bool(0.02) && all.length < 5) create()
    const n = T.int(all.length)
    const { s, m } = all[n]
    const k = T.pick(keys)
    const op = T.weighted([[6, 'setItem'], [3, 'removeItem'], [0.4, 'clear'], [1, 'key'], [1, 'getItem']])
    const args = { setItem: [k, T.weighted([[3, () => T.str(500)], [0.08, () => { T.count('long.values'); return T.long() }], [1, () => ''], [1, () => T.pick(['a', 'null', 'undefined'])]])()], removeItem: [k], clear: [], key: [T.weighted([[3, T.range(0, m.length)], [1, T.range(-3, 20)], [0.5, T.pick([1.5, -1, NaN, 2 ** 32, -0, Infinity])]])], getItem: [k] }[op]
    T.step(op, n, ...args)
    if (op === 'setItem' && m.at(k) >= 0) T.count('replaced')
    if (op === 'removeItem') T.count(m.at(k) >= 0 ? 'removed' : 'removed.missing')
    if (op === 'key' && (args[0] < 0 || args[0] >= m.length)) T.count('key.out.of.range')
    T.is(s[op](...args), m[op](...args), `result of ${op} on storage ${n}`)
    T.count(op)
    verify()
  }
  T.interesting()
}

/** storages of the host, partly replaced */
async function proxies(T, { stubLocalStorage, stubSessionStorage, window, real }) {
  const native = T.bool(0.3)
  const which = T.pick(['localStorage', 'sessionStorage'])
  // (what session stubs do on storages that insist on their receiver is looked at on its own)
  const host = native ? (real[which].clear(), real[which]) : which === 'localStorage' ? new RecStorage() : loose(new RecStorage())
  const other = native ? real[which === 'localStorage' ? 'sessionStorage' : 'localStorage'] : new RecStorage()
  other.clear()
  globalThis[which] = host
  globalThis[which === 'localStorage' ? 'sessionStorage' : 'localStorage'] = other
  try {
    const model = new Model()
    for (const k of T.shuffle(KEYS).slice(0, T.range(0, 4))) { host.setItem(k, 'x'); model.setItem(k, 'x') }
    const make = which === 'localStorage' ? stubLocalStorage : stubSessionStorage
    const stubs = []
    const create = () => {
      const given = {}
      const own = new Set(T.shuffle([...METHODS]).slice(0, T.weighted([[2, 0], [3, T.range(1, 3)], [1, 5]])))
      const x = { n: stubs.length, own, calls: [] }
      for (const m of own) given[m] = (...args) => { const c = { m, args, result: T.pick([null, 'given', undefined, '', `${m} result`]), error: T.bool(0.15) ? new Error('given') : undefined }; x.calls.push(c); if (c.error) throw c.error; return c.result }
      if (T.bool(0.25)) { given.length = T.pick([1, 5, 100]); x.length = given.length }
      T.step('stub', x.n, which, native ? 'of jsdom' : '', 'given:', [...own].join() || 'nothing', x.length !== undefined ? `length ${x.length}` : '')
      x.s = make(given)
      stubs.push(x)
    }
    for (let i = T.range(1, 3); i > 0; i--) create()
    const steps = T.steps(8, 20, 60)
    for (let i = 0; i < steps; i++) {
      const x = T.pick(stubs)
      const op = T.pick([...METHODS, 'setItem', 'length'])
      const k = T.pick(KEYS)
      const args = { setItem: [k, T.str(100)], removeItem: [k], clear: [], key: [T.range(0, model.length + 1)], getItem: [k] }[op]
      T.step(op, 'of stub', x.n, ...(args ?? []))
      const ops = native ? 0 : host.ops.length
      if (op === 'length') {
        T.is(x.s.length, x.length ?? model.length, `length of stub ${x.n}`)
        T.count(x.length === undefined ? 'forwarded' : 'given')
        if (!native) T.is(host.ops.length - ops, x.length === undefined ? 1 : 0, 'reads of the length of the host\'s storage')
      } else if (x.own.has(op)) {
        const before = x.calls.length
        let got, error
        try { got = x.s[op](...args) } catch (e) { error = e }
        T.is(x.calls.length, before + 1, `calls of the given ${op}`)
        const c = x.calls[before]
        T.is(c.m, op, 'the given member called')
        T.sameList(c.args, args, `arguments of the given ${op}`)
        T.is(error, c.error, `error of the given ${op}`)
        if (!error) T.is(got, c.result, `result of the given ${op}`)
        if (!native) T.is(host.ops.length, ops, `uses of the host's storage by the given ${op}`)
        T.count('given')
      } else {
        const before = stubs.map(s => s.calls.length)
        const got = x.s[op](...args)
        T.is(got, model[op](...args), `result of the forwarded ${op}`)
        T.sameList(stubs.map(s => s.calls.length), before, 'calls of given members')
        if (!native) T.is(host.ops.length - ops, 1, `uses of the host's storage by the forwarded ${op}`)
        T.count('forwarded')
      }
      T.is(host.length, model.length, "items in the host's storage")
      for (let j = 0; j < model.length; j++) { T.is(host.key(j), model.key(j), `key ${j} of the host's storage`); T.is(host.getItem(model.key(j)), model.getItem(model.key(j)), `item ${JSON.stringify(model.key(j))} of the host's storage`) }
      T.is(other.length, 0, "items in the host's other storage")
    }
    T.interesting()
  } finally {
    globalThis.localStorage = real.localStorage
    globalThis.sessionStorage = real.sessionStorage
    real.localStorage.clear()
    real.sessionStorage.clear()
  }
}

/** members of the test gizmos */
async function gizmos(T, { justTestApp, browserTestGizmoFn, fetchTestGizmoFn, osTestGizmoFn, isMac, stubStorage, commandsGizmoFn, window, real, hostFetch, listeners }) {
  const apps = []
  const made = []
  while (listeners.length) window.removeEventListener(...listeners.pop())
  for (let n = T.range(1, 4); n > 0; n--) {
    const a = { n: apps.length }
    const options = T.pick(['none', 'some', 'some', 'some'])
    const candidates = { sessionStorage: stubStorage(), localStorage: T.bool() ? stubStorage() : new RecStorage(), navigator: T.pick([{}, { language: 'fr', userAgent: 'x' }, { onLine: false }]), location: T.pick([{}, { href: 'http://x/', pathname: '/p' }]), preventDefault: T.bool() }
    const fetches = Object.fromEntries(['browser', 'gizmo'].map(k => [k, Object.assign(async (...args) => { fetches[k].calls.push(args); return fetches[k].answer }, { calls: [], answer: { from: k } })]))
    candidates.fetch = fetches.browser
    const given = {}
    // the same gizmos can be used for several apps
    const again = made.length && T.bool(0.3) ? T.pick(made) : undefined
    if (again) { Object.assign(given, again.given); fetches.browser = again.fetches.browser; fetches.gizmo = again.fetches.gizmo; T.count('gizmo.again') } else if (options === 'some') for (const k of T.shuffle(Object.keys(candidates))) { const w = T.weighted([[3, 'given'], [3, 'absent'], [1, 'undefined']]); if (w === 'given') given[k] = candidates[k]; if (w === 'undefined') given[k] = undefined }
    const first = T.bool(0.4) ? (T.bool() ? 'given' : 'default') : undefined
    const osGiven = again ? again.osGiven : T.pick([undefined, {}, { isMac: () => true }, { isMac: () => false }, { isMac: T.pick([() => true, () => false]) }])
    T.step('app', a.n, 'browser options:', options === 'none' ? 'none' : Object.entries(given).map(([k, v]) => `${k}${v === undefined ? ' undefined' : ''}`).join(), 'fetch gizmo:', first ?? 'none', 'isMac:', osGiven?.isMac ? String(osGiven.isMac()) : 'real')
    let b = justTestApp({ name: `app${a.n}` })
    if (first) b = b.with(first === 'given' ? fetchTestGizmoFn({ fetch: fetches.gizmo }) : fetchTestGizmoFn(T.pick([undefined, {}])))
    const g = again ?? { given, osGiven, fetches, browser: browserTestGizmoFn(options === 'none' ? undefined : given), os: osTestGizmoFn(osGiven) }
    if (!again) made.push(g)
    b = b.with(g.browser)
    b = b.with(g.os)
    if (T.bool(0.3)) b = b.with(commandsGizmoFn())
    a.app = await b.create()
    a.given = given
    a.osGiven = osGiven
    a.fetch = given.fetch ? fetches.browser : first === 'given' ? fetches.gizmo : undefined
    apps.push(a)
  }
  for (const a of apps) {
    for (const k of ['sessionStorage', 'localStorage', 'navigator', 'location']) {
      T.is(a.app.browser[k], a.given[k] ?? real[k], `browser.${k} of app ${a.n} (${a.given[k] ? 'given' : 'real'})`)
      T.count(a.given[k] ? 'member.given' : 'member.real')
    }
    T.is(a.app.os.isMac(), a.osGiven?.isMac ? a.osGiven.isMac() : isMac(), `isMac() of app ${a.n}`)
    T.count(a.osGiven?.isMac ? 'os.given' : 'os.real')
    const args = [T.pick(['http://x/', new URL('http://y/')]), { method: 'POST' }].slice(0, T.range(1, 2))
    hostFetch.answer = Promise.resolve({ from: 'host' })
    const before = [hostFetch.calls.length, a.fetch?.calls.length]
    const r = await T.value(a.app.fetch(...args), 'fetch')
    const f = a.fetch ?? hostFetch
    T.is(f.calls.length, (a.fetch ? before[1] : before[0]) + 1, 'calls of the expected fetch')
    if (a.fetch) T.is(hostFetch.calls.length, before[0], "calls of the host's fetch")
    T.sameList(f.calls[f.calls.length - 1], args, 'arguments given to the expected fetch')
    T.is(r, a.fetch ? a.fetch.answer : await hostFetch.answer, 'the response')
    T.count(a.fetch ? 'fetch.given' : 'fetch.real')
  }
  // uncaught errors reach each of the apps, as with the real gizmo
  if (T.bool(0.5)) {
    const sizes = apps.map(a => a.app.browser.errors.get().length)
    const ev = new window.ErrorEvent('error', { message: 'boom', error: new Error('boom'), cancelable: true })
    window.dispatchEvent(ev)
    apps.forEach((a, i) => T.is(a.app.browser.errors.get().length, sizes[i] + 1, `errors of app ${a.n} after an uncaught error`))
    if (apps.some(a => a.given.preventDefault)) T.ok(ev.defaultPrevented, 'the default handling is not prevented')
    T.count('error')
  }
  T.interesting()
}
