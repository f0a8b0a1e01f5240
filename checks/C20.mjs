import { KEYS, deferred, prefsApp, prefsLib, wellFormed } from '../lib/prefs.mjs'
import { clone, containers, isPlain, print, randomEdit } from '../lib/plain.mjs'
import { RecStorage } from '../lib/storage.mjs'

const json = v => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)))
const WF = v => (typeof v === 'string' ? wellFormed(v) : Array.isArray(v) ? v.map(WF) : isPlain(v) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [wellFormed(k), WF(x)])) : v)

export default {
  // a plain set through a store gives no promise to hold on to: failures of the storage are C21's business
  strayIsViolation: false,
  setup: prefsLib,
  directed: [undefined, 'browser'].map(kind => ({ name: `members with special names, ${kind ?? 'memory'} preferences`, async run(T, lib) {
    const app = await prefsApp(lib, { name: 'names', storage: kind && new RecStorage() })
    for (const n of ['__proto__', 'constructor', 'prototype', 'toString', 'hasOwnProperty', 'length', 'then', 'get', 'set', 'valueOf', '', '0', '-1', '1.5', '$ref', '$date', '__v', 'undefined', 'null', 'é', 'a.b', 'a[0]']) {
      for (const text of [`{${JSON.stringify(n)}:1}`, `{${JSON.stringify(n)}:{"a":[null,"x"]},"z":0}`, `[{"deep":{${JSON.stringify(n)}:"text"}}]`]) {
        const s = app.preferences.createStore(`k ${n}`)
        await s.set(JSON.parse(text))
        T.is(JSON.stringify(s.get()), text, 'a value with a member of this name')
        await s.set(v => ({ w: v }))
        T.is(JSON.stringify(s.get()), `{"w":${text}}`, 'the value made from it by an updater')
        await s.set(v => { v.y = 1 })
        T.is(JSON.stringify(s.get()), `{"w":${text},"y":1}`, 'the value changed by an updater')
        const d = app.preferences.createStore(`d ${n} ${text}`, JSON.parse(text))
        T.is(JSON.stringify(d.get()), text, 'a default with such a member')
        await d.set(v => [v])
        T.is(JSON.stringify(d.get()), `[${text}]`, 'the value made from the default')
      }
    }
    T.interesting()
  } })),
  async run(T, lib) {
    const { nothing, clearAllUserPreferences } = lib
    const impl = T.bool() ? 'memory' : 'browser'
    const storage = impl === 'memory' ? undefined : T.bool(0.2) ? (localStorage.clear(), localStorage) : new RecStorage()
    const name = T.pick(['app', '', '__proto__', 'é'])
    let app = await prefsApp(lib, { name, storage })
    T.step(impl, 'preferences')
    const keys = [...new Set(T.confuse(T.shuffle([...KEYS, ...T.strPool(3)]).slice(0, T.byScale(1, 3, 6))).map(wellFormed))]
    const model = new Map()
    const value = () => WF(T.weighted([[6, () => T.json(T.byScale(2, 3, 5))], [1, () => null], [1, () => T.pick([0, '', false, [], {}])], [1, () => ({ nested: { list: [1, { a: [] }], empty: '' } })], [0.3, () => Array.from({ length: T.size(60) }, () => T.json(1))], [0.06, () => { T.count('long.values'); return T.pick([T.long(), { text: T.long() }, Array.from({ length: T.bulk() }, (_, i) => ({ i })), Object.fromEntries(Array.from({ length: T.bulk() }, (_, i) => [`k${i}`, i]))]) }]])())
    let stores = []
    function create(key = T.pick(keys)) {
      const d = T.bool(0.3) ? undefined : value()
      const s = { n: stores.length, key, d, dcopy: clone(d), dprint: print(d) }
      if (T.bool(0.2) && isPlain(d)) Object.freeze(d)
      s.store = d === undefined && T.bool() ? app.preferences.createStore(key) : app.preferences.createStore(key, d)
      T.step('store', s.n, 'on', key, 'default', d)
      if (stores.some(x => x.key === key)) T.count('two.stores')
      stores.push(s)
      return s
    }
    const current = s => (model.has(s.key) ? model.get(s.key) : s.dcopy)
    function verify(what) {
      for (const s of stores) {
        const v = s.store.get()
        T.eq(v, json(current(s)), `store ${s.n} (key ${JSON.stringify(s.key)}) ${what}`)
        if (!model.has(s.key)) { T.count('default.read') } else if (isPlain(v)) {
          T.ok(v !== s.store.get(), `two reads of store ${s.n} give the same object`)
          // what was handed out belongs to the reader
          if (T.bool(0.3)) { tamper(v); T.count('tampered'); T.eq(s.store.get(), json(current(s)), `store ${s.n} after its reader modified what it got`) }
        }
        T.is(print(s.d), s.dprint, `default passed for store ${s.n} ${what}`)
      }
    }
    function tamper(v) {
      for (let i = T.range(1, 3); i > 0; i--) {
        const e = randomEdit(T, v)
        try { e.apply(v) } catch (x) { if (!(x instanceof TypeError)) throw x }
      }
      for (const { node } of containers(v)) if (Array.isArray(node) && T.bool(0.1)) node.length = 0
    }
    const apply = (k, v) => { if (v === undefined) model.delete(k); else model.set(k, json(v)) }
    /** an updater of the given form; apply to model with `commit` */
    function updater(s, form) {
      const was = current(s)
      const u = { seen: 0, keep: [] }
      const ret = value()
      // the edit is made out on the model, then applied to what the updater receives
      const base = clone(json(was))
      const edit = isPlain(base) && (form === 'inplace' || form === 'both') ? randomEdit(T, base, { value: () => WF(T.json(1)) }) : undefined
      u.f = v => {
        u.seen++
        T.eq(v, json(was), `value passed to the updater of store ${s.n}`)
        if (isPlain(v) && isPlain(s.d)) T.ok(v !== s.d, 'the updater received the default itself')
        u.keep.push(v)
        if (edit) edit.apply(v)
        if (form === 'nothing') return nothing
        if (form === 'returned' || form === 'both') { u.keep.push(ret); return ret }
        if (form === 'same') return v
      }
      if (edit) edit.apply(base)
      u.result = form === 'nothing' ? undefined : form === 'returned' || form === 'both' ? clone(ret) : base
      u.text = `${form} ${edit ? edit.name : ''} ${form === 'returned' || form === 'both' ? print(ret) : ''}`
      return u
    }
    for (let i = T.range(1, 3); i > 0; i--) create()
    verify('initially')
    const steps = T.steps(6, 18, 50)
    let busy = new Map() // key -> pending updates
    const pending = []
    async function settle(p) {
      pending.splice(pending.indexOf(p), 1)
      busy.set(p.s.key, busy.get(p.s.key) - 1)
      T.step('settle', p.u.text, p.fails ? '(rejected)' : '')
      if (p.fails) p.d.reject(p.err)
      else p.d.resolve()
      const r = await T.settled(p.ret, 'set with an async updater')
      if (p.fails) { T.is(r.status, 'rejected', 'outcome of a failing async update'); T.is(r.reason, p.err, 'error of a failing async update'); return }
      if (r.status === 'rejected') throw r.reason
      apply(p.s.key, p.u.result)
      for (const v of p.u.keep) if (isPlain(v)) tamper(v)
      T.count(p.form === 'inplace' ? 'update.async.inplace' : 'update.async.returned')
    }
    for (let i = 0; i < steps; i++) {
      const s = T.pick(stores)
      await T.weighted([
        [1.2, () => { if (stores.length < 10) create() }],
        [4, () => {
          const v = value()
          T.step('set', s.n, v)
          void s.store.set(v)
          apply(s.key, v)
          if (isPlain(v)) tamper(v)
          T.count('set')
        }],
        [0.7, () => { T.step('set', s.n, 'undefined'); void s.store.set(undefined); model.delete(s.key); T.count('set.undefined') }],
        [6, async () => {
          const form = T.weighted([[3, 'returned'], [3, 'inplace'], [1, 'both'], [1, 'nothing'], [1, 'same']])
          const u = updater(s, form)
          T.step('update', s.n, u.text)
          const r = s.store.set(u.f)
          T.is(u.seen, 1, 'calls of an updater')
          apply(s.key, u.result)
          if (T.bool()) verify('right after an update')
          await T.value(r, 'set with an updater')
          for (const v of u.keep) if (isPlain(v)) tamper(v)
          T.count(form === 'inplace' || form === 'nothing' ? `update.${form}` : 'update.returned')
        }],
        [1, async () => {
          const err = new Error('boom')
          const edited = T.bool()
          T.step('failing update', s.n, edited ? 'after an edit' : '')
          let r, thrown
          try { r = s.store.set(v => { if (edited && isPlain(v)) tamper(v); throw err }) } catch (e) { thrown = { e } }
          if (thrown) T.is(thrown.e, err, 'error of a failing update')
          else { const x = await T.settled(r, 'a failing update'); T.is(x.status, 'rejected', 'outcome of a failing update'); T.is(x.reason, err, 'error of a failing update') }
          T.count('update.failed')
        }],
        [2.5, async () => {
          // one update of a key in progress at a time
          if (busy.get(s.key)) return
          const form = T.weighted([[2, 'returned'], [3, 'inplace'], [1, 'nothing'], [1, 'both']])
          const u = updater(s, form)
          const p = { s, u, form, d: deferred(), fails: T.bool(0.15), err: new Error('async boom') }
          const early = T.bool()
          T.step('async update', s.n, u.text, early ? 'edit first' : 'edit after waiting')
          p.ret = s.store.set(async v => {
            const r = early ? u.f(v) : undefined
            await p.d.promise
            return early ? r : u.f(v)
          })
          p.ret.then(() => {}, () => {})
          busy.set(s.key, 1)
          pending.push(p)
          if (T.bool(0.6)) { verify('while an async update is in progress'); await settle(p) }
        }],
        [1, () => (pending.length ? settle(T.pick(pending)) : undefined)],
        [0.5, async () => {
          while (pending.length) await settle(pending[0])
          T.step('clear')
          if (T.bool()) app.preferences.clearAll()
          else app.commands.handlers.invoke(clearAllUserPreferences.id)
          model.clear()
          T.count('cleared')
        }],
        [0.4, () => { if (busy.get(s.key)) return; T.step('remove', s.key); void app.preferences.set(s.key, undefined); model.delete(s.key) }],
        [0.5, async () => {
          if (impl === 'memory') return
          while (pending.length) await settle(pending[0])
          T.step('restart')
          app = await prefsApp(lib, { name, storage })
          stores = []
          create()
          T.count('restarted')
        }]
      ])()
      verify('after the step')
    }
    while (pending.length) await settle(pending[0])
    verify('in the end')
    T.interesting()
  }
}
