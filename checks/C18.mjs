import { KEYS, deferred, prefsApp, prefsLib, wellFormed } from '../lib/prefs.mjs'
import { RecStorage } from '../lib/storage.mjs'

export default {
  setup: prefsLib,
  async run(T, lib) {
    const { nothing, getUserPreference, setUserPreference, clearAllUserPreferences } = lib
    const impl = T.bool() ? 'memory' : 'browser'
    const storage = impl === 'memory' ? undefined : T.bool(0.25) ? (localStorage.clear(), localStorage) : new RecStorage()
    const app = await prefsApp(lib, { name: T.pick(['app', '', 'toString', '__proto__', 'é', 'a.b']), storage, keyboard: T.bool(0.3) })
    T.step(impl, 'preferences of', JSON.stringify(app.name))
    T.count(`impl.${impl}`)
    const pool = [...new Set(T.confuse([...T.shuffle(KEYS).slice(0, T.byScale(3, 6, 12)), ...T.strPool(T.byScale(1, 2, 30))]).map(wellFormed))]
    const key = () => (T.bool(0.95) ? T.pick(pool) : wellFormed(T.str(200)))
    const value = () => wellFormed(T.weighted([[1, ''], [1, 'undefined'], [1, 'null'], [1, '0'], [1, 'false'], [1, '{"a":1}'], [6, T.str()]]))
    const long = () => (T.bool(0.02) ? (T.count('long.values'), T.long()) : undefined)
    const model = new Map()
    const byCommand = T.bool(0.3)
    const P = {
      get: (...a) => (byCommand && T.bool() ? app.commands.handlers.invoke(getUserPreference.id, ...a) : app.preferences.get(...a)),
      set: (...a) => (byCommand && T.bool() ? app.commands.handlers.invoke(setUserPreference.id, ...a) : app.preferences.set(...a)),
      clearAll: () => (byCommand && T.bool() ? app.commands.handlers.invoke(clearAllUserPreferences.id) : app.preferences.clearAll())
    }
    const verify = what => {
      for (const k of new Set([...pool, ...model.keys()])) {
        T.is(P.get(k), model.get(k), `get(${JSON.stringify(k)}) ${what}`)
        const d = T.pick(['dflt', '', 'undefined'])
        T.is(P.get(k, d), model.has(k) ? model.get(k) : d, `get(${JSON.stringify(k)}, ${JSON.stringify(d)}) ${what}`)
      }
    }
    const apply = (k, v) => { if (v === undefined || v === nothing) model.delete(k); else model.set(k, v) }
    const pending = []
    async function settle(n) {
      const batch = T.shuffle(pending).slice(0, n)
      for (const p of batch) {
        pending.splice(pending.indexOf(p), 1)
        T.step('settle update', p.id, p.fails ? 'rejected' : show(p.result))
        if (p.fails) p.d.reject(p.err)
        else p.d.resolve(p.result)
      }
      for (const p of batch) {
        const r = await T.settled(p.ret, `set with async updater ${p.id}`)
        if (p.fails) { T.is(r.status, 'rejected', `outcome of the failing update ${p.id}`); T.is(r.reason, p.err, `error of the failing update ${p.id}`) } else {
          T.is(r.status, 'fulfilled', `outcome of update ${p.id}`)
          if (batch.length === 1) {
            apply(p.key, p.result)
            T.is(P.get(p.key), model.get(p.key), `get(${JSON.stringify(p.key)}) right after the promise of update ${p.id} resolved`)
          }
        }
      }
      if (batch.length > 1) for (const p of batch) if (!p.fails) apply(p.key, p.result)
      if (batch.length > 1) {
        // updates settled in one tick are applied in the order they settled
        T.count('async.batched')
      }
    }
    let uid = 0
    verify('initially')
    const steps = T.steps(8, 25, 80)
    for (let i = 0; i < steps; i++) {
      const k = key()
      if (!pool.includes(k) && pool.length < 60) pool.push(k)
      const out = () => T.weighted([[6, value()], [1, undefined], [1, nothing]])
      await T.weighted([
        [6, () => {
          const v = long() ?? value()
          T.step('set', k, v)
          void P.set(k, v)
          apply(k, v)
          T.count('set.value')
        }],
        [1, () => { const v = T.pick([undefined, nothing]); T.step('set', k, show(v)); void P.set(k, v); apply(k, v); T.count('set.removed') }],
        [4, () => {
          const v = long() ?? out()
          const was = model.get(k)
          let calls = 0
          let got
          T.step('update', k, 'to', show(v))
          void P.set(k, (...args) => { calls++; got = args[0]; return v })
          T.is(calls, 1, 'calls of the updater')
          T.is(got, was, `value passed to the updater of ${JSON.stringify(k)}`)
          apply(k, v)
          T.count(v === undefined || v === nothing ? 'update.removed' : 'update.value')
        }],
        [1.2, async () => {
          const err = T.pick([new Error('boom'), 'text', undefined, 0])
          T.step('failing update', k)
          let r, thrown
          try { r = P.set(k, () => { throw err }) } catch (e) { thrown = { e } }
          if (thrown) T.is(thrown.e, err, 'error thrown by a failing updater')
          else {
            const x = await T.settled(r, 'set with a failing updater')
            T.is(x.status, 'rejected', 'outcome of set with a failing updater')
            T.is(x.reason, err, 'error of a failing updater')
          }
          T.count('update.failed')
        }],
        [3, async () => {
          const p = { id: ++uid, key: k, d: deferred(), fails: T.bool(0.2), err: new Error(`async ${uid}`), result: T.bool(0.2) ? model.get(k) : out(), was: model.get(k) }
          T.step('async update', p.id, 'of', k)
          let got
          let calls = 0
          p.ret = P.set(k, async v => { calls++; got = v; return p.d.promise })
          T.is(calls, 1, 'calls of the async updater')
          T.is(got, p.was, `value passed to the async updater of ${JSON.stringify(k)}`)
          T.ok(p.ret && typeof p.ret.then === 'function', 'set with an async updater returns a promise')
          p.ret.then(() => {}, () => {})
          pending.push(p)
          T.count('update.async')
          if (T.bool(0.5)) await settle(1)
        }],
        [1, () => (pending.length ? settle(T.bool(0.6) ? 1 : T.range(1, pending.length)) : undefined)],
        [0.15, () => {
          // many preferences at once
          const n = T.bulk()
          const drop = T.pick(['clear', 'remove', 'keep'])
          T.step('set', n, 'keys, then', drop)
          for (let j = 0; j < n; j++) { P.set(`bulk ${j}`, `v${j}`); model.set(`bulk ${j}`, `v${j}`) }
          for (let j = 0; j < n; j++) T.is(P.get(`bulk ${j}`), `v${j}`, `get('bulk ${j}') after setting ${n} keys`)
          if (drop === 'clear') { P.clearAll(); model.clear() } else for (let j = 0; j < n; j++) if (drop === 'remove' || j >= 20) { P.set(`bulk ${j}`, undefined); model.delete(`bulk ${j}`) }
          for (let j = 0; j < n; j++) T.is(P.get(`bulk ${j}`), model.get(`bulk ${j}`), `get('bulk ${j}') after ${drop} of ${n} keys`)
          T.count('bulk')
        }],
        [0.8, () => { T.step('clearAll'); P.clearAll(); model.clear(); T.count('cleared') }]
      ])()
      verify('after the step')
    }
    await settle(pending.length)
    verify('in the end')
    T.interesting()
  }
}
const show = v => (typeof v === 'symbol' || typeof v === 'function' ? 'nothing' : JSON.stringify(v) ?? 'undefined')
