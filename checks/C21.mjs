import { KEYS, deferred, prefsApp, prefsLib, wellFormed } from '../lib/prefs.mjs'
import { RecStorage, put, snapshot } from '../lib/storage.mjs'

const b64 = s => Buffer.from(s, 'utf8').toString('base64')
/** the text kept in a storage entry, read by an independent decoder */
const decoded = s => Buffer.from(s, 'base64').toString('utf8')

export default {
  // a refused write of a set nobody awaits is a rejected promise by design
  strayIsViolation: false,
  setup: prefsLib,
  async run(T, lib) {
    const { nothing } = lib
    const real = T.bool(0.15)
    const storage = real ? localStorage : new RecStorage()
    if (real) localStorage.clear()
    const names = T.shuffle(['app', '', 'a', 'toString', '__proto__', 'é', '😀', 'a.b', '0', '日本', 'app2', 'a+b', 'aab', 'a b', 'APP', 'axb']).slice(0, T.range(1, T.byScale(2, 3, 4)))
    const text = max => {
      const s = T.weighted([[3, () => T.str(max)], [3, () => T.unicode(T.range(0, T.byScale(20, 60, 300)))], [0.5, () => T.unicode(T.range(1, T.byScale(200, 3000, 100000)))], [1, () => String.fromCodePoint(T.range(0, 0xd7ff))], [1, () => String.fromCodePoint(T.range(0xe000, 0x10ffff))], [0.5, () => 'x'.repeat(T.range(0, 70))], [0.5, () => `\uFEFF${T.unicode(3)}`], [0.5, () => 'é'.repeat(T.range(1, 40))], [0.5, () => T.pick(['', '=', '==', 'YQ==', '\u0000', '\u0000\u0000', '\r\n', 'a\u0300', '%E4', '\\u0041', '+/', '-_'])]])()
      const w = wellFormed(s)
      if (w.length > 2000) T.count('long')
      if (/[\u{10000}-\u{10FFFF}]/u.test(w)) T.count('astral')
      return w
    }
    const keys = [...new Set(T.confuse([...T.shuffle(KEYS).slice(0, T.byScale(2, 4, 8)), ...T.strPool(T.byScale(1, 3, 8), () => text(2000))]).map(wellFormed))]
    const models = new Map(names.map(n => [n, new Map()]))
    const others = new Map()
    for (let i = T.range(0, 3); i > 0; i--) { const k = `other ${i}`; put(storage, k, 'x'); others.set(k, 'x') }
    // what earlier runs of the apps have left behind
    for (const n of names) for (const k of keys) if (T.bool(0.15)) { const v = text(500); put(storage, `${n}:${k}`, b64(v)); models.get(n).set(k, v); T.step('earlier entry', `${n}:${k}`, v); T.count('earlier.entries') }
    const apps = new Map()
    async function start(n) {
      T.step('start', n)
      const before = snapshot(storage)
      apps.set(n, await prefsApp(lib, { name: n, storage, level: T.pick([lib.logLevels.trace, lib.logLevels.warn]) }))
      T.eq(snapshot(storage), before, 'storage after starting an app')
    }
    for (const n of names) await start(n)
    const writes = from => (real ? [] : storage.writes(from))
    const mark = () => (real ? 0 : storage.ops.length)
    function verify(what) {
      const from = mark()
      for (const n of names) {
        const m = models.get(n)
        for (const k of keys) {
          const v = apps.get(n).preferences.get(k)
          T.is(v, m.get(k), `get(${JSON.stringify(k).slice(0, 80)}) of '${n}' ${what}`)
          if (T.bool(0.2)) T.is(apps.get(n).preferences.get(k, 'dflt'), m.has(k) ? m.get(k) : 'dflt', `get(${JSON.stringify(k).slice(0, 80)}, 'dflt') of '${n}' ${what}`)
        }
      }
      T.eq(writes(from), [], `writes made by reading ${what}`)
      T.count('read')
      const now = snapshot(storage)
      let size = others.size
      for (const [k, v] of others) T.is(now.get(k), v, `entry of somebody else ${what}`)
      for (const n of names) for (const [k, v] of models.get(n)) {
        size++
        const s = now.get(`${n}:${k}`)
        T.ok(s !== undefined, () => `no entry ${JSON.stringify(`${n}:${k}`).slice(0, 100)} ${what}`)
        T.is(decoded(s), v, `encoded entry ${JSON.stringify(`${n}:${k}`).slice(0, 100)} ${what}`)
        T.ok(v === '' || s !== v, () => `the value of ${JSON.stringify(k).slice(0, 80)} is stored as it is`)
      }
      T.is(now.size, size, `number of entries ${what} (${[...now.keys()].map(k => JSON.stringify(k).slice(0, 40))})`)
    }
    const apply = (n, k, v) => { if (v === undefined || v === nothing) models.get(n).delete(k); else models.get(n).set(k, v) }
    verify('initially')
    const steps = T.steps(6, 16, 36)
    for (let i = 0; i < steps; i++) {
      const n = T.pick(names)
      const P = apps.get(n).preferences
      const k = T.pick(keys)
      const own = (from, what) => {
        for (const w of writes(from)) {
          T.ok(w.op !== 'clear', `${what} cleared the storage`)
          T.is(w.key, `${n}:${k}`, `entry written by ${what}`)
        }
      }
      await T.weighted([
        [7, async () => {
          const how = T.weighted([[4, 'value'], [2, 'update'], [2, 'async']])
          // (also what it has already)
          const v = T.weighted([[6, text(3000)], [0.7, undefined], [0.7, nothing], [0.8, models.get(n).get(k)]])
          T.step('set', n, JSON.stringify(k).slice(0, 60), how, typeof v === 'symbol' ? 'nothing' : v)
          const from = mark()
          if (how === 'async') {
            const d = deferred()
            const r = P.set(k, () => d.promise)
            r.then(() => {}, () => {})
            T.eq(writes(from), [], 'writes made before an async updater has settled')
            if (T.bool(0.3)) {
              // something else is set meanwhile: what settles last stays
              const w = T.weighted([[4, text(50)], [1, undefined]])
              T.step('  meanwhile set', w)
              void P.set(k, w)
              apply(n, k, w)
              verify('after a set while an update is pending')
              T.count('meanwhile')
            }
            d.resolve(v)
            await T.value(r, 'set with an async updater')
          } else if (how === 'update') {
            const was = models.get(n).get(k)
            void P.set(k, o => { T.is(o, was, 'value passed to an updater'); return v })
          } else void P.set(k, v)
          apply(n, k, v)
          own(from, 'set')
          T.count(v === undefined || v === nothing ? 'removed' : 'saved')
        }],
        [2.5, async () => { const x = T.pick(names); await start(x); T.count('restarted') }],
        [1.5, async () => {
          // the storage is full: some writes are refused
          if (real) return
          const e = new Error('QuotaExceededError')
          const op = T.pick(['setItem', 'setItem', 'removeItem'])
          storage.refuse = o => (o === op ? e : undefined)
          const v = op === 'setItem' ? text(100) : undefined
          const how = T.pick(['value', 'update', 'async'])
          T.step('refused', op, n, JSON.stringify(k).slice(0, 60), how)
          let r
          try { r = how === 'value' ? P.set(k, v) : how === 'update' ? P.set(k, () => v) : P.set(k, async () => { await null; return v }) } catch {}
          await T.settled(r, 'a refused set')
          storage.refuse = undefined
          T.count('refused')
        }],
        [0.7, () => {
          T.step('clearAll', n)
          const from = mark()
          P.clearAll()
          for (const w of writes(from)) T.ok(w.op === 'removeItem' && w.key.startsWith(`${n}:`), () => `clearAll of '${n}': ${w.op} ${JSON.stringify(w.key)}`)
          models.get(n).clear()
          T.count('cleared')
        }],
        [1, () => {
          T.step('get', n, JSON.stringify(k).slice(0, 60))
          const from = mark()
          P.get(k)
          P.get(k, 'a default')
          P.createStore(k, { a: 1 })
          T.eq(writes(from), [], 'writes made by reading')
        }]
      ])()
      verify('after the step')
    }
    for (const n of names) await start(n)
    verify('after restarting every app')
    T.interesting()
  }
}
