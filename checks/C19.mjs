import { KEYS, deferred, prefsApp, prefsLib, wellFormed } from '../lib/prefs.mjs'
import { RecStorage, put, snapshot } from '../lib/storage.mjs'

const APPS = ['e\u0301', 'ｆｕｌｌ', 'a', 'b', 'ab', '', 'A', 'toString', '__proto__', 'constructor', 'a.b', '0', 'é', '😀', ' ', 'aa', 'test', '@just-web/a', 'a b', 'undefined', 'null']

export default {
  setup: prefsLib,
  async run(T, lib) {
    const { getUserPreference, setUserPreference, clearAllUserPreferences } = lib
    const keys = [...new Set(T.confuse([...T.shuffle(KEYS).slice(0, T.byScale(3, 5, 8)), ...T.shuffle(APPS).slice(0, 2)]).map(wellFormed))]
    const names = [...new Set(T.confuse(T.shuffle(APPS).slice(0, T.range(1, T.byScale(3, 4, 6)))).map(wellFormed))].filter(n => !n.includes(':'))
    const storages = []
    for (let i = T.bool(0.3) ? 2 : 1; i > 0; i--) {
      const s = !i || T.bool(0.15) && !storages.includes(localStorage) ? localStorage : new RecStorage()
      if (s === localStorage) localStorage.clear()
      storages.push(s)
    }
    // entries of somebody else: no colon, or an owner that is none of the names
    const foreign = storages.map(() => new Map())
    const isForeign = k => !k.includes(':') || !names.includes(k.slice(0, k.indexOf(':')))
    const addForeign = (i, k, v) => { if (!isForeign(k)) return; put(storages[i], k, v); foreign[i].set(k, v); T.count('foreign'); T.step('foreign entry', k, 'on storage', i) }
    storages.forEach((s, i) => {
      for (let n = T.range(0, 6); n > 0; n--) addForeign(i, T.weighted([[2, T.pick(names)], [2, T.pick(keys)], [2, `${T.pick(names)}x:${T.pick(keys)}`], [1.5, `${T.pick(names).normalize(T.pick(['NFC', 'NFD', 'NFKC']))}:${T.pick(keys)}`], [2, `x${T.pick(names)}:${T.pick(keys)}`], [1, `${T.pick(names)}/${T.pick(keys)}`], [1, `@just-web/browser-i18n/${T.pick(names)}/language`], [1, T.str(30)], [1, `${T.pick(APPS)}:${T.pick(keys)}`], [1, `${T.pick(names)} :x`]]), T.weighted([[1, ''], [2, T.str(20)], [1, 'YQ=='], [1, 'not base64 %%%']]))
    })
    /** what belongs together: memory apps their own map, browser apps one per storage and name */
    const shared = new Map()
    const apps = []
    async function start(kind, name = T.pick(names)) {
      const si = T.int(storages.length)
      const storage = kind === 'browser' ? storages[si] : undefined
      const before = storages.map(snapshot)
      const ops = storages.map(s => s.ops?.length ?? 0)
      const a = { n: apps.length, kind, name, si, app: await prefsApp(lib, { name, storage, keyboard: T.bool(0.2) }) }
      storages.forEach((s, i) => T.eq(snapshot(s), before[i], 'storage after starting an app'))
      audit(ops, kind === 'browser' ? a : undefined, 'start')
      const id = kind === 'browser' ? JSON.stringify([si, name]) : `memory ${a.n}`
      if (shared.has(id)) T.count('same.name')
      else shared.set(id, new Map())
      a.model = shared.get(id)
      T.step('start', a.n, kind, JSON.stringify(name), kind === 'browser' ? `on storage ${si}` : '')
      T.count(`${kind}.apps`)
      apps.push(a)
      return a
    }
    /** every storage access since the marks belongs to app a */
    function audit(marks, a, what) {
      storages.forEach((s, i) => {
        if (!(s instanceof RecStorage)) return
        for (const o of s.ops.slice(marks[i])) {
          T.checks++
          if (!a || a.kind !== 'browser' || a.si !== i) T.fail(`${what}: touched a storage that is not its own: ${o.op} ${JSON.stringify(o.key)}`)
          if (o.op === 'clear') T.fail(`${what}: cleared the whole storage`)
          if (o.op.endsWith('Item') && !o.key.startsWith(`${a.name}:`)) T.fail(`${what} of app '${a.name}': ${o.op} of the entry ${JSON.stringify(o.key)}, which is not its own`)
        }
      })
    }
    function verify(what) {
      for (const a of apps) {
        const marks = storages.map(s => s.ops?.length ?? 0)
        for (const k of keys) T.is(a.app.preferences.get(k), a.model.get(k), `get(${JSON.stringify(k)}) in app ${a.n} ('${a.name}', ${a.kind}) ${what}`)
        for (const [k, st] of a.stores ?? []) T.eq(st.get(), a.model.has(k) ? JSON.parse(a.model.get(k)) : 'dflt', `store ${JSON.stringify(k)} of app ${a.n} ${what}`)
        audit(marks, a, 'reading')
      }
      storages.forEach((s, i) => {
        const now = snapshot(s)
        for (const [k, v] of foreign[i]) T.is(now.get(k), v, `foreign entry ${JSON.stringify(k)} ${what}`)
        let own = 0
        for (const n of names) for (const k of shared.get(JSON.stringify([i, n]))?.keys() ?? []) { own++; T.ok(now.has(`${n}:${k}`), () => `the preference ${JSON.stringify(k)} of '${n}' is not stored as ${JSON.stringify(`${n}:${k}`)} ${what}`) }
        T.is(now.size, foreign[i].size + own, `number of entries of storage ${i} ${what} (${[...now.keys()].map(k => JSON.stringify(k))})`)
      })
    }
    const pending = []
    for (let i = T.range(1, 3); i > 0; i--) await start(T.pick(['memory', 'browser', 'browser']))
    verify('initially')
    const steps = T.steps(8, 22, 60)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      const P = a.app.preferences
      const marks = storages.map(s => s.ops?.length ?? 0)
      let actor = a
      const k = T.pick(keys)
      // values are JSON so that stores can read them
      const v = JSON.stringify(T.pick([1, 'x', null, '', [1], { a: a.n }, `v${i}`, 0, false]))
      await T.weighted([
        [2, async () => {
          actor = undefined
          if (apps.length > 8) return
          actor = await start(T.pick(['memory', 'browser', 'browser']))
          if (T.bool(0.3)) {
            // the commands themselves belong to the app started last
            T.step('call the set command itself')
            void setUserPreference(k, v)
            actor.model.set(k, v)
            T.is(getUserPreference(k), v, 'what the get command itself returns')
            if (T.bool(0.3)) { clearAllUserPreferences(); actor.model.clear() }
            T.count('singletons')
          }
        }],
        [6, () => { T.step('set', a.n, k, v); if (T.bool(0.2)) void a.app.commands.handlers.invoke(setUserPreference.id, k, v); else void P.set(k, v); a.model.set(k, v) }],
        [1, () => { T.step('remove', a.n, k); void P.set(k, T.pick([undefined, lib.nothing])); a.model.delete(k) }],
        [3, () => {
          const remove = T.bool(0.2)
          const was = a.model.get(k)
          T.step('update', a.n, k, remove ? '(remove)' : v)
          void P.set(k, o => { T.is(o, was, `value of ${JSON.stringify(k)} seen by an updater of app ${a.n}`); return remove ? T.pick([undefined, lib.nothing]) : v })
          if (remove) a.model.delete(k)
          else a.model.set(k, v)
        }],
        [2, () => {
          a.stores ??= new Map()
          if (!a.stores.has(k)) { T.step('createStore', a.n, k); a.stores.set(k, P.createStore(k, 'dflt')) }
          const x = T.pick([2, 'y', [null], { deep: { n: a.n } }, `s${i}`])
          T.step('store set', a.n, k, x)
          a.stores.get(k).set(T.bool() ? x : o => { T.eq(o, a.model.has(k) ? JSON.parse(a.model.get(k)) : 'dflt', `value of store ${JSON.stringify(k)} seen by an updater of app ${a.n}`); return x })
          a.model.set(k, JSON.stringify(x))
          T.count('stores')
        }],
        [1.5, () => {
          const p = { a, k, v, d: deferred() }
          T.step('async update', a.n, k, v)
          p.ret = P.set(k, async o => { T.is(o, a.model.get(k), `value seen by an async updater of app ${a.n}`); return p.d.promise })
          p.ret.then(() => {}, () => {})
          pending.push(p)
        }],
        [1.5, async () => {
          if (!pending.length) return
          const p = pending.splice(T.int(pending.length), 1)[0]
          T.step('settle update of', p.a.n, p.k)
          actor = p.a
          p.d.resolve(p.v)
          await T.value(p.ret, 'an async update')
          p.a.model.set(p.k, p.v)
          T.count('async')
        }],
        [1.3, () => { T.step('clearAll', a.n); if (T.bool(0.3)) a.app.commands.handlers.invoke(clearAllUserPreferences.id); else P.clearAll(); a.model.clear(); T.count('cleared') }],
        [0.15, () => {
          // many entries, its own among those of others
          const n = T.bulk()
          const drop = T.pick(['clear', 'clear', 'remove'])
          T.step('set', a.n, n, 'keys, then', drop)
          for (let j = 0; j < n; j++) {
            if (j % 3 === 0) { const f = `zz${j % 2 ? '' : ':'}${j}`; put(storages[a.si], f, 'x'); foreign[a.si].set(f, 'x') }
            P.set(`bulk ${j}`, '1')
            a.model.set(`bulk ${j}`, '1')
          }
          const check = what => { audit(marks, a, what); verify(what); storages.forEach((x, i) => { marks[i] = x.ops?.length ?? 0 }) }
          check(`after setting ${n} keys`)
          if (drop === 'clear') { P.clearAll(); a.model.clear() } else for (let j = 0; j < n; j++) { P.set(`bulk ${j}`, undefined); a.model.delete(`bulk ${j}`) }
          check(`after ${drop} of ${n} keys`)
          for (let j = 0; j < n; j += 3) { const f = `zz${j % 2 ? '' : ':'}${j}`; if (storages[a.si] instanceof RecStorage) storages[a.si].drop(f); else storages[a.si].removeItem(f); foreign[a.si].delete(f) }
          T.count('bulk')
        }],
        [0.6, () => { actor = undefined; addForeign(T.int(storages.length), T.bool() ? T.str(20) : `${T.pick(APPS)}:${T.pick(keys)}`, T.str(10)) }],
        [1, () => { T.step('get', a.n, k); P.get(k, 'default'); P.get(k) }]
      ])()
      audit(marks, actor, 'the operation')
      verify('after the step')
    }
    for (const p of pending) p.d.resolve(p.v)
    for (const p of pending) await T.settled(p.ret, 'an async update')
    if (apps.length > 1) T.interesting()
  }
}
