import { installDom } from '../lib/loader.mjs'
import { appLib, entries } from '../lib/apps.mjs'
import { KEYS } from '../lib/prefs.mjs'
import { RecStorage, snapshot } from '../lib/storage.mjs'

const NAMES = ['a', 'b', 'ab', 'toString', '__proto__', '', 'é', '😀', '0', 'A', 'a.b', 'axb', 'a b', 'e\u0301']

export default {
  async setup() {
    const { window: w } = installDom()
    const listeners = []
    // listeners of apps of earlier cases go, however they were added
    const add = w.addEventListener.bind(w)
    const remove = w.removeEventListener.bind(w)
    w.removeEventListener = globalThis.removeEventListener = function (type, l, o) { if (this !== undefined && this !== globalThis && this !== w) throw new TypeError('Illegal invocation'); const i = listeners.findIndex(x => x[0] === type && x[1] === l); if (i >= 0) listeners.splice(i, 1); remove(type, l, o) }
    w.addEventListener = globalThis.addEventListener = function (type, l, o) { if (this !== undefined && this !== globalThis && this !== w) throw new TypeError('Illegal invocation'); listeners.push([type, l, o]); add(type, l, o) }
    const host = { calls: [] }
    globalThis.fetch = w.fetch = function (...args) {
      if (this !== undefined && this !== globalThis && this !== w) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation")
      host.calls.push(args)
      return host.answer
    }
    return {
      ...await appLib(), ...await import('@just-web/presets-browser'), ...await import('@just-web/presets-browser/testing'), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/preferences'), ...await import('@just-web/os'), ...await import('@just-web/events'), ...await import('@just-web/fetch/testing'),
      window: w, listeners, host
    }
  },
  async run(T, lib) {
    const { incubate, justApp, justTestApp, createMemoryLogReporter, define, logLevels, presetsBrowserGizmoFn, presetsBrowserTestGizmoFn, commandsGizmoFn, keyboardGizmoFn, osGizmo, eventsGizmoFn, fetchTestGizmoFn, createMemoryHistory, getUserPreference, setUserPreference, clearAllUserPreferences, window: w, listeners, host } = lib
    while (listeners.length) w.removeEventListener(...listeners.pop())
    w.localStorage.clear()
    w.sessionStorage.clear()
    w.history.replaceState(null, '', '/start')
    const real = { sessionStorage: w.sessionStorage, localStorage: w.localStorage, navigator: w.navigator, location: w.location }
    const apps = []
    const gizmos = []
    const prefs = new Map() // storage -> name -> model
    let uid = 0
    const modelOf = a => { if (!prefs.has(a.storage)) prefs.set(a.storage, new Map()); const m = prefs.get(a.storage); if (!m.has(a.name)) m.set(a.name, new Map()); return m.get(a.name) }
    async function create() {
      const a = { n: apps.length, name: T.pick(NAMES), test: T.bool(), keyboard: T.bool(), starts: 0, closed: 0, alive: true, errors: [], heard: 0 }
      let b
      if (T.bool()) b = justTestApp({ name: a.name, log: { logLevel: logLevels.all } })
      else { const r = createMemoryLogReporter(); a.logs = r.logs; b = justApp({ name: a.name, log: { reporters: [r], logLevel: logLevels.all } }) }
      // other gizmos, before the preset in any order
      const custom = T.pick([{}, { nested: { deep: { x: 1 } }, list: [1, [2]], m: new Map([[1, 2]]) }, { service: new (class Service { #x = 1; get() { return this.#x } })(), fn: Object.assign(() => 1, { extra: 1 }) }, { frozen: Object.freeze({ a: Object.freeze([1]) }), nil: null, zero: 0 }])
      const given = T.bool(0.3) ? { calls: [] } : undefined
      if (given) given.fn = (...args) => { given.calls.push(args); return given.answer }
      const seenByStart = []
      const others = T.shuffle([
        define({ async create() { return [custom, () => { a.starts++; return () => { a.closed++ } }] } }),
        ...(a.keyboard ? [keyboardGizmoFn({ keyBindingContributions: [{ id: 'x', key: 'ctrl+x' }] })] : []),
        ...(T.bool(0.3) ? [osGizmo] : []), ...(T.bool(0.3) && eventsGizmoFn ? [eventsGizmoFn()] : []), ...(given ? [fetchTestGizmoFn({ fetch: given.fn })] : [])
      ])
      for (const g of others) b = b.with(g)
      b = b.with(commandsGizmoFn({ handlers: { own: () => `own of ${a.n}` }, contributions: [{ id: 'own', name: 'Own' }] }))
      let before
      b = b.with(define({ async create(ctx) { before = Object.fromEntries(Object.keys(ctx).filter(k => k !== 'load').map(k => [k, ctx[k]])); return undefined } }))
      // options; the same preset gizmo can be used for several apps
      const again = T.bool(0.35) ? gizmos.find(g => g.test === a.test) : undefined
      const o = again ? again.o : {}
      if (again) { a.own = again.own; a.optionFetch = again.optionFetch; T.count('gizmo.again') } else if (T.bool(0.6)) {
        o.browser = {}
        if (T.bool(0.5)) o.browser.preventDefault = T.bool()
        if (T.bool(0.4)) { const f = { calls: [] }; f.fn = (...args) => { f.calls.push(args); return f.answer }; o.browser.fetch = f.fn; a.optionFetch = f }
        if (a.test) {
          if (T.bool(0.5)) o.browser.localStorage = apps.length && T.bool(0.4) ? T.pick(apps).storage : new RecStorage()
          if (T.bool(0.3)) o.browser.sessionStorage = new RecStorage()
          if (T.bool(0.3)) o.browser.navigator = { language: 'fr' }
          if (T.bool(0.3)) o.browser.location = { href: 'http://elsewhere/' }
        }
      }
      if (!again && T.bool(0.35)) { a.own = T.bool() ? createMemoryHistory({ initialEntries: ['/own'] }) : { location: { pathname: '/fake' }, push() {} }; o.history = { history: a.own } }
      const opts = Object.keys(o).length ? o : T.pick([undefined, {}, { browser: undefined, history: undefined }])
      T.step('create', a.n, a.test ? 'test preset' : 'preset', JSON.stringify(a.name), a.keyboard ? 'with keyboard' : '', `custom members ${Object.keys(custom)}`, given ? 'with a fetch gizmo' : '', 'options', Object.entries(o).map(([k, v]) => `${k}: ${Object.keys(v)}`).join(' ') || 'none')
      const g = again ?? { test: a.test, o, own: a.own, optionFetch: a.optionFetch, gizmo: (a.test ? presetsBrowserTestGizmoFn : presetsBrowserGizmoFn)(opts) }
      if (!again) gizmos.unshift(g)
      b = b.with(g.gizmo)
      a.storage = o.browser?.localStorage ?? real.localStorage
      let lateSeen
      b = b.with(define({ async create(ctx) { lateSeen = ctx.preferences?.get('late'); return { late: ctx.history } } }))
      const was = modelOf(a).get('late')
      const app = await b.create(T.bool(0.3) ? ctx => { seenByStart.push(ctx.preferences?.get('late')) } : undefined)
      a.app = app
      a.logs ??= app.log.reporter.logs
      T.is(lateSeen, was, 'a preference read by a gizmo after the preset')
      if (seenByStart.length) T.is(seenByStart[0], was, 'a preference read by the start function')
      // what the app had is what it has
      for (const k of Object.keys(before)) {
        if (k === 'fetch') continue
        T.is(app[k], before[k], `app.${k} is not the object it was before the preset was added`)
        T.count('kept.members')
      }
      T.eq(Object.keys(app).sort(), [...new Set([...Object.keys(before), 'browser', 'fetch', 'preferences', 'history', 'late'])].sort(), 'members of the app')
      for (const [k, v] of Object.entries(custom)) T.is(app[k], v, `custom member ${k}`)
      T.is(app.name, a.name, 'app.name')
      T.is(a.starts, 1, 'runs of the start function of an earlier gizmo')
      T.is(app.commands.handlers.invoke('own'), `own of ${a.n}`, 'a command of the app')
      T.is(app.late, app.history, 'history seen by a later gizmo')
      // options
      const B = o.browser ?? {}
      for (const k of ['sessionStorage', 'localStorage', 'navigator', 'location']) { T.is(app.browser[k], B[k] ?? real[k], `app.browser.${k}`); if (B[k]) T.count('given.members') }
      if (a.own) { T.is(app.history, a.own, 'app.history (given)'); T.count('history.own') }
      else T.count(a.test ? 'history.memory' : 'history.browser')
      a.fetch = a.optionFetch ?? given ?? host
      a.prevent = B.preventDefault ?? false
      app.browser.errors.onChange(() => { a.heard++ })
      apps.push(a)
      if (!a.own && a.test) for (const x of apps) if (x !== a) T.ok(x.app.history !== app.history, 'two apps share one in-memory history')
      return a
    }
    function verify(what) {
      for (const a of apps) {
        const m = modelOf(a)
        for (const k of ['late', ...KEYS.slice(0, 6)]) {
          T.is(a.app.preferences.get(k), m.get(k), `preference ${JSON.stringify(k)} of app ${a.n} ${what}`)
          T.is(a.app.commands.handlers.invoke(getUserPreference.id, k), m.get(k), `preference ${JSON.stringify(k)} of app ${a.n} through its command ${what}`)
        }
        const list = a.app.browser.errors.get()
        T.is(list.length, a.errors.length, `errors of app ${a.n} ${what}`)
        list.forEach((e, i) => { T.is(e.message, a.errors[i].message, `message of error ${i} of app ${a.n}`); T.is(e.cause, a.errors[i].error, `cause of error ${i} of app ${a.n}`) })
        T.is(a.closed, a.alive ? 0 : 1, `cleanups of an earlier gizmo of app ${a.n}`)
        T.is(a.heard, a.errors.length, `notifications about errors of app ${a.n}`)
        const logged = entries(a.logs, 0, logLevels.error)
        T.is(logged.length, a.errors.length, `errors logged by app ${a.n} ${what}`)
        logged.forEach((l, i) => { T.ok(l.args.includes(list[i]), () => `log entry of error ${i} of app ${a.n} does not carry it`); T.ok(l.id.startsWith(`${a.name}:`), () => `logger id ${l.id} of app '${a.name}'`) })
      }
      for (const [s, byName] of prefs) {
        const now = snapshot(s)
        let n = 0
        for (const [name, m] of byName) for (const k of m.keys()) { n++; T.ok(now.has(`${name}:${k}`), () => `preference ${JSON.stringify(k)} of '${name}' is not saved under the app's name: ${[...now.keys()]}`) }
        T.is(now.size, n, `entries in the storage ${what}`)
      }
    }
    for (let i = T.range(1, 3); i > 0; i--) await create()
    verify('after creation')
    const steps = T.steps(6, 18, 50)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      const op = T.weighted([[5, 'preference'], [2, 'fetch'], [2, 'error'], [3, 'history'], [0.5, 'create'], [0.5, 'clear'], [0.4, 'cleanup'], [1, 'store'], [0.7, 'singleton'], [0.5, 'log']])
      if (op === 'create' && apps.length < 6) await create()
      if (op === 'preference') {
        const k = T.pick(['late', ...KEYS.slice(0, 6)])
        const v = T.bool(0.2) ? undefined : `v${++uid}`
        const how = T.pick(['direct', 'command'])
        T.step('set', a.n, k, v, how)
        const m = modelOf(a)
        await T.value(how === 'direct' ? a.app.preferences.set(k, v) : a.app.commands.handlers.invoke(setUserPreference.id, k, v), 'set')
        if (v === undefined) m.delete(k)
        else m.set(k, v)
        T.count(`preference.${how}`)
      }
      if (op === 'cleanup' && a.alive) {
        T.step('clean up', a.n)
        incubate.cleanup(a.app)
        a.alive = false
        T.count(a.test ? 'cleaned.up.test' : 'cleaned.up')
      }
      if (op === 'clear') {
        T.step('clear all', a.n)
        if (T.bool()) a.app.preferences.clearAll()
        else a.app.commands.handlers.invoke(clearAllUserPreferences.id)
        modelOf(a).clear()
        T.count('cleared')
      }
      if (op === 'singleton') {
        const last = apps[apps.length - 1]
        T.step('call the set command itself')
        const v = `v${++uid}`
        await T.value(setUserPreference('late', v), 'the set command')
        modelOf(last).set('late', v)
        T.is(getUserPreference('late'), v, 'what the get command itself returns')
        T.count('singleton')
      }
      if (op === 'store') {
        const st = a.app.preferences.createStore('b', { list: [0] })
        T.step('store', a.n)
        const was = modelOf(a).get('b')
        if (was === undefined) T.eq(st.get(), { list: [0] }, 'default of a store')
        const x = T.pick([{ list: [++uid] }, `s${++uid}`])
        st.set(x)
        T.eq(st.get(), x, 'value of a store')
        modelOf(a).set('b', JSON.stringify(x))
        T.count('store')
      }
      if (op === 'fetch') {
        const f = a.fetch
        f.answer = Promise.resolve(new Response('x'))
        host.answer ??= f.answer
        const before = [...new Set([host, ...apps.map(x => x.fetch)])].filter(x => x !== f).map(x => [x, x.calls.length])
        const n = f.calls.length
        T.step('fetch', a.n)
        const args = ['http://x/', { method: 'PUT' }]
        T.is(await T.value(a.app.fetch(...args), 'fetch'), await f.answer, 'the response')
        T.is(f.calls.length, n + 1, 'calls of the expected fetch')
        T.sameList(f.calls[n], args, 'arguments of fetch')
        for (const [x, c] of before) T.is(x.calls.length, c, 'calls of another fetch')
        T.count('fetch')
      }
      if (op === 'error') {
        const error = new Error(`boom ${++uid}`)
        const ev = new w.ErrorEvent('error', { message: `Uncaught ${uid}`, error, cancelable: true })
        T.step('uncaught error')
        w.dispatchEvent(ev)
        for (const x of apps) if (x.alive) x.errors.push({ message: `Uncaught ${uid}`, error })
        T.is(ev.defaultPrevented, apps.some(x => x.alive && x.prevent), 'default action prevented')
        T.count('error')
      }
      if (op === 'history' && a.own?.location?.pathname !== '/fake') {
        const p = `/p${++uid}`
        const outside = w.location.pathname
        const rest = apps.filter(x => x !== a && (x.test || x.own) && x.app.history !== a.app.history).map(x => [x, x.app.history.location.pathname])
        const state = { n: uid }
        T.step('push', a.n, p)
        let heard
        const stop = a.app.history.listen(e => { heard = e })
        a.app.history.push(p, state)
        stop()
        T.is(a.app.history.location.pathname, p, 'location of the history')
        T.eq(a.app.history.location.state, state, 'state of the history')
        T.is((heard.location ?? heard).pathname, p, 'location heard')
        T.is(w.location.pathname, a.test || a.own ? outside : p, 'location of the page')
        for (const [x, q] of rest) T.is(x.app.history.location.pathname, q, `location of the history of app ${x.n}`)
        T.count('push')
      }
      if (op === 'log') {
        const n = a.logs.length
        a.app.log.info('hello', uid)
        T.is(a.logs.length, n + 1, 'entries of the app')
        T.is(a.logs[n].id, a.name, 'logger of the app')
      }
      verify('after the step')
    }
    T.interesting()
  }
}
