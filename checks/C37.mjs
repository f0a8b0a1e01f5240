import { text } from '../lib/apps.mjs'
import { clone, isPlain, print, randomEdit } from '../lib/plain.mjs'
import { KEYS, deferred, prefsLib, wellFormed } from '../lib/prefs.mjs'
import { turn } from '../lib/case.mjs'

const json = v => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)))
const WF = v => (typeof v === 'string' ? wellFormed(v) : Array.isArray(v) ? v.map(WF) : isPlain(v) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [wellFormed(k), WF(x)])) : v)
/** arguments without trailing undefined: leaving one out and passing undefined is the same */
const trim = args => { const a = [...args]; while (a.length && a[a.length - 1] === undefined) a.pop(); return a }
const isPromise = v => v !== null && typeof v === 'object' && typeof v.then === 'function'
const OPS = ['get', 'set', 'clear']

export default {
  // a plain set through a store gives no promise to hold on to
  strayIsViolation: false,
  setup: prefsLib,
  async run(T, lib) {
    const { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, browserTestGizmoFn, browserPreferencesGizmo, memoryPreferencesGizmo, preferencesGizmo, getUserPreference, setUserPreference, clearAllUserPreferences, stubStorage, isNothing, nothing } = lib
    const IDS = { get: getUserPreference.id, set: setUserPreference.id, clear: clearAllUserPreferences.id }
    const CMD = { get: getUserPreference, set: setUserPreference, clear: clearAllUserPreferences }
    const backends = []
    const apps = []
    const keys = [...new Set(T.confuse(T.shuffle([...KEYS, ...T.strPool(2)]).slice(0, T.byScale(1, 3, 6))).map(wellFormed))]
    const value = () => WF(T.weighted([[6, () => T.json(2)], [1, () => null], [1, () => T.pick([0, '', false, [], {}])], [1, () => ({ n: { list: [1, { a: [] }] } })]])())

    /** where preferences are kept, as a user of the commands writes it */
    function backend() {
      const b = { n: backends.length, map: new Map(), calls: [], mode: T.weighted([[4, 'sync'], [3, 'async'], [2, 'late']]), fail: undefined, gates: [] }
      const enter = (op, args, self) => {
        const c = { op, args, b, token: undefined }
        b.calls.push(c)
        if (b.fail) throw b.fail
        return c
      }
      const put = (k, v) => { if (v === undefined || v === null || isNothing(v)) b.map.delete(k); else b.map.set(k, v) }
      b.fns = {
        get(...args) {
          const c = enter('get', args)
          return (c.result = b.map.has(args[0]) ? b.map.get(args[0]) : args[1])
        },
        set(...args) {
          const c = enter('set', args)
          const [k, v] = args
          const now = () => {
            const r = typeof v === 'function' ? v(b.map.get(k)) : v
            if (isPromise(r)) return r.then(x => { c.given = x; put(k, x) })
            c.given = r
            put(k, r)
          }
          if (b.mode === 'sync') {
            const r = now()
            return (c.result = isPromise(r) ? r.then(() => 'saved') : c.token = { saved: k })
          }
          if (b.mode === 'async') return (c.result = (async () => { await now(); return 'saved' })())
          // asks for the updated text only when the request is made
          const d = deferred()
          b.gates.push(d)
          return (c.result = d.promise.then(async () => { await now(); return 'saved' }))
        },
        clear(...args) {
          const c = enter('clear', args)
          b.map.clear()
          return (c.result = b.mode === 'sync' ? undefined : Promise.resolve('cleared'))
        }
      }
      backends.push(b)
      T.count(`backend.${b.mode}`)
      return b
    }
    async function create() {
      const a = { n: apps.length, has: { get: undefined, set: undefined, clear: undefined }, stores: [] }
      const kind = T.weighted([[5, 'bare'], [2, 'memory'], [2, 'browser']])
      const handlers = {}
      let o
      if (T.bool(0.5)) {
        const b = backend()
        o = T.shuffle(OPS).slice(0, T.range(1, 3))
        for (const op of o) { handlers[IDS[op]] = b.fns[op]; if (kind === 'bare') a.has[op] = b }
        T.count('given.in.options')
      }
      let b = justTestApp({ name: T.pick(['app', '', '__proto__', 'é', `n${a.n}`]), log: { logLevel: logLevels.all } })
      const parts = [...(T.bool(0.3) ? [keyboardGizmoFn()] : []), commandsGizmoFn({ handlers })]
      for (const g of parts) b = b.with(g)
      if (kind === 'browser') b = b.with(browserTestGizmoFn({ localStorage: stubStorage() })).with(browserPreferencesGizmo)
      else b = b.with(kind === 'memory' ? memoryPreferencesGizmo : preferencesGizmo)
      T.step('app', a.n, kind, 'handlers in options:', o?.join(' ') ?? 'none')
      a.app = await b.create()
      if (kind !== 'bare') for (const op of OPS) a.has[op] = kind
      T.count(`kind.${kind}`)
      apps.push(a)
    }
    const replace = a => {
      const b = T.bool(0.75) || !backends.length ? backend() : T.pick(backends)
      const ops = T.bool(0.6) ? OPS : T.shuffle(OPS).slice(0, T.range(1, 2))
      const how = T.pick(['register', 'connect', 'define'])
      T.step('app', a.n, how, ops.join(' '), 'of backend', b.n, b.mode)
      for (const op of ops) {
        // the context a gizmo gets and the app itself are the same to a command
        if (how === 'register') a.app.commands.handlers.register(IDS[op], b.fns[op])
        else if (how === 'connect') CMD[op].connect(a.app, b.fns[op])
        else a.app.commands.handlers.register(IDS[op], CMD[op].defineHandler(b.fns[op]))
        if (a.has[op]) T.count('replaced')
        a.has[op] = b
      }
      T.count(`how.${how}`)
    }
    /** runs `f`, an operation of app `a` whose command is `op`; the one call expected of the backend */
    function doing(a, op, what, f, check) {
      const from = backends.map(b => b.calls.length)
      const logs = a.app.log.reporter.logs
      const before = logs.length
      const b = a.has[op]
      const failing = typeof b === 'object' && b.fail
      let r, threw
      try { r = f() } catch (e) { threw = { e } }
      const calls = backends.flatMap((x, i) => x.calls.slice(from[i])).filter(c => c.op === op)
      for (const c of calls) if (c.b !== b) T.fail(`${what}: the ${op} handler of backend ${c.b.n} was run, registered is ${typeof b === 'object' ? `the one of backend ${b.n}` : b ?? 'none'}`)
      if (!b) {
        T.ok(!threw, () => `${what} without a handler: threw ${threw.e}`)
        T.is(r, undefined, `${what} without a handler`)
        const errors = logs.slice(before).filter(e => e.level <= logLevels.error)
        T.is(errors.length, 1, `${what} without a handler: errors logged`)
        T.ok(text(errors[0]).includes(IDS[op]), () => `${what} without a handler: the error does not name the command: ${text(errors[0])}`)
        T.count('unregistered')
        return
      }
      if (typeof b === 'string') {
        T.ok(!threw, () => `${what}: threw ${threw.e}`)
        T.count('builtin')
        return
      }
      T.is(calls.length, 1, `${what}: runs of the registered handler`)
      if (failing) {
        T.ok(threw, () => `${what}: the error thrown by the handler got lost`)
        T.is(threw.e, failing, `${what}: error`)
        T.count('failed')
        return
      }
      if (threw) T.fail(`${what}: threw ${threw.e?.stack ?? threw.e}`)
      T.count(`op.${op}`)
      return check(r, calls[0], b)
    }
    /** lets a slow backend go on, and waits for it */
    async function finish(b) {
      for (let i = 0; i < 3 || b.gates.length; i++) { for (const d of b.gates.splice(0)) d.resolve(); await turn() }
    }
    for (let i = T.range(1, T.byScale(1, 2, 4)); i > 0; i--) await create()
    const steps = T.steps(8, 24, 70)
    for (let k = 0; k < steps; k++) {
      const a = T.pick(apps)
      const p = a.app.preferences
      const key = T.pick(keys)
      const op = T.weighted([[2, 'replace'], [4, 'get'], [4, 'set'], [1, 'clear'], [1.5, 'newStore'], [a.stores.length ? 5 : 0, 'readStore'], [a.stores.length ? 6 : 0, 'writeStore'], [0.6, 'fail'], [0.4, 'create']])
      if (op === 'create') { if (apps.length < 5) await create() } else if (op === 'replace') replace(a)
      else if (op === 'fail') {
        const bs = Object.values(a.has).filter(b => typeof b === 'object')
        if (!bs.length) continue
        const b = T.pick(bs)
        b.fail = b.fail ? undefined : T.pick([new Error('backend failure'), 'text', Object.freeze({ code: 1 })])
        T.step('backend', b.n, b.fail ? 'fails from now on' : 'works again')
      } else if (op === 'get') {
        const args = T.pick([[key], [key, T.str(10)], [key, '']])
        T.step('app', a.n, 'get', ...args.map(x => JSON.stringify(x)))
        doing(a, 'get', `get(${JSON.stringify(key)}) in app ${a.n}`, () => p.get(...args), (r, c) => {
          T.sameList(trim(c.args), trim(args), 'arguments of the get handler')
          T.is(r, c.result, 'what get gave')
        })
      } else if (op === 'set') {
        const v = T.pick([() => T.str(20), () => undefined, () => '', () => s => `${s ?? ''}+`, () => async s => { await null; return `${s ?? ''}*` }, () => () => undefined])()
        const args = [key, v]
        T.step('app', a.n, 'set', JSON.stringify(key), typeof v === 'function' ? 'updater' : JSON.stringify(v))
        let r
        doing(a, 'set', `set(${JSON.stringify(key)}) in app ${a.n}`, () => (r = p.set(...args)), (r, c) => {
          T.sameList(trim(c.args), trim(args), 'arguments of the set handler')
          T.is(r, c.result, 'what set gave')
        })
        if (isPromise(r)) r.then(() => {}, () => {})
      } else if (op === 'clear') {
        T.step('app', a.n, 'clearAll')
        doing(a, 'clear', `clearAll in app ${a.n}`, () => p.clearAll(), (r, c) => {
          T.sameList(trim(c.args), [], 'arguments of the clear handler')
          T.is(r, c.result, 'what clearAll gave')
        })
      } else if (op === 'newStore') {
        if (a.stores.length > 6) continue
        const d = T.bool(0.4) ? undefined : value()
        const s = { n: a.stores.length, key, d, copy: clone(d), print: print(d), store: d === undefined && T.bool() ? p.createStore(key) : p.createStore(key, d) }
        T.step('app', a.n, 'store', s.n, 'on', JSON.stringify(key), 'default', d)
        a.stores.push(s)
      } else {
        const s = T.pick(a.stores)
        for (const x of new Set([a.has.get, a.has.set])) if (typeof x === 'object') await finish(x)
        const what = `store ${s.n} (key ${JSON.stringify(s.key)}) of app ${a.n}`
        const g = a.has.get
        const b = a.has.set
        // texts which are no JSON were put there by the plain set: nothing is said about stores on them
        const parses = t => { try { JSON.parse(t); return true } catch { return false } }
        const bad = x => typeof x === 'object' && x.map.has(s.key) && !parses(x.map.get(s.key))
        if (op === 'readStore') {
          if (bad(g) || typeof g === 'string') continue
          T.step('read', what)
          doing(a, 'get', `get of ${what}`, () => {
            const r = s.store.get()
            if (g) return r
            T.eq(json(r), json(s.copy), `${what} without a get handler`)
          }, (r, c) => {
            T.is(c.args[0], s.key, 'key given to the get handler')
            T.eq(r, g.map.has(s.key) ? JSON.parse(g.map.get(s.key)) : s.copy, `value of ${what}`)
            T.count(g.map.has(s.key) ? 'store.read' : 'store.default')
          })
        } else {
          if (bad(b) || typeof b === 'string') continue
          const form = T.weighted([[3, 'value'], [1, 'undefined'], [3, 'fn'], [2, 'async'], [2, 'edit'], [0.7, 'nothing'], [0.7, 'throw']])
          T.step('write', what, form)
          const v = value()
          const was = typeof b === 'object' ? (b.map.has(s.key) ? JSON.parse(b.map.get(s.key)) : clone(s.copy)) : undefined
          if (form === 'value' || form === 'undefined') {
            const x = form === 'value' ? v : undefined
            doing(a, 'set', `set of ${what}`, () => void s.store.set(x), (r, c) => {
              T.is(c.args[0], s.key, 'key given to the set handler')
              if (x === undefined) T.is(c.args[1], undefined, 'text given to the set handler')
              else {
                T.is(typeof c.args[1], 'string', 'type of the value given to the set handler')
                T.eq(JSON.parse(c.args[1]), json(x), 'value given to the set handler')
              }
              T.count('store.value')
            })
            if (typeof b === 'object' && b.mode === 'late') await finish(b)
            continue
          }
          // the slow one asks for the updated text later, when its content may be another
          const other = typeof b === 'object' && b.mode === 'late' && !b.fail && T.bool(0.4) ? value() : undefined
          let expected = other === undefined ? was : json(other)
          let got
          const editable = isPlain(expected)
          const edit = form === 'edit' && editable ? randomEdit(T, clone(expected), { value: () => json(value()) }) : undefined
          const err = new Error('updater')
          const fn = cur => {
            got = { text: print(cur), n: (got?.n ?? 0) + 1 }
            if (form === 'throw') throw err
            if (form === 'nothing') return nothing
            if (edit) { edit.apply(cur); return undefined }
            return v
          }
          let r
          const out = doing(a, 'set', `set of ${what} with an updater`, () => {
            try { return (r = s.store.set(form === 'async' ? async cur => { const x = fn(cur); await null; return x } : fn)) } catch (e) {
              if (form === 'throw' && e === err && b?.mode === 'sync') return 'thrown'
              throw e
            }
          }, (r, c) => ({ r, c }))
          if (!out) { if (isPromise(r)) r.then(() => {}, () => {}); continue }
          const { c } = out
          T.is(c.args[0], s.key, 'key given to the set handler')
          T.is(typeof c.args[1], 'function', 'type of the updater given to the set handler')
          if (b.mode === 'late') {
            T.is(got, undefined, 'the updater ran before the backend asked')
            if (other !== undefined) { b.map.set(s.key, JSON.stringify(other)); T.count('store.late') }
          }
          const res = isPromise(out.r) ? out.r.then(x => ({ ok: x }), e => ({ e })) : undefined
          await finish(b)
          T.is(got?.n, 1, 'runs of the updater')
          T.is(got.text, print(expected), `what the updater of ${what} was given`)
          if (form === 'throw') {
            if (b.mode === 'sync') T.is(out.r, 'thrown', 'error of an updater')
            else if (res) T.is((await res).e, err, 'error of an updater')
            T.count('store.throw')
          } else if (form === 'nothing') {
            T.ok(!b.map.has(s.key), () => `${what}: what is stored after nothing was returned: ${b.map.get(s.key)}`)
            T.count('store.nothing')
          } else {
            if (edit) { const m = clone(expected); edit.apply(m); expected = m } else expected = v
            const t = b.map.get(s.key)
            T.eq(t === undefined ? undefined : JSON.parse(t), json(expected), `what is stored by an updater of ${what}`)
            T.count(`store.${edit ? 'edit' : form}`)
          }
          if (form === 'async' && b.mode !== 'sync') T.ok(res, () => `${what}: set with an async updater gave ${out.r} instead of a promise`)
          if (res && form !== 'throw') T.ok('ok' in await res, () => `${what}: the promise of set was rejected`)
          T.is(print(s.d), s.print, `default of ${what}`)
        }
      }
      for (const b of backends) if (b.gates.length && T.bool(0.5)) await finish(b)
    }
    for (const b of backends) await finish(b)
    if (apps.length > 1) T.count('several.apps')
    T.interesting()
  }
}
