import { installDom } from '../lib/loader.mjs'
import { appLib, entries } from '../lib/apps.mjs'
import { turn } from '../lib/case.mjs'

export default {
  async setup() {
    const { window: w, virtualConsole } = installDom()
    const errors = []
    virtualConsole.on('jsdomError', e => errors.push(e))
    // keep track of listeners so that no case leaves any behind
    const listeners = []
    const add = w.addEventListener.bind(w)
    const remove = w.removeEventListener.bind(w)
    // a browser refuses any other receiver
    const own = r => { if (r !== undefined && r !== globalThis && r !== w) throw new TypeError('Illegal invocation') }
    w.addEventListener = globalThis.addEventListener = function (type, fn, opt) { own(this); listeners.push({ type, fn, opt }); return add(type, fn, opt) }
    w.removeEventListener = globalThis.removeEventListener = function (type, fn, opt) { own(this); const i = listeners.findIndex(l => l.type === type && l.fn === fn); if (i >= 0) listeners.splice(i, 1); return remove(type, fn, opt) }
    return { ...await appLib(), ...await import('@just-web/browser'), ...await import('@just-web/browser/testing'), ...await import('@just-web/fetch'), window: w, listeners, add, remove, reported: errors, incubate: (await import('@just-web/app')).incubate }
  },
  directed: [
    { name: 'very many errors', async run(T, { justTestApp, logLevels, browserGizmoFn, window: w, listeners, remove, incubate }) {
      for (const l of listeners.splice(0)) remove(l.type, l.fn, l.opt)
      const app = await justTestApp({ name: 'a' }).with(browserGizmoFn({ preventDefault: true })).create()
      const n = T.byScale(1300, 2500, 6000)
      let heard = 0
      app.browser.errors.onChange((v, p) => { heard++; T.is(v.length, p.length + 1, 'errors in a notification') })
      for (let i = 0; i < n; i++) w.dispatchEvent(new w.ErrorEvent('error', { message: `m${i % 700}`, lineno: i % 10, error: i % 3 ? new Error(`e${i}`) : undefined, cancelable: true }))
      const list = app.browser.errors.get()
      T.is(list.length, n, 'errors captured')
      T.is(heard, n, 'notifications')
      list.forEach((e, i) => { T.is(e.message, `m${i % 700}`, `message of error ${i} of ${n}`); T.is(e.lineno, i % 10, `line of error ${i} of ${n}`) })
      T.is(entries(app.log.reporter.logs, 0, logLevels.error).length, n, 'errors logged')
      incubate.cleanup(app)
      T.count('very.many', n)
      T.interesting()
    } }
  ],
  async run(T, { justTestApp, justApp, createMemoryLogReporter, define, logLevels, browserGizmoFn, browserTestGizmoFn, BrowserError, window: w, listeners, remove, reported, incubate }) {
    for (const l of listeners.splice(0)) remove(l.type, l.fn, l.opt)
    reported.length = 0
    const apps = []
    const causes = [new Error('cause'), new TypeError('type'), Object.assign(new Error('frozen'), { x: 1 }), 'a string', 42, { code: 1 }, null, undefined, 0, '', new Error(''), Object.freeze(new Error('frozen')), new DOMException('full', 'QuotaExceededError'), new w.DOMException('aborted', 'AbortError'), Object.freeze({ a: 1 }), Object.assign(Object.create(null), { x: 1 })]
    const messages = ['Uncaught Error: boom', 'Script error.', '', 'boom', 'toString', '😀 é', '{"a":1}', 'Uncaught Error: boom', '%s %d', 'undefined',
      'ResizeObserver loop limit exceeded', 'ResizeObserver loop completed with undelivered notifications.', 'Load failed', 'Failed to fetch', 'Uncaught AbortError: aborted', 'Uncaught', 'Uncaught SyntaxError: x', 'Loading chunk 3 failed.', 'Uncaught (in promise) Error: x', 'Uncaught [object Object]', 'uncaught exception: x', 'Permission denied', 'Minified React error #1', "can't access property x"]
    const pool = Array.from({ length: T.range(1, 6) }, () => ({
      message: T.bool(0.7) ? T.pick(messages) : T.str(200), filename: T.pick(['', 'http://x/y.js', 'a b', T.str(30), 'chrome-extension://x/y.js', 'moz-extension://x', 'webpack://x/./y.ts', 'blob:http://x/1', '<anonymous>', 'about:blank', 'https://x/y.min.js?v=1#z', 'file:///c:/x.js', 'eval at x', 'node_modules/x']), lineno: T.pick([0, 1, 7, 123456]), colno: T.pick([0, 1, 80]), error: T.pick(causes)
    }))
    const alive = () => apps.filter(a => a.alive)
    let depth = 0
    let uid = 0
    function fire() {
      const init = { ...(T.bool(0.75) ? T.pick(pool) : { message: T.str(200), filename: T.str(40), lineno: T.int(5000), colno: T.int(200), error: T.pick(causes) }), cancelable: T.bool(0.8) }
      const ev = new ErrorEvent('error', init)
      const id = ++uid
      const from = apps.map(a => a.logs?.length)
      T.step('  '.repeat(depth) + 'error event', id, init.message, init.filename, `${init.lineno}:${init.colno}`, 'cause', init.error instanceof Error ? `${init.error.name}: ${init.error.message}` : init.error, init.cancelable ? '' : '(not cancelable)')
      const targets = alive()
      for (const a of targets) a.events.push({ id, ev, init })
      depth++
      w.dispatchEvent(ev)
      depth--
      T.is(ev.defaultPrevented, init.cancelable && targets.some(a => a.prevent), `default action prevented (${targets.map(a => `app ${a.n} ${a.prevent}`)})`)
      T.count(ev.defaultPrevented ? 'prevented' : 'not.prevented')
      void from
      if (init.error == null) T.count('without.cause')
    }
    /** an exception thrown by a page's own listener */
    function throwOnPage() {
      const err = T.bool(0.8) ? new Error(`page ${++uid}`) : T.pick([new TypeError('t'), new Error(''), Object.freeze(new Error('fr')), new DOMException('x', 'AbortError')])
      T.step('page throws', err.message)
      const targets = alive()
      const rec = { id: ++uid, thrown: err }
      for (const a of targets) a.events.push(rec)
      const f = () => { throw err }
      document.body.addEventListener('page', f)
      document.body.dispatchEvent(new w.Event('page'))
      document.body.removeEventListener('page', f)
      T.is(reported.splice(0).length, targets.some(a => a.prevent) ? 0 : 1, 'exceptions reported by the host (its default action)')
      T.count('thrown')
    }
    const gizmos = []
    async function create() {
      const a = { n: apps.length, events: [], alive: false, prevent: T.bool(0.4), heard: [], kind: T.weighted([[4, 'browser'], [1, 'test'], [1, 'plain app']]) }
      // the same gizmo can be used for several apps
      const again = T.bool(0.3) ? gizmos.find(g => g.prevent === a.prevent && g.kind === (a.kind === 'test')) : undefined
      const options = a.prevent ? { preventDefault: true } : T.pick([undefined, {}, { preventDefault: false }, { preventDefault: undefined }])
      T.step('create', a.n, a.kind, options ?? 'no options')
      apps.push(a)
      const during = name => define({ async create() { if (T.bool(0.5)) { fire(); T.count(name) } ; if (T.bool(0.3)) await null; return {} } })
      let b
      if (a.kind === 'plain app') {
        const reporter = createMemoryLogReporter()
        a.logs = reporter.logs
        b = justApp({ name: `app${a.n}`, log: { reporters: [reporter] } })
      } else b = justTestApp({ name: `app${a.n}` })
      const g = again ?? { prevent: a.prevent, kind: a.kind === 'test', gizmo: a.kind === 'test' ? browserTestGizmoFn(options) : browserGizmoFn(options) }
      if (again) T.count('gizmo.again')
      else gizmos.push(g)
      const mark = define({ async create() { a.alive = true; return {} } })
      a.app = await b.with(during('before.creation')).with(g.gizmo).with(mark).with(during('during.creation')).with(during('during.creation')).create(T.bool(0.3) ? async () => { fire(); T.count('during.start') } : undefined)
      a.logs ??= a.app.log.reporter.logs
      a.since = a.events.length
      const n = T.range(0, 2)
      for (let i = 0; i < n; i++) {
        const s = { seen: [] }
        a.app.browser.errors.onChange((v, prev) => {
          s.seen.push(v)
          T.is(v.length, prev.length + 1, `errors in a notification of app ${a.n}`)
          if (s.act) { const f = s.act; s.act = undefined; f() }
        })
        a.heard.push(s)
      }
    }
    function cleanup(a) {
      T.step('cleanup', a.n)
      incubate.cleanup(a.app)
      a.alive = false
      T.count('cleaned.up')
      if (a.kind === 'test') T.count('cleaned.up.test')
    }
    function check(a, e, rec, what) {
      T.ok(e instanceof BrowserError, () => `${what} is not a BrowserError`)
      if (rec.thrown) { T.is(e.cause, rec.thrown, `cause of ${what}`); T.ok(e.message.includes(rec.thrown.message), `message of ${what}`); return }
      const { init } = rec
      T.is(e.message, init.message, `message of ${what}`)
      T.is(e.source, init.filename, `file name of ${what}`)
      T.is(e.lineno, init.lineno, `line of ${what}`)
      T.is(e.colno, init.colno, `column of ${what}`)
      if (init.error != null) T.is(e.cause, init.error, `cause of ${what}`)
      else T.ok(e.cause == null, () => `cause of ${what} is ${e.cause}`)
    }
    function verify() {
      for (const a of apps) {
        if (!a.app) continue
        const list = a.app.browser.errors.get()
        T.is(list.length, a.events.length, `errors captured by app ${a.n} (${a.kind})`)
        list.forEach((e, i) => check(a, e, a.events[i], `error ${i} of app ${a.n}`))
        T.is(new Set(list).size, list.length, `different error objects of app ${a.n}`)
        const logged = entries(a.logs, 0, logLevels.error)
        T.is(logged.length, list.length, `errors logged by app ${a.n}`)
        if (!a.nested) logged.forEach((l, i) => T.ok(l.args.some(x => x === list[i]), () => `log entry ${i} of app ${a.n} does not carry the captured error`))
        for (const s of a.heard) {
          T.is(s.seen.length, list.length - a.since, `notifications of app ${a.n}`)
          if (!a.nested) s.seen.forEach((v, i) => T.is(v[v.length - 1], list[a.since + i], `last error in notification ${i} of app ${a.n}`))
        }
      }
    }
    function attack(a) {
      const { errors } = a.app.browser
      const list = errors.get()
      T.step('try to modify the list of app', a.n)
      for (const m of ['set', 'add', 'reset', 'update', 'delete']) T.ok(errors[m] === undefined, () => `errors of app ${a.n} has a ${m} function`)
      for (const f of [() => list.push(new Error('x')), () => { list.length = 0 }, () => { list[0] = 1 }]) try { f() } catch {}
      T.count('attacked')
    }
    await create()
    const steps = T.steps(8, 25, 80)
    for (let i = 0; i < steps; i++) {
      if (T.bool(0.1)) await turn()
      await T.weighted([
        [8, () => fire()],
        [2, () => throwOnPage()],
        [1.2, () => (apps.length < 6 ? create() : undefined)],
        [0.8, () => { const a = T.pick(apps); if (a.alive) cleanup(a) }],
        [0.2, () => { const a = T.pick(apps); if (!a.alive) cleanup(a) }],
        [0.5, () => attack(T.pick(apps))],
        [0.5, () => {
          const a = T.pick(alive().filter(x => x.heard.length).concat(undefined))
          if (!a) return
          for (const x of apps) x.nested = true
          T.pick(a.heard).act = () => {
            fire()
            // apps listening after this one hear the inner event first
            for (const x of alive()) if (x.n > a.n) x.events.push(...x.events.splice(-2).reverse())
            T.count('nested')
          }
          fire()
        }]
      ])()
      verify()
    }
    for (const a of apps) if (a.alive) cleanup(a)
    fire()
    verify()
    T.interesting()
  }
}
