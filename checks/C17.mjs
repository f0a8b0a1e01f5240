import { appLib, entries, NAMES, text } from '../lib/apps.mjs'

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/routes') }
  },
  async run(T, { justTestApp, logLevels, routesGizmo }) {
    const pool = T.confuse(['/', ...T.shuffle([...NAMES, '/a', '/a/b', '/A', 'error', '/?q', '#x', '/a/', '//', 'initialRoute', 'config', 'routes']).slice(0, T.byScale(4, 8, 14)), ...T.strPool(T.byScale(1, 3, 20))])
    const route = () => (T.bool(0.95) ? T.pick(pool) : T.str(300))
    const apps = []
    let calls = []
    let uid = 0
    const options = { initialRoute: '/' }
    async function create() {
      const a = { n: apps.length, routes: new Map(), initial: '/', regs: [] }
      a.app = await justTestApp({ name: T.bool() ? T.pick(NAMES) : `app${a.n}`, log: { logLevel: logLevels.trace } }).with(routesGizmo).create()
      a.logs = a.app.log.reporter.logs
      apps.push(a)
      T.step('app', a.n)
    }
    const handler = a => {
      const h = { n: ++uid }
      h.fn = () => {
        calls.push(h)
        const f = h.act
        h.act = undefined
        return f?.()
      }
      return h
    }
    function register(a, r, h) {
      const taken = a.routes.has(r)
      const from = a.logs.length
      T.step('register', a.n, r, 'handler', h.n, taken ? '(taken)' : '')
      const off = a.app.routes.register(r, h.fn)
      const errs = entries(a.logs, from, logLevels.error)
      T.is(typeof off, 'function', 'what register returns')
      T.is(errs.length, taken ? 1 : 0, `errors logged by registering '${r}'`)
      if (taken) T.ok(text(errs[0]).includes(r), () => `the error does not name '${r}': ${text(errs[0])}`)
      const reg = { r, h, off, live: !taken, refused: taken }
      if (!taken) a.routes.set(r, reg)
      a.regs.push(reg)
      T.count(taken ? 'refused' : 'registered')
    }
    function unregister(a, reg) {
      T.step('unregister', a.n, reg.r, 'handler', reg.h.n, reg.refused ? '(was refused)' : reg.live ? '' : '(stale)')
      reg.off()
      T.count(reg.refused ? 'unregistered.refused' : reg.live ? 'unregistered' : 'unregistered.stale')
      if (reg.live) { reg.live = false; a.routes.delete(reg.r) }
    }
    function clear(a) {
      T.step('clearRoutes', a.n)
      a.app.routes.clearRoutes()
      for (const x of a.routes.values()) x.live = false
      a.routes.clear()
      T.count('cleared')
    }
    function navigate(a, r, explicit) {
      const target = explicit ? r : a.initial
      const reg = a.routes.get(target)
      const mark = a.logs.length
      const outer = calls
      calls = []
      T.step('navigate', a.n, explicit ? JSON.stringify(r) : `(initial ${JSON.stringify(a.initial)})`, reg ? `-> handler ${reg.h.n}` : '-> unknown')
      const quiet = !reg?.h.act
      let thrown
      try { explicit ? a.app.routes.navigate(r) : T.bool() ? a.app.routes.navigate() : a.app.routes.navigate(undefined) } catch (e) { thrown = { e } }
      if (!reg) {
        if (thrown) throw thrown.e
        T.is(calls.length, 0, `handlers called by navigating to the unknown '${target}'`)
        const errs = entries(a.logs, mark, logLevels.error)
        T.is(errs.length, 1, `errors logged by navigating to the unknown '${target}'`)
        T.ok(text(errs[0]).includes(target), () => `the error does not name '${target}': ${text(errs[0])}`)
        T.count(explicit ? 'unknown' : 'unknown.initial')
      } else {
        if (thrown) { if (!quiet && thrown.e === BOOM) T.count('handler.threw'); else throw thrown.e }
        T.sameList(calls.slice(0, 1), [reg.h], `handler called by navigating to '${target}'`)
        if (quiet) T.is(calls.length, 1, `calls made by navigating to '${target}'`)
        const notices = entries(a.logs, mark, logLevels.notice)
        {
          T.ok(notices.length >= 1 && (!quiet || notices.length === 1), () => `${notices.length} notices logged by navigating to '${target}'`)
          T.ok(notices.some(x => text(x).includes(target)), () => `no notice names '${target}': ${notices.map(text)}`)
        }
        if (quiet) T.is(entries(a.logs, mark, logLevels.error).length, 0, `errors logged by navigating to '${target}'`)
        T.count(explicit ? 'navigated' : 'navigated.initial')
      }
      calls = outer.concat(calls)
    }
    const BOOM = new Error('boom')
    const verify = () => {
      for (const a of apps) for (const r of pool) T.is(a.app.routes.hasRoute(r), a.routes.has(r), `hasRoute('${r}') of app ${a.n}`)
    }
    for (let i = T.range(1, T.byScale(2, 3, 5)); i > 0; i--) await create()
    const hs = apps.map(a => [handler(a)])
    const steps = T.steps(10, 30, 120)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      const marks = apps.map(x => x.logs.length)
      let alone = true
      T.weighted([
        [5, () => {
          const known = hs[a.n]
          const h = T.bool(0.25) ? T.pick(known) : handler(a)
          known.push(h)
          register(a, route(), h)
        }],
        [3, () => { if (a.regs.length) unregister(a, T.bool(0.5) ? a.regs[a.regs.length - 1] : T.pick(a.regs)) }],
        [1, () => clear(a)],
        [1, () => {
          const r = route()
          T.step('config', a.n, r)
          if (T.bool(0.6)) a.app.routes.config({ initialRoute: r })
          else {
            // the caller's own options, changed and given again
            options.initialRoute = r
            a.app.routes.config(options)
            T.is(options.initialRoute, r, 'the options given to config')
            T.count('configured.again')
          }
          a.initial = r
          T.count('configured')
        }],
        [6, () => {
          const explicit = T.bool(0.75)
          const r = T.bool(0.6) && a.routes.size ? T.pick([...a.routes.keys()]) : route()
          const reg = a.routes.get(explicit ? r : a.initial)
          if (reg && T.bool(0.2)) {
            const b = T.pick(apps)
            alone = a === b
            reg.h.act = T.weighted([
              [2, () => () => { T.count('nested.navigate'); navigate(b, route(), T.bool(0.8)) }],
              [2, () => () => { T.count('nested.unregister'); unregister(a, reg) }],
              [1, () => () => { T.count('nested.clear'); clear(b) }],
              [2, () => () => { T.count('nested.register'); register(b, route(), handler(b)) }],
              [1, () => () => { unregister(a, reg); register(a, reg.r, handler(a)); T.count('nested.replace') }],
              [1, () => () => { throw BOOM }]
            ])()
          }
          navigate(a, r, explicit)
        }],
        [2, () => { if (a.routes.size) navigate(a, T.pick([...a.routes.keys()]), true) }]
      ])()
      if (alone) apps.forEach((x, j) => { if (x !== a) T.is(x.logs.length, marks[j], `entries logged by app ${j} for an operation of app ${a.n}`) })
      verify()
    }
    // in the end every registered route still reaches its own handler
    for (const a of apps) for (const r of [...a.routes.keys()]) { a.routes.get(r).h.act = undefined; navigate(a, r, true) }
    T.interesting()
  }
}
