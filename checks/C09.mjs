import { appLib, entries, NAMES, text } from '../lib/apps.mjs'

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/commands') }
  },
  async run(T, { justTestApp, logLevels, commandsGizmoFn }) {
    const pool = T.confuse([...new Set([...T.shuffle(NAMES).slice(0, 8), ...T.strPool(5), ...T.bool(0.2) ? ['just-web.showCommandPalette'] : []])])
    let uid = 0
    let calls = []
    const apps = []
    const mk = (app, id) => {
      const h = { n: ++uid, app, id, mode: T.weighted([[5, 'value'], [2, 'throw'], [1.5, 'async'], [1, 'reject'], [1.2, 'nested'], [0.8, 'reregister']]) }
      h.result = T.any()
      h.err = T.pick([new Error(`h${h.n}`), 'text', undefined, null, 0])
      h.fn = (...args) => {
        calls.push({ h, args })
        if (h.mode === 'throw') throw h.err
        if (h.mode === 'async') return (h.promise = Promise.resolve(h.result))
        if (h.mode === 'reject') { h.promise = Promise.reject(h.err); h.promise.catch(() => {}); return h.promise }
        if (h.mode === 'nested') {
          if (h.busy) return h.result
          h.busy = true
          const other = T.pick(pool)
          const target = h.app.model.get(other)
          const mark = Symbol('arg')
          const n = calls.length
          T.step(`    h${h.n} invokes ${JSON.stringify(other)}`)
          let r, e
          try { r = h.app.app.commands.handlers.invoke(other, mark) } catch (x) { e = { x } }
          h.busy = false
          if (!target) { T.is(calls.length, n, 'calls of a nested invoke of an unknown id'); T.is(r, undefined, 'result of a nested invoke of an unknown id'); T.count('nested.unknown') } else {
            T.is(calls[n]?.h, target, 'handler called by a nested invoke')
            T.sameList(calls[n].args, [mark], 'arguments of a nested invoke')
            if (target.mode === 'throw') T.ok(e && Object.is(e.x, target.err), 'nested invoke did not throw what the handler threw')
            T.count('nested')
          }
          return h.result
        }
        if (h.mode === 'reregister') {
          const next = mk(h.app, h.id)
          next.mode = 'value'
          h.app.app.commands.handlers.register(h.id, next.fn)
          h.app.model.set(h.id, next)
          T.count('reregistered.while.running')
          return h.result
        }
        return h.result
      }
      return h
    }
    const n = T.range(1, T.byScale(2, 3, 4))
    const gizmos = []
    for (let i = 0; i < n; i++) {
      const a = { i, model: new Map() }
      // the same gizmo can be used for several apps
      const again = gizmos.length && T.bool(0.35) ? T.pick(gizmos) : undefined
      const given = again ? again.given : T.bool(0.4) ? pool.filter(() => T.bool(0.3)) : undefined
      let options
      if (again) { for (const [id, h] of again.model) a.model.set(id, h); T.count('gizmo.again') } else if (given) {
        options = {}
        for (const id of given) {
          const h = mk(a, id)
          Object.defineProperty(options, id, { value: h.fn, enumerable: true, writable: true, configurable: true })
          a.model.set(id, h)
        }
      }
      const g = again ?? { given, options, model: new Map(a.model), gizmo: commandsGizmoFn(options ? { handlers: options } : undefined) }
      if (!again) gizmos.push(g)
      a.app = await justTestApp({ name: `app${i}`, log: { logLevel: logLevels.trace } }).with(g.gizmo).create()
      a.logs = a.app.log.reporter.logs
      apps.push(a)
      T.step(`app ${i} ${again ? 'from an earlier gizmo' : ''} with handlers`, given ?? 'none')
    }
    const verify = what => {
      for (const a of apps) {
        const hs = a.app.commands.handlers
        const ks = hs.keys()
        T.is(ks.length, a.model.size, `${what}: number of keys() of app ${a.i} (${ks})`)
        for (const k of ks) T.ok(a.model.has(k), () => `${what}: keys() of app ${a.i} lists ${JSON.stringify(k)} which was never registered there`)
        for (const id of pool) T.is(hs.has(id), a.model.has(id), `${what}: has(${JSON.stringify(id)}) of app ${a.i}`)
      }
    }
    verify('initially')
    const steps = T.steps(8, 30, 120)
    for (let k = 0; k < steps; k++) {
      const a = T.pick(apps)
      const hs = a.app.commands.handlers
      const id = T.bool(0.9) ? T.pick(pool) : T.str(200)
      const marks = apps.map(x => x.logs.length)
      const op = T.weighted([[3, 'register'], [6, 'invoke'], [0.5, 'verify']])
      if (op === 'register') {
        const known = a.model.has(id)
        const h = known && T.bool(0.15) ? a.model.get(id) : mk(a, id)
        T.step(`app ${a.i} register(${JSON.stringify(id)}, h${h.n} ${h.mode})`)
        hs.register(id, h.fn)
        a.model.set(id, h)
        if (!pool.includes(id) && pool.length < 25) pool.push(id)
        const notices = entries(a.logs, marks[a.i], logLevels.notice)
        T.is(notices.length, known ? 1 : 0, `notices of app ${a.i} when ${known ? 're-' : ''}registering ${JSON.stringify(id)}`)
        if (known) { T.ok(text(notices[0]).includes(id), () => `the notice does not name ${JSON.stringify(id)}: ${text(notices[0])}`); T.count('overridden') }
        T.is(entries(a.logs, marks[a.i], logLevels.error).length, 0, 'errors logged by register')
        apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, marks[i], `log entries of app ${i} made by app ${a.i}`) })
        T.count('registered')
        if (!known) verify('after register')
      } else if (op === 'invoke') {
        const args = Array.from({ length: T.weighted([[3, 0], [3, 1], [2, 2], [1, 3], [0.5, T.size(100, 5)]]) }, () => T.any())
        const h = a.model.get(id)
        T.step(`app ${a.i} invoke(${JSON.stringify(id)}, ${args.length} arguments) -> ${h ? `h${h.n} ${h.mode}` : 'unknown'}`)
        calls = []
        let r, thrown
        try { r = hs.invoke(id, ...args) } catch (e) { thrown = { e } }
        const errors = entries(a.logs, marks[a.i], logLevels.error)
        if (!h) {
          T.ok(!thrown, () => `invoking the unknown ${JSON.stringify(id)} threw ${thrown.e}`)
          T.is(r, undefined, `result of invoking the unknown ${JSON.stringify(id)}`)
          T.is(calls.length, 0, 'handlers called for an unknown id')
          T.is(errors.length, 1, `errors logged for the unknown ${JSON.stringify(id)}`)
          T.ok(text(errors[0]).includes(id), () => `the error does not name ${JSON.stringify(id)}: ${text(errors[0])}`)
          apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, marks[i], `log entries of app ${i} made by app ${a.i}`) })
          T.count('unknown')
        } else {
          T.is(calls.filter(c => c.h === h && c.args.length === args.length && c.args.every((x, i) => Object.is(x, args[i]))).length, 1, `calls of the latest handler of ${JSON.stringify(id)} with the given arguments`)
          T.is(calls[0].h, h, `handler called by invoke(${JSON.stringify(id)})`)
          if (h.mode !== 'nested') { T.is(calls.length, 1, `handlers called by invoke(${JSON.stringify(id)})`); T.is(errors.length, 0, 'errors logged by invoking a known id') }
          if (h.mode === 'throw') T.ok(thrown && Object.is(thrown.e, h.err), () => `invoke(${JSON.stringify(id)}) did not throw what its handler threw`)
          else {
            if (thrown) throw thrown.e
            T.is(r, h.mode === 'async' || h.mode === 'reject' ? h.promise : h.result, `result of invoke(${JSON.stringify(id)})`)
          }
          T.count(`invoked.${h.mode}`)
        }
      } else if (T.bool(0.2)) {
        const m = T.bulk()
        T.step(`app ${a.i} register ${m} handlers`)
        const hs2 = Array.from({ length: m }, (_, j) => { const h = mk(a, `bulk ${k} ${j}`); h.mode = 'value'; hs.register(h.id, h.fn); a.model.set(h.id, h); return h })
        verify(`after registering ${m} handlers`)
        for (const h of hs2) { calls = []; T.is(hs.invoke(h.id, h.n), h.result, `result of invoke(${JSON.stringify(h.id)})`); T.is(calls.length, 1, 'handlers called'); T.is(calls[0].h, h, `handler called by invoke(${JSON.stringify(h.id)})`) }
        T.count('bulk')
      } else verify('in between')
    }
    verify('finally')
    if (steps > 3) T.interesting()
  }
}
