import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { micro, turn } from '../lib/case.mjs'

export default {
  async setup() {
    const { window: w } = installDom()
    const listeners = []
    const own = r => { if (r !== undefined && r !== globalThis && r !== w) throw new TypeError('Illegal invocation') }
    const add = w.addEventListener.bind(w)
    w.addEventListener = globalThis.addEventListener = function (...args) { own(this); listeners.push(args); add(...args) }
    return { ...await appLib(), ...await import('@just-web/browser'), ...await import('@just-web/browser/testing'), ...await import('@just-web/presets-browser'), ...await import('@just-web/presets-browser/testing'), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/states'), window: w, listeners }
  },
  async run(T, { justApp, justTestApp, createMemoryLogReporter, define, incubate, browserGizmoFn, browserTestGizmoFn, stubStorage, presetsBrowserGizmoFn, presetsBrowserTestGizmoFn, commandsGizmoFn, keyboardGizmoFn, statesGizmo, window: w, listeners }) {
    for (const l of listeners.splice(0)) w.removeEventListener(...l)
    const apps = []
    const builders = []
    let making // what the creation in progress belongs to, unless several run at once
    const owners = new Map() // context -> app record, when several are created at once
    const of = ctx => making ?? (owners.get(ctx) ?? (owners.set(ctx, { ran: [], expected: [], errors: 0, alive: false }), owners.get(ctx)))
    const pause = n => (n === 0 ? undefined : n === 1 ? micro(2) : turn())
    /** a start function (or init, or start of create) that may leave a cleanup function behind */
    function step(name, form, wait, sync) {
      const after = ctx => {
        const a = of(ctx)
        if (form === 'none') return undefined
        if (form === 'other') return T.pick([1, 'x', null, {}])
        const tag = name
        a.expected.push(tag)
        return form === 'async' ? async () => { a.ran.push(tag); await micro() } : () => { a.ran.push(tag); return T.pick([undefined, 1]) }
      }
      return sync ? ctx => after(ctx) : async ctx => { await pause(wait); return after(ctx) }
    }
    const FORMS = [[4, 'sync'], [2, 'async'], [2, 'none'], [0.7, 'other']]
    const options = services => {
      const own = { preventDefault: T.bool() }
      if (services.endsWith('test')) for (const [k, v] of [['localStorage', stubStorage()], ['sessionStorage', stubStorage()], ['navigator', { language: 'fr' }], ['location', { href: 'http://x/' }]]) if (T.bool()) own[k] = v
      return T.pick([undefined, {}, services.startsWith('preset') ? { browser: own } : own])
    }
    function builder() {
      const d = { kind: T.pick(['app', 'test']), services: T.weighted([[3, undefined], [2, 'browser'], [2, 'browser test'], [2, 'preset'], [2, 'preset test']]), init: T.bool(0.4), start: T.bool(0.4), text: [] }
      let b = d.kind === 'app' ? justApp({ name: `b${builders.length}`, log: { reporters: [createMemoryLogReporter()] } }) : justTestApp(T.bool() ? { name: T.pick(['a', 'b', '']) } : undefined)
      const n = T.range(0, T.byScale(3, 6, 20))
      const at = T.range(0, n)
      for (let i = 0; i <= n; i++) {
        if (i === at && d.services) {
          if (d.services.startsWith('preset')) { if (T.bool(0.3)) b = b.with(keyboardGizmoFn()); b = b.with(commandsGizmoFn()) }
          b = b.with({ browser: browserGizmoFn, 'browser test': browserTestGizmoFn, preset: presetsBrowserGizmoFn, 'preset test': presetsBrowserTestGizmoFn }[d.services](options(d.services)))
          // from here on the errors of the page belong to this app
          b = b.with(define({ static: define.require(), async create(ctx) { of(ctx).alive = true; return undefined } }))
          d.text.push(d.services)
        }
        if (i === n) break
        const form = T.weighted(FORMS)
        const what = T.weighted([[5, 'own'], [1, 'nested'], [1, 'states'], [1, 'no start']])
        const name = `gizmo ${i}`
        d.text.push(`${what} ${form}`)
        const start = step(name, form, T.int(3), T.bool())
        if (what === 'states') b = b.with(statesGizmo)
        else if (what === 'no start') b = b.with(define({ async create() { return [{ [`m${i}`]: i }] } }))
        else if (what === 'own') b = b.with(define({ static: define.require(), async create(ctx) { return [T.bool() ? { [`m${i}`]: i } : undefined, () => start(ctx)] } }))
        else {
          // a gizmo made of others, which are cleaned up with it
          b = b.with(define({
            static: define.require(),
            async create(ctx) {
              const inner = await incubate().with(define({ async create() { return [{ inner: i }, () => start(ctx)] } })).create()
              return [{ [`m${i}`]: inner.inner }, () => () => incubate.cleanup(inner)]
            }
          }))
        }
      }
      if (d.init) { const f = T.weighted(FORMS); d.text.push(`init ${f}`); const s = step('init', f, T.int(3), T.bool()); b = b.init(s) }
      if (d.start) { const f = T.weighted(FORMS); d.text.push(`start ${f}`); d.startFn = step('start', f, T.int(3), T.bool()) }
      d.b = b
      d.n = builders.length
      builders.push(d)
      return d
    }
    const make = d => (d.startFn ? d.b.create(d.startFn) : d.b.create())
    async function create() {
      const d = builders.length && T.bool(0.5) ? T.pick(builders) : builder()
      const k = T.weighted([[5, 1], [1, 2], [0.5, 4]])
      T.step('create', k, 'of builder', d.n, d.kind, d.text.join('; ') || 'no gizmos')
      if (k === 1) {
        const a = making = { ran: [], expected: [], errors: 0, alive: false }
        a.app = await make(d)
        making = undefined
        a.d = d
        apps.push(a)
      } else {
        const made = await Promise.all(Array.from({ length: k }, () => make(d)))
        for (const app of made) { const a = of(app); a.app = app; a.d = d; apps.push(a) }
        T.count('created.at.once')
      }
      if (d.services) T.count(`with.${d.services.replace(' ', '.')}`)
    }
    function fire() {
      T.step('error event')
      w.dispatchEvent(new w.ErrorEvent('error', { message: `e${T.int(100)}`, cancelable: true }))
      for (const a of apps) if (a.d.services && a.alive) a.errors++
      T.count('error')
    }
    const verify = what => {
      apps.forEach((a, i) => {
        T.eq(a.ran, a.closed ? a.expected : [], `cleanup functions of app ${i} that have run ${what}`)
        if (a.d.services) T.is(a.app.browser.errors.get().length, a.errors, `errors captured by app ${i} ${what}`)
      })
    }
    await create()
    verify('after creation')
    const steps = T.steps(4, 12, 40)
    for (let i = 0; i < steps; i++) {
      await T.weighted([
        [2, () => (apps.length < 12 ? create() : undefined)],
        [3, fire],
        [2, () => {
          const open = apps.filter(a => !a.closed)
          if (!open.length) return
          const a = T.pick(open)
          T.step('clean up app', apps.indexOf(a))
          incubate.cleanup(a.app)
          a.closed = true
          a.alive = false
          T.count('cleaned.up')
          if (a.expected.length) T.count('cleanup.functions', a.expected.length)
          if (a.d.services) T.count(`cleaned.${a.d.services.replace(' ', '.')}`)
        }],
        [0.5, turn]
      ])()
      verify(`after step ${i}`)
    }
    // in the end everything is released
    apps.forEach((a, i) => { if (!a.closed) { T.step('clean up app', i); incubate.cleanup(a.app); a.closed = true; a.alive = false } })
    fire()
    verify('in the end')
    if (apps.length > 1) T.interesting()
  }
}
