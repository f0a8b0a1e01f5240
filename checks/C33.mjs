import { installDom, importFrom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { micro } from '../lib/case.mjs'

export default {
  async setup() {
    installDom()
    const Mousetrap = (await importFrom('@just-web/browser-keyboard', 'mousetrap')).default
    return { ...await appLib(), Mousetrap, ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/os/testing'), ...await import('@just-web/browser/testing'), ...await import('@just-web/browser-keyboard'), ...await import('@just-web/preferences'), ...await import('@just-web/browser-preferences'), ...await import('@just-web/i18n') }
  },
  async run(T, lib) {
    const { justApp, justTestApp, createMemoryLogReporter, logLevels, commandsGizmoFn, keyboardGizmoFn, osTestGizmoFn, browserTestGizmoFn, browserKeyboardGizmo, memoryPreferencesGizmo, browserPreferencesGizmo, stubStorage, i18nGizmoFn, setLanguageCommand, getUserPreference, setUserPreference, clearAllUserPreferences, command, Mousetrap } = lib
    Mousetrap.reset()
    const IDS = T.shuffle(['cmd.one', 'cmd.two', 'cmd.toString', '__proto__', 'constructor', 'just-web.x', 'é.ü', 'a b', 'cmd/three', 'UPPER.case']).slice(0, T.byScale(3, 6, 10))
    const PREFS = [getUserPreference.id, setUserPreference.id, clearAllUserPreferences.id]
    const ALL = [...IDS, ...PREFS, setLanguageCommand.id]
    const apps = []
    let uid = 0
    async function create() {
      const a = { n: apps.length, level: T.bool(0.7) ? T.pick([logLevels.trace, logLevels.planck, logLevels.all]) : T.pick([logLevels.debug, logLevels.info, logLevels.error, logLevels.none, undefined]), skipped: [], handlers: new Map(), fns: new Map(), invoked: [] }
      a.traced = a.level !== undefined && a.level >= logLevels.trace
      const log = a.level === undefined ? {} : { logLevel: a.level }
      let b
      if (T.bool(0.4)) { const r = createMemoryLogReporter(); a.logs = r.logs; b = justApp({ name: `app${a.n}`, log: { ...log, reporters: [r] } }) } else b = justTestApp({ name: `app${a.n}`, log })
      a.keyboard = !apps.some(x => x.keyboard) && T.bool(0.5)
      a.prefs = T.weighted([[1, undefined], [2, 'memory'], [2, 'browser']])
      a.i18n = T.bool(0.5)
      if (a.keyboard) b = b.with(keyboardGizmoFn())
      b = b.with(commandsGizmoFn())
      if (a.prefs === 'memory') b = b.with(memoryPreferencesGizmo)
      if (a.prefs === 'browser') b = b.with(browserTestGizmoFn({ localStorage: stubStorage() })).with(browserPreferencesGizmo)
      if (a.i18n) b = b.with(i18nGizmoFn({ language: 'en' }))
      if (a.keyboard) b = b.with(osTestGizmoFn({ isMac: () => false })).with(browserKeyboardGizmo)
      T.step('create', a.n, 'level', a.level ?? 'default', a.keyboard ? 'keyboard' : '', a.prefs ?? '', a.i18n ? 'i18n' : '')
      a.app = await b.create()
      a.logs ??= a.app.log.reporter.logs
      apps.push(a)
      a.from = a.logs.length
      return a
    }
    /** the commands mentioned by the trace entries of an app, apart from those about registrations */
    const traced = a => {
      const out = []
      a.logs.forEach((e, i) => {
        if (e.level !== logLevels.trace || i < a.from || a.skipped.some(([f, t]) => i >= f && i < t)) return
        const id = ALL.find(x => e.args.includes(x)) ?? ALL.find(x => e.args.some(y => typeof y === 'string' && new RegExp(`(^|[^\\w.])${x.replace(/[.*+?^${}()|[\]\\/]/g, '\\$&')}($|[^\\w.])`).test(y)))
        if (id !== undefined) out.push([id, e.id])
      })
      return out
    }
    function registering(f) {
      const from = apps.map(a => a.logs.length)
      f()
      apps.forEach((a, i) => a.skipped.push([from[i], a.logs.length]))
    }
    const count = a => traced(a).length
    const should = a => (a.traced ? a.invoked.length : 0)
    function register(a, id, how) {
      const h = { n: ++uid }
      const fn = (...args) => {
        // it was logged before it runs
        T.is(count(a), should(a), `executions of app ${a.n} logged when the handler of '${id}' runs`)
        h.ran = (h.ran ?? 0) + 1
        const act = h.act
        h.act = undefined
        if (act) return act()
        if (h.boom) throw h.boom
        return h.later ? micro().then(() => args[0]) : args[0]
      }
      if (T.bool(0.15)) h.later = true
      T.step('register', a.n, id, how)
      registering(() => {
        if (how === 'connect') {
          const c = T.bool() ? command(id, fn) : command({ id, ...(a.keyboard && T.bool(0.7) ? { key: `ctrl+${String.fromCharCode(97 + IDS.indexOf(id))}` } : {}) }, fn)
          c.connect(a.app)
          a.fns.set(id, c)
        } else a.app.commands.handlers.register(id, fn)
      })
      a.handlers.set(id, h)
      T.count(`registered.${how}`)
    }
    function invoke(a, id, how) {
      const h = a.handlers.get(id)
      const others = apps.filter(x => x !== a).map(x => [x, count(x)])
      const quiet = !h?.act
      const ran = h?.ran ?? 0
      a.invoked.push(id)
      T.step('invoke', a.n, id, how, h ? '' : '(unknown)')
      const boom = h && quiet && T.bool(0.1) ? (h.boom = new Error('boom')) : undefined
      const args = [T.int(100), {}, 'c', undefined, [1], null].slice(0, T.weighted([[1, 0], [1, 1], [3, 2], [1, 3], [1, 4], [1, 6]]))
      let r, thrown
      try {
        if (how === 'fn') r = a.fns.get(id)(...args)
        else r = a.app.commands.handlers.invoke(id, ...args)
      } catch (e) { thrown = e }
      if (boom) { T.is(thrown, boom, 'what a throwing command throws'); h.boom = undefined; T.count('threw') } else if (thrown) throw thrown
      if (h && quiet) T.is(h.ran, ran + 1, `runs of the handler of '${id}'`)
      if (quiet) {
        T.is(count(a), should(a), `executions logged by app ${a.n} after '${id}'`)
        for (const [x, n] of others) T.is(count(x), n, `executions logged by app ${x.n} for a command of app ${a.n}`)
      }
      T.count(h ? `invoked.${how}` : 'unknown')
      return r
    }
    function press(a, id) {
      const key = a.app.keyboard.keyBindingContributions.get()[id]?.key
      if (!key) return
      a.invoked.push(id)
      T.step('press', key, id)
      const type = (t, which, ctrlKey) => { const e = new KeyboardEvent(t, { bubbles: true, cancelable: true, ctrlKey }); Object.defineProperty(e, 'which', { value: which }); document.body.dispatchEvent(e) }
      const which = key.slice(-1).toUpperCase().charCodeAt(0)
      const h = a.handlers.get(id)
      const ran = h.ran ?? 0
      type('keydown', 17, true); type('keydown', which, true); type('keyup', which, true); type('keyup', 17, false)
      T.is(h.ran, ran + 1, `runs of the handler of '${id}' by its key`)
      T.count('invoked.key')
    }
    async function preference(a) {
      const k = T.pick(['k1', 'k2', 'é'])
      const p = a.app.preferences
      const how = T.pick(['get', 'set', 'clearAll', 'command'])
      T.step('preference', a.n, how, k)
      if (how === 'get') { a.invoked.push(getUserPreference.id); p.get(k) }
      if (how === 'set') { a.invoked.push(setUserPreference.id); const r = p.set(k, T.pick(['v', undefined, () => 'w'])); T.is(count(a), should(a), `executions logged by app ${a.n} after preferences.set`); await r }
      if (how === 'clearAll') { a.invoked.push(clearAllUserPreferences.id); p.clearAll() }
      if (how === 'command') { a.invoked.push(getUserPreference.id); a.app.commands.handlers.invoke(getUserPreference.id, k, 'x') }
      T.count(`preference.${how}`)
    }
    const verify = what => {
      for (const a of apps) {
        const got = traced(a)
        T.eq(got.map(x => x[0]), a.traced ? a.invoked : [], `executions logged by app ${a.n} (level ${a.level ?? 'default'}) ${what}`)
        for (const [, id] of got) T.ok(id === `app${a.n}` || id.startsWith(`app${a.n}:`), () => `an execution of app ${a.n} is logged by logger ${id}`)
      }
    }
    for (let i = T.range(1, T.byScale(2, 3, 5)); i > 0; i--) await create()
    const steps = T.steps(8, 20, 60)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      await T.weighted([
        [3, () => register(a, T.pick(IDS), T.bool() ? 'connect' : 'register')],
        [6, async () => {
          const id = T.bool(0.8) && a.handlers.size ? T.pick([...a.handlers.keys()]) : T.pick(IDS)
          const h = a.handlers.get(id)
          if (h && T.bool(0.2)) {
            const b = T.pick(apps)
            h.act = T.bool(0.7) ? () => { T.count('nested'); return invoke(b, T.pick(IDS), 'invoke') } : () => { T.count('nested.register'); register(b, T.pick(IDS), 'register') }
          }
          await invoke(a, id, a.fns.has(id) && T.bool() ? 'fn' : 'invoke')
        }],
        [a.keyboard && a.handlers.size ? 2 : 0, () => press(a, T.pick([...a.handlers.keys()]))],
        [a.prefs ? 2 : 0, () => preference(a)],
        [a.i18n ? 1 : 0, () => {
          T.step('language', a.n)
          if (T.bool(0.3)) { a.app.i18n.setLanguage('de'); return } // not a command
          a.invoked.push(setLanguageCommand.id)
          a.app.commands.handlers.invoke(setLanguageCommand.id, T.pick(['fr', 'de']))
          T.count('language')
        }]
      ])()
      verify(`after step ${i}`)
    }
    if (apps.some(a => a.traced && a.invoked.length > 1)) T.interesting()
  }
}
