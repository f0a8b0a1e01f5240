import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { print } from '../lib/plain.mjs'

export default {
  async setup() {
    const { window: w } = installDom()
    const listeners = []
    const add = w.addEventListener.bind(w)
    w.addEventListener = globalThis.addEventListener = (...args) => { listeners.push(args); add(...args) }
    const lib = { window: w, listeners, ...await appLib() }
    for (const p of ['commands', 'keyboard', 'os', 'os/testing', 'browser', 'browser/testing', 'browser-i18n', 'browser-preferences', 'preferences', 'i18n', 'routes', 'events', 'states', 'formatjs', 'history', 'history/testing', 'fetch/testing', 'presets-browser', 'presets-browser/testing']) Object.assign(lib, await import(`@just-web/${p}`))
    return lib
  },
  async run(T, lib) {
    const { define, incubate, justApp, justTestApp, createMemoryLogReporter, logLevels, window: w, listeners } = lib
    for (const l of listeners.splice(0)) w.removeEventListener(...l)
    const level = T.pick([logLevels.trace, logLevels.info, logLevels.all, logLevels.error])
    const name = T.pick(['app', 'a.b', 'x-y'])
    let uid = 0
    const OPT = {
      bindings: T.bool() ? [{ id: 'kb.given', key: 'ctrl+g' }] : undefined,
      handlers: T.bool() ? { 'cmd.given': () => 'given' } : undefined,
      language: T.pick(['en', 'fr', '']),
      locale: T.pick(['en', 'de', 'fr']),
      mac: T.bool(),
      fetch: async (...args) => ['fetched', ...args],
      saved: T.bool() ? 'nl' : undefined
    }
    // the gizmos, what they need, and in which order at least
    const storage = () => { const s = lib.stubStorage(); if (OPT.saved) s.setItem(`@just-web/browser-i18n/${name}/language`, OPT.saved); return s }
    const G = {
      keyboard: { make: () => lib.keyboardGizmoFn(OPT.bindings && { keyBindingContributions: OPT.bindings }) },
      commands: { make: () => lib.commandsGizmoFn(OPT.handlers && { handlers: OPT.handlers }) },
      routes: { make: () => lib.routesGizmo },
      i18n: { make: () => lib.i18nGizmoFn({ language: OPT.language }), after: ['commands', 'keyboard'] },
      browserI18n: { make: () => lib.browserI18nGizmo, needs: ['browser'], after: ['commands', 'keyboard'] },
      memoryPreferences: { make: () => lib.memoryPreferencesGizmo, needs: ['commands'] },
      browserPreferences: { make: () => lib.browserPreferencesGizmo, needs: ['commands', 'browser'] },
      browser: { make: () => lib.browserTestGizmoFn({ localStorage: storage(), navigator: { language: 'it' }, fetch: OPT.fetch }) },
      events: { make: () => lib.eventsGizmoFn() },
      states: { make: () => lib.statesGizmo },
      formatjs: { make: () => lib.formatJSGizmoFn({ config: { locale: OPT.locale, messages: { m: 'M {n, number}' }, onError: () => {} } }) },
      history: { make: () => lib.historyGizmoFn({ history: lib.createMemoryHistory({ initialEntries: ['/start'] }) }) },
      os: { make: () => lib.osTestGizmoFn({ isMac: () => OPT.mac }) },
      own: { make: () => define({ static: define.require(), async create() { return [{ own: { x: 1 } }, async () => { await null }] } }) },
      own2: { make: () => define({ static: define.require(), async create(ctx) { ctx.log.debug('own gizmo'); return { helper: () => 1, toString2: 1 } } }) }
    }
    const pool = ['a', 'b', 'x.y', 'toString', '']
    const wait = p => T.settled(Promise.resolve(p), 'a result')
    /** what is done with a service: the same for both apps; `st` is what belongs to one app */
    const SERVICES = {
      commands: { gizmos: ['commands'], ops: [
        () => { const id = T.pick(['cmd.a', 'cmd.b', 'cmd.given', 'cmd.toString']); const out = T.json(1); return ['register', (app, st) => { app.commands.handlers.register(id, (...a) => { st.seen.push([id, a]); return out }) }] },
        () => { const id = T.pick(['cmd.a', 'cmd.b', 'cmd.given', 'cmd.none']); const args = [T.int(9), T.str(20)]; return ['invoke', app => app.commands.handlers.invoke(id, ...args)] },
        () => { const c = { id: T.pick(['ct.a', 'ct.b', '__proto__x']), title: T.str(20) }; return ['contribute', app => { app.commands.contributions.add(c); return app.commands.contributions.get()[c.id] }] },
        () => ['look', app => [['cmd.a', 'cmd.b', 'cmd.given', 'cmd.none'].map(i => app.commands.handlers.has(i)), app.commands.handlers.keys().filter(k => k.startsWith('cmd.'))]]
      ] },
      keyboard: { gizmos: ['keyboard'], ops: [
        () => { const k = { id: T.pick(['kb.a', 'kb.b', 'kb.given']), key: T.pick(['ctrl+a', 'g i']) }; return ['bind', app => { app.keyboard.keyBindingContributions.add(k); return app.keyboard.keyBindingContributions.get()[k.id] }] },
        () => ['listen', (app, st) => { let last = app.keyboard.keyBindingContributions.keys().filter(k => k.startsWith('kb.')).length; app.keyboard.keyBindingContributions.onChange(v => { const now = Object.keys(v).filter(k => k.startsWith('kb.')); if (now.length !== last) st.seen.push(now); last = now.length }) }]
      ] },
      connect: { gizmos: ['commands', 'keyboard'], ops: [
        () => { const id = `cn.${T.pick(['a', 'b', 'c'])}`; const info = T.bool() ? { id, key: 'ctrl+q' } : id; const h = T.bool(0.8); return ['connect', (app, st) => { const c = lib.command(info, h ? (...a) => { st.seen.push(a); return id } : undefined); c.connect(app); return [c(1, 2), app.commands.contributions.has(id), app.keyboard.keyBindingContributions.has(id), app.commands.handlers.has(id)] }] }
      ] },
      connectAlone: { gizmos: ['commands'], log: false /* with a keyboard, a key binding is contributed, too */, ops: [
        () => { const id = `ca.${T.pick(['a', 'b', 'c'])}`; const info = T.weighted([[2, { id, title: T.str(10) }], [1, { id, key: 'ctrl+j', title: 't' }], [1, id], [1, { id, mac: 'cmd+j', commandPalette: false }]]); const h = T.bool(0.8); return ['connect', (app, st) => { const c = lib.command(info, h ? (...a) => { st.seen.push(a); return id } : undefined); c.connect(app); return [c(1), app.commands.contributions.get()[id], app.commands.handlers.has(id), app.commands.handlers.invoke(id, 2)] }] }
      ] },
      routes: { gizmos: ['routes'], ops: [
        () => { const r = T.pick(pool.concat('/')); return ['register', (app, st) => { (st.offs ??= []).push(app.routes.register(r, () => { st.seen.push(r) })) }] },
        () => { const r = T.pick(pool.concat('/', undefined)); return ['navigate', app => app.routes.navigate(r)] },
        () => ['unregister', (app, st) => { st.offs?.pop()?.() }],
        () => { const r = T.pick(pool); return ['config', app => app.routes.config({ initialRoute: r })] },
        () => ['look', app => pool.map(r => app.routes.hasRoute(r))]
      ] },
      i18n: { gizmos: ['i18n'], ops: langOps() },
      i18nCommands: { gizmos: ['commands', 'i18n'], ops: langOps(true) },
      browserI18n: { gizmos: ['browser', 'browserI18n'], ops: [...langOps(), () => ['clear', app => { app.i18n.clearLanguage(); return app.i18n.getLanguage() }], () => ['saved', app => app.browser.localStorage.getItem(`@just-web/browser-i18n/${name}/language`)]] },
      memoryPreferences: { gizmos: ['commands', 'memoryPreferences'], ops: prefOps() },
      browserPreferences: { gizmos: ['commands', 'browser', 'browserPreferences'], ops: prefOps() },
      browser: { gizmos: ['browser'], ops: [
        () => { const m = `error ${++uid}`; return ['error event', () => { w.dispatchEvent(new w.ErrorEvent('error', { message: m, error: new Error(m) })) }, app => app.browser.errors.get().map(e => e.message)] },
        () => ['fetch', app => app.fetch('u', { method: 'PUT' })],
        () => { const v = T.str(20); return ['storage', app => { app.browser.localStorage.setItem('k', v); return [app.browser.localStorage.getItem('k'), app.browser.navigator.language] }] }
      ] },
      events: { gizmos: ['events'], ops: [
        () => { const n = T.pick(['x', 'y']); const boom = T.bool(0.2); return ['on', (app, st) => { app.events.emitter.on(n, (...a) => { st.seen.push([n, a]); if (boom) throw new Error('listener') }) }] },
        () => { const n = T.pick(['x', 'y', 'z']); const a = [T.int(9)]; return ['emit', app => app.events.emitter.emit(n, ...a)] }
      ] },
      states: { gizmos: ['states'], ops: [
        () => { const v = T.json(2); return ['store', (app, st) => { st.store = app.states.createStore(v); st.store.onChange((x, y) => { st.seen.push([print(x), print(y)]) }) }] },
        () => { const v = T.json(2); return ['set', (app, st) => (st.store ? [st.store.set(v), st.store.get()] : 0)] },
        () => { const k = T.str(10); return ['registry', (app, st) => { st.reg ??= app.states.createRegistry(); st.reg.set(r => { r[k === '__proto__' ? 'p' : k] = 1 }); return [st.reg.keys(), st.reg.size()] }] },
        () => ['reset', (app, st) => { st.store?.reset(); return st.store?.get() }]
      ] },
      formatjs: { gizmos: ['formatjs'], ops: [
        () => { const n = T.num(); return ['format', app => [app.formatjs.intl.formatNumber(n), app.formatjs.intl.formatMessage({ id: 'm' }, { n }), app.formatjs.intl.formatDate(0, { timeZone: 'UTC' }), app.formatjs.intl.locale]] }
      ] },
      history: { gizmos: ['history'], ops: [
        () => { const p = `/p${++uid}`; return ['push', app => { app.history.push(p, { u: 1 }); return [app.history.location.pathname, app.history.location.state] }] },
        () => ['back', app => { app.history.back?.(); return app.history.location.pathname }]
      ] },
      os: { gizmos: ['os'], ops: [() => ['isMac', app => app.os.isMac()]] },
      log: { gizmos: [], ops: [
        () => { const l = T.pick(['info', 'error', 'debug', 'trace', 'notice', 'warn', 'planck']); const args = [T.str(20), T.int(9)]; return ['log', app => { app.log[l](...args) }] },
        () => { const id = T.pick(['a', 'sub', 'x:y']); const args = [T.str(20)]; return ['logger', app => { const g = app.log.getLogger(id); g.warn(...args); return g.id }] },
        () => ['prefixed', app => { lib.createPrefixedGetLogger(app, 'pre')('z').error('e') }],
        () => ['name', app => [app.name, typeof app.id]]
      ] }
    }
    function langOps(command) {
      return [
        () => { const l = T.pick(['en', 'fr', 'de', '']); return ['set', app => { app.i18n.setLanguage(l); return app.i18n.getLanguage() }] },
        () => ['listen', (app, st) => { app.i18n.languageChanged((...a) => { st.seen.push(a) }) }],
        () => ['get', app => app.i18n.getLanguage()],
        ...(command ? [() => { const l = T.pick(['en', 'es']); return ['command', app => { app.commands.handlers.invoke(lib.setLanguageCommand.id, l); return app.i18n.getLanguage() }] }] : [])
      ]
    }
    function prefOps() {
      const keys = ['a', 'b', 'toString']
      return [
        () => { const k = T.pick(keys); const v = T.pick(['v', 'w', undefined, '']); return ['set', app => app.preferences.set(k, v)] },
        () => { const k = T.pick(keys); return ['update', app => app.preferences.set(k, x => `${x}!`)] },
        () => { const k = T.pick(keys); return ['get', app => [app.preferences.get(k), app.preferences.get(k, 'default')]] },
        () => ['clear', app => app.preferences.clearAll()],
        () => { const v = T.json(2); return ['store', app => { const s = app.preferences.createStore('st', { d: 1 }); const x = s.get(); s.set(v); return [x, s.get()] }] },
        () => { const k = T.pick(keys); return ['command', app => app.commands.handlers.invoke(lib.getUserPreference.id, k)] }
      ]
    }
    async function build(gizmos, test) {
      const r = createMemoryLogReporter()
      let b = test ? justTestApp({ name, log: { logLevel: level, reporters: [r] } }) : justApp({ name, log: { logLevel: level, reporters: [r] } })
      for (const g of gizmos) b = b.with(G[g].make())
      const app = await b.create()
      return { app, logs: r.logs, services: {} }
    }
    const order = wanted => {
      const list = T.shuffle([...new Set(wanted.flatMap(g => [g, ...(G[g].needs ?? [])]))])
      const out = []
      const put = g => { if (out.includes(g)) return; for (const d of [...(G[g].needs ?? []), ...(G[g].after ?? []).filter(x => list.includes(x))]) put(d); out.push(g) }
      list.forEach(put)
      return out
    }
    // the crowded app: one of each kind of alternatives
    const drop = new Set([T.pick(['i18n', 'browserI18n']), T.pick(['memoryPreferences', 'browserPreferences'])])
    const all = Object.keys(G).filter(g => !drop.has(g) && T.bool(0.85))
    const crowd = order(all)
    T.step('app', JSON.stringify(name), 'level', level, 'of', crowd.join(', '))
    const crowded = await build(crowd, T.bool())
    const language = T.pick(['i18n', 'i18nCommands']) // the other one is on the same language
    const used = Object.keys(SERVICES).filter(s => SERVICES[s].gizmos.every(g => crowd.includes(g)) && s !== language)
    // each service alone; apps with browser services are told of the same errors
    const alone = {}
    for (const s of used) alone[s] = await build(order(SERVICES[s].gizmos), T.bool())
    const steps = T.steps(12, 35, 120)
    for (let i = 0; i < steps; i++) {
      const s = T.pick(used)
      const [what, act, see] = T.pick(SERVICES[s].ops)()
      const results = []
      const apps = [crowded, alone[s]]
      const marks = apps.map(a => a.logs.length)
      T.step(s, what)
      for (const a of apps) {
        const st = (a.services[s] ??= { seen: [] })
        let v
        try { v = await wait(act(a.app, st)) } catch (e) { v = { status: 'threw', reason: e } }
        results.push(v.status === 'fulfilled' ? v.value : `${v.status} ${v.reason}`)
      }
      const views = apps.map((a, k) => ({
        result: print(results[k]),
        seen: print(a.services[s].seen.slice(-3)),
        calls: a.services[s].seen.length,
        state: see ? print(see(a.app)) : '',
        log: a.logs.slice(marks[k]).map(e => `${e.id} ${e.level} ${e.args.map(x => (typeof x === 'string' ? x : x instanceof Error ? x.message : print(x))).join(' ')}`)
      }))
      for (const k of ['result', 'seen', 'calls', 'state', 'log']) if (k !== 'log' || SERVICES[s].log !== false) T.eq(views[0][k], views[1][k], `${s} ${what}: ${k} in an app of ${crowd.length} gizmos compared with the same in an app of ${SERVICES[s].gizmos.join(', ') || 'none'}`)
      T.count(`service.${s}`)
    }
    for (const a of [crowded, ...Object.values(alone)]) incubate.cleanup(a.app)
    if (used.length > 2) T.interesting()
  }
}
