import v8 from 'node:v8'
import vm from 'node:vm'
import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'

const turn = () => new Promise(r => setTimeout(r))

export default {
  async setup() {
    v8.setFlagsFromString('--expose-gc')
    const gc = vm.runInNewContext('gc')
    installDom()
    const lib = { gc, ...await appLib() }
    for (const p of ['states', 'commands', 'keyboard', 'os/testing', 'browser/testing', 'browser-keyboard', 'preferences', 'i18n', 'routes', 'events', 'formatjs', 'history', 'history/testing']) Object.assign(lib, await import(`@just-web/${p}`))
    return lib
  },
  async run(T, lib) {
    const { gc, justTestApp, justApp, createMemoryLogReporter, logLevels, createStore, createRegistry } = lib
    let uid = 0
    /** everything under observation: a weak reference, what it is, whether something still needs it */
    const watched = []
    const watch = (what, x, alive = true) => { const w = { what: `${what} ${++uid}`, ref: new WeakRef(x), alive, free: false }; watched.push(w); T.count(`watched.${what}`); return w }
    const release = w => { if (w) w.alive = false }
    async function audit(what) {
      for (const a of apps) a.log.reporter.logs.length = 0 // what was logged is kept by design
      let kept = []
      for (let i = 0; i < 12; i++) {
        await turn()
        gc()
        kept = watched.filter(w => !w.alive && !w.free && w.ref.deref() !== undefined)
        if (!kept.length) break
      }
      T.checks += watched.length
      if (kept.length) T.fail(`${kept.length} released objects are still held ${what}, first: ${kept[0].what}`)
      for (const w of watched) if (!w.alive && !w.free) { w.free = true; T.count('freed') }
      // the other way round: what is in use is still there, so being gone means something
      for (const w of watched) if (w.alive && !w.maybe) { T.ok(w.ref.deref() !== undefined, () => `${w.what} is in use and gone ${what}`); T.count('in.use') }
    }
    const apps = []
    const app = await justTestApp({ log: { logLevel: logLevels.debug } }).with(lib.routesGizmo).with(lib.eventsGizmoFn()).with(lib.statesGizmo).with(lib.osTestGizmoFn({ isMac: () => false })).with(lib.keyboardGizmoFn()).with(lib.commandsGizmoFn()).with(lib.browserTestGizmoFn()).with(lib.browserKeyboardGizmo).with(lib.memoryPreferencesGizmo).with(lib.historyGizmoFn({ history: lib.createMemoryHistory() })).create()
    apps.push(app)

    // --- states
    const stores = []
    const obj = () => T.weighted([[3, () => ({ n: ++uid, deep: { list: [1, { q: uid }] } })], [1, () => [++uid, { q: 1 }]], [1, () => ({ n: ++uid })]])()
    function newStore() {
      const kind = T.weighted([[3, 'store'], [2, 'registry'], [1, 'app store']])
      const init = kind === 'registry' ? {} : obj()
      const s = { n: ++uid, kind, subs: [], entries: new Map(), init: watch('initial value', init), value: undefined }
      s.store = kind === 'store' ? createStore(init) : kind === 'registry' ? createRegistry(init) : app.states.createStore(init)
      stores.push(s)
      T.step('new', kind, s.n)
    }
    const moveOn = (s, x) => { release(s.value); s.value = x === undefined || x === s.init.ref.deref() ? undefined : watch('value', x) }
    const STATES = [
      [1, () => { if (stores.length < 6) newStore() }],
      [0.7, () => {
        if (stores.length < 2) return
        const [s] = stores.splice(T.int(stores.length), 1)
        T.step('drop', s.kind, s.n)
        const w = watch('store', s.store)
        for (const x of [w, s.init, s.value, ...s.subs.map(x => x.w), ...s.entries.values()]) release(x)
        T.count('store.dropped')
      }],
      [4, () => { const s = T.pick(stores); const id = uid; const h = () => id; T.step('subscribe to', s.n); s.subs.push({ off: s.store.onChange(h), w: watch('handler', h) }) }],
      [3, () => { const s = T.pick(stores); if (!s.subs.length) return; const [x] = s.subs.splice(T.int(s.subs.length), 1); T.step('unsubscribe from', s.n); x.off(); if (T.bool(0.2)) x.off(); release(x.w) }],
      [5, () => {
        const s = T.pick(stores)
        if (s.kind === 'registry') {
          const k = T.pick(['a', 'b', 'toString'])
          const v = obj()
          T.step('put', s.n, k)
          s.store.set(r => { r[k] = v })
          release(s.entries.get(k))
          s.entries.set(k, watch('entry', v))
          moveOn(s, s.store.get())
        } else if (T.bool()) { const v = obj(); T.step('set', s.n); s.store.set(v); moveOn(s, v) } else { T.step('edit', s.n); s.store.set(d => { d[0] = { e: ++uid } }); moveOn(s, s.store.get()) }
      }],
      [1.5, () => { const s = T.pick(stores); if (s.kind !== 'registry' || !s.entries.size) return; const k = T.pick([...s.entries.keys()]); T.step('delete', s.n, k); s.store.set(r => { delete r[k] }); release(s.entries.get(k)); s.entries.delete(k); moveOn(s, s.store.get()) }],
      [1, () => { const s = T.pick(stores); T.step('reset', s.n); s.store.reset(); for (const w of s.entries.values()) release(w); s.entries.clear(); moveOn(s, undefined) }],
      [1, () => {
        const s = T.pick(stores)
        const e = new Error(`boom ${++uid}`)
        const part = { p: uid }
        const f = d => { d[0] = part; throw e }
        T.step('failing update of', s.n)
        try { s.store.set(f) } catch {}
        for (const [what, x] of [['failed updater', f], ['error', e], ['uncommitted part', part]]) watch(what, x, false)
      }],
      [1.5, async () => {
        const s = T.pick(stores)
        if (s.kind === 'registry') return
        const v = obj()
        const fails = T.bool(0.3)
        const e = new Error(`async boom ${++uid}`)
        const f = async () => { await null; if (fails) throw e; return v }
        T.step(fails ? 'failing async update of' : 'async update of', s.n)
        try { await s.store.set(f) } catch {}
        watch('async updater', f, false)
        watch('error', e, false)
        if (fails) watch('uncommitted part', v, false)
        else moveOn(s, v)
      }]
    ]
    // --- services of the app
    const lasting = {}
    const handlers = new Map(), routes = [], listeners = [], bindings = new Map(), contributions = new Map(), visitors = [], prefStores = []
    const SERVICES = [
      [2, () => { const id = T.pick(['c.a', 'c.b', 'c.c']); const n = ++uid; const h = () => n; T.step('register command', id); app.commands.handlers.register(id, h); release(handlers.get(id)); handlers.set(id, watch('command handler', h)); app.commands.handlers.invoke(id, {}) }],
      [1, () => { const args = { n: ++uid }; T.step('invoke'); app.commands.handlers.invoke(T.pick(['c.a', 'c.none']), args); watch('argument', args, false) }],
      [1, () => { const c = T.pick([lasting.c, lasting.d]); if (!c) return; const args = [{ n: ++uid }, [uid]]; T.step('call the lasting command'); c(...args); for (const a of args) watch('argument', a, false) }],
      [1, () => {
        // what a handler returns or throws
        if (!app.commands.handlers.has('c.made')) app.commands.handlers.register('c.made', ({ boom }) => { if (boom) throw new Error('made'); return { made: ++uid } })
        const args = { boom: T.bool(0.4) }
        let r
        T.step('invoke', args.boom ? 'throwing' : 'returning')
        try { r = app.commands.handlers.invoke('c.made', args) } catch (e) { r = e }
        watch('argument', args, false)
        watch(args.boom ? 'error' : 'result', r, false)
      }],
      [1, () => {
        const n = ++uid
        const h = () => n, h2 = () => -n
        T.step('command connected twice')
        const c = lib.command(`once.${n}`, h)
        c.connect(app)
        c(1)
        c.connect(app, h2)
        watch('replaced command handler', h, false)
        watch('command handler', h2) // registered, and never taken back
        watch('command', c, false)
      }],
      [1.5, () => {
        // a command that stays and gets one handler after the other
        const n = ++uid
        const h = () => n
        const how = T.weighted([[2, 'connect'], [1, 'defineHandler']])
        T.step('lasting command', how)
        lasting[how === 'connect' ? 'c' : 'd'] ??= lib.command({ id: `lasting.${how}`, title: 't', key: 'ctrl+l' })
        if (how === 'connect') lasting.c.connect(app, h)
        else lasting.d.defineHandler(h)
        release(handlers.get(how))
        handlers.set(how, watch('handler of a lasting command', h))
        if (how === 'connect' || T.bool()) T.is((how === 'connect' ? lasting.c : lasting.d)(), n, 'result of a lasting command')
      }],
      [2, () => {
        const r = T.pick(['/', 'a', 'b'])
        const n = ++uid
        const h = () => n
        const known = app.routes.hasRoute(r)
        T.step('route', r, known ? '(taken)' : '')
        const off = app.routes.register(r, h)
        if (known) watch('refused route handler', h, false)
        else routes.push({ r, off, w: watch('route handler', h) })
        app.routes.navigate(r)
      }],
      [1.5, () => { if (!routes.length) return; const [x] = routes.splice(T.int(routes.length), 1); T.step('unregister', x.r); x.off(); release(x.w) }],
      [0.4, () => { T.step('clear routes'); app.routes.clearRoutes(); for (const x of routes.splice(0)) release(x.w) }],
      [2, () => {
        const n = T.pick(['x', 'y'])
        const id = ++uid
        const boom = T.bool(0.2)
        const l = () => { if (boom) throw new Error(`listener ${id}`) }
        const once = T.bool(0.3)
        T.step('listen to', n, once ? 'once' : '')
        app.events.emitter[once ? 'once' : 'on'](n, l)
        listeners.push({ n, once, off: () => app.events.emitter.off(n, l), w: watch('listener', l) })
      }],
      [1.5, () => { const n = T.pick(['x', 'y']); const arg = { n: ++uid }; T.step('emit', n); app.events.emitter.emit(n, arg); watch('argument', arg, false); for (let i = listeners.length - 1; i >= 0; i--) if (listeners[i].once && listeners[i].n === n && !app.events.emitter.listeners(n).includes(listeners[i].w.ref.deref())) { /* (not those after one that throws) */ release(listeners[i].w); listeners.splice(i, 1) } }],
      [1, () => { if (!listeners.length) return; const [x] = listeners.splice(T.int(listeners.length), 1); T.step('off', x.n); x.off(); release(x.w) }],
      [0.2, () => { T.step('remove all listeners'); app.events.emitter.removeAllListeners(); for (const x of listeners.splice(0)) release(x.w) }],
      [1.5, () => { const id = T.pick(['k.a', 'k.b']); if (bindings.has(id)) return; const b = { id, key: T.pick(['ctrl+q', 'g i', 'x']) }; T.step('bind', id, b.key); app.keyboard.keyBindingContributions.add(b); bindings.set(id, watch('binding', b)) }],
      [1, () => { const id = T.pick([...bindings.keys()]); if (!id) return; T.step('unbind', id); app.keyboard.keyBindingContributions.set(r => { delete r[id] }); release(bindings.get(id)); bindings.delete(id) }],
      [1, () => { const id = T.pick(['ct.a', 'ct.b']); const c = { id, title: 't' }; const known = contributions.has(id); T.step('contribute', id, known ? '(known)' : ''); app.commands.contributions.add(c); if (known) watch('refused contribution', c, false); else contributions.set(id, watch('contribution', c)) }],
      [0.6, () => { const id = T.pick([...contributions.keys()]); if (!id) return; T.step('withdraw', id); app.commands.contributions.set(r => { delete r[id] }); release(contributions.get(id)); contributions.delete(id) }],
      [1, async () => {
        const n = ++uid
        const sync = () => `v${n}`
        const async_ = async () => { await null; if (n % 3 === 0) throw new Error('pref'); return `w${n}` }
        T.step('preference updaters')
        app.preferences.set('p', sync)
        try { await app.preferences.set('p', async_) } catch {}
        watch('updater', sync, false)
        watch('async updater', async_, false)
      }],
      [1, () => {
        const d = { n: ++uid }
        const st = app.preferences.createStore(`s${T.int(2)}`, d)
        const v = { v: uid }
        T.step('preference store')
        st.set(v)
        const got = st.get()
        watch('preference value', v, false)
        watch('preference read', got, false)
        prefStores.push([st, Object.assign(watch('default', d), { maybe: true }), watch('preference store', st)])
      }],
      [0.6, () => { if (!prefStores.length) return; T.step('drop preference store'); const [x] = prefStores.splice(T.int(prefStores.length), 1); release(x[1]); release(x[2]) }],
      [0.8, () => { const n = ++uid; const l = () => n; T.step('listen to history'); visitors.push([app.history.listen(l), watch('history listener', l)]); app.history.push(`/${n}`) }],
      [0.6, () => { if (!visitors.length) return; T.step('stop listening to history'); const [x] = visitors.splice(T.int(visitors.length), 1); x[0](); release(x[1]) }]
    ]
    // --- whole apps
    const held = []
    const APPS = [
      [1, async () => {
        const given = T.shuffle(['routes', 'events', 'states', 'commands', 'keyboard', 'formatjs', 'history', 'own']).slice(0, T.range(0, 6))
        const test = T.bool()
        T.step('new', test ? 'test app' : 'app', given)
        const make = { routes: () => lib.routesGizmo, events: () => lib.eventsGizmoFn(), states: () => lib.statesGizmo, commands: () => lib.commandsGizmoFn(), keyboard: () => lib.keyboardGizmoFn(), formatjs: () => lib.formatJSGizmoFn({ config: { locale: 'en', messages: {} } }), history: () => lib.historyGizmoFn({ history: lib.createMemoryHistory() }), own: () => lib.define({ static: lib.define.require(), async create() { return { own: { n: ++uid } } } }) }
        let b = test ? justTestApp() : justApp({ name: `n${++uid}`, log: { reporters: [createMemoryLogReporter()] } })
        for (const g of given) b = b.with(make[g]())
        const a = await b.create()
        const ws = [watch('app', a), watch('app log', a.log)]
        a.log.getLogger('sub').info('hello')
        if (a.commands) { const c = lib.command({ id: 'z.z', key: 'ctrl+z' }, () => 1); c.connect(a); c(); ws.push(watch('commands', a.commands)) }
        if (a.routes) { a.routes.register('/', () => {}); a.routes.navigate(); ws.push(watch('routes', a.routes)) }
        if (a.events) { a.events.emitter.on('q', () => {}); a.events.emitter.emit('q'); ws.push(watch('emitter', a.events.emitter)) }
        if (a.formatjs) { a.formatjs.intl.formatNumber(1); ws.push(watch('intl', a.formatjs.intl)) }
        if (a.states) ws.push(watch('store', a.states.createStore({ z: 1 }), false))
        if (a.own) ws.push(watch('own', a.own))
        held.push([a, ws])
      }],
      [0.7, () => { if (!held.length) return; const [[, ws]] = held.splice(T.int(held.length), 1); T.step('drop an app'); for (const w of ws) release(w); T.count('app.dropped') }]
    ]
    newStore()
    const steps = T.steps(15, 50, 150)
    const every = T.range(12, 60)
    for (let i = 0; i < steps; i++) {
      await T.weighted([[5, () => T.weighted(STATES)()], [6, () => T.weighted(SERVICES)()], [1, () => T.weighted(APPS)()]])()
      if (i % every === every - 1) await audit(`after step ${i}`)
    }
    await audit('in the end')
    // the app stays alive until here, with all that is in use
    T.ok(app.name === 'test' && stores.length + handlers.size + held.length > 0, 'the app')
    if (watched.some(w => w.free)) T.interesting()
  }
}
