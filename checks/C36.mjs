import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { clone, print } from '../lib/plain.mjs'

/** freezes the plain objects and arrays inside v */
const freeze = (v, without = []) => {
  if (v === null || typeof v !== 'object') return v
  const p = Object.getPrototypeOf(v)
  if (!Array.isArray(v) && p !== Object.prototype && p !== null) return v
  for (const k of Reflect.ownKeys(v)) if (!without.includes(k) && 'value' in Object.getOwnPropertyDescriptor(v, k)) freeze(v[k])
  return Object.freeze(v)
}

/** which of the plain objects and arrays inside v can still be changed by their owner */
const open_ = v => {
  if (v === null || typeof v !== 'object') return ''
  const p = Object.getPrototypeOf(v)
  if (!Array.isArray(v) && p !== Object.prototype && p !== null) return ''
  return `${Object.isFrozen(v) ? 'f' : Object.isSealed(v) ? 's' : Object.isExtensible(v) ? 'o' : 'n'}(${Reflect.ownKeys(v).map(k => ('value' in Object.getOwnPropertyDescriptor(v, k) ? open_(v[k]) : '')).join(',')})`
}
/** kinds whose input becomes the value of a store or a registry, which freezes it */
const STORED = ['commandsGizmoFn', 'keyboardGizmoFn', 'contributions', 'command', 'state', 'adder']

export default {
  async setup() {
    const { window: w } = installDom()
    const lib = { window: w, ...await appLib() }
    for (const p of ['states', 'commands', 'keyboard', 'os/testing', 'browser', 'browser/testing', 'browser-i18n', 'browser-preferences', 'preferences', 'i18n', 'routes', 'events', 'formatjs', 'history', 'history/testing', 'presets-browser', 'presets-browser/testing', 'fetch/testing']) Object.assign(lib, await import(`@just-web/${p}`))
    return lib
  },
  async run(T, lib) {
    const { justApp, justTestApp, createMemoryLogReporter, logLevels } = lib
    let rec = []
    const clean = []
    const wait = p => T.settled(Promise.resolve(p), 'a result').then(r => { if (r.status === 'rejected') throw r.reason; return r.value })
    const id = () => T.pick(['a.b', 'x.open', 'toString', '', 'é'])
    const info = () => { const c = { id: id() }; if (T.bool()) c.title = T.pick(['', T.str(20)]); if (T.bool(0.4)) c.key = 'ctrl+k'; if (T.bool(0.3)) c.mac = 'cmd+k'; if (T.bool(0.3)) c.description = T.str(20); if (T.bool(0.2)) c.commandPalette = T.bool(); if (T.bool(0.3)) c.icon = { light: { src: 'l' }, dark: ['d'] }; return c }
    const base = () => justTestApp({ log: { logLevel: logLevels.trace } })
    const said = app => app.log.reporter.logs.map(e => `${e.id} ${e.level} ${e.args.map(x => (typeof x === 'string' ? x.replaceAll(app.id, 'ID') : typeof x)).join(' ')}`)
    const mkFn = label => (...a) => { rec.push([label, a.length]); return label }
    /** each: a function giving equal inputs again and again, and what is done with them */
    const KINDS = {
      justApp: () => {
        const level = T.pick([logLevels.trace, logLevels.error])
        const custom = T.bool(0.4) ? { shout: 450, whisper: 850 } : undefined
        const n = T.range(0, 2)
        const name = T.pick(['a', 'x.y'])
        return {
          build: () => ({ name, ...(custom || n ? { log: { reporters: Array.from({ length: n }, () => Object.create(createMemoryLogReporter())), logLevel: level, ...(custom ? { customLevels: { ...custom } } : {}) } } : {}) }),
          async use(options) {
            const seen = options.log?.reporters?.map(r => r.logs.length) ?? []
            const app = await justApp(options).create()
            for (const m of ['error', 'info', 'trace', ...(custom ? ['shout'] : [])]) if (options.log?.reporters?.length) app.log[m]('said', m)
            return [app.name, app.id !== options.name, options.log?.reporters?.map((r, i) => r.logs.slice(seen[i]).map(l => `${l.id} ${l.level} ${l.args.join().replace(app.id, 'ID')}`))]
          }
        }
      },
      justTestApp: () => {
        const n = T.range(0, 2)
        return {
          build: () => ({ name: 'tt', log: { reporters: Array.from({ length: n }, () => Object.create(createMemoryLogReporter())), logLevel: logLevels.debug } }),
          async use(options) { const seen = options.log.reporters.map(r => r.logs.length); const app = await justTestApp(options).create(); const had = app.log.reporter.logs.length; app.log.debug('d'); app.log.getLogger('s').error('e'); return [app.log.reporter.logs.length - had, options.log.reporters.map((r, i) => r.logs.length - seen[i])] }
        }
      },
      commandsGizmoFn: () => {
        const ids = [...new Set([id(), id(), id()])].filter(i => i !== '__proto__')
        const cs = ids.map(i => ({ ...info(), id: i }))
        const some = T.pick(['handlers', 'contributions', 'both'])
        return {
          build: () => ({ ...(some !== 'contributions' ? { handlers: Object.fromEntries(ids.map(i => [i, mkFn(i)])) } : {}), ...(some !== 'handlers' ? { contributions: clone(cs) } : {}) }),
          async use(options) {
            const app = await base().with(lib.commandsGizmoFn(options)).create()
            const out = ids.map(i => app.commands.handlers.invoke(i, 1, 2))
            app.commands.handlers.register(ids[0], () => 'new')
            app.commands.handlers.register('other', () => 'new')
            out.push(app.commands.handlers.invoke(ids[0]))
            app.commands.contributions.add({ id: 'other' }, { id: ids[0] })
            app.commands.contributions.set(r => { delete r[ids[0]] })
            return [out, print(app.commands.contributions.get()), app.commands.handlers.keys()]
          }
        }
      },
      keyboardGizmoFn: () => {
        const bs = [info(), info()].map((b, i) => ({ id: `b${i}`, key: 'ctrl+k', n: b }))
        return {
          build: () => ({ keyBindingContributions: clone(bs) }),
          async use(options) { const app = await base().with(lib.keyboardGizmoFn(options)).create(); app.keyboard.keyBindingContributions.add({ id: 'q', mac: 'cmd+q' }); app.keyboard.keyBindingContributions.set(r => { delete r.b0 }); app.keyboard.keyBindingContributions.reset(); return [print(app.keyboard.keyBindingContributions.get()), said(app)] }
        }
      },
      contributions: () => {
        const cs = Array.from({ length: T.range(1, 5) }, info)
        return {
          build: () => clone(cs),
          async use(list) { const app = await base().with(lib.keyboardGizmoFn()).with(lib.commandsGizmoFn()).create(); app.commands.contributions.add(...list); app.keyboard.keyBindingContributions.add(...list.filter(c => c.key)); app.commands.contributions.add(...list); return [print(app.commands.contributions.get()), print(app.keyboard.keyBindingContributions.get()), list.map(c => print(lib.formatCommand(c))), said(app)] }
        }
      },
      command: () => {
        const c = info()
        const h = T.bool()
        return {
          build: () => clone(c),
          async use(i) {
            const app = await base().with(lib.keyboardGizmoFn()).with(lib.commandsGizmoFn()).create()
            const f = h ? lib.command(i, mkFn('h')) : lib.command(i)
            f.connect(app, h ? undefined : mkFn('later'))
            f.connect(app)
            return [f(1), f.id, f.name, print(lib.formatCommand(i)), print(app.commands.contributions.get()), print(app.keyboard.keyBindingContributions.get()), said(app)]
          }
        }
      },
      formatKeyBinding: () => {
        const b = { id: id(), key: T.pick(['a', 'ctrl+k']), mac: T.pick(['cmd+k', undefined, '']), more: { deep: [1] } }
        const mac = T.bool()
        return { build: () => clone(b), async use(x) { const app = await base().with(lib.osTestGizmoFn({ isMac: () => mac })).create(); return [print(lib.formatKeyBinding(app, x)), print(lib.formatKeyBinding(app, x))] } }
      },
      i18nGizmoFn: () => ({ build: () => ({ language: 'en' }), async use(options) { const app = await base().with(lib.i18nGizmoFn(options)).create(); app.i18n.setLanguage('fr'); return [app.i18n.getLanguage()] } }),
      formatJSGizmoFn: () => {
        const locale = T.pick(['en', 'de'])
        const cache = T.bool()
        return {
          build: () => ({ config: { locale, messages: { a: 'A {n, number}', b: '{n, plural, one {#} other {# many}}' }, formats: { number: { eur: { style: 'currency', currency: 'EUR' } } }, onError: e => { rec.push(e.code) } }, ...(cache ? { cache: lib.createIntlCache() } : {}) }),
          // (a cache is there to be filled)
          without: ['cache'],
          async use(options) { const app = await base().with(lib.formatJSGizmoFn(options)).create(); const n = app.formatjs.intl; return [n.formatMessage({ id: 'a' }, { n: 3 }), n.formatMessage({ id: 'b' }, { n: 1 }), n.formatMessage({ id: 'none' }), n.formatNumber(12.5, { format: 'eur' })] }
        }
      },
      routesConfig: () => ({
        build: () => (T.index % 3 ? { initialRoute: 'r' } : {}),
        async use(options) { const app = await base().with(lib.routesGizmo).create(); app.routes.config(options); app.routes.register('r', mkFn('r')); app.routes.register('s', mkFn('s')); app.routes.navigate(); app.routes.config({ initialRoute: 's' }); app.routes.navigate(); app.routes.config(options); app.routes.navigate(); return said(app) }
      }),
      state: () => {
        const v = T.obj(3), w = T.json(3), e = T.obj(2)
        const kind = T.pick(['store', 'state', 'registry', 'app store'])
        return {
          build: () => clone([v, w, e]),
          async use([init, next, entry]) {
            const out = []
            const log = []
            const app = await base().with(lib.statesGizmo).create()
            const s = kind === 'state' ? (([x, set, onChange, reset]) => { let cur = x; onChange(n => { cur = n }); return { get: () => cur, set, onChange, reset } })(lib.createState(init)) : kind === 'registry' ? lib.createRegistry(init) : kind === 'store' ? lib.createStore(init) : app.states.createStore(init)
            s.onChange((n, o) => log.push(print([n, o])))
            out.push(print(s.get()))
            s.set(d => { d.added = entry })
            out.push(print(s.get()))
            s.set(d => { if (d.added && typeof d.added === 'object') d.added.more = 1; d.x = 2 })
            out.push(print(s.get()))
            s.set(d => { for (const k of Object.keys(d)) delete d[k] })
            s.set(() => entry)
            out.push(print(s.get()))
            await wait(s.set(async d => { await null; d.late = [1] }))
            out.push(print(s.get()))
            s.reset()
            s.set(d => { const k = Object.keys(d)[0]; if (d[k] && typeof d[k] === 'object' && !Array.isArray(d[k])) d[k].edited = true; d.again = entry })
            out.push(print(s.get()))
            s.set(next)
            out.push(print(s.get()))
            s.reset()
            out.push(print(s.get()))
            return [out, log]
          }
        }
      },
      adder: () => {
        const es = Array.from({ length: T.range(1, 4) }, () => T.obj(2))
        return {
          build: () => clone({ init: [], es }),
          async use({ init, es }) { const s = lib.withAdder(lib.createStore(init), T.index % 2 ? lib.push : lib.unshift); s.add(...es); s.add(...es); s.set(d => { d[0].edited = 1; d.pop() }); return print(s.get()) }
        }
      },
      preferenceStore: () => {
        const d = T.obj(3), v = T.obj(3)
        const impl = T.pick(['memory', 'browser'])
        return {
          build: () => clone({ d, v, ds: [d, 1], vs: [[v], d] }),
          async use({ d, v, ds, vs }) {
            const b = base().with(lib.commandsGizmoFn())
            const app = await (impl === 'memory' ? b.with(lib.memoryPreferencesGizmo) : b.with(lib.browserTestGizmoFn({ localStorage: lib.stubStorage() })).with(lib.browserPreferencesGizmo)).create()
            const s = app.preferences.createStore('k', d)
            const out = [print(s.get())]
            await wait(s.set(x => { x.edited = true; const k = Object.keys(x)[0]; if (x[k] && typeof x[k] === 'object' && !Array.isArray(x[k])) x[k].deep = 1 }))
            out.push(print(s.get()))
            s.set(v)
            out.push(print(s.get()))
            await wait(s.set(async x => { await null; x.late = 1 }))
            out.push(print(s.get()))
            s.set(undefined)
            out.push(print(s.get()))
            await wait(s.set(() => v))
            out.push(print(s.get()))
            const l = app.preferences.createStore('l', ds)
            out.push(print(l.get()))
            l.set(vs)
            out.push(print(l.get()))
            l.set(ds)
            await wait(l.set(() => vs))
            out.push(print(l.get()))
            await wait(l.set(async () => { await null; return ds }))
            out.push(print(l.get()))
            return out
          }
        }
      },
      browserGizmoFn: () => {
        const p = T.pick([true, false, undefined])
        const f = T.bool()
        return {
          build: () => ({ preventDefault: p, ...(f ? { fetch: async (...a) => { rec.push(['fetch', a]); return 1 } } : {}) }),
          async use(options) {
            const app = await base().with(lib.browserGizmoFn(options)).create()
            clean.push(app)
            const e = new lib.window.ErrorEvent('error', { message: 'm', error: new Error('m'), cancelable: true })
            lib.window.dispatchEvent(e)
            lib.incubate.cleanup(app)
            return [e.defaultPrevented, app.browser.errors.get().length, f ? await app.fetch('u') : 0]
          }
        }
      },
      browserTestGizmoFn: () => {
        const lang = T.pick(['en', 'it'])
        const what = T.pick(['preset', 'gizmo'])
        return {
          build: () => ({ navigator: { language: lang, languages: [lang] }, location: { href: 'http://x/', pathname: '/x' }, preventDefault: true }),
          async use(options) {
            const app = what === 'gizmo' ? await base().with(lib.browserTestGizmoFn(options)).with(lib.browserI18nGizmo).create() : await base().with(lib.commandsGizmoFn()).with(lib.presetsBrowserTestGizmoFn({ browser: options })).with(lib.browserI18nGizmo).create()
            clean.push(app)
            const out = [app.browser.navigator.language, app.browser.location.pathname, app.i18n.getLanguage()]
            app.i18n.setLanguage('xx')
            app.i18n.clearLanguage()
            out.push(app.i18n.getLanguage())
            lib.incubate.cleanup(app)
            return out
          }
        }
      },
      presetsBrowserGizmoFn: () => ({
        build: () => ({ browser: { preventDefault: true, fetch: async () => 'f' }, history: { history: lib.createMemoryHistory() } }),
        without: ['history'],
        async use(options) { const app = await base().with(lib.commandsGizmoFn()).with(lib.presetsBrowserGizmoFn(options)).create(); clean.push(app); app.history.push('/z'); app.preferences.set('a', 'b'); const out = [app.history.location.pathname, app.preferences.get('a'), await app.fetch('x')]; app.preferences.clearAll(); lib.incubate.cleanup(app); return out }
      }),
      osTestGizmoFn: () => ({ build: () => ({ isMac: () => { rec.push('isMac'); return true } }), async use(options) { const app = await base().with(lib.osTestGizmoFn(options)).create(); return [app.os.isMac(), app.os.isMac()] } }),
      stubLocalStorage: () => {
        const which = T.pick(['stubLocalStorage', 'stubSessionStorage'])
        return { build: () => ({ getItem: k => { rec.push(k); return 'v' }, length: 3 }), async use(o) { const s = lib[which](o); return [s.getItem('q'), s.length] } }
      },
      arguments: () => {
        const args = [T.obj(2), T.json(2)]
        return {
          build: () => clone(args),
          async use(list) {
            const got = []
            const app = await base().with(lib.commandsGizmoFn({ handlers: { 'a.b': (...a) => { got.push(a.every((x, i) => Object.is(x, list[i]))) } } })).with(lib.eventsGizmoFn()).create()
            app.commands.handlers.invoke('a.b', ...list)
            app.events.emitter.on('e', (...a) => { got.push(a.every((x, i) => Object.is(x, list[i]))) })
            app.events.emitter.emit('e', ...list)
            app.log.info('args', ...list)
            got.push(app.log.reporter.logs.at(-1).args.slice(1).every((x, i) => Object.is(x, list[i])))
            return got
          }
        }
      }
    }
    const names = Object.keys(KINDS)
    const n = T.range(2, T.byScale(4, 6, 10))
    for (let q = 0; q < n; q++) {
      const name = T.pick(names)
      const k = KINDS[name]()
      const strip = x => (k.without && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).filter(([key]) => !k.without.includes(key))) : x)
      const outcomes = []
      const results = []
      const given = k.build()
      const cold = freeze(k.build(), k.without)
      T.step(name, name === 'justApp' || name === 'justTestApp' ? Object.keys(given) : strip(given))
      for (const [how, input] of [['given', given], ['frozen', cold], ['given again', given], ['frozen again', cold]]) {
        rec = []
        const before = print(strip(input))
        const free = open_(strip(input))
        let r
        try { r = await k.use(input) } catch (e) { T.fail(`${name} with ${how === 'given' ? 'its' : how} input failed: ${e?.stack?.split('\n').slice(0, 3).join(' | ') ?? e}`) }
        T.is(print(strip(input)), before, `input of ${name} after it was used (${how})`)
        if (!STORED.includes(name)) T.is(open_(strip(input)), free, `what the owner can still change of the input of ${name} after it was used (${how})`)
        results.push(print([r, rec]))
        outcomes.push(how)
      }
      for (let i = 1; i < results.length; i++) T.is(results[i].replace(/#\d+/g, '#'), results[0].replace(/#\d+/g, '#'), `results of ${name} with the ${outcomes[i]} input compared with fresh input`)
      T.count(`kind.${name}`)
    }
    for (const a of clean) { try { lib.incubate.cleanup(a) } catch {} }
    T.interesting()
  }
}
