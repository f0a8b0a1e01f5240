// Directed cases that are larger than anything a random history reaches: deep nesting, long argument
// lists, many subscribers, entries, apps. A guarantee for every history holds for those, too.
import { deferred, prefsApp } from './prefs.mjs'
import { turn } from './case.mjs'
import { RecStorage } from './storage.mjs'

export const MANY = 1300
export const DEEP = 140
const range = n => Array.from({ length: n }, (_, i) => i)
const done = (T, what) => { T.count(`large.${what}`); T.interesting() }

async function stateApp(lib, name) {
  return lib.justTestApp({ name, log: { logLevel: lib.logLevels.planck } }).with(lib.statesGizmo).create()
}

export const large = {
  C01: [{ name: 'a long history', run(T, { createStore, createRegistry }) {
    const s = createStore({ n: 0, list: [] })
    const r = createRegistry()
    const want = []
    for (const i of range(MANY)) {
      if (i % 3 === 0) s.set({ n: i, list: want.slice() })
      else if (i % 3 === 1) { want.push(i); s.set(d => { d.n = i; d.list.push(i) }) } else s.set(d => ({ ...d, n: i }))
      T.is(s.get().n, i, `value after ${i + 1} sets`)
      T.is(s.get().list.length, want.length, `list after ${i + 1} sets`)
      r.set(d => { d[`k${i}`] = i })
      T.is(r.get()[`k${i}`], i, `entry ${i}`)
    }
    T.eq(s.get().list, want, 'content after many sets')
    T.eq(Object.values(r.get()), range(MANY), 'all entries')
    s.reset()
    T.eq(s.get(), { n: 0, list: [] }, 'value after the reset')
    done(T, 'history')
  } }],
  C02: [{ name: 'sets nested deeply', run(T, { createStore, createState, createRegistry }) {
    for (const kind of ['store', 'state', 'registry']) {
      const wrap = n => (kind === 'registry' ? { n } : n)
      const unwrap = v => (kind === 'registry' ? v.n : v)
      const s = kind === 'store' ? createStore(0) : kind === 'registry' ? createRegistry({ n: 0 }) : (([, set, onChange]) => ({ set, onChange }))(createState(0))
      const before = []
      const after = []
      let limit
      s.onChange((v, p) => before.push([unwrap(v), unwrap(p)]))
      s.onChange(v => { if (unwrap(v) < limit) s.set(wrap(unwrap(v) + 1)) })
      s.onChange((v, p) => after.push([unwrap(v), unwrap(p)]))
      for (const first of [1, DEEP + 1, 2 * DEEP + 1]) {
        limit = first + DEEP - 1
        s.set(wrap(first))
        const want = range(DEEP).map(i => [i + first, i + first - 1])
        T.eq(before.splice(0), want, `changes seen by the first subscriber of a ${kind}, ${DEEP} nested sets`)
        T.eq(after.splice(0).sort((x, y) => x[0] - y[0]), want, `changes seen by the last subscriber of a ${kind}, ${DEEP} nested sets`)
      }
    }
    done(T, 'nesting')
  } }, { name: 'very many subscribers', run(T, { createStore }) {
    const s = createStore(0)
    const heard = []
    for (const i of range(MANY)) s.onChange((v, p) => heard.push(`${i} ${v} ${p}`))
    for (const n of [1, 2]) {
      heard.length = 0
      s.set(n)
      T.eq(heard, range(MANY).map(i => `${i} ${n} ${n - 1}`), 'subscribers told')
    }
    done(T, 'subscribers')
  } }],
  C03: [{ name: 'very many subscriptions', run(T, { createStore }) {
    const s = createStore(0)
    let heard = []
    const offs = range(MANY).map(i => s.onChange(() => heard.push(i)))
    const left = new Set(range(MANY))
    let n = 0
    const look = () => { heard = []; s.set(++n); T.eq(heard, [...left], `subscriptions told with ${left.size} of ${MANY} left`) }
    for (const i of range(MANY)) { const q = (i * 797) % MANY; offs[q](); left.delete(q); if (i % 100 === 0 || i > MANY - 3) look(); offs[q]() }
    look()
    for (const i of range(300)) { const off = s.onChange(() => heard.push('x')); off(); off() }
    look()
    done(T, 'subscriptions')
  } }],
  C04: [{ name: 'very many updates under way', async run(T, { createStore }) {
    const s = createStore(-1)
    const heard = []
    s.onChange((v, p) => heard.push([v, p]))
    const N = 300
    const ds = range(N).map(deferred)
    const ps = ds.map(d => s.set(() => d.promise))
    for (const p of ps) p.catch(() => {})
    await turn()
    T.is(heard.length, 0, 'notifications while nothing settled')
    const order = range(N).map(i => (i * 7) % N)
    const want = []
    let cur = -1
    for (const i of order) {
      if (i % 5 === 4) ds[i].reject(new Error(`no ${i}`))
      else { ds[i].resolve(i); want.push([i, cur]); cur = i }
      if (i % 11 === 0) await turn()
    }
    const rs = await T.value(Promise.allSettled(ps), 'all updates')
    rs.forEach((r, i) => T.is(r.status === 'fulfilled' ? r.value : r.reason.message, i % 5 === 4 ? `no ${i}` : i, `outcome of update ${i}`))
    T.eq(heard, want, 'changes')
    T.is(s.get(), cur, 'value')
    done(T, 'updates')
  } }],
  C05: [{ name: 'very deep and long values', run(T, { createStore }) {
    let v = { end: [{}] }
    for (const i of range(600)) v = i % 2 ? { v } : [v]
    const list = range(MANY * 3).map(i => ({ i, l: [{ i }] }))
    const s = createStore({ v, list })
    let d = s.get().v
    let depth = 0
    for (; d; depth++) { T.ok(Object.isFrozen(d), () => `the value is not frozen at depth ${depth}`); d = Array.isArray(d) ? d[0] : d.v ?? d.end }
    s.get().list.forEach((x, i) => T.ok(Object.isFrozen(x) && Object.isFrozen(x.l) && Object.isFrozen(x.l[0]), () => `item ${i} is not frozen`))
    s.set(x => { x.list.push({ i: 'new', l: [{}] }) })
    T.is(s.get().v, v, 'untouched part')
    const last = s.get().list.at(-1)
    T.ok(Object.isFrozen(last.l[0]), 'the new item is not frozen')
    done(T, 'values')
  } }],
  C06: [{ name: 'very many keys', run(T, { createRegistry, toReadonlyRegistry }) {
    const r = createRegistry()
    const view = toReadonlyRegistry(r)
    const look = what => {
      const ks = Object.keys(r.get())
      for (const [x, name] of [[r, 'registry'], [view, 'read-only view']]) {
        T.is(x.size(), ks.length, `${name}: size ${what}`)
        T.sameList(x.keys(), ks, `${name}: keys ${what}`)
        T.sameList(x.values(), ks.map(k => r.get()[k]), `${name}: values ${what}`)
        for (const k of [ks[0], ks.at(-1), ks[ks.length >> 1]]) if (k !== undefined) T.is(x.has(k), true, `${name}: has ${what}`)
        T.is(x.has('missing'), false, `${name}: has of a missing key ${what}`)
      }
    }
    for (const n of range(13)) { r.set(d => { for (const i of range(100)) d[`k${n * 100 + i}`] = `v${i}` }); look(`with ${(n + 1) * 100} entries`) }
    for (const n of range(13)) { r.set(d => { for (const i of range(100)) if (n !== 5 || i) delete d[`k${n * 100 + i}`] }); look(`after deleting ${(n + 1) * 100}`) }
    done(T, 'keys')
  } }],
  C07: [{ name: 'very many entries in one call', run(T, { createStore, createRegistry, adder, withAdder, push, unshift }) {
    for (const n of [MANY, 6000]) {
      for (const [name, f] of [['push', push], ['unshift', unshift]]) {
        if (f === unshift && n > MANY) continue
        const s = withAdder(createStore([-1]), f)
        let told = 0
        s.onChange(() => told++)
        s.add(...range(n))
        T.eq(s.get(), f === push ? [-1, ...range(n)] : [...range(n).reverse(), -1], `${n} entries added by ${name}`)
        T.is(told, 1, `notifications of one add of ${n} entries (${name})`)
      }
      const r = createRegistry()
      let told = 0
      r.onChange(() => told++)
      const order = []
      const add = adder(r, (d, e) => { order.push(e); d[`k${e}`] = e })
      add(...range(n))
      T.eq(order, range(n), 'entries handled')
      T.is(told, 1, 'notifications')
      T.is(r.size(), n, 'entries')
      const boom = new Error('last one')
      T.throws(() => adder(r, (d, e) => { if (e === n - 1) throw boom; d[`z${e}`] = e })(...range(n)), boom, 'add whose last entry fails')
      T.is(r.size(), n, 'entries after a failed add')
      T.is(told, 1, 'notifications after a failed add')
    }
    done(T, 'entries')
  } }, { name: 'add from inside handlers, nested deeply', run(T, { createStore, withAdder, push }) {
    const s = withAdder(createStore([]), push)
    const seen = []
    s.onChange((v, p) => { seen.push(v.length - p.length); if (v.length < DEEP * 2) s.add(v.length, -v.length) })
    s.add('a', 'b')
    T.is(s.get().length, DEEP * 2, 'entries')
    T.ok(seen.length === DEEP && seen.every(x => x === 2), () => `notifications ${seen}`)
    done(T, 'nested.adds')
  } }],
  C08: [{ name: 'very many changes are logged', async run(T, lib) {
    const { logLevels } = lib
    const app = await stateApp(lib, 'large')
    const stores = [app.states.createStore({ n: -1 }), app.states.createRegistry({ n: -1 }), (([, set]) => ({ set }))(app.states.createState({ n: -1 }))]
    for (const s of stores) {
      const from = app.log.reporter.logs.length
      let old
      for (const i of range(MANY)) { const v = { n: i }; s.set(v); if (i) T.ok(app.log.reporter.logs.at(-1).args.includes(v) && app.log.reporter.logs.at(-1).args.includes(old), () => `entry of change ${i}`); old = v }
      const es = app.log.reporter.logs.slice(from).filter(e => e.level === logLevels.planck)
      T.is(es.length, MANY, 'entries of as many changes')
    }
    const many = range(200).map(i => app.states.createStore(i))
    const from = app.log.reporter.logs.length
    many.forEach((s, i) => s.set(-i - 1))
    T.is(app.log.reporter.logs.length - from, 200, 'entries of 200 stores changed once')
    const s = app.states.createStore(0)
    s.onChange(v => { if (v < DEEP) s.set(v + 1) })
    const at = app.log.reporter.logs.filter(e => e.level === logLevels.planck).length
    s.set(1)
    T.is(app.log.reporter.logs.filter(e => e.level === logLevels.planck).length - at, DEEP, 'entries of nested changes')
    done(T, 'changes')
  } }],
  C09: [{ name: 'very many arguments, commands and nested invocations', async run(T, { justTestApp, logLevels, commandsGizmoFn }) {
    const app = await justTestApp({ name: 'large' }).with(commandsGizmoFn({ handlers: Object.fromEntries(range(300).map(i => [`opt${i}`, () => `o${i}`])) })).create()
    const h = app.commands.handlers
    for (const n of [0, 1, 3, 7, 9, 17, 33, 65, 129, 257, MANY]) {
      let got
      h.register('args', (...a) => { got = a; return a.length })
      const args = range(n)
      T.is(h.invoke('args', ...args), n, `result of a command with ${n} arguments`)
      T.eq(got, args, `${n} arguments`)
    }
    for (const i of range(MANY)) h.register(`cmd${i}`, x => `${i} ${x}`)
    for (const i of range(MANY)) { T.is(h.invoke(`cmd${i}`, 'x'), `${i} x`, `command ${i} of ${MANY}`); T.is(h.has(`cmd${i}`), true, `has command ${i}`) }
    for (const i of range(300)) T.is(h.invoke(`opt${i}`), `o${i}`, `command ${i} of the options`)
    T.is(h.keys().length, MANY + 301, 'registered ids')
    h.register('down', n => (n ? h.invoke('down', n - 1) + 1 : 0))
    T.is(h.invoke('down', DEEP * 3), DEEP * 3, 'result of invocations nested deeply')
    const boom = new Error('at the bottom')
    h.register('fall', n => { if (!n) throw boom; return h.invoke('fall', n - 1) })
    T.throws(() => h.invoke('fall', DEEP), boom, 'failure of invocations nested deeply')
    T.is(h.invoke('down', 5), 5, 'result after that failure')
    for (const i of range(200)) h.register('again', () => i)
    T.is(h.invoke('again'), 199, 'latest of 200 handlers')
    T.is(app.log.reporter.logs.filter(e => e.level === logLevels.error).length, 0, 'errors logged')
    for (const i of range(200)) h.invoke(`unknown${i % 7}`)
    T.is(app.log.reporter.logs.filter(e => e.level === logLevels.error).length, 200, 'errors logged for 200 unknown commands')
    done(T, 'commands')
  } }],
  C10: [{ name: 'very many arguments, apps and commands', async run(T, { justTestApp, commandsGizmoFn, command, logLevels }) {
    const apps = []
    for (const i of range(20)) apps.push(await justTestApp({ name: `large${i}` }).with(commandsGizmoFn()).create())
    let got
    const c = command('large.cmd', (...a) => { got = a; return a.length })
    for (const state of ['before connect', 'after connect']) {
      for (const n of [0, 1, 3, 7, 9, 17, 33, 65, 129, 257, MANY]) {
        T.is(c(...range(n)), n, `result of a command with ${n} arguments ${state}`)
        T.eq(got, range(n), `${n} arguments ${state}`)
      }
      c.connect(apps[0])
    }
    apps.forEach((app, i) => { c.connect(app, () => i); T.is(c(), i, `command connected to app ${i}`) })
    apps.forEach((app, i) => { T.is(app.commands.handlers.invoke('large.cmd'), i, `handler in app ${i}`) })
    const deep = command('large.deep', n => (n ? deep(n - 1) + 1 : 0))
    T.is(deep(DEEP), DEEP, 'command calling itself before connect')
    deep.connect(apps[1])
    T.is(deep(DEEP), DEEP, 'command calling itself after connect')
    const many = range(400).map(i => command(i % 2 ? `m${i}` : { id: `m${i}` }, () => i))
    for (const [i, m] of many.entries()) { T.is(m(), i, `command ${i} before connect`); m.connect(apps[i % 3]) }
    many.forEach((m, i) => T.is(m(), i, `command ${i} of 400 after connect`))
    const d = command('large.d')
    for (const i of range(60)) { const f = () => i; T.is(d.defineHandler(f), f, 'defineHandler'); T.is(d(), i, `handler ${i} defined`) }
    T.is(apps.flatMap(a => a.log.reporter.logs).filter(e => e.level === logLevels.error).length, 0, 'errors logged')
    done(T, 'arguments')
  } }],
  C15: [{ name: 'very many listeners and languages, nested deeply', async run(T, { justTestApp, commandsGizmoFn, i18nGizmoFn, setLanguageCommand }) {
    const app = await justTestApp({ name: 'large' }).with(commandsGizmoFn()).with(i18nGizmoFn({ language: 'l0' })).create()
    let heard = []
    for (const i of range(MANY)) app.i18n.languageChanged((n, o) => heard.push(`${i} ${n} ${o}`))
    for (const k of [1, 2, 3]) {
      heard = []
      if (k === 2) app.commands.handlers.invoke(setLanguageCommand.id, `l${k}`)
      else app.i18n.setLanguage(`l${k}`)
      T.eq(heard, range(MANY).map(i => `${i} l${k} l${k - 1}`), 'listeners told')
    }
    const b = await justTestApp({ name: 'nested' }).with(i18nGizmoFn({ language: '0' })).create()
    const seen = []
    b.i18n.languageChanged((n, o) => { seen.push([n, o, b.i18n.getLanguage()]); if (Number(n) < DEEP) b.i18n.setLanguage(String(Number(n) + 1)) })
    b.i18n.setLanguage('1')
    T.eq(seen, range(DEEP).map(i => [String(i + 1), String(i), String(i + 1)]), 'languages set from inside a listener')
    T.is(b.i18n.getLanguage(), String(DEEP), 'language')
    for (const i of range(MANY)) { b.i18n.setLanguage(`x${i}`); T.is(b.i18n.getLanguage(), `x${i}`, `language ${i}`) }
    done(T, 'listeners')
  } }],
  C16: [{ name: 'a long life', async run(T, { justTestApp, commandsGizmoFn, browserTestGizmoFn, browserI18nGizmo }) {
    const storage = new RecStorage()
    storage.setItem('foreign', 'x')
    const make = name => justTestApp({ name }).with(browserTestGizmoFn({ localStorage: storage, navigator: { language: 'nav' } })).with(commandsGizmoFn()).with(browserI18nGizmo).create()
    let app = await make('large')
    const others = []
    for (const i of range(40)) { const o = await make(`other${i}`); o.i18n.setLanguage(`o${i}`); others.push(o) }
    for (const i of range(250)) {
      app.i18n.setLanguage(`l${i}`)
      if (i % 25 === 0) { app = await make('large'); T.is(app.i18n.getLanguage(), `l${i}`, `language after restart ${i / 25}`) }
      if (i % 60 === 59) { app.i18n.clearLanguage(); T.is((await make('large')).i18n.getLanguage(), 'nav', 'language after a restart once cleared') }
    }
    for (const i of range(40)) T.is((await make(`other${i}`)).i18n.getLanguage(), `o${i}`, `language of app ${i} of 40`)
    const long = 'x-'.repeat(5000)
    app.i18n.setLanguage(long)
    T.is((await make('large')).i18n.getLanguage(), long, 'a long language')
    T.is(storage.getItem('foreign'), 'x', 'foreign entry')
    done(T, 'restarts')
  } }],
  C17: [{ name: 'very many routes, nested deeply', async run(T, { justTestApp, logLevels, routesGizmo }) {
    const app = await justTestApp({ name: 'large' }).with(routesGizmo).create()
    const r = app.routes
    const calls = []
    const logs = app.log.reporter.logs
    const offs = range(MANY).map(i => r.register(`/r/${i}`, () => { calls.push(i) }))
    for (const i of range(MANY)) { r.navigate(`/r/${i}`); T.is(r.hasRoute(`/r/${i}`), true, `hasRoute of route ${i}`) }
    T.eq(calls.splice(0), range(MANY), 'handlers run')
    offs.forEach((off, i) => { if (i % 2) off() })
    for (const i of range(MANY)) T.is(r.hasRoute(`/r/${i}`), i % 2 === 0, `hasRoute of route ${i} after every other one is gone`)
    T.is(logs.filter(e => e.level === logLevels.error).length, 0, 'errors logged')
    T.is(logs.filter(e => e.level === logLevels.notice).length, MANY, 'notices logged')
    for (const i of range(120)) { const off = r.register('/again', () => calls.push(i)); r.navigate('/again'); off(); off() }
    T.eq(calls.splice(0), range(120), 'handlers of a route registered again and again')
    const order = []
    for (const i of range(DEEP + 1)) r.register(`/deep/${i}`, () => { order.push(i); if (i < DEEP) r.navigate(`/deep/${i + 1}`); order.push(-i) })
    r.navigate('/deep/0')
    T.eq(order, [...range(DEEP + 1), ...range(DEEP + 1).reverse().map(i => -i)], 'handlers that navigate on')
    let n = 0
    r.register('/self', () => { if (++n < DEEP) r.navigate('/self') })
    r.navigate('/self')
    T.is(n, DEEP, 'times a handler that navigates to itself ran')
    r.clearRoutes()
    for (const i of range(MANY)) T.is(r.hasRoute(`/r/${i}`), false, `hasRoute of route ${i} after clearRoutes`)
    done(T, 'routes')
  } }],
  C18: [{ name: 'updaters nested deeply, many at once', async run(T, lib) {
    for (const storage of [undefined, new RecStorage()]) {
      const app = await prefsApp(lib, { name: 'large', storage })
      const p = app.preferences
      const nest = async i => p.set(`n${i}`, v => { if (i < 40) nest(i + 1); return `${v} ${i}` })
      await nest(0)
      await turn()
      for (const i of range(41)) T.is(p.get(`n${i}`), `undefined ${i}`, `value set by nested updater ${i}`)
      const ds = range(200).map(deferred)
      const ps = ds.map((d, i) => p.set(`k${i % 50}`, async () => { await d.promise; return `v${i}` }))
      const last = {}
      for (const i of range(200).map(x => (x * 7) % 200)) { ds[i].resolve(); await turn(); last[i % 50] = i }
      await Promise.all(ps)
      for (const k of range(50)) T.is(p.get(`k${k}`), `v${last[k]}`, `preference k${k} after overlapping updates`)
      for (const i of range(400)) await p.set('count', v => String(Number(v ?? 0) + 1))
      T.is(p.get('count'), '400', 'preference counted up')
    }
    done(T, 'updaters')
  } }],
  C19: [{ name: 'very many apps', async run(T, lib) {
    const storage = new RecStorage()
    const apps = []
    for (const i of range(60)) apps.push(await prefsApp(lib, { name: `app${i}`, storage: i % 2 ? storage : undefined }))
    for (const [i, a] of apps.entries()) for (const k of range(5)) await a.preferences.set(`k${k}`, `${i} ${k}`)
    const look = gone => apps.forEach((a, i) => range(5).forEach(k => T.is(a.preferences.get(`k${k}`), gone(i) ? undefined : `${i} ${k}`, `k${k} of app ${i} of 60`)))
    look(() => false)
    for (const i of [3, 4, 59]) await apps[i].preferences.clearAll()
    look(i => [3, 4, 59].includes(i))
    done(T, 'apps')
  } }],
  C20: [{ name: 'very deep and long values', async run(T, lib) {
    let deep = 'end'
    for (const i of range(DEEP)) deep = i % 2 ? { [`k${i}`]: deep } : [deep, i]
    const long = range(MANY).map(i => ({ i, s: `s${i}`, n: null, b: i % 2 === 0 }))
    const wide = Object.fromEntries(range(MANY).map(i => [`key ${i}`, i]))
    for (const storage of [undefined, new RecStorage()]) {
      const app = await prefsApp(lib, { name: 'large', storage })
      for (const [n, v] of [['deep', deep], ['long', long], ['wide', wide], ['text', 'é😀x'.repeat(40000)], ['all', { deep, long, wide }]]) {
        const s = app.preferences.createStore(n)
        await s.set(v)
        T.eq(s.get(), v, `a ${n} value`)
        await s.set(x => ({ v: x }))
        T.eq(s.get(), { v }, `a ${n} value after an updater`)
        T.eq(app.preferences.createStore(`d ${n}`, v).get(), v, `a ${n} default`)
        const d = app.preferences.createStore(`u ${n}`, v)
        await d.set(x => ({ x }))
        T.eq(d.get(), { x: v }, `a ${n} default given to an updater`)
      }
      const list = app.preferences.createStore('list', [])
      for (const i of range(200)) await list.set(x => { x.push(i) })
      T.eq(list.get(), range(200), 'in-place edits one by one')
      const stores = range(100).map(i => app.preferences.createStore(`s${i}`, i))
      for (const [i, s] of stores.entries()) await s.set({ i })
      stores.forEach((s, i) => T.eq(s.get(), { i }, `store ${i} of 100`))
    }
    done(T, 'values')
  } }],
  C22: [{ name: 'very many errors, nested deeply', async run(T, { justTestApp, logLevels, browserGizmoFn, browserTestGizmoFn, window: w, incubate, listeners, remove }) {
    for (const l of listeners.splice(0)) remove(l.type, l.fn, l.opt)
    for (const fn of [browserGizmoFn, browserTestGizmoFn]) {
      const app = await justTestApp({ name: 'large' }).with(fn({ preventDefault: true })).create()
      let heard = 0
      app.browser.errors.onChange((v, p) => { heard++; T.is(v.length, p.length + 1, 'errors in a notification') })
      const fire = i => { const ev = new w.ErrorEvent('error', { message: `m${i}`, lineno: i, cancelable: true }); w.dispatchEvent(ev); T.is(ev.defaultPrevented, true, `default action of error ${i}`) }
      for (const i of range(700)) fire(i)
      const off = app.browser.errors.onChange(v => { if (v.length < 700 + DEEP) fire(v.length) })
      fire(700)
      off()
      const list = app.browser.errors.get()
      T.is(list.length, 700 + DEEP, 'errors captured')
      T.is(heard, 700 + DEEP, 'notifications')
      list.forEach((e, i) => T.is(e.message, `m${i}`, `error ${i}`))
      T.is(app.log.reporter.logs.filter(e => e.level === logLevels.error).length, 700 + DEEP, 'errors logged')
      incubate.cleanup(app)
      fire2(w)
      T.is(app.browser.errors.get().length, 700 + DEEP, 'errors captured after cleanup')
    }
    for (const l of listeners.splice(0)) remove(l.type, l.fn, l.opt)
    done(T, 'errors')
  } }],
  C23: [{ name: 'very many calls of fetch', async run(T, { justTestApp, browserGizmoFn, fetchGizmo, host }) {
    host.answer = (...args) => ({ n: args.length })
    const own = []
    const apps = [await justTestApp({ name: 'a' }).with(browserGizmoFn()).create(), await justTestApp({ name: 'b' }).with(fetchGizmo).create(), await justTestApp({ name: 'c' }).with(browserGizmoFn({ fetch: (...args) => { own.push(args); return { n: args.length } } })).create()]
    for (const [k, app] of apps.entries()) {
      const calls = k === 2 ? own : host.calls
      calls.length = 0
      for (const i of range(300)) { const args = i % 3 ? [`u${i}`, { i }] : range(i / 3); T.is((await app.fetch(...args)).n, args.length, 'result'); T.sameList(calls.at(-1), args, `arguments of call ${i}`) }
      T.is(calls.length, 300, 'calls')
      calls.length = 0
    }
    done(T, 'fetches')
  } }],
  C24: [{ name: 'very many arguments, listeners and failures, nested deeply', async run(T, { justTestApp, logLevels, eventsGizmoFn }) {
    const app = await justTestApp({ name: 'large' }).with(eventsGizmoFn()).create()
    const e = app.events.emitter
    const errors = () => app.log.reporter.logs.filter(x => x.level === logLevels.error)
    let got = []
    e.on('args', (...a) => got.push(a))
    for (const n of [0, 1, 3, 5, 6, 7, 9, 17, 33, 65, 129, MANY]) { got = []; e.emit('args', ...range(n)); T.eq(got, [range(n)], `${n} arguments`) }
    const order = []
    for (const i of range(MANY)) e.on('many', x => order.push(i + x))
    e.emit('many', 0)
    T.eq(order.splice(0), range(MANY), 'listeners called')
    for (const i of range(300)) e.on(`e${i}`, () => order.push(i))
    for (const i of range(300)) e.emit(`e${i}`)
    T.eq(order.splice(0), range(300), 'listeners of 300 events')
    const seen = []
    e.on('deep', n => { seen.push(n); if (n < DEEP) e.emit('deep', n + 1) })
    e.emit('deep', 1)
    T.eq(seen, range(DEEP).map(i => i + 1), 'nested emits')
    T.is(errors().length, 0, 'errors logged')
    const boom = range(400).map(i => new Error(`failure ${i}`))
    e.on('fail', i => { throw boom[i] })
    for (const i of range(400)) { e.emit('fail', i); T.is(errors().length, i + 1, `errors logged after ${i + 1} failures`); T.ok(errors()[i].args.some(a => a === boom[i] || String(a?.message ?? a).includes(`failure ${i}`)), () => `entry of failure ${i}`) }
    e.on('deepfail', n => { if (n < 60) e.emit('deepfail', n + 1); throw boom[n] })
    e.emit('deepfail', 0)
    T.is(errors().length, 461, 'errors logged after 61 nested failures')
    done(T, 'emits')
  } }],
  C25: [{ name: 'very many gizmos and creations', async run(T, { justApp, justTestApp, createMemoryLogReporter, define }) {
    for (const kind of ['app', 'test']) {
      const order = []
      const r = createMemoryLogReporter()
      let b = kind === 'app' ? justApp({ name: 'large', log: { reporters: [r] } }) : justTestApp({ name: 'large' })
      for (const i of range(60)) b = b.with(define({ async create(ctx) { order.push(`c${i}`); for (const k of [0, i - 1]) if (k >= 0 && k < i) T.is(ctx[`m${k}`], k, `member of gizmo ${k} seen by gizmo ${i}`); return [{ [`m${i}`]: i }, () => { order.push(`s${i}`) }] } }))
      for (const n of range(45)) {
        order.length = 0
        const app = await b.create()
        T.eq([...order].sort(), range(60).flatMap(i => [`c${i}`, `s${i}`]).sort(), `gizmos run by creation ${n}`)
        T.sameList(order.filter(x => x[0] === 'c'), range(60).map(i => `c${i}`), 'creations in order')
        T.is(Object.keys(app).filter(k => /^m\d+$/.test(k)).length, 60, 'members')
        const logs = kind === 'app' ? r.logs.splice(0) : app.log.reporter.logs
        T.is(logs.length, 1, `entries of creation ${n}`)
        T.is(logs[0].args[0], `created (id: ${app.id})`, `announcement of creation ${n}`)
      }
    }
    done(T, 'creations')
  } }],
  C26: [{ name: 'very many apps of one builder', async run(T, { justApp, justTestApp, createMemoryLogReporter }) {
    const ids = new Set()
    for (const b of [justApp({ name: 'large', log: { reporters: [createMemoryLogReporter()] } }), justTestApp({ name: 'large' })]) {
      const apps = []
      for (const i of range(8)) apps.push(...await Promise.all(range(i % 2 ? 1 : 60).map(() => b.create())))
      for (const a of apps) { T.is(a.name, 'large', 'name'); T.ok(/^[a-z0-9]{15}$/.test(a.id), () => `id ${a.id}`); ids.add(a.id) }
      T.count('large.apps', apps.length)
    }
    T.is(ids.size, 2 * (4 * 60 + 4), 'different ids')
    done(T, 'ids')
  } }],
  C27: [{ name: 'very many entries, arguments, loggers and levels', async run(T, { justApp, createMemoryLogReporter, createPrefixedGetLogger, createPrefixedGetNonConsoleLogger, logLevels }) {
    const rs = [createMemoryLogReporter({ id: 'm0' }), createMemoryLogReporter({ id: 'm1' })]
    const customLevels = Object.fromEntries(range(40).map(i => [`lvl${i}`, 201 + i * 2]))
    const app = await justApp({ name: 'large', log: { reporters: rs, customLevels, logLevel: logLevels.all } }).create()
    for (const r of rs) r.logs.length = 0
    const want = []
    const prefixed = createPrefixedGetLogger(app, 'p')
    const quiet = createPrefixedGetNonConsoleLogger(app, 'q')
    const entry = (logger, id, level, name, args) => { logger[name](...args); want.push([id, level, args]) }
    for (const n of [0, 1, 2, 5, 9, 17, 33, 65, 129, MANY]) entry(app.log, 'large', logLevels.info, 'info', range(n))
    for (const i of range(40)) entry(app.log, 'large', 201 + i * 2, `lvl${i}`, [i])
    for (const i of range(400)) {
      entry(app.log.getLogger(`l${i}`), `large:l${i}`, logLevels.warn, 'warn', [i])
      entry(app.log.getNonConsoleLogger(`n${i}`), `large:n${i}`, logLevels.trace, 'trace', [i])
      entry(prefixed(`x${i}`), `large:p:x${i}`, logLevels.error, 'error', [i])
      entry(quiet(`y${i}`), `large:q:y${i}`, logLevels.debug, 'debug', [i])
    }
    for (const i of range(1500)) entry(app.log, 'large', logLevels.planck, 'planck', [i])
    for (const r of rs) {
      T.is(r.logs.length, want.length, `entries of reporter ${r.id}`)
      r.logs.forEach((e, i) => { T.is(e.id, want[i][0], `logger of entry ${i}`); T.is(e.level, want[i][1], `level of entry ${i}`); T.sameList(e.args, want[i][2], `arguments of entry ${i}`) })
    }
    done(T, 'entries')
  } }],
  C30: [{ name: 'very many messages', async run(T, { justTestApp, formatJSGizmoFn }) {
    const messages = Object.fromEntries(range(MANY).map(i => [`m${i}`, `message ${i} {n, number}`]))
    const heard = []
    const app = await justTestApp({ name: 'large' }).with(formatJSGizmoFn({ config: { locale: 'de', messages, onError: e => heard.push(e) } })).create()
    for (const round of [0, 1]) for (const i of range(MANY)) T.is(app.formatjs.intl.formatMessage({ id: `m${i}` }, { n: i * 1000 + round }), `message ${i} ${(i * 1000 + round).toLocaleString('de')}`, `message ${i}`)
    T.is(heard.length, 0, 'problems reported')
    for (const i of range(150)) app.formatjs.intl.formatMessage({ id: `missing${i % 10}`, defaultMessage: 'x' })
    T.is(heard.length, 150, 'problems reported for missing translations')
    done(T, 'messages')
  } }],
  C32: [{ name: 'very many apps, cleanups and errors', async run(T, { justTestApp, define, incubate, browserGizmoFn, browserTestGizmoFn, presetsBrowserGizmoFn, presetsBrowserTestGizmoFn, commandsGizmoFn, window: w, listeners }) {
    for (const l of listeners.splice(0)) w.removeEventListener(...l)
    const ran = []
    let b = justTestApp({ name: 'large' })
    for (const i of range(80)) b = b.with(define({ async create() { return [{ [`m${i}`]: i }, () => () => { ran.push(i) }] } }))
    const app = await b.create()
    const twin = await b.create()
    T.is(ran.length, 0, 'cleanups before the cleanup')
    await incubate.cleanup(app)
    T.eq(ran.splice(0), range(80), 'cleanups run')
    await incubate.cleanup(twin)
    T.eq(ran.splice(0), range(80), 'cleanups run of the second app')
    const fire = i => { const ev = new w.ErrorEvent('error', { message: `m${i}`, cancelable: true }); w.dispatchEvent(ev) }
    const apps = []
    const kinds = [browserGizmoFn(), browserTestGizmoFn(), presetsBrowserGizmoFn(), presetsBrowserTestGizmoFn()]
    for (const i of range(40)) apps.push(await justTestApp({ name: `a${i}` }).with(commandsGizmoFn()).with(kinds[i % 4]).create())
    const want = apps.map(() => 0)
    const alive = new Set(apps.keys())
    const burst = n => { for (const i of range(n)) fire(i); for (const k of alive) want[k] += n; apps.forEach((a, k) => T.is(a.browser.errors.get().length, want[k], `errors captured by app ${k} of 40 with ${alive.size} alive`)) }
    burst(130)
    for (const k of range(40).map(i => (i * 7) % 40)) { incubate.cleanup(apps[k]); alive.delete(k); burst(2) }
    for (const l of listeners.splice(0)) w.removeEventListener(...l)
    done(T, 'cleanups')
  } }],
  C33: [{ name: 'very many invocations, nested deeply', async run(T, { justTestApp, commandsGizmoFn, command, memoryPreferencesGizmo, logLevels }) {
    const app = await justTestApp({ name: 'large', log: { logLevel: logLevels.trace } }).with(commandsGizmoFn()).with(memoryPreferencesGizmo).create()
    const logs = app.log.reporter.logs
    const count = (from, id) => logs.slice(from).filter(e => e.level === logLevels.trace && e.args.some(a => String(a).includes(id))).length
    const h = app.commands.handlers
    let at = []
    h.register('deep-one', n => { at.push(count(start, 'deep-one')); return n > 1 ? h.invoke('deep-one', n - 1) : 0 })
    const c = command('deep-two', n => { at.push(count(start, 'deep-two')); return n > 1 ? c(n - 1) : 0 })
    c.connect(app)
    let start = logs.length
    h.invoke('deep-one', DEEP)
    T.eq(at.splice(0), range(DEEP).map(i => i + 1), 'trace entries when each nested handler starts (invoke)')
    start = logs.length
    c(DEEP)
    T.eq(at.splice(0), range(DEEP).map(i => i + 1), 'trace entries when each nested handler starts (command)')
    for (const id of ['deep-none', 'same-id']) {
      if (id === 'same-id') h.register(id, () => {})
      start = logs.length
      for (const i of range(MANY)) h.invoke(id, i)
      T.is(count(start, id), MANY, `trace entries of ${MANY} invocations of ${id}`)
    }
    start = logs.length
    for (const i of range(300)) app.preferences.get(`k${i % 3}`)
    T.is(count(start, 'just-web.getUserPreference'), 300, 'trace entries of 300 preferences read')
    done(T, 'invocations')
  } }],
  C11: [{ name: 'very many contributions', async run(T, { justTestApp, logLevels, commandsGizmoFn, command }) {
    const app = await justTestApp({ name: 'large' }).with(commandsGizmoFn()).create()
    const errors = () => app.log.reporter.logs.filter(e => e.level === logLevels.error).length
    const cs = range(MANY).map(i => ({ id: `c${i}`, i }))
    for (const c of cs) app.commands.contributions.add(c)
    T.is(app.commands.contributions.size(), MANY, 'contributions')
    cs.forEach(c => T.is(app.commands.contributions.get()[c.id], c, `contribution ${c.id}`))
    T.is(errors(), 0, 'errors logged')
    app.commands.contributions.add(...cs.map(c => ({ ...c })))
    T.is(errors(), MANY, 'errors logged for as many duplicates')
    for (const i of range(200)) command({ id: `k${i}` }, () => i).connect(app)
    T.is(app.commands.contributions.size(), MANY + 200, 'contributions after connecting 200 commands')
    done(T, 'contributions')
  } }],
  C29: [{ name: 'asked very often', async run(T, lib) {
    const { justTestApp, osGizmo } = lib
    if (!osGizmo) return
    const apps = []
    for (const i of range(20)) apps.push(await justTestApp({ name: `a${i}` }).with(osGizmo).create())
    const first = apps[0].os.isMac()
    for (const i of range(MANY)) T.is(apps[i % 20].os.isMac(), first, `answer ${i}`)
    done(T, 'answers')
  } }]
}
function fire2(w) { w.dispatchEvent(new w.ErrorEvent('error', { message: 'after cleanup', cancelable: true })) }
