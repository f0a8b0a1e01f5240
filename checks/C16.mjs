import { installDom } from '../lib/loader.mjs'
import { appLib, NAMES } from '../lib/apps.mjs'
import { RecStorage, diff, put, snapshot } from '../lib/storage.mjs'

const LANGS = ['en', 'fr', 'de-CH', 'zh-Hant', '', 'EN', 'en ', ' ', 'toString', '__proto__', 'undefined', 'null', '0', 'é', '😀', 'language']
const APPNAMES = [...NAMES, 'a/language', 'a/', '/language', 'b', 'a/b', 'language', '@just-web', 'a:b', 'A', 'x', '%2F', 'a%2Fb', 'undefined', 'null']

export default {
  async setup() {
    installDom()
    return { ...await appLib(), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/browser/testing'), ...await import('@just-web/i18n'), ...await import('@just-web/browser-i18n') }
  },
  async run(T, { justTestApp, commandsGizmoFn, keyboardGizmoFn, browserTestGizmoFn, browserI18nGizmo, setLanguageCommand }) {
    const real = T.bool(0.2)
    if (real) localStorage.clear()
    const storages = [real ? localStorage : new RecStorage()]
    if (T.bool(0.2)) storages.push(new RecStorage())
    const lang = () => (T.bool(0.85) ? T.pick(LANGS) : T.str(80))
    const names = T.shuffle(APPNAMES).slice(0, T.range(1, T.byScale(3, 5, 8)))
    if (T.bool(0.3)) names.push(T.str(40))
    for (const n of T.confuse(names, 0.3, 2)) if (!names.includes(n)) names.push(n)
    // what somebody else keeps on the same storage
    for (const s of storages) for (let i = T.range(0, 4); i > 0; i--) put(s, T.pick(['other', 'language', `${T.pick(names)}:language`, `${T.pick(names)}:x`, T.str(40), '@just-web/browser-i18n', `${T.pick(names)}`, 'i18n']), T.str(20))
    const kept = storages.map(() => new Map()) // storage -> name -> language
    const keys = storages.map(() => new Map()) // storage -> name -> entry key, once seen
    const apps = []
    let busy = 0
    async function create(name = T.pick(names)) {
      const si = T.int(storages.length)
      const a = { n: apps.length, name, si, storage: storages[si], nav: { language: lang(), ...(T.bool(0.3) ? { languages: [lang(), lang()], userLanguage: lang(), browserLanguage: lang() } : {}) }, kind: T.weighted([[2, 'commands'], [1, 'commands+keyboard'], [2, 'plain']]), listeners: [], sets: [] }
      const before = snapshot(a.storage)
      let b = justTestApp({ name })
      if (a.kind === 'commands+keyboard') b = b.with(keyboardGizmoFn())
      if (a.kind !== 'plain') b = b.with(commandsGizmoFn())
      const saved = kept[si].get(name)
      const realNav = T.bool(0.05)
      if (realNav) a.nav = navigator
      T.step('start', a.n, 'as', name, 'on storage', si, a.kind, realNav ? 'host navigator' : a.nav.language, 'saved:', saved)
      a.app = await b.with(browserTestGizmoFn({ localStorage: a.storage, ...(realNav ? {} : { navigator: a.nav }) })).with(browserI18nGizmo).create()
      T.eq(diff(before, snapshot(a.storage)), [], 'entries changed by starting an app')
      a.realNav = realNav
      a.current = saved ?? a.nav.language
      T.is(a.app.i18n.getLanguage(), a.current, `language of a newly started app '${name}' (saved: ${saved}, browser: ${a.nav.language})`)
      T.count(saved === undefined ? 'started.fresh' : 'started.saved')
      apps.push(a)
      return a
    }
    function act(a, what, fn, after) {
      const before = storages.map(snapshot)
      const was = a.current
      after()
      const want = a.current
      const rec = { new: want, old: was }
      a.sets.push(rec)
      T.step(what)
      busy++
      fn()
      busy--
      if (busy) return
      // exactly the entry of this name changed
      storages.forEach((s, i) => {
        const now = snapshot(s)
        const changed = diff(before[i], now)
        if (i !== a.si) T.eq(changed, [], `entries of another storage changed by ${what}`)
        else {
          T.ok(changed.length <= 1, () => `${what} changed several entries: ${JSON.stringify(changed)}`)
          if (changed.length) noteKey(i, a.name, changed[0], what)
          const k = keys[i].get(a.name)
          if (kept[i].has(a.name)) T.ok(k !== undefined && now.has(k), `${what}: nothing was saved for '${a.name}'`)
          else if (k !== undefined) T.ok(!now.has(k), `${what}: the choice of '${a.name}' is still stored`)
        }
      })
    }
    function noteKey(i, name, key, what) {
      for (const [n, k] of keys[i]) if (n !== name && k === key) T.fail(`${what}: apps named '${n}' and '${name}' use the same entry ${JSON.stringify(key)}`)
      const k = keys[i].get(name)
      if (k !== undefined) T.is(key, k, `${what}: entry used for '${name}'`)
      keys[i].set(name, key)
    }
    function set(a, how, value) {
      act(a, `set ${a.n} by ${how} ${JSON.stringify(value)}`, () => {
        if (how === 'api') a.app.i18n.setLanguage(value)
        else if (how === 'singleton') setLanguageCommand(value)
        else a.app.commands.handlers.invoke(setLanguageCommand.id, value)
      }, () => { a.current = value; kept[a.si].set(a.name, value) })
      T.count(`set.${how}`)
    }
    function clear(a) {
      act(a, `clear ${a.n}`, () => a.app.i18n.clearLanguage(), () => { a.current = a.nav.language; kept[a.si].delete(a.name) })
      T.count('cleared')
    }
    function listen(a) {
      const l = { id: a.listeners.length, heard: [], since: a.sets.length }
      a.app.i18n.languageChanged((n, o) => {
        l.heard.push([n, o])
        if (!a.nesting) {
          T.is(a.app.i18n.getLanguage(), n, 'language during a listener')
        }
        const f = l.act
        l.act = undefined
        f?.()
      })
      a.listeners.push(l)
      T.step('listen', a.n, l.id)
    }
    async function verify() {
      for (const a of apps) {
        T.is(a.app.i18n.getLanguage(), a.current, `current language of app ${a.n} ('${a.name}')`)
        for (const l of a.listeners) {
          const want = a.sets.slice(l.since).map(s => JSON.stringify([s.new, s.old]))
          const got = l.heard.map(x => JSON.stringify(x))
          if (a.nested) { want.sort(); got.sort() }
          T.eq(got, want, `changes heard by listener ${l.id} of app ${a.n}`)
        }
      }
    }
    await create()
    const steps = T.steps(7, 20, 50)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      await T.weighted([
        [3, () => (apps.length < 14 ? create() : undefined)],
        [1, () => listen(a)],
        [1.2, () => { if (!a.realNav) { a.nav.language = lang(); T.step('browser language of', a.n, a.nav.language); T.count('browser.changed') } }],
        [6, () => set(a, a.kind !== 'plain' && T.bool(0.45) ? 'command' : 'api', lang())],
        [0.7, async () => { if (apps.length < 14) { const b = await create(); if (b.kind !== 'plain') set(b, 'singleton', lang()) } }],
        [2.5, () => clear(a)],
        [0.6, () => {
          // a listener chooses again, or clears, while the first choice is being announced
          if (!a.listeners.length) return
          const l = T.pick(a.listeners)
          a.nested = a.nesting = true
          const v = T.bool(0.6) ? lang() : undefined
          l.act = () => { if (v === undefined) clear(a); else set(a, 'api', v); T.count('nested') }
          if (T.bool(0.6)) set(a, 'api', lang())
          else { T.count('nested.in.clear'); clear(a) }
          a.nesting = false
        }],
        [0.5, () => {
          // somebody else uses the storage
          const s = T.pick(storages)
          const k = T.str(30)
          if ([...keys].some(m => [...m.values()].includes(k))) return
          put(s, k, T.str(10))
          T.step('foreign entry', k)
        }]
      ])()
      await verify()
    }
    // a last restart of every name
    for (const n of names) await create(n)
    await verify()
    T.interesting()
  }
}
