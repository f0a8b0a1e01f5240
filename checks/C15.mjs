import { appLib, NAMES } from '../lib/apps.mjs'

const LANGS = ['en', 'fr', 'de-CH', 'zh-Hant', '', 'EN', 'en ', 'toString', '__proto__', 'undefined', 'null', '0', 'é', '😀']

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/i18n') }
  },
  async run(T, { justTestApp, commandsGizmoFn, keyboardGizmoFn, i18nGizmoFn, setLanguageCommand }) {
    const lang = () => (T.bool(0.8) ? T.pick(LANGS) : T.str(60))
    const apps = []
    const gizmos = []
    let nested = 0
    async function create() {
      // the same gizmo can be used for several apps
      const again = gizmos.length && T.bool(0.3) ? T.pick(gizmos) : undefined
      const a = { n: apps.length, initial: again ? again.initial : lang(), listeners: [], sets: [], kind: T.weighted([[3, 'commands'], [2, 'commands+keyboard'], [2, 'plain']]) }
      T.step('create', a.n, a.kind, a.initial)
      let b = justTestApp({ name: T.bool(0.5) ? T.pick(NAMES) : `app${a.n}` })
      if (a.kind === 'commands+keyboard') b = b.with(keyboardGizmoFn())
      // a handler that was there before, or an earlier i18n gizmo: the command sets the language of the app all the same
      const taken = T.bool(0.12)
      if (a.kind !== 'plain') b = b.with(commandsGizmoFn(taken ? { handlers: { [setLanguageCommand.id]: () => { throw new Error('the handler of the commands options still runs') } } } : undefined))
      if (T.bool(0.12)) { b = b.with(i18nGizmoFn({ language: 'earlier' })); T.count('earlier.i18n') }
      if (taken && a.kind !== 'plain') T.count('earlier.handler')
      const g = again ?? { initial: a.initial, gizmo: i18nGizmoFn({ language: a.initial }) }
      if (again) T.count('gizmo.again')
      else gizmos.push(g)
      a.app = await b.with(g.gizmo).create()
      a.current = a.initial
      T.is(a.app.i18n.getLanguage(), a.initial, `initial language of app ${a.n}`)
      apps.push(a)
      return a
    }
    /** every set is an id with new and old language; listeners record what they hear */
    const stack = []
    function set(a, how, value) {
      const rec = { new: value, old: a.current, nestedIn: stack.length, expect: a.listeners.map(l => l), heard: [] }
      a.current = value
      a.sets.push(rec)
      stack.push({ a, rec })
      T.step('set', a.n, how, value, '(was', rec.old, ')')
      const r = how === 'api' ? a.app.i18n.setLanguage(value) : how === 'singleton' ? setLanguageCommand(value) : a.app.commands.handlers.invoke(setLanguageCommand.id, value)
      void r
      stack.pop()
      T.count(`set.${how}`)
      if (rec.old === value) T.count('set.same')
      return rec
    }
    function listen(a) {
      const l = { id: a.listeners.length, heard: [], since: a.sets.length, act: undefined }
      l.fn = (...args) => {
        T.eq(args.length, 2, 'arguments of a language listener')
        const [n, o] = args
        l.heard.push([n, o])
        a.order.push(l.id)
        if (!a.nesting) T.is(a.app.i18n.getLanguage(), n, `language during listener ${l.id} of app ${a.n}`)
        for (const x of apps) if (x !== a && !x.nesting) T.is(x.app.i18n.getLanguage(), x.current, `language of app ${x.n} during a listener of app ${a.n}`)
        const act = l.act
        l.act = undefined
        act?.()
      }
      a.app.i18n.languageChanged(l.fn)
      a.listeners.push(l)
      T.step('listen', a.n, l.id)
    }
    function verify() {
      for (const a of apps) {
        T.is(a.app.i18n.getLanguage(), a.current, `current language of app ${a.n}`)
        T.is(a.app.i18n.getLanguage(), a.current, `current language of app ${a.n}, read again`)
        for (const l of a.listeners) {
          const want = a.sets.slice(l.since).map(s => [s.new, s.old])
          if (l.loose) continue
          if (a.everNested) T.eq([...l.heard].map(x => JSON.stringify(x)).sort(), want.map(x => JSON.stringify(x)).sort(), `changes heard by listener ${l.id} of app ${a.n}`)
          else T.eq(l.heard, want, `changes heard by listener ${l.id} of app ${a.n}`)
        }
      }
    }
    await create()
    const steps = T.steps(8, 25, 70)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      await T.weighted([
        [1, async () => {
          if (apps.length > 4) return
          const b = await create()
          if (b.kind !== 'plain' && T.bool()) { b.order = []; set(b, 'singleton', lang()) }
        }],
        [3, () => { const n = T.bool(0.1) ? T.size(60) : T.range(1, 2); for (let k = 0; k < n; k++) listen(a) }],
        [8, () => {
          const how = a.kind !== 'plain' && T.bool(0.4) ? 'command' : 'api'
          const inner = a.listeners.length && T.bool(0.12) ? T.pick(a.listeners) : undefined
          if (inner) {
            const same = T.bool(0.7)
            const target = same ? a : T.pick(apps)
            if (target === a) { a.nesting = true; a.everNested = true; T.count('nested') } else T.count('nested.other')
            const v = lang()
            inner.act = () => { if (target !== a) target.order = []; set(target, T.bool() && target.kind !== 'plain' ? 'command' : 'api', v) }
          } else if (a.listeners.length && T.bool(0.08)) {
            // a listener added while listeners run: whether it hears this very change is left open
            const l = T.pick(a.listeners)
            l.act = () => { listen(a); const x = a.listeners[a.listeners.length - 1]; x.added = true }
          }
          a.order = []
          const before = a.listeners.map(l => l.id)
          set(a, how, lang())
          for (const l of a.listeners) if (l.added) {
            l.added = false
            T.ok(l.heard.length <= 1, `listener ${l.id} heard one change twice`)
            l.heard = []
            T.count('added.while.notifying')
          }
          if (!a.nesting) T.eq(a.order.filter(x => before.includes(x)), before, `order of listeners of app ${a.n}`)
          a.nesting = false
        }]
      ])()
      verify()
    }
    T.interesting()
  }
}
