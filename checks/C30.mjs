import { importFrom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { clone, print } from '../lib/plain.mjs'

const LOCALES = ['en', 'en-US', 'en-GB', 'de', 'fr', 'ar', 'he', 'ja', 'zh-Hant', 'pt-BR', 'ru', 'pl', 'hi', 'tr', 'cy', 'sr-Latn', 'xx', 'qq-QQ', 'en-u-nu-arab', 'de-CH']
const MESSAGES = ['plain', '', 'Hello {name}!', '{n, number}', '{n, number, ::currency/EUR}', '{n, number, percent}', '{n, number, fancy}', '{d, date, short}', '{d, date, fancy}', '{d, time, medium}', '{n, plural, =0 {none} one {one item} two {two items} few {few items} many {many items} other {# items}}',
  '{n, selectordinal, one {#st} two {#nd} few {#rd} other {#th}}', '{g, select, male {he} female {she} other {they}}', '{n, plural, offset:1 =0 {nobody} =1 {{name}} other {{name} and # others}}', 'a <b>bold {name}</b> word', '<unknown>x</unknown>', "it''s '{escaped}'", '{broken', '{n, plural, one {x}}', '{n, wrong}', '<b>open', 'é 😀 {name}', '{missing} value', '{d, date, ::yyyyMMMdd}']
const IDS = ['m1', 'm2', 'm3', 'toString', '__proto__', 'constructor', 'a.b', '', 'é', '0', 'hasOwnProperty']
const FORMATS = { number: { fancy: { style: 'currency', currency: 'USD' }, precise: { minimumFractionDigits: 3 } }, date: { fancy: { weekday: 'long', year: 'numeric', month: 'long', day: 'numeric' } }, time: { fancy: { hour: 'numeric', hour12: false } }, relative: { fancy: { numeric: 'auto' } } }
const ZONES = ['UTC', 'America/New_York', 'Asia/Tokyo', 'Australia/Lord_Howe', 'Not/AZone']

const describe = e => (e instanceof Error ? { error: e.name, code: e.code, message: e.message.replace(/\n\s+at .*/g, '') } : e) // FormatJS puts stack traces into messages

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/formatjs'), direct: await importFrom('@just-web/formatjs', '@formatjs/intl') }
  },
  async run(T, { justApp, justTestApp, createMemoryLogReporter, formatJSGizmoFn, createIntlCache, direct }) {
    /** the same configuration twice: one for the app, one for the reference */
    function config() {
      const c = {}
      const s = {
        locale: T.weighted([[8, () => T.pick(LOCALES)], [0.4, () => undefined], [0.4, () => '']])(),
        messages: T.weighted([[6, () => Object.assign(T.bool(0.3) ? Object.create(null) : {}, Object.fromEntries(T.shuffle(IDS).filter(i => i !== '__proto__').slice(0, T.range(1, 8)).map(i => [i, T.bool(0.85) ? T.pick(MESSAGES) : T.str(60)])))], [1, () => undefined], [1, () => ({})]])(),
        defaultLocale: T.bool(0.3) ? T.pick(LOCALES) : undefined, timeZone: T.bool(0.4) ? T.pick(ZONES) : undefined, formats: T.bool(0.5) ? FORMATS : undefined,
        defaultFormats: T.bool(0.3) ? { number: { fancy: { style: 'unit', unit: 'meter' } } } : undefined, fallbackOnEmptyString: T.bool(0.3) ? T.bool() : undefined,
        rich: T.bool(0.3), onWarn: T.bool(0.3), onError: T.weighted([[6, 'record'], [1, 'throw'], [1.5, 'default']])
      }
      for (const k of ['locale', 'messages', 'defaultLocale', 'timeZone', 'formats', 'defaultFormats', 'fallbackOnEmptyString']) if (s[k] !== undefined || k === 'locale' && T.bool()) c[k] = s[k]
      const build = () => {
        const heard = []
        const r = { ...c, ...(c.messages ? { messages: Object.assign(Object.create(Object.getPrototypeOf(c.messages)), c.messages) } : {}) }
        if (s.onError !== 'default') r.onError = e => { heard.push(['error', describe(e)]); if (s.onError === 'throw') throw e }
        if (s.onWarn) r.onWarn = w => heard.push(['warn', w])
        if (s.rich) r.defaultRichTextElements = { b: chunks => `**${chunks.join('')}**` }
        return { config: r, heard }
      }
      T.count(`onError.${s.onError}`)
      return { build, what: `${c.locale ?? 'no locale'} ${c.timeZone ?? ''} ${Object.keys(c).join()} onError ${s.onError}${s.rich ? ' rich' : ''}` }
    }
    /** run and record everything observable */
    const observe = (f, heard) => {
      const from = heard.length
      const logged = []
      const orig = { error: console.error, warn: console.warn }
      console.error = (...a) => logged.push(['console.error', ...a.map(describe)])
      console.warn = (...a) => logged.push(['console.warn', ...a.map(describe)])
      let r
      try { r = { value: f() } } catch (e) { r = { thrown: describe(e) } } finally { Object.assign(console, orig) }
      return { ...r, heard: heard.slice(from), logged }
    }
    const pairs = []
    const sharedCache = { app: createIntlCache(), ref: direct.createIntlCache() }
    const kinds = new Map() // cache -> pairs that use it
    const gizmos = []
    async function create() {
      const again = gizmos.length && T.bool(0.15) ? T.pick(gizmos) : undefined
      let g = again
      if (!g) {
        const c = config()
        g = { mine: c.build(), ref: c.build(), what: c.what }
        const cache = T.weighted([[2, 'none'], [2, 'own'], [2, 'shared']])
        g.cache = cache === 'none' ? undefined : cache === 'own' ? { app: createIntlCache(), ref: direct.createIntlCache() } : sharedCache
        g.before = print({ ...g.mine.config, onError: undefined, onWarn: undefined, defaultRichTextElements: undefined })
        if (T.bool(0.3)) Object.freeze(g.mine.config)
        T.count(`cache.${cache}`)
        T.step('configuration', g.what, 'cache:', cache)
        g.gizmo = formatJSGizmoFn({ config: g.mine.config, ...(g.cache ? { cache: g.cache.app } : T.pick([{}, { cache: undefined }])) })
        gizmos.push(g)
      } else T.count('gizmo.again')
      // the app and the reference see the same problems while they are created
      const refFrom = g.ref.heard.length
      const mineFrom = g.mine.heard.length
      const logs = [[], []]
      const orig = console.error
      let app, ref, appError, refError
      console.error = (...a) => logs[0].push(a.map(describe))
      try { app = await (T.bool() ? justApp({ name: `a${pairs.length}`, log: { reporters: [createMemoryLogReporter()] } }) : justTestApp({ name: `a${pairs.length}` })).with(g.gizmo).create() } catch (e) { appError = e }
      console.error = (...a) => logs[1].push(a.map(describe))
      try { ref = direct.createIntl(g.ref.config, g.cache?.ref) } catch (e) { refError = e }
      console.error = orig
      T.eq(describe(appError), describe(refError), 'error of creating an app with this configuration')
      T.eq(g.mine.heard.slice(mineFrom), g.ref.heard.slice(refFrom), 'problems reported while the app is created')
      T.eq(logs[0], logs[1], 'problems printed while the app is created')
      T.step('app', pairs.length, again ? 'with an earlier gizmo' : '', appError ? 'failed' : '')
      if (logs[0].length + g.mine.heard.slice(mineFrom).length) T.count('config.problem')
      if (appError) return
      T.eq(Object.keys(app.formatjs.intl).sort(), Object.keys(ref).sort(), 'members of intl')
      for (const k of ['locale', 'timeZone', 'defaultLocale', 'fallbackOnEmptyString']) T.is(app.formatjs.intl[k], ref[k], `intl.${k}`)
      pairs.push({ n: pairs.length, g, intl: app.formatjs.intl, ref })
    }
    for (let i = T.range(1, 4); i > 0; i--) await create()
    const steps = T.steps(8, 25, 80)
    const number = () => T.weighted([[4, () => T.range(-3, 30)], [1, () => T.num()], [1, () => 1234567.891], [0.5, () => 'text'], [0.5, () => 10n], [0.3, () => undefined]])()
    const date = () => T.weighted([[4, () => new Date(Date.UTC(T.range(1970, 2030), T.range(0, 11), T.range(1, 28), T.range(0, 23), T.range(0, 59)))], [2, () => T.range(0, 2e12)], [1, () => '2020-02-29T12:00:00Z'], [0.5, () => new Date(NaN)], [0.5, () => 'nonsense']])()
    const values = () => {
      const v = {}
      if (T.bool(0.85)) v.name = T.pick(['Ann', '', '<x>', '{n}', 'é', 5, null])
      if (T.bool(0.85)) v.n = number()
      if (T.bool(0.85)) v.d = date()
      if (T.bool(0.8)) v.g = T.pick(['male', 'female', 'x', 'other'])
      if (T.bool(0.4)) v.b = chunks => `[${chunks.join('')}]`
      return v
    }
    const maybe = (p, f) => (T.bool(p) ? [f()] : [])
    for (let i = 0; i < steps && pairs.length; i++) {
      if (T.bool(0.04) && pairs.length < 7) { await create(); continue }
      const p = T.pick(pairs)
      const op = T.weighted([[7, 'formatMessage'], [1, '$t'], [2, 'formatNumber'], [1, 'formatNumberToParts'], [2, 'formatDate'], [1, 'formatDateToParts'], [1.5, 'formatTime'], [1, 'formatTimeToParts'], [1, 'formatDateTimeRange'], [1.5, 'formatRelativeTime'], [1.5, 'formatPlural'], [1.5, 'formatList'], [1, 'formatListToParts'], [1.5, 'formatDisplayName'], [0.7, 'messages'], [0.7, 'identity']])
      if (op === 'messages') {
        // the message table belongs to the user and may grow
        const id = T.pick(IDS.filter(x => x !== '__proto__'))
        const m = T.pick(MESSAGES)
        T.step('messages', p.n, id, m)
        if (!p.g.mine.config.messages) continue
        p.g.mine.config.messages[id] = p.g.ref.config.messages[id] = m
        p.g.before = undefined
        T.count('messages.changed')
        continue
      }
      if (op === 'identity') {
        // a given cache is used by exactly the apps it is given to
        const q = T.pick(pairs)
        if (p === q) continue
        const shared = p.g.cache && p.g.cache === q.g.cache
        if (!p.g.cache && !q.g.cache) continue // nobody said anything about a cache
        const opt = { style: 'percent' }
        T.is(p.intl.formatters.getNumberFormat('en', opt) === q.intl.formatters.getNumberFormat('en', opt), !!shared, `apps ${p.n} and ${q.n} share a formatter (${shared ? 'same cache' : 'different caches'})`)
        p.ref.formatters.getNumberFormat('en', opt)
        q.ref.formatters.getNumberFormat('en', opt)
        T.count(shared ? 'formatter.shared' : 'formatter.separate')
        continue
      }
      const args = {
        formatMessage: () => [{ ...(T.bool(0.95) ? { id: T.pick(IDS) } : {}), ...(T.bool(0.6) ? { defaultMessage: T.pick(MESSAGES) } : {}), ...(T.bool(0.1) ? { description: 'd' } : {}) }, ...maybe(0.9, values)],
        formatNumber: () => [number(), ...maybe(0.6, () => T.pick([{ style: 'currency', currency: 'EUR' }, { format: 'fancy' }, { format: 'precise' }, { format: 'absent' }, { style: 'unit', unit: 'liter' }, { style: 'nope' }, { maximumFractionDigits: 1 }, { notation: 'compact' }]))],
        formatDate: () => [date(), ...maybe(0.6, () => T.pick([{ format: 'fancy' }, { format: 'absent' }, { timeZone: 'Asia/Tokyo' }, { year: 'numeric', month: 'long' }, { timeZone: 'Nope' }, { weekday: 'short' }]))],
        formatTime: () => [date(), ...maybe(0.5, () => T.pick([{ format: 'fancy' }, { hour: 'numeric' }, { timeZone: 'UTC', second: 'numeric' }, { hour12: false }]))],
        formatDateTimeRange: () => [date(), date(), ...maybe(0.5, () => ({ year: 'numeric', month: 'short' }))],
        formatRelativeTime: () => [T.range(-20, 20), ...maybe(0.9, () => T.pick(['day', 'hours', 'year', 'second', 'fortnight'])), ...maybe(0.5, () => T.pick([{ numeric: 'auto' }, { format: 'fancy' }, { style: 'narrow' }]))],
        formatPlural: () => [number(), ...maybe(0.4, () => T.pick([{ type: 'ordinal' }, { type: 'cardinal' }]))],
        formatList: () => [T.pick([['a'], ['a', 'b'], ['a', 'b', 'c'], [], ['x', { toString: () => 'obj' }, 'y'], 'abc']), ...maybe(0.5, () => T.pick([{ type: 'disjunction' }, { type: 'unit', style: 'narrow' }, { type: 'nope' }]))],
        formatDisplayName: () => [T.pick(['US', 'en', 'EUR', 'Latn', 'zz', '']), ...maybe(0.9, () => T.pick([{ type: 'region' }, { type: 'language' }, { type: 'currency' }, { type: 'script' }, { type: 'nope' }]))]
      }[{ $t: 'formatMessage', formatNumberToParts: 'formatNumber', formatDateToParts: 'formatDate', formatTimeToParts: 'formatTime', formatListToParts: 'formatList' }[op] ?? op]()
      T.step(op, p.n, ...args)
      const detached = T.bool(0.3)
      const call = intl => () => { if (detached) { const f = intl[op]; return f(...args) } return intl[op](...args) }
      const want = observe(call(p.ref), p.g.ref.heard)
      const others = pairs.filter(x => x.g !== p.g).map(x => [x, x.g.mine.heard.length])
      const got = observe(call(p.intl), p.g.mine.heard)
      T.eq(got.value, want.value, `${op} of app ${p.n} (${p.g.what})`)
      T.eq(got.thrown, want.thrown, `error thrown by ${op} of app ${p.n}`)
      T.eq(got.heard, want.heard, `problems reported by ${op} of app ${p.n}`)
      T.eq(got.logged, want.logged, `problems printed by ${op} of app ${p.n}`)
      for (const [x, n] of others) T.is(x.g.mine.heard.length, n, `problems reported to app ${x.n} by ${op} of app ${p.n}`)
      T.count(op === '$t' ? 't' : op)
      if (got.thrown) T.count('thrown')
      if (got.heard.length + got.logged.length) T.count('problem')
    }
    for (const g of gizmos) {
      if (g.cache) T.eq(Object.fromEntries(Object.entries(g.cache.app).map(([k, v]) => [k, Object.keys(v).sort()])), Object.fromEntries(Object.entries(g.cache.ref).map(([k, v]) => [k, Object.keys(v).sort()])), 'what is in the given cache')
      if (g.before) T.is(print({ ...g.mine.config, onError: undefined, onWarn: undefined, defaultRichTextElements: undefined }), g.before, 'the given configuration')
    }
    T.interesting()
  }
}
