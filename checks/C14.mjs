import { importFrom, installDom } from '../lib/loader.mjs'
import { appLib, entries, text } from '../lib/apps.mjs'

// Virtual timers: a sequence times out after a second, which nobody waits for here.
const real = { setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout }
let timers = []
let now = 0
let tid = 1e6
function advance(ms) {
  now += ms
  for (;;) {
    timers.sort((a, b) => a.at - b.at)
    if (!timers.length || timers[0].at > now) return
    timers.shift().fn()
  }
}
const CODE = { enter: 13, esc: 27, space: 32, left: 37, up: 38, right: 39, down: 40, del: 46, tab: 9, f1: 112, f5: 116, backspace: 8, '+': 107, ';': 186, '=': 187, ',': 188, '-': 189, '.': 190, '/': 191, '`': 192, '[': 219, ']': 221, "'": 222 }
const SPECIAL = Object.keys(CODE).filter(k => k.length > 1 || k === '+')
// characters typed with shift: by the key they are on
const TYPED = { '?': '/', ':': ';', '<': ',', '{': '[' }
// other names of the same keys
const SPELLED = { enter: ['enter', 'return'], esc: ['esc', 'escape'], '+': ['+', 'plus'] }
const SHIFTED = Object.fromEntries([...'1234567890'].map((c, i) => [c, '!@#$%^&*()'[i]]))
const MODS = { ctrl: ['ctrlKey', 17], alt: ['altKey', 18], shift: ['shiftKey', 16], meta: ['metaKey', 91] }

/** one step of a shortcut, independent of how it is spelled */
const canonical = st => [...st.mods].sort().join('+') + '|' + st.key
const same = (a, b) => a.length === b.length && a.every((s, i) => canonical(s) === canonical(b[i]))

export default {
  async setup(cfg) {
    installDom()
    // 'mod' is the Command key on Apple devices
    const apple = [0, 1, 0, 1, 1, 1][cfg.slot % 6] === 1
    if (apple) Object.defineProperty(navigator, 'platform', { configurable: true, value: [, 'iPhone', , 'MacIntel', 'iPad', 'iPod'][cfg.slot % 6] })
    globalThis.setTimeout = (fn, ms = 0) => { timers.push({ id: ++tid, at: now + ms, fn }); return tid }
    globalThis.clearTimeout = id => { timers = timers.filter(t => t.id !== id) }
    const Mousetrap = (await importFrom('@just-web/browser-keyboard', 'mousetrap')).default
    const lib = { ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/os/testing'), ...await import('@just-web/browser-keyboard'), Mousetrap }
    const app = await appLib()
    return { ...app, ...lib, apple }
  },
  directed: [
    { name: 'sequences that share their first step', async run(T, { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, osTestGizmoFn, browserKeyboardGizmo, Mousetrap }) {
      Mousetrap.reset()
      advance(5000)
      const calls = []
      await justTestApp({ name: 'kb' }).with(osTestGizmoFn({ isMac: () => false }))
        .with(keyboardGizmoFn({ keyBindingContributions: [{ id: 'b', key: 'g ctrl+t' }, { id: 'a', key: 'g i' }] }))
        .with(commandsGizmoFn({ handlers: { a: () => { calls.push('a') }, b: () => { calls.push('b') } } })).with(browserKeyboardGizmo).create()
      const type = (t, which, ctrlKey = false) => { const e = new KeyboardEvent(t, { bubbles: true, cancelable: true, ctrlKey }); Object.defineProperty(e, 'which', { value: which }); document.body.dispatchEvent(e) }
      const letter = c => { type('keydown', c.toUpperCase().charCodeAt(0)); type('keypress', c.charCodeAt(0)); type('keyup', c.toUpperCase().charCodeAt(0)) }
      letter('g'); letter('i')
      advance(2000)
      T.interesting()
      if (calls.length === 0) T.fail("typing 'g i' runs nothing while 'g ctrl+t' is bound too", 'shared-first-step')
      T.eq(calls, ['a'], "commands run by 'g i' while 'g ctrl+t' is bound too")
    } },
    ...['at start', 'in one call', 'one by one'].map(when => ({ name: `very many bindings, ${when}`, async run(T, { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, osTestGizmoFn, browserKeyboardGizmo, Mousetrap }) {
      Mousetrap.reset()
      advance(5000)
      let calls = []
      const combos = ['ctrl', 'alt', 'meta', 'ctrl+alt', 'ctrl+shift', 'alt+shift'].flatMap(m => [...'abcdefghijklmnopqrstuvwxyz'].map(c => `${m}+${c}`)).slice(0, when === 'one by one' ? 70 : 156)
      const bindings = combos.map((key, i) => ({ id: `c${i}`, key }))
      const handlers = Object.fromEntries(combos.map((_, i) => [`c${i}`, () => { calls.push(i) }]))
      const app = await justTestApp({ name: 'kb' }).with(osTestGizmoFn({ isMac: () => false })).with(keyboardGizmoFn({ keyBindingContributions: when === 'at start' ? bindings : [] }))
        .with(commandsGizmoFn({ handlers })).with(browserKeyboardGizmo).create()
      const k = app.keyboard.keyBindingContributions
      if (when === 'in one call') k.add(...bindings)
      else if (when === 'one by one') for (const b of bindings) k.add(b)
      const pressAll = want => combos.forEach((key, i) => {
        calls = []
        const mods = key.split('+').slice(0, -1)
        const e = new KeyboardEvent('keydown', { bubbles: true, cancelable: true, ctrlKey: mods.includes('ctrl'), altKey: mods.includes('alt'), shiftKey: mods.includes('shift'), metaKey: mods.includes('meta') })
        Object.defineProperty(e, 'which', { value: key.at(-1).toUpperCase().charCodeAt(0) })
        document.body.dispatchEvent(e)
        T.eq(calls, want(i) ? [i] : [], `commands run by ${key}, one of ${combos.length} bindings added ${when}`)
        T.is(e.defaultPrevented, want(i), `default action of ${key}`)
      })
      pressAll(() => true)
      k.set(d => { for (let i = 0; i < combos.length; i += 2) delete d[`c${i}`] })
      pressAll(i => i % 2 === 1)
      k.reset()
      pressAll(() => when === 'at start')
      T.is(app.log.reporter.logs.filter(e => e.level === logLevels.warn).length, 0, 'warnings')
      T.count('many.bindings')
      T.interesting()
    } }))
  ],
  async run(T, { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, osTestGizmoFn, browserKeyboardGizmo, command, Mousetrap, apple }) {
    Mousetrap.reset()
    timers = []
    advance(5000)
    const mac = T.bool()
    let calls = []
    const target = T.bool(0.7) ? document.body : document
    const fire = (type, which, flags, char) => {
      const e = new KeyboardEvent(type, { bubbles: true, cancelable: true, ctrlKey: flags.includes('ctrl'), altKey: flags.includes('alt'), shiftKey: flags.includes('shift'), metaKey: flags.includes('meta'), key: char ?? '' })
      Object.defineProperty(e, 'which', { value: which })
      Object.defineProperty(e, 'keyCode', { value: which })
      target.dispatchEvent(e)
      return e
    }
    /** what a browser does when a user presses one combination; returns the events */
    function press({ mods, key }) {
      const char = key.length === 1 && mods.length === 0 && (TYPED[key] || key !== key.toLowerCase()) ? key : undefined
      if (char) [mods, key] = [['shift'], TYPED[key] ?? key.toLowerCase()]
      const out = []
      const down = []
      for (const m of mods) { down.push(m); out.push(fire('keydown', MODS[m][1], down, m)) }
      const printable = key.length === 1
      out.push(fire('keydown', CODE[key] ?? key.toUpperCase().charCodeAt(0), mods, key))
      if (printable && !out[out.length - 1].defaultPrevented && !mods.includes('ctrl') && !mods.includes('meta') && !mods.includes('alt')) out.push(fire('keypress', (char ?? (mods.includes('shift') ? SHIFTED[key] ?? key.toUpperCase() : key)).charCodeAt(0), mods, key))
      out.push(fire('keyup', CODE[key] ?? key.toUpperCase().charCodeAt(0), mods, key))
      for (const m of [...mods].reverse()) { down.splice(down.indexOf(m), 1); out.push(fire('keyup', MODS[m][1], down, m)) }
      return out
    }
    // combinations and sequences; first steps of sequences are never combinations of their own
    const letters = T.shuffle([...'abcdefghijklmnopqrstuvwxyz0123456789'])
    const modsets = [['ctrl'], ['meta'], ['alt'], ['ctrl', 'shift'], ['meta', 'shift'], ['ctrl', 'alt'], ['ctrl', 'alt', 'shift'], ['shift'], ['meta', 'ctrl'], ['meta', 'alt', 'shift']]
    const starters = []
    // (sequences that share their first step go on with the same kind of step, see the known finding)
    for (let i = 0; i < 5; i++) starters.push({ mods: T.bool(0.55) ? T.pick(modsets) : [], key: letters[i], kinds: [T.bool(), T.bool()] })
    const upper = letters.slice(31).filter(c => c > '9').map(c => c.toUpperCase())
    const symbol = () => T.bool() ? { mods: [], key: T.pick([...Object.keys(TYPED), ...upper, ...upper.map(c => c.toLowerCase())]) } : { mods: T.pick(modsets.filter(m => !m.includes('shift')).concat([[]])), key: T.pick([...';=,-./`[]', "'"]) }
    const step = typed => typed === undefined && T.bool(0.12) ? symbol() : unshifted(plainStep(typed))
    const unshifted = s => s.key === '+' && s.mods.join() === 'shift' ? { mods: [], key: '+' } : s
    const plainStep = typed => typed ? { mods: [], key: letters[T.range(5, T.byScale(9, 14, 30))] } : typed === false ? { mods: T.pick(modsets), key: letters[T.range(5, T.byScale(9, 14, 30))] } : ({ mods: T.bool(0.6) ? T.pick(modsets) : [], key: T.bool(0.75) ? letters[T.range(5, T.byScale(9, 14, 30))] : T.pick(SPECIAL) })
    const shortcut = () => {
      if (T.bool(0.7)) return [step()]
      const st = T.pick(starters)
      return [st, ...Array.from({ length: T.weighted([[4, 1], [1, 2]]) }, (_, i) => step(st.kinds[i]))]
    }
    const pool = []
    const size = T.range(2, T.byScale(5, 9, 25))
    for (let i = 0; i < 80 && pool.length < size; i++) {
      const s = shortcut()
      // no shortcut may begin another one
      if (pool.some(p => !same(p, s) && (p.every((x, q) => s[q] && canonical(x) === canonical(s[q])) || s.every((x, q) => p[q] && canonical(x) === canonical(p[q]))))) continue
      if (!pool.some(p => same(p, s))) pool.push(s)
      // 'P' and 'p' are two keys
      const twin = s.length === 1 && !s[0].mods.length && /^[A-Z]$/.test(s[0].key) ? [{ mods: [], key: s[0].key.toLowerCase() }] : undefined
      if (twin && T.bool() && !pool.some(p => canonical(p[0]) === canonical(twin[0]))) { pool.push(twin); T.count('same.letter') }
    }
    const MOD = apple ? 'meta' : 'ctrl'
    const spell = s => s.map(({ mods, key }) => [...T.shuffle(mods).map(m => (m === MOD && T.bool(0.15) ? 'mod' : m === 'meta' ? T.weighted([[5, 'cmd'], [1, 'command'], [1, 'meta']]) : m === 'alt' && T.bool(0.3) ? 'option' : m)), key in SPELLED ? T.pick(SPELLED[key]) : key].join('+')).join(T.bool(0.15) ? '  ' : ' ')
    const ids = T.shuffle(['app.open', 'app.close', 'edit.find', 'toString', 'constructor', 'just-web.show', 'x', 'view.zoom', 'é.ü', '', 'go', 'a.b.c', '__proto__']).slice(0, T.range(2, 12))
    let uid = 0
    const spelled = new Map() // binding -> {key, mac} as steps
    const binding = id => {
      const b = { id }
      const f = T.weighted([[4, 'key'], [2, 'mac'], [3, 'both']])
      const m = {}
      if (f !== 'mac') { m.key = T.pick(pool); b.key = spell(m.key) }
      if (f !== 'key') { m.mac = T.pick(pool); b.mac = spell(m.mac) }
      b.n = ++uid
      spelled.set(b, m)
      return b
    }
    const effective = b => { const m = spelled.get(b); return mac ? (m.mac ?? m.key) : m.key }
    // model: bindings by id in registration order
    let model = new Map()
    const load = bs => { model = new Map(bs.map(b => [b.id, b])) }
    const owners = () => {
      const first = []
      const dups = []
      for (const b of model.values()) {
        const e = effective(b)
        if (!e) continue
        if (first.some(o => same(effective(o), e))) dups.push(b)
        else first.push(b)
      }
      return { first, dups }
    }
    const initial = ids.filter(() => T.bool(0.4)).map(binding)
    load(initial)
    T.step(`${mac ? 'mac' : 'pc'}, bindings at start`, initial)
    const sink = {}
    let nextHandler
    // the commands of some bindings have no handler (yet): their keys are taken all the same
    const orphans = new Set(ids.filter(() => T.bool(0.1)))
    for (const id of ids) if (!orphans.has(id)) Object.defineProperty(sink, id, { enumerable: true, value: (...a) => { calls.push({ id, a }); nextHandler?.() } })
    let keyboard
    const app = await justTestApp({ name: 'kb', log: { logLevel: T.pick([logLevels.debug, logLevels.planck]) } })
      .with(osTestGizmoFn({ isMac: () => mac }))
      .with(keyboardGizmoFn({ keyBindingContributions: initial }))
      .with(commandsGizmoFn({ handlers: sink }))
      .with(browserKeyboardGizmo)
      .create()
    keyboard = app.keyboard.keyBindingContributions
    const logs = app.log.reporter.logs
    let oldDups = []
    const warnings = (from, what) => {
      const { dups } = owners()
      const ws = entries(logs, from, logLevels.warn).map(text)
      for (const b of dups) {
        const k = mac ? (b.mac ?? b.key) : b.key
        if (!oldDups.includes(b)) { T.ok(ws.some(w => w.includes(b.id) && w.includes(k)), () => `${what}: no warning names ${b.id} and ${k}, whose key is taken: ${ws}`); T.count('duplicates') }
      }
      T.ok(ws.length <= dups.length, () => `${what}: ${ws.length} warnings for ${dups.length} duplicates: ${ws.join(' / ')}`)
      for (const w of ws) T.ok(dups.some(b => w.includes(b.id) && w.includes(mac ? (b.mac ?? b.key) : b.key)), () => `${what}: unexpected warning ${w}`)
      oldDups = dups
    }
    warnings(0, 'at start')
    const check = (s, what) => {
      const { first } = owners()
      const owner = first.find(b => same(effective(b), s))
      // typing an unbound sequence can contain a bound shortcut
      if (!owner && s.length > 1 && first.some(b => s.some((_, i) => same(s.slice(i, i + effective(b).length), effective(b))))) return
      calls = []
      advance(2000)
      const errors = logs.length
      const evs = []
      for (let i = 0; i < s.length; i++) {
        const before = calls.length
        const e = press(s[i])
        evs.push(e)
        if (i < s.length - 1) { T.is(calls.length - before, 0, `${what}: commands run by step ${i} of ${spell(s)}`); if (T.bool(0.2)) advance(T.range(1, 900)) }
      }
      const orphan = owner && orphans.has(owner.id)
      T.sameList(calls.map(c => c.id), owner && !orphan ? [owner.id] : [], `${what}: commands run by pressing ${spell(s)}`)
      const last = evs[evs.length - 1]
      if (owner) {
        if (orphan) T.count('command.without.handler')
        else T.is(calls[0].a.length, 0, `${what}: arguments of the command`)
        T.is(last.filter(e => e.defaultPrevented).length, 1, `${what}: events of ${spell(s)} with their default action prevented`)
        T.count(s.length > 1 ? 'sequences.pressed' : 'combinations.pressed')
        if (s.some((x, i) => i && x.mods.includes('meta'))) T.count('cmd.in.later.step')
      } else {
        T.is(evs.flat().filter(e => e.defaultPrevented).length, 0, `${what}: events of the unbound ${spell(s)} with their default action prevented`)
        T.count('unbound.pressed')
      }
      if (orphan) T.ok(entries(logs, errors, logLevels.error).some(e => text(e).includes(owner.id)), () => `${what}: no error names the command ${owner.id}, which has no handler`)
      else T.is(entries(logs, errors, logLevels.error).length, 0, `${what}: errors logged by pressing keys`)
    }
    const sweep = what => {
      for (const s of T.shuffle(pool).slice(0, 8)) check(s, what)
      for (let i = 0; i < 2; i++) {
        const s = shortcut()
        if (!pool.some(p => p.length !== s.length ? (p.every((x, q) => s[q] && canonical(x) === canonical(s[q])) || s.every((x, q) => p[q] && canonical(x) === canonical(p[q])) || p.length < s.length) : false)) check(s, `${what} (random combination)`)
      }
      // the beginning of a sequence alone
      const q = T.pick(pool)
      if (q.length > 1 && owners().first.some(b => same(effective(b), q))) { advance(2000); calls = []; for (const x of q.slice(0, -1)) press(x); T.is(calls.length, 0, `${what}: commands run by an incomplete sequence`); T.count('incomplete') }
      advance(2000)
    }
    sweep('at start')
    const steps = T.steps(5, 10, 24)
    for (let k = 0; k < steps; k++) {
      const op = T.weighted([[4, 'add'], [2, 'batch'], [3, 'remove'], [2, 'replace'], [1, 'reset'], [1, 'set'], [1, 'clear'], [1.5, 'connect'], [1, 'inside'], [0.7, 'throws']])
      const free = ids.filter(id => !model.has(id))
      const from = logs.length
      if ((op === 'add' || op === 'connect') && free.length) {
        const b = binding(T.pick(free))
        T.step(op, b)
        if (op === 'add') keyboard.add(b)
        else {
          orphans.delete(b.id); command(b, () => { calls.push({ id: b.id, a: [] }) }).connect(app)
          T.count('connected')
        }
        model.set(b.id, b)
      } else if (op === 'batch' && free.length) {
        const bs = T.shuffle(free).slice(0, T.range(1, 6)).map(binding)
        T.step('add batch', bs)
        keyboard.add(...bs)
        for (const b of bs) model.set(b.id, b)
      } else if (op === 'remove' && model.size) {
        const id = T.pick([...model.keys()])
        T.step('remove', id)
        keyboard.set(d => { delete d[id] })
        model.delete(id)
        T.count('removed')
      } else if (op === 'replace' && model.size) {
        const id = T.pick([...model.keys()])
        const b = binding(id)
        T.step('replace', b)
        keyboard.set(d => { d[id] = b })
        model.set(id, b)
        T.count('replaced')
      } else if (op === 'reset') { T.step('reset()'); keyboard.reset(); load(initial); T.count('reset') } else if (op === 'set' || op === 'clear') {
        const bs = op === 'set' ? ids.filter(() => T.bool(0.5)).map(binding) : []
        const o = Object.create(null)
        for (const b of bs) o[b.id] = b
        T.step('set', bs)
        keyboard.set(o)
        load(bs)
      } else if (op === 'inside') {
        // a command changes the bindings while its key is being handled
        const { first } = owners()
        const one = first.filter(b => effective(b).length === 1)
        if (!one.length) continue
        const b = T.pick(one)
        T.step(`pressing the key of ${b.id} removes its binding`)
        nextHandler = () => { nextHandler = undefined; keyboard.set(d => { delete d[b.id] }) }
        check(effective(b), 'command that removes its own binding')
        const ran = nextHandler === undefined
        nextHandler = undefined
        if (!ran) keyboard.set(d => { delete d[b.id] })
        model.delete(b.id)
        T.count('changed.while.pressed')
      } else if (op === 'throws') {
        const one = owners().first.filter(b => effective(b).length === 1)
        if (!one.length) continue
        const b = T.pick(one)
        T.step(`the command ${b.id} throws`)
        nextHandler = () => { nextHandler = undefined; throw new Error('command') }
        check(effective(b), 'command that throws')
        nextHandler = undefined
        T.count('command.threw')
        continue
      } else continue
      if (op !== 'connect') warnings(from, `after ${op}`)
      else oldDups = owners().dups
      T.count('changes')
      sweep(`after ${op}`)
    }
    if (steps > 2) T.interesting()
  }
}
