import { clone, isPlain, print, randomEdit } from '../lib/plain.mjs'

export default {
  async setup() {
    const lib = { ...await import('@just-web/app'), ...await import('@just-web/app/testing'), ...await import('@just-web/states') }
    // states created without app log to the process-wide log, which is the first one created: keep it apart
    await lib.justApp({ name: 'process-wide', log: { reporters: [lib.createMemoryLogReporter()] } }).create()
    return lib
  },
  async run(T, { justTestApp, justApp, createMemoryLogReporter, logLevels, statesGizmo, createState, createStore, createRegistry, nothing }) {
    const LEVELS = Object.values(logLevels)
    const apps = []
    const n = T.range(1, T.byScale(2, 3, 5))
    for (let i = 0; i < n; i++) {
      const logLevel = T.bool(0.55) ? logLevels.planck : T.pick(LEVELS)
      const name = T.bool(0.2) && i ? apps[0].name : T.pick(['alpha', 'beta', 'app', 'test', 'x-1'])
      const real = T.bool(0.3)
      const reporter = real ? createMemoryLogReporter() : undefined
      const app = real
        ? await justApp({ name, log: { logLevel, reporters: [reporter] } }).with(statesGizmo).create()
        : await justTestApp({ name, log: { logLevel } }).with(statesGizmo).create()
      apps.push({ i, app, name, logLevel, logs: (reporter ?? app.log.reporter).logs, expected: [] })
      T.step(`app ${i} ${name} level ${logLevel}`)
    }
    const planck = a => a.logs.filter(e => e.level === logLevels.planck)
    const wrap = (kind, made, watched) => {
      if (kind !== 'state') return made
      const [v0, set, onChange, reset] = made
      const s = { cur: v0, get() { return this.cur }, set, reset, onChange }
      if (watched) onChange(v => { s.cur = v })
      else {
        // nobody subscribes: the value is known from what the operations return
        s.set = v => {
          const r = set(v)
          if (r instanceof Promise) return r.then(x => (s.cur = x))
          return (s.cur = r)
        }
        s.reset = () => { reset(); s.cur = v0 }
      }
      return s
    }
    const states = []
    const m = T.range(1, T.byScale(3, 5, 12))
    for (let i = 0; i < m; i++) {
      const a = T.pick(apps)
      const kind = T.pick(['store', 'state', 'registry'])
      const init = kind === 'registry' ? (T.bool(0.3) ? undefined : T.obj(2)) : T.json(2)
      const custom = T.weighted([[5, 'none'], [1.5, 'own'], [1.5, 'other'], [0.7, 'empty'], [0.7, 'leveled']])
      let logger, target = a, id = a.name, level = a.logLevel
      if (custom === 'own') { id = `${a.name}:sub${T.int(3)}`; logger = a.app.log.getLogger(id.slice(a.name.length + 1)); level = logger.level ?? a.logLevel } else if (custom === 'other') { target = T.pick(apps); id = `${target.name}:meta`; logger = target.app.log.getLogger('meta'); level = logger.level ?? target.logLevel } else if (custom === 'leveled') { id = `${a.name}:lv${i}`; level = T.pick(LEVELS); logger = a.app.log.getLogger(`lv${i}`, { level }) }
      const meta = custom === 'none' ? undefined : custom === 'empty' ? {} : { logger }
      const make = { store: 'createStore', state: 'createState', registry: 'createRegistry' }[kind]
      const args = init === undefined ? (meta ? [undefined, meta] : []) : meta ? [init, meta] : [init]
      const before = apps.map(x => planck(x).length)
      const raw = a.app.states[make](...args)
      apps.forEach((x, q) => T.is(planck(x).length, before[q], 'planck entries made by creating a state'))
      const watched = T.bool(0.7)
      // the twin is created directly, from an independent copy
      const twinArgs = init === undefined ? [] : [clone(init)]
      const twin = wrap(kind, { store: createStore, state: createState, registry: createRegistry }[kind](...twinArgs), watched)
      if (kind === 'state') { T.ok(Array.isArray(raw) && raw.length === 4, 'createState gives four elements'); T.is(raw[0], init, 'first element of createState') }
      const s = wrap(kind, raw, watched)
      const st = { i, a, kind, s, twin, target, id, level, calls: [], twinCalls: [] }
      if (watched) {
        s.onChange((v, p) => st.calls.push([v, p]))
        twin.onChange((v, p) => st.twinCalls.push([v, p]))
      } else T.count('unwatched')
      states.push(st)
      T.count(`logger.${custom}`)
      T.step(`#${i} ${kind} of app ${a.i}, logger ${custom} -> ${id} level ${level}`, init)
    }
    const steps = T.steps(8, 24, 80)
    for (let k = 0; k < steps; k++) {
      const st = T.pick(states)
      const { s, twin } = st
      const cur = s.get()
      const p = isPlain(cur)
      const before = apps.map(a => planck(a).length)
      const op = T.weighted([[4, 'set'], [1.5, 'return'], [p ? 4 : 0, 'edit'], [1, 'same'], [1, 'noop'], [1, 'reset'], [0.7, 'throw'], [st.kind === 'registry' ? 0 : 0.5, 'nothing'], [1, 'async'], [0.5, 'subscribe'], [st.kind === 'registry' ? 1.2 : 0, 'named']])
      st.calls.length = st.twinCalls.length = 0
      T.step(`#${st.i} ${op}`)
      const fresh = () => st.kind === 'registry' ? T.bool(0.15) ? { [T.pick(['toString', 'constructor', 'hasOwnProperty'])]: T.json(1) } : { ['k' + k]: T.json(1) } : T.weighted([[3, () => T.json(2)], [1, () => T.any()], [1, () => T.pick([0, '', false, null, NaN])]])()
      if (op === 'set') {
        let v = fresh()
        if (v instanceof Map || typeof v === 'function') v = null
        T.is(s.set(v), v, 'set returns the value'); twin.set(clone(v))
      } else if (op === 'return') { let v = fresh(); if (v === undefined || v instanceof Map || typeof v === 'function') v = null; s.set(() => v); twin.set(() => clone(v)) } else if (op === 'edit') { const e = randomEdit(T, clone(cur)); s.set(d => e.apply(d)); twin.set(d => e.apply(d)) } else if (op === 'same') { s.set(cur); twin.set(twin.get()) } else if (op === 'noop') { s.set(() => {}); twin.set(() => {}) } else if (op === 'reset') { s.reset(); twin.reset() } else if (op === 'nothing') { s.set(() => nothing); twin.set(() => nothing) } else if (op === 'throw') {
        const e = new Error('x')
        T.throws(() => s.set(() => { throw e }), e, 'failing updater')
      } else if (op === 'async') {
        let v = fresh()
        if (v === undefined || v instanceof Map) v = null
        const bad = T.bool(0.2)
        const e = new Error('x')
        const r = await T.settled(s.set(async () => { await null; if (bad) throw e; return v }), 'async set')
        T.is(r.status, bad ? 'rejected' : 'fulfilled', 'outcome of an async set')
        if (!bad) await T.settled(twin.set(async () => clone(v)), 'async set of the twin')
      } else if (op === 'named') {
        // a name that every ordinary object has: whether it is taken is what a registry created directly says
        const key = T.pick(Object.getPrototypeOf(twin.get()) === null ? ['toString', 'constructor', '__proto__', 'valueOf'] : ['toString', 'constructor', 'valueOf'])
        const v = T.pick([{ a: 1 }, 1, [2]])
        const put = d => { if (d[key] === undefined) d[key] = clone(v) }
        s.set(put); twin.set(put)
        T.is(s.has(key), twin.has(key), `has('${key}')`)
        T.count('named')
      } else { s.onChange(() => {}); twin.onChange(() => {}) }
      // behaves like one created directly
      const now = s.get()
      T.is(print(now), print(twin.get()), `${op}: value compared with a state created directly`)
      T.is(st.calls.length, st.twinCalls.length, `${op}: notifications compared with a state created directly`)
      if (st.kind === 'registry') {
        T.sameList(s.keys(), twin.keys(), 'keys()')
        T.is(s.size(), twin.size(), 'size()')
      }
      const changed = !Object.is(now, cur)
      // the log
      const should = changed && st.level >= logLevels.planck ? 1 : 0
      for (const a of apps) {
        const fresh = planck(a).slice(before[a.i])
        const want = a === st.target ? should : 0
        T.is(fresh.length, want, `${op} on a state of app ${st.a.i} (logger ${st.id} of app ${st.target.i}, changed ${changed}): new planck entries of app ${a.i}`)
        for (const e of fresh) {
          T.is(e.id, st.id, `${op}: id of the log entry`)
          T.ok(e.args.some(x => Object.is(x, cur)) && e.args.some(x => Object.is(x, now)), () => `${op}: the log entry does not hold the old and the new value`)
          T.ok(e.args.findIndex(x => Object.is(x, cur)) <= e.args.findLastIndex(x => Object.is(x, now)), 'the old value comes before the new one')
        }
      }
      T.count(changed ? 'changed' : 'unchanged')
      if (should) T.count('logged')
    }
    if (states.length > 1) T.interesting()
  }
}
