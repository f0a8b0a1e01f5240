import { appLib } from '../lib/apps.mjs'

const IDS = ['toString', 'constructor', '__proto__', 'hasOwnProperty', 'a', 'b', 'a:b', 'b:c', 'c', 'a.b', '@just-web/x', 'x y', '0', 'é', '😀', ':', 'console', 'memory', 'info', 'name', 'undefined']
const NAMES = ['app', 'app', 'toString', '__proto__', 'a', 'a:b', 'test', 'é', '😀', 'x y', '0', 'constructor', 'just-web.x', '', 'console', 'standard-log2']

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/log') }
  },
  async run(T, { justApp, justTestApp, logLevels, createMemoryLogReporter, createConsoleLogReporter, createPrefixedGetLogger, createPrefixedGetNonConsoleLogger, processWide }) {
    const builtin = Object.keys(logLevels).filter(k => k !== 'none' && k !== 'all')
    const apps = []
    processWide.logs.length = 0
    const shared = T.bool(0.2) ? { logLevel: logLevels.debug } : undefined // log options used for several apps
    // which may name reporters: those are given to all of these apps, while each app's own stay its own
    const common = shared && T.bool() ? Array.from({ length: T.range(0, 2) }, (_, i) => ({ r: createMemoryLogReporter({ id: `common${i}` }), console: false, want: [], get logs() { return this.r.logs } })) : undefined
    if (common) shared.reporters = common.map(x => x.r)
    const sharedBefore = shared && { ...shared, reporters: shared.reporters?.slice() }
    async function create() {
      const a = { n: apps.length, name: T.pick(NAMES), kind: T.pick(['app', 'test']), reporters: [], loggers: new Map() }
      const custom = T.bool(0.4) ? Object.fromEntries(T.shuffle([['fancy', 650], ['audit', 350], ['deep', 1250], ['urgent', 150], ['x-1', 725], ['toString', 350], ['valueOf', 650], ['hasOwnProperty', 1250]]).slice(0, T.range(1, 3))) : undefined
      const level = T.weighted([[3, undefined], [1, T.pick(Object.values(logLevels))], [1, T.pick([450, 650, 701, 0])]])
      const add = (r, console) => { const x = { r, console, want: [], get logs() { return r.logs ?? r.seen } }; a.reporters.push(x) }
      const own = a.kind === 'app' ? !(common?.length && T.bool()) : T.bool()
      if (own) {
        for (let i = T.range(1, 3); i > 0; i--) add(createMemoryLogReporter({ id: `m${i}` }), false)
        if (T.bool(0.4)) add({ id: 'console', isConsoleReporter: true, seen: [], write(e) { this.seen.push(e) } }, true)
        if (T.bool(0.2)) {
          // the real console reporter on a console that only counts
          const seen = []
          const c = Object.fromEntries(['debug', 'info', 'warn', 'error', 'log'].map(m => [m, (...args) => seen.push(args)]))
          add({ ...createConsoleLogReporter({ id: 'real-console' }), console: c }, true)
          a.reporters[a.reporters.length - 1].console = true
          Object.defineProperty(a.reporters[a.reporters.length - 1], 'logs', { get: () => seen })
          a.reporters[a.reporters.length - 1].lines = true
        }
        a.reporters = T.shuffle(a.reporters)
      }
      const useShared = shared && !own && (!custom || a.kind === 'app')
      if (useShared && custom) for (const k of Object.keys(custom)) delete custom[k]
      const log = useShared ? shared : { ...(own ? { reporters: a.reporters.map(x => x.r) } : {}), ...(level === undefined ? {} : { logLevel: level }), ...(custom ? { customLevels: custom } : {}) }
      if (useShared) {
        T.count('shared.options')
        if (common?.length) a.reporters.push(...common)
        if (common) T.count('shared.reporters')
      }
      const given = Object.keys(log).length
      T.step('create', a.n, a.kind, JSON.stringify(a.name), 'level', useShared ? 'shared options' : level ?? 'default', 'custom', custom ?? 'none', `${a.reporters.length} reporters`)
      a.app = await (a.kind === 'app' ? justApp : justTestApp)({ name: a.name, ...(given ? { log } : {}) }).create()
      if (a.kind === 'test') {
        T.ok(a.app.log.reporter !== undefined, 'a test app has a memory reporter')
        const r = a.app.log.reporter
        if (!a.reporters.some(x => x.r === r)) { a.reporters.push({ r, console: false, want: [], logs: r.logs }) }
      }
      a.level = useShared ? logLevels.debug : level ?? (a.kind === 'app' ? logLevels.info : logLevels.debug)
      a.custom = custom ?? {}
      T.is(a.app.log.logLevel, a.level, 'log.logLevel')
      for (const x of a.reporters) x.base = x.logs.length
      if (shared) {
        T.is(shared.logLevel, sharedBefore.logLevel, 'level in the log options given')
        T.ok(shared.reporters === undefined === (sharedBefore.reporters === undefined), 'the log options given were changed')
        if (common) T.sameList(shared.reporters, sharedBefore.reporters, 'reporters in the log options given')
      }
      a.loggers.set(a.name, { id: a.name, level: undefined, nonConsole: false })
      apps.push(a)
      verify('after creation')
      return a
    }
    const levelsOf = a => [...builtin.map(m => [m, logLevels[m]]), ...Object.entries(a.custom)]
    function expect(a, info, level, args) {
      if (level > (info.level ?? a.level)) { T.count('dropped'); return }
      for (const x of a.reporters) if (!(info.nonConsole && x.console)) x.want.push({ id: info.id, level, args })
      T.count('kept')
    }
    function verify(what) {
      for (const a of apps) for (const x of a.reporters) {
        const got = x.logs.slice(x.base)
        if (x.lines) { T.is(got.length, x.want.length, `lines on the console of app ${a.n} ${what}`); x.base = x.logs.length; x.want.length = 0; continue }
        T.is(got.length, x.want.length, `entries at reporter '${x.r.id}' of app ${a.n} ${what}`)
        got.forEach((e, i) => {
          const w = x.want[i]
          T.is(e.id, w.id, `logger id of an entry of app ${a.n} ${what}`)
          T.is(e.level, w.level, `level of an entry of app ${a.n} ${what}`)
          T.sameList(e.args, w.args, `arguments of an entry of app ${a.n} ${what}`)
        })
        x.base = x.logs.length
        x.want.length = 0
      }
      T.is(processWide.logs.length, 0, `entries in the log of another app of this process ${what}`)
    }
    function logger(a) {
      // (also ids that look as if they were prefixed already)
      const id = T.bool(0.12) ? `${a.name}:${T.pick(IDS)}` : T.bool(0.85) ? T.pick(IDS) : T.str(40).replace(/[`~!#$%^&*()=+[\]{},|<>?]/g, '_') || 'x'
      const prefix = T.pick(['p', 'a', '@just-web/p', 'toString', '__proto__'])
      const level = T.bool(0.15) ? T.pick([logLevels.error, logLevels.trace, logLevels.none]) : undefined
      const opts = level === undefined ? T.pick([undefined, {}]) : { level }
      const how = T.weighted([[2, 'app'], [3, 'getLogger'], [0.5, 'getLogger()'], [2, 'prefixed'], [0.7, 'prefix only'], [2, 'nonConsole'], [1, 'prefixed nonConsole'], [0.5, 'prefix only nonConsole']])
      const full = { app: a.name, getLogger: `${a.name}:${id}`, 'getLogger()': a.name, prefixed: `${a.name}:${prefix}:${id}`, 'prefix only': `${a.name}:${prefix}`, nonConsole: `${a.name}:${id}-nc`, 'prefixed nonConsole': `${a.name}:nc-${prefix}:${id}`, 'prefix only nonConsole': `${a.name}:nc-${prefix}` }[how]
      const L = {
        app: () => a.app.log, getLogger: () => a.app.log.getLogger(id, opts), 'getLogger()': () => a.app.log.getLogger(),
        prefixed: () => createPrefixedGetLogger(a.app, prefix)(id, opts), 'prefix only': () => createPrefixedGetLogger(a.app, prefix)('', opts),
        nonConsole: () => a.app.log.getNonConsoleLogger(`${id}-nc`, opts), 'prefixed nonConsole': () => createPrefixedGetNonConsoleLogger(a.app, `nc-${prefix}`)(id, opts), 'prefix only nonConsole': () => createPrefixedGetNonConsoleLogger(a.app, `nc-${prefix}`)('', opts)
      }[how]()
      if (!a.loggers.has(full)) a.loggers.set(full, { id: full, level: how === 'app' || how === 'getLogger()' ? undefined : level, nonConsole: how.includes('onConsole') })
      T.count(`by.${how.replace(/\W/g, '')}`)
      return { L, info: a.loggers.get(full), how }
    }
    for (let i = T.range(1, 3); i > 0; i--) await create()
    const steps = T.steps(10, 30, 100)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      if (T.bool(0.03) && apps.length < 7) { await create(); continue }
      const { L, info, how } = logger(a)
      const [m, level] = T.pick(levelsOf(a))
      const args = Array.from({ length: T.weighted([[1, 0], [5, 1], [3, 2], [1, 6]]) }, () => T.any())
      const op = T.weighted([[9, 'log'], [1, 'on'], [0.5, 'count'], [0.4, 'level']])
      T.step(op, a.n, how, info.id, m, `${args.length} arguments`)
      if (op === 'log') {
        T.is(typeof L[m], 'function', `method ${m} of ${how} '${info.id}'`)
        if (T.bool(0.2)) { const f = L[m]; f(...args) } else L[m](...args)
        if (a.custom[m]) T.count('custom')
        expect(a, info, level, args)
      } else if (op === 'on') {
        if (info.nonConsole && !a.reporters.some(x => !x.console)) continue
        const form = T.pick(['number', 'name'])
        const inside = T.any()
        const ret = T.bool() ? T.pick(['text', 0, undefined, '', { a: 1 }]) : undefined
        let calls = 0
        L.on(form === 'number' ? level : m, log => { calls++; log(inside); return ret })
        const on = level <= (info.level ?? a.level)
        T.is(calls, on ? 1 : 0, `calls of the function given to on('${m}')`)
        if (on) { expect(a, info, level, [inside]); if (ret) expect(a, info, level, [ret]) }
        T.count('on')
      } else if (op === 'count') {
        const on = logLevels.debug <= (info.level ?? a.level)
        if (on) info.counter = (info.counter ?? 0) + 1
        L.count(...args)
        // the number counts the calls; whether dropped calls count is left open
        if (on) { const x = a.reporters.find(x => !x.lines && !(info.nonConsole && x.console)); const e = x?.logs[x.logs.length - 1]; expect(a, info, logLevels.debug, [e?.args[0], ...args]) }
        T.count('count')
      } else if (how !== 'app') {
        const l = T.pick([undefined, logLevels.trace, logLevels.error, logLevels.none])
        if (info.nonConsole && !a.reporters.some(x => !x.console)) continue
        L.level = l
        info.level = l
        T.count('level.changed')
      }
      verify('after the step')
    }
    T.interesting()
  }
}
