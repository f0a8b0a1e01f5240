import { appLib, NAMES, text } from '../lib/apps.mjs'
import { micro, turn } from '../lib/case.mjs'

export default {
  setup: appLib,
  async run(T, { justApp, justTestApp, createMemoryLogReporter, define, logLevels }) {
    const MEMBERS = ['a', 'b', 'c', 'foo', 'toString', 'then2', 'constructor', 'x y', '0', 'é', 'info', 'create']
    const ANNOUNCE = /^created \(id: (.*)\)$/
    const level = T.weighted([[5, undefined], [1, logLevels.info], [1, logLevels.trace], [1, logLevels.error], [0.5, logLevels.none]])
    const announced = level === undefined || level >= logLevels.info
    const kind = T.pick(['app', 'test', 'test'])
    const reporter = createMemoryLogReporter()
    // a name that log ids can carry as it is
    const given = kind === 'app' || T.bool(0.9)
    const name = !given ? 'test' : T.bool(0.7) ? T.pick(['app', 'a.b', 'toString', 'x-y', 'é']) : T.pick(NAMES)
    const own = kind === 'app' || T.bool()
    const log = { ...(own ? { reporters: [reporter] } : {}), ...(level === undefined ? {} : { logLevel: level }) }
    const options = { ...(given ? { name } : {}), ...(Object.keys(log).length ? { log } : {}) }
    const boom = T.weighted([[4, () => new Error('boom')], [1, () => 'text'], [1, () => new TypeError('t')], [1, () => T.pick([undefined, null, 0, '', false, NaN, Object.freeze({}), { status: 'fulfilled' }, () => {}, Symbol('why')])]])()
    // the plan: what each gizmo does on each creation
    const plan = Array.from({ length: T.range(0, T.byScale(4, 7, 20)) }, (_, i) => ({
      i, form: T.weighted([[6, 'object'], [2, 'tuple'], [3, 'tuple+start'], [2, 'nothing'], [1.5, 'merge']]),
      wait: T.weighted([[3, 0], [2, 1], [1, 2]]), members: T.shuffle(MEMBERS).slice(0, T.range(0, 3)), logs: T.bool(0.3), startWait: T.int(3), closer: T.bool(0.3),
      override: T.bool(0.04) ? T.pick(['custom', 'incompatible', 'undefined']) : undefined, sync: T.bool(0.3), keepInfo: T.bool()
    }))
    const startForm = T.weighted([[2, undefined], [2, 'sync'], [2, 'async']])
    const initForm = T.weighted([[3, undefined], [1, 'sync'], [1, 'async']])
    const creations = T.weighted([[5, 1], [2, 2], [1, 4]])
    const concurrent = creations > 1 && T.bool()
    // who fails, and at what
    const steps = [...plan.filter(p => p.form !== 'merge').map(p => ({ p, at: 'create' })), ...plan.filter(p => p.form === 'tuple+start').map(p => ({ p, at: 'gizmo start' })), ...(startForm ? [{ at: 'start' }] : []), ...(initForm ? [{ at: 'init' }] : [])]
    const failing = steps.length && T.bool(0.3) ? T.pick(steps) : undefined
    const fails = (p, at) => failing && failing.p === p && failing.at === at
    T.step(kind, 'named', JSON.stringify(name), `${plan.length} gizmos`, `${creations} creations${concurrent ? ' at once' : ''}`, failing ? `failing: ${failing.at} ${failing.p?.i ?? ''}` : '', 'level', level ?? 'default')
    for (const p of plan) T.step(' gizmo', p.i, p.form, p.members.join(','), p.override ? `log: ${p.override}` : '')
    const runs = []
    let current // the run whose creation is executing (only when not concurrent)
    const byId = new Map() // concurrent runs are told apart by the context object
    const runOf = ctx => (concurrent ? (byId.get(ctx) ?? (byId.set(ctx, newRun()), byId.get(ctx))) : current)
    function newRun() { const r = { events: [], values: new Map(), customLogs: [] }; runs.push(r); return r }
    const pause = async n => { if (n === 1) await micro(2); else if (n === 2) await turn() }
    const valueOf = (r, p) => {
      const v = {}
      for (const m of p.members) v[m] = { from: p.i, run: r }
      if (p.override === 'custom') v.log = { info: (...args) => { r.events.push(['log', args]); r.customLogs.push(args) } }
      // an instance of a class: its methods are inherited
      if (p.override === 'custom' && p.keepInfo) v.log = new class { #own = v.log; info(...args) { this.#own.info(...args) } }()
      if (p.override === 'incompatible') v.log = { error() {} }
      if (p.override === 'undefined') v.log = undefined
      return v
    }
    function look(ctx, r, p, what) {
      // members provided so far by earlier gizmos, later ones replacing earlier ones
      for (const [m, v] of r.values) if (m !== 'log') T.is(ctx[m], v, `${what}: member ${JSON.stringify(m)}`)
      for (const m of MEMBERS) if (!r.values.has(m)) T.ok(!Object.prototype.hasOwnProperty.call(ctx, m), () => `${what}: member ${JSON.stringify(m)} is there before anybody provides it`)
      T.is(ctx.name, name, `${what}: name`)
      T.is(typeof ctx.id, 'string', `${what}: type of id`)
      if (r.id !== undefined) T.is(ctx.id, r.id, `${what}: id`)
      r.id = ctx.id
    }
    let b = kind === 'app' ? justApp(options) : justTestApp(!given && !Object.keys(options).length && T.bool() ? undefined : options)
    for (const p of plan) {
      if (p.form === 'merge') {
        const v = {}
        for (const m of p.members) v[m] = { from: p.i, merged: true }
        p.merged = v
        b = b.merge(v)
        continue
      }
      const create = ctx => {
        const r = runOf(ctx)
        for (let k = 0; k < p.i; k++) if (plan[k].form === 'merge') for (const [m, v] of Object.entries(plan[k].merged)) if (!r.merged?.has(k)) r.values.set(m, v)
        r.merged ??= new Set()
        for (let k = 0; k < p.i; k++) if (plan[k].form === 'merge') r.merged.add(k)
        look(ctx, r, p, `creation of gizmo ${p.i}`)
        r.events.push(['create', p.i])
        if (p.logs && typeof ctx.log?.info === 'function' && !r.values.has('log')) ctx.log.info(`gizmo ${p.i} says hello`)
        return r
      }
      const done = r => {
        r.events.push(['created', p.i])
        const v = valueOf(r, p)
        if (p.form !== 'nothing') for (const [m, x] of Object.entries(v)) r.values.set(m, x)
        if (p.form === 'nothing') return undefined
        if (p.form === 'object') return v
        if (p.form === 'tuple') return [v]
        return [v, T.bool() ? () => {
          r.events.push(['gizmo start', p.i])
          if (fails(p, 'gizmo start')) throw boom
          return p.closer ? () => {} : undefined
        } : async () => {
          r.events.push(['gizmo start', p.i])
          await pause(p.startWait)
          if (fails(p, 'gizmo start')) throw boom
          return p.closer ? () => {} : undefined
        }]
      }
      b = b.with(define({ static: define.require(), ...(p.sync
        ? { create(ctx) { const r = create(ctx); if (fails(p, 'create')) throw boom; return done(r) } }
        : { async create(ctx) { const r = create(ctx); await pause(p.wait); if (fails(p, 'create')) throw boom; return done(r) } }) }))
    }
    const complete = (app, r, what) => {
      for (const p of plan) if (p.form === 'merge' && !r.merged?.has(p.i)) { (r.merged ??= new Set()).add(p.i); for (const [m, v] of Object.entries(p.merged)) r.values.set(m, v) }
      look(app, r, undefined, what)
    }
    if (initForm) b = b.init(initForm === 'sync' ? app => { const r = runOf(app); r.events.push(['init']); complete(app, r, 'init function'); if (fails(undefined, 'init')) throw boom } : async app => { const r = runOf(app); r.events.push(['init']); complete(app, r, 'init function'); await pause(1); if (fails(undefined, 'init')) throw boom })
    const start = startForm && (startForm === 'sync' ? app => { const r = runOf(app); r.events.push(['start']); complete(app, r, 'start function'); if (fails(undefined, 'start')) throw boom } : async app => { const r = runOf(app); r.events.push(['start']); complete(app, r, 'start function'); await pause(2); if (fails(undefined, 'start')) throw boom; r.events.push(['start done']) })
    const announcements = logs => logs.filter(e => ANNOUNCE.test(text(e)))
    const logsOf = app => (own ? reporter.logs : app?.log?.reporter?.logs)
    const lastLog = plan.filter(p => p.override && p.form !== 'nothing' && p.form !== 'merge').map(p => p.override).pop()
    function settled(outcome, r, from) {
      if (failing) {
        T.is(outcome.status, 'rejected', `outcome of create() with a failing ${failing.at}`)
        T.is(outcome.reason, boom, `what create() rejected with`)
        T.is(announcements(reporter.logs.slice(from)).length, 0, 'announcements of an app whose creation failed')
        T.is(r?.customLogs.filter(a => ANNOUNCE.test(String(a[0]))).length ?? 0, 0, 'announcements of an app whose creation failed')
        T.count(`failed.${failing.at.replace(' ', '.')}`)
        return
      }
      if (outcome.status === 'rejected') throw outcome.reason
      const app = outcome.value
      if (!r) return
      complete(app, r, 'created app')
      // once each and in order
      const order = r.events.filter(e => e[0] === 'create').map(e => e[1])
      T.eq(order, plan.filter(p => p.form !== 'merge').map(p => p.i), 'order of creation')
      T.eq(r.events.filter(e => e[0] === 'created' || e[0] === 'create').map(e => e[1]), plan.filter(p => p.form !== 'merge').flatMap(p => [p.i, p.i]), 'creation of each gizmo before the next')
      const starts = r.events.filter(e => e[0] === 'gizmo start').map(e => e[1])
      T.eq([...starts].sort((x, y) => x - y), plan.filter(p => p.form === 'tuple+start').map(p => p.i), 'gizmos started')
      for (const i of starts) T.ok(r.events.findIndex(e => e[0] === 'gizmo start' && e[1] === i) > r.events.findIndex(e => e[0] === 'created' && e[1] === i), `gizmo ${i} started before it was created`)
      const at = what => r.events.findIndex(e => e[0] === what)
      const lastGizmo = r.events.findLastIndex(e => ['created', 'gizmo start'].includes(e[0]))
      if (initForm) { T.is(r.events.filter(e => e[0] === 'init').length, 1, 'runs of the init function'); T.ok(at('init') > lastGizmo, 'the init function runs after all gizmos') }
      if (startForm) { T.is(r.events.filter(e => e[0] === 'start').length, 1, 'runs of the start function'); T.ok(at('start') > lastGizmo && at('start') > at('init'), 'the start function runs last') }
      if (lastLog === 'custom') {
        const said = r.customLogs.filter(a => ANNOUNCE.test(String(a[0])))
        T.is(said.length, 1, 'announcements through the log of a gizmo')
        T.is(ANNOUNCE.exec(String(said[0][0]))[1], app.id, 'id announced')
        T.ok(r.events[r.events.length - 1][0] === 'log', 'the announcement comes last')
        T.count('announced.custom')
      } else if (!lastLog || own) {
        const logs = logsOf(app).slice(own ? from : 0)
        const said = announcements(logs).filter(e => ANNOUNCE.exec(text(e))[1] === app.id)
        T.is(said.length, announced ? 1 : 0, `announcements of app ${app.id} (level ${level})`)
        if (announced) {
          T.is(said[0].level, logLevels.info, 'level of the announcement')
          if (/^[\w.é-]+$/.test(name)) T.is(said[0].id, name, 'logger id of the announcement')
          if (!concurrent) T.is(logs[logs.length - 1], said[0], 'the announcement is the last entry of the creation')
          T.count(lastLog ? 'announced.internally' : 'announced')
        } else T.count('level.below.info')
        if (!concurrent) T.is(announcements(logs).length, announced ? 1 : 0, 'announcements')
      }
    }
    if (concurrent) {
      const from = reporter.logs.length
      const outcomes = await Promise.all(Array.from({ length: creations }, () => T.settled(start ? b.create(start) : b.create(), 'create()', 400)))
      for (const o of outcomes) settled(o, o.status === 'fulfilled' ? byId.get(o.value) : undefined, from)
      if (!failing && plan.some(p => p.form !== 'merge')) T.is(byId.size, creations, 'creations seen by the gizmos')
      T.count('concurrent')
    } else for (let k = 0; k < creations; k++) {
      const from = reporter.logs.length
      if (k) T.step('creation', k + 1)
      current = newRun()
      settled(await T.settled(start ? b.create(start) : b.create(), 'create()', 400), current, from)
      if (k) T.count('created.again')
    }
    if (plan.length > 1) T.interesting()
  }
}
