import { appLib, entries, NAMES, text } from '../lib/apps.mjs'

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/commands') }
  },
  async run(T, { justTestApp, logLevels, commandsGizmoFn, command }) {
    const pool = T.confuse([...T.shuffle(NAMES).slice(0, 8), ...T.strPool(4)])
    let uid = 0
    const contribution = (id = T.bool(0.9) ? T.pick(pool) : T.str(100)) => {
      const c = { id, n: ++uid }
      if (T.bool(0.4)) c.title = T.pick(['', 'Title', T.str(30)])
      if (T.bool(0.3)) c.description = T.str(30)
      if (T.bool(0.2)) c.commandPalette = false
      if (T.bool(0.2)) c.category = T.str(10)
      if (T.bool(0.2)) c.icon = { light: 'l' }
      return c
    }
    const apps = []
    const texts = new Map() // contribution -> content when it was given
    const gizmos = []
    for (let i = T.range(1, T.byScale(2, 3, 3)); i > 0; i--) {
      const a = { i: apps.length, model: new Map() }
      // the same gizmo can be used for several apps
      const again = gizmos.length && T.bool(0.35) ? T.pick(gizmos) : undefined
      let options = again?.options
      if (again) { for (const c of options ?? []) a.model.set(c.id, c); T.count('gizmo.again') } else if (T.bool(0.4)) {
        options = []
        for (const id of pool.filter(() => T.bool(0.3))) { const c = contribution(id); options.push(c); a.model.set(id, c); texts.set(c, JSON.stringify(c)) }
      }
      const g = again ?? { options, size: options?.length, gizmo: commandsGizmoFn(options ? { contributions: options } : undefined) }
      if (!again) gizmos.push(g)
      a.app = await justTestApp({ name: `app${a.i}` }).with(g.gizmo).create()
      a.logs = a.app.log.reporter.logs
      a.log = []
      a.app.commands.contributions.onChange((v, p) => a.log.push([v, p]))
      apps.push(a)
      T.step(`app ${a.i} ${again ? 'from an earlier gizmo' : ''} with contributions`, options ?? 'none')
    }
    const verify = what => {
      for (const a of apps) {
        const r = a.app.commands.contributions
        const v = r.get()
        T.sameList([...Reflect.ownKeys(v)].sort(), [...a.model.keys()].sort(), `${what}: ids contributed to app ${a.i}`)
        for (const [id, c] of a.model) {
          T.is(v[id], c, `${what}: contribution ${JSON.stringify(id)} of app ${a.i}`)
          T.is(JSON.stringify(v[id]), texts.get(c), `${what}: content of contribution ${JSON.stringify(id)}`)
        }
        for (const id of pool) T.is(r.has(id), a.model.has(id), `${what}: has(${JSON.stringify(id)}) of app ${a.i}`)
        T.is(r.size(), a.model.size, `${what}: size() of app ${a.i}`)
        T.is(r.keys().length, a.model.size, `${what}: keys() of app ${a.i}`)
        T.is(r.values().length, a.model.size, `${what}: values() of app ${a.i}`)
      }
    }
    verify('initially')
    const steps = T.steps(8, 24, 60)
    for (let k = 0; k < steps; k++) {
      const a = T.pick(apps)
      const marks = apps.map(x => x.logs.length)
      const before = a.app.commands.contributions.get()
      a.log.length = 0
      const op = T.weighted([[6, 'add'], [3, 'connect'], [0.6, 'again']])
      if (op === 'add') {
        const n = T.weighted([[4, 1], [3, T.range(2, 5)], [0.6, T.size(150, 8)]])
        const cs = T.bool(0.01) ? Array.from({ length: T.bulk() }, (_, j) => contribution(`bulk ${j}`)) : Array.from({ length: n }, () => (texts.size && T.bool(0.1) ? T.pick([...texts.keys()]) : contribution()))
        if (cs.length > 39 && n < 39) T.count('bulk')
        for (const c of cs) if (!texts.has(c)) texts.set(c, JSON.stringify(c))
        T.step(`app ${a.i} add`, cs.map(c => c.id))
        const dup = []
        let added = 0
        for (const c of cs) if (a.model.has(c.id)) dup.push(c.id); else { a.model.set(c.id, c); added++ }
        a.app.commands.contributions.add(...cs)
        const errs = entries(a.logs, marks[a.i], logLevels.error)
        T.is(errs.length, dup.length, `errors logged for ${dup.length} duplicates of ${n} contributions`)
        dup.forEach((id, i) => T.ok(text(errs[i]).includes(id), () => `error ${i} does not name ${JSON.stringify(id)}: ${text(errs[i])}`))
        T.is(a.log.length, added ? 1 : 0, `notifications when ${added} of ${n} contributions were added`)
        if (!added) T.is(a.app.commands.contributions.get(), before, 'record after duplicates only')
        for (const c of cs) if (!pool.includes(c.id) && pool.length < 40) pool.push(c.id)
        T.count('added', added)
        T.count('duplicates', dup.length)
        if (n > 1 && dup.length) T.count('duplicates.in.batch')
      } else {
        const id = T.pick(pool)
        const withHandler = T.bool(0.7)
        const string = T.bool(0.35)
        const info = contribution(id)
        texts.set(info, JSON.stringify(info))
        const via = withHandler ? T.pick(['constructor', 'connect', 'define']) : 'none'
        const h = () => 1
        const c = via === 'constructor' ? command(string ? id : info, h) : command(string ? id : info)
        if (via === 'define') c.defineHandler(h)
        T.step(`connect ${string ? 'string' : 'info'} command ${JSON.stringify(id)} handler ${via} to app ${a.i}`)
        const known = a.model.has(id)
        if (via === 'connect') c.connect(a.app, h)
        else c.connect(a.app)
        if (!string && withHandler) {
          if (!known) a.model.set(id, info)
          const errs = entries(a.logs, marks[a.i], logLevels.error)
          T.is(errs.length, known ? 1 : 0, `errors logged by connecting ${JSON.stringify(id)}`)
          if (known) T.ok(text(errs[0]).includes(id), 'the error does not name the id')
          T.is(a.log.length, known ? 0 : 1, 'notifications made by connect')
          T.count('connected.contributing')
        } else {
          T.is(a.app.commands.contributions.get(), before, 'record after connecting a command that contributes nothing')
          T.is(entries(a.logs, marks[a.i], logLevels.error).length, 0, 'errors logged by connecting a command that contributes nothing')
          T.count('connected.silent')
        }
        if (op === 'again' && !string && withHandler) { c.connect(a.app); T.count('connected.again') }
      }
      apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, marks[i], `log entries of app ${i} made by app ${a.i}`) })
      verify(`after ${op}`)
    }
    if (steps > 3) T.interesting()
  }
}
