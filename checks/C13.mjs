import { appLib, entries, NAMES, text } from '../lib/apps.mjs'

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/os/testing') }
  },
  async run(T, { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, command, formatKeyBinding, osTestGizmoFn }) {
    const pool = T.confuse([...T.shuffle(NAMES).slice(0, 7), ...T.strPool(4)])
    const KEYS = ['ctrl+k', 'cmd+k', 'g i', '?', 'ctrl+shift+p', 'a', '', '+', 'cmd+k cmd+s', '😀']
    let uid = 0
    const binding = (id = T.bool(0.9) ? T.pick(pool) : T.str(80)) => {
      const b = { id, n: ++uid }
      const f = T.weighted([[3, 'key'], [2, 'mac'], [3, 'both']])
      if (f !== 'mac') b.key = T.bool(0.9) ? T.pick(KEYS) : T.str(20)
      if (f !== 'key') b.mac = T.bool(0.9) ? T.pick(KEYS) : T.str(20)
      return b
    }
    const texts = new Map()
    const apps = []
    const gizmos = []
    for (let i = T.range(1, 3); i > 0; i--) {
      const a = { i: apps.length, model: new Map(), mac: T.bool() }
      const hasKeyboard = apps.length === 0 || T.bool(0.75)
      // the same gizmo can be used for several apps
      const again = hasKeyboard && gizmos.length && T.bool(0.35) ? T.pick(gizmos) : undefined
      let options = again?.options
      if (again) { for (const b of options ?? []) a.model.set(b.id, b); T.count('gizmo.again') } else if (hasKeyboard && T.bool(0.4)) {
        options = []
        for (const id of pool.filter(() => T.bool(0.3))) { const b = binding(id); options.push(b); a.model.set(id, b); texts.set(b, JSON.stringify(b)) }
      }
      let b = justTestApp({ name: `app${a.i}` }).with(osTestGizmoFn({ isMac: () => a.mac }))
      if (hasKeyboard) {
        const g = again ?? { options, gizmo: keyboardGizmoFn(options ? { keyBindingContributions: options } : undefined) }
        if (!again) gizmos.push(g)
        b = b.with(g.gizmo)
      }
      a.app = await b.with(commandsGizmoFn()).create()
      a.logs = a.app.log.reporter.logs
      a.r = hasKeyboard ? a.app.keyboard.keyBindingContributions : undefined
      a.log = []
      a.r?.onChange((v, p) => a.log.push([v, p]))
      apps.push(a)
      T.step(`app ${a.i} ${hasKeyboard ? '' : 'without keyboard'} ${a.mac ? 'mac' : ''}`, options ?? 'none')
    }
    const verify = what => {
      for (const a of apps) {
        if (!a.r) continue
        const v = a.r.get()
        T.sameList([...Reflect.ownKeys(v)].sort(), [...a.model.keys()].sort(), `${what}: bound ids of app ${a.i}`)
        for (const [id, b] of a.model) { T.is(v[id], b, `${what}: binding of ${JSON.stringify(id)} in app ${a.i}`); T.is(JSON.stringify(v[id]), texts.get(b), `${what}: content of the binding of ${JSON.stringify(id)}`) }
        T.is(a.r.size(), a.model.size, `${what}: size()`)
        T.is(a.r.keys().length, a.model.size, `${what}: keys()`)
        for (const id of pool) T.is(a.r.has(id), a.model.has(id), `${what}: has(${JSON.stringify(id)})`)
      }
    }
    verify('initially')
    const steps = T.steps(8, 24, 60)
    for (let k = 0; k < steps; k++) {
      const op = T.weighted([[5, 'add'], [4, 'connect'], [3, 'format']])
      const a = op === 'add' ? T.pick(apps.filter(x => x.r)) : T.pick(apps)
      const marks = apps.map(x => x.logs.length)
      const before = a.r?.get()
      a.log.length = 0
      if (op === 'add') {
        const n = T.weighted([[4, 1], [3, T.range(2, 5)], [0.6, T.size(120, 8)]])
        const bs = T.bool(0.01) ? Array.from({ length: T.bulk() }, (_, j) => binding(`bulk ${j}`)) : Array.from({ length: n }, () => (texts.size && T.bool(0.1) ? T.pick([...texts.keys()]) : binding()))
        if (bs.length > 39 && n < 39) T.count('bulk')
        for (const b of bs) if (!texts.has(b)) texts.set(b, JSON.stringify(b))
        T.step(`app ${a.i} add`, bs)
        const dup = []
        let added = 0
        for (const b of bs) if (a.model.has(b.id)) dup.push(b.id); else { a.model.set(b.id, b); added++ }
        a.r.add(...bs)
        const warns = entries(a.logs, marks[a.i], logLevels.warn)
        T.is(warns.length, dup.length, `warnings logged for ${dup.length} duplicates of ${n} bindings`)
        dup.forEach((id, i) => T.ok(text(warns[i]).includes(id), () => `warning ${i} does not name ${JSON.stringify(id)}: ${text(warns[i])}`))
        T.is(a.log.length, added ? 1 : 0, `notifications when ${added} of ${n} bindings were added`)
        if (!added) T.is(a.r.get(), before, 'record after duplicates only')
        T.count('added', added)
        T.count('duplicates', dup.length)
        for (const b of bs) if (!pool.includes(b.id) && pool.length < 40) pool.push(b.id)
      } else if (op === 'connect') {
        const id = T.pick(pool)
        const info = T.bool(0.75) ? binding(id) : T.pick([{ id, n: ++uid, title: 't' }, { id, n: ++uid, key: undefined }, { id, n: ++uid, mac: undefined, key: undefined, title: 't' }])
        texts.set(info, JSON.stringify(info))
        const string = T.bool(0.2)
        const via = T.weighted([[2, 'constructor'], [2, 'connect'], [1, 'define'], [1.5, 'none']])
        const h = () => 1
        const c = via === 'constructor' ? command(string ? id : info, h) : command(string ? id : info)
        if (via === 'define') c.defineHandler(h)
        T.step(`connect ${string ? 'string' : 'info'} command`, info, `handler ${via} to app ${a.i}`)
        const known = a.model.has(id)
        if (via === 'connect') c.connect(a.app, h)
        else c.connect(a.app)
        const bound = !string && via !== 'none' && (info.key || info.mac)
        const empty = !string && via !== 'none' && !bound && (info.key === '' || info.mac === '') // an empty key: either way is fine
        if (empty && a.r) {
          if (!known && a.r.has(id)) a.model.set(id, info)
        } else if (bound && a.r) {
          if (!known) a.model.set(id, info)
          T.is(a.log.length, known ? 0 : 1, 'notifications made by connect')
          const warns = entries(a.logs, marks[a.i], logLevels.warn)
          T.is(warns.length, known ? 1 : 0, `warnings logged by connecting ${JSON.stringify(id)}`)
          T.count('connected.binding')
        } else {
          if (a.r) T.is(a.r.get(), before, 'bindings after connecting a command that has none')
          T.is(entries(a.logs, marks[a.i], logLevels.warn).length, 0, 'warnings logged by connecting a command that binds nothing')
          T.count('connected.no.binding')
          if (!a.r && bound) T.count('connected.without.keyboard')
        }
      } else {
        const b = a.model.size && T.bool(0.6) ? T.pick([...a.model.values()]) : binding()
        const before = JSON.stringify(b)
        if (T.bool(0.3)) a.mac = !a.mac // asked every time
        T.step(`formatKeyBinding mac=${a.mac}`, b)
        const f = formatKeyBinding(a.app, b)
        T.is(f.id, b.id, 'id of the formatted binding')
        T.is(f.key, a.mac && b.mac !== undefined ? b.mac : b.key, `key of the formatted binding on a ${a.mac ? 'Mac' : 'PC'}`)
        T.is(JSON.stringify(b), before, 'binding after formatKeyBinding')
        T.count(a.mac ? 'formatted.mac' : 'formatted.other')
      }
      apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, marks[i], `log entries of app ${i} made by app ${a.i}`) })
      verify(`after ${op}`)
    }
    if (steps > 3) T.interesting()
  }
}
