import { appLib, entries, NAMES, text } from '../lib/apps.mjs'

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/commands'), ...await import('@just-web/keyboard') }
  },
  async run(T, { justTestApp, logLevels, commandsGizmoFn, keyboardGizmoFn, command, processWide }) {
    let uid = 0
    let calls = []
    const mk = () => {
      const h = { n: ++uid, mode: T.weighted([[5, 'value'], [1.5, 'throw'], [1, 'async']]), result: T.any(), err: T.pick([new Error('x'), 0, undefined, 'e']) }
      h.fn = (...args) => {
        calls.push({ h, args })
        if (h.mode === 'throw') throw h.err
        return h.mode === 'async' ? (h.promise = Promise.resolve(h.result)) : h.result
      }
      return h
    }
    const apps = []
    const gizmo = commandsGizmoFn()
    for (let i = T.range(1, 3); i > 0; i--) {
      let b = justTestApp({ name: `app${apps.length}` })
      if (T.bool(0.5)) b = b.with(keyboardGizmoFn())
      const app = await b.with(T.bool(0.4) ? gizmo : commandsGizmoFn()).create()
      apps.push({ i: apps.length, app, logs: app.log.reporter.logs, reg: new Map() })
    }
    const ids = T.shuffle(T.confuse([...T.shuffle(NAMES).slice(0, 4), ...T.strPool(3)]))
    const cmds = []
    for (let i = T.range(1, T.byScale(2, 4, 6)); i > 0; i--) {
      const id = T.pick(ids)
      const h = T.bool(0.5) ? mk() : undefined
      const obj = T.bool(0.6)
      const info = { id }
      if (obj) {
        if (T.bool()) info.title = T.str(40)
        if (T.bool()) info.description = T.str(40)
        if (T.bool(0.3)) info.commandPalette = false
        if (T.bool(0.3)) info.category = T.str(20)
        if (T.bool(0.3)) info.icon = { light: 'l', dark: 'd' }
        if (T.bool(0.4)) info.key = 'ctrl+k'
        if (T.bool(0.3)) info.mac = 'cmd+k'
      }
      const before = JSON.stringify(info)
      const fn = h ? command(obj ? info : id, h.fn) : command(obj ? info : id)
      const c = { n: cmds.length, id, obj, info, fn, h, ctx: undefined, text: before }
      cmds.push(c)
      T.step(`c${c.n} = command(${before}, ${h ? `h${h.n}` : 'no handler'})`)
    }
    const shape = c => {
      T.is(typeof c.fn, 'function', `c${c.n} is a function`)
      T.is(c.fn.name, c.id, `name of c${c.n}`)
      T.is(c.fn.id, c.id, `id of c${c.n}`)
      for (const [k, v] of Object.entries(c.info)) T.is(c.fn[k], v, `field ${k} of c${c.n}`)
      T.is(JSON.stringify(c.info), c.text, `info given to c${c.n} afterwards`)
    }
    cmds.forEach(shape)
    const steps = T.steps(10, 30, 100)
    for (let k = 0; k < steps; k++) {
      const c = T.pick(cmds)
      const op = T.weighted([[6, 'call'], [2, 'connect'], [1, 'connect-h'], [2, 'define'], [1.5, 'register'], [1, 'invoke']])
      calls = []
      const marks = apps.map(a => a.logs.length)
      const global = processWide.logs.length
      const args = Array.from({ length: T.range(0, 4) }, () => T.any())
      if (op === 'call' || op === 'invoke') {
        const a = op === 'invoke' ? T.pick(apps) : c.ctx
        const target = a ? a.reg.get(c.id) : c.h
        T.step(`${op} c${c.n} (${JSON.stringify(c.id)})${a ? ` in app ${a.i}` : ' not connected'} -> ${target ? `h${target.n}` : 'nothing'}`)
        let r, thrown
        try { r = op === 'invoke' ? a.app.commands.handlers.invoke(c.id, ...args) : c.fn(...args) } catch (e) { thrown = { e } }
        if (target) {
          T.is(calls.length, 1, `handlers called by c${c.n}`)
          T.is(calls[0].h, target, `handler called by c${c.n}`)
          T.sameList(calls[0].args, args, `arguments given by c${c.n}`)
          if (target.mode === 'throw') T.ok(thrown && Object.is(thrown.e, target.err), () => `c${c.n} did not throw what its handler threw`)
          else { if (thrown) throw thrown.e; T.is(r, target.mode === 'async' ? target.promise : target.result, `result of c${c.n}`) }
          T.count(a ? 'called.connected' : 'called.default')
        } else {
          T.ok(!thrown, () => `c${c.n} without handler threw ${thrown.e}`)
          T.is(r, undefined, `result of c${c.n} without handler`)
          T.is(calls.length, 0, `handlers called by c${c.n} without handler`)
          const errs = a ? entries(a.logs, marks[a.i], logLevels.error) : entries(processWide.logs, global, logLevels.error)
          T.is(errs.length, 1, `errors logged by c${c.n} without handler (${a ? `app ${a.i}` : 'not connected'})`)
          T.ok(text(errs[0]).includes(c.id), () => `the error does not name ${JSON.stringify(c.id)}: ${text(errs[0])}`)
          T.count(a ? 'called.connected.missing' : 'called.missing')
        }
        apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, marks[i], `log entries in app ${i}`) })
      } else if (op === 'connect' || op === 'connect-h') {
        const a = T.pick(apps)
        // also with the handler it already has
        const h = op === 'connect-h' ? (c.h && T.bool(0.4) ? c.h : mk()) : undefined
        T.step(`c${c.n}.connect(app ${a.i}${h ? `, h${h.n}` : ''})`)
        if (c.ctx && c.ctx !== a) T.count('moved')
        if (h) c.fn.connect(a.app, h.fn)
        else c.fn.connect(a.app)
        c.ctx = a
        c.h = h ?? c.h
        if (c.h) a.reg.set(c.id, c.h)
        else T.count('connected.without.handler')
        T.is(calls.length, 0, 'handlers called by connect')
        T.count('connected')
      } else if (op === 'define') {
        const h = mk()
        T.step(`c${c.n}.defineHandler(h${h.n})`)
        T.is(c.fn.defineHandler(h.fn), h.fn, 'result of defineHandler')
        c.h = h
        T.is(calls.length, 0, 'handlers called by defineHandler')
        if (c.ctx) T.count('defined.after.connect')
      } else {
        const a = T.pick(apps)
        const h = mk()
        T.step(`app ${a.i} register(${JSON.stringify(c.id)}, h${h.n})`)
        a.app.commands.handlers.register(c.id, h.fn)
        a.reg.set(c.id, h)
      }
      for (const a of apps) {
        const ks = a.app.commands.handlers.keys()
        T.is(ks.length, a.reg.size, `handlers registered in app ${a.i} after ${op} (${ks})`)
        for (const x of ks) T.ok(a.reg.has(x), () => `app ${a.i} has a handler for ${JSON.stringify(x)}`)
      }
      shape(c)
    }
    if (processWide.logs.length > 2000) processWide.logs.length = 0
    if (steps > 4) T.interesting()
  }
}
