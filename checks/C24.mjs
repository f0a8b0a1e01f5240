import { EventEmitter as NodeEmitter } from 'node:events'
import { importFrom } from '../lib/loader.mjs'
import { appLib, entries, NAMES } from '../lib/apps.mjs'

export default {
  async setup() {
    const EventEmitter = (await importFrom('@just-web/events', 'eventemitter3')).default
    return { ...await appLib(), ...await import('@just-web/events'), EventEmitter }
  },
  async run(T, { justTestApp, logLevels, eventsGizmoFn, justEvent, EventEmitter }) {
    const names = [...new Set([...T.shuffle(NAMES).slice(0, T.byScale(3, 5, 8)), 'event', ...T.confuse(T.strPool(2)), ...(T.bool(0.3) ? ['error'] : [])])].filter(n => n !== 'newListener' && n !== 'removeListener')
    if (T.bool(0.3)) names.push(Symbol('event'))
    const label = n => (typeof n === 'symbol' ? 'Symbol(event)' : JSON.stringify(n))
    const apps = []
    const gizmo = eventsGizmoFn(T.pick([undefined, {}, { emitter: undefined }]))
    let uid = 0
    // every app has a twin: a plain emitter that is put through the same operations.
    async function create() {
      const a = { n: apps.length, kind: T.weighted([[4, 'default'], [2, 'own eventemitter3'], [2, 'own node emitter']]), listeners: [], record: [], twinRecord: [], level: T.pick([undefined, logLevels.trace, logLevels.error, logLevels.info]) }
      const Plain = a.kind === 'own node emitter' ? NodeEmitter : EventEmitter
      const own = a.kind === 'default' ? undefined : new Plain()
      a.twin = new Plain()
      T.step('app', a.n, a.kind)
      a.app = await justTestApp({ name: `app${a.n}`, ...(a.level === undefined ? {} : { log: { logLevel: a.level } }) }).with(own ? eventsGizmoFn({ emitter: own }) : T.bool(0.4) ? gizmo : eventsGizmoFn(T.pick([undefined, {}, { emitter: undefined }]))).create()
      a.emitter = a.app.events.emitter
      if (own) T.is(a.emitter, own, 'events.emitter of an app with its own emitter')
      if (own) T.count('own')
      own?.setMaxListeners?.(0)
      a.twin.setMaxListeners?.(0)
      a.logs = a.app.log.reporter.logs
      apps.push(a)
      return a
    }
    const OPS = ['on', 'addListener', 'once']
    function make(a) {
      const l = { id: ++uid, throws: undefined, script: [] }
      l.fn = function (...args) { return body(a, l, args, this, 'real') }
      l.twin = function (...args) { return body(a, l, args, this, 'twin') }
      a.listeners.push(l)
      return l
    }
    function body(a, l, args, self, side) {
      const e = side === 'real' ? a.emitter : a.twin
      ;(side === 'real' ? a.record : a.twinRecord).push([l.id, self === e ? 'emitter' : self === undefined ? 'undefined' : self, ...args])
      const calls = (l[`calls-${side}`] = (l[`calls-${side}`] ?? 0) + 1)
      for (const s of l.script) if (s.at === calls) s.run(side)
      if (l.throws && l.throws.at <= calls && side === 'real') { a.thrown.push(l.throws.err); throw l.throws.err }
      if (l.throws && l.throws.at <= calls) throw l.throws.err
    }
    /** the same operation on an emitter and its twin */
    function both(a, f) { f(a.emitter, 'real'); f(a.twin, 'twin') }
    function sub(a, name) {
      const l = T.bool(0.15) && a.listeners.length ? T.pick(a.listeners) : make(a)
      const op = T.pick(OPS)
      const ctx = a.kind !== 'own node emitter' && T.bool(0.15) ? { context: 1 } : undefined
      T.step(op, a.n, label(name), `listener ${l.id}`, ctx ? 'with a context' : '')
      both(a, (e, side) => { const f = side === 'real' ? l.fn : l.twin; ctx ? e[op](name, f, ctx) : e[op](name, f) })
      T.count(op === 'once' ? 'once' : 'subscribed')
    }
    function emit(a, name, args, how) {
      const mark = a.logs.length
      const others = apps.map(x => x.logs.length)
      a.record.length = 0
      a.twinRecord.length = 0
      a.thrown = []
      let twinThrew
      try { a.twin.emit(name, ...args) } catch (e) { twinThrew = { e } }
      T.step('emit', a.n, label(name), `${args.length} arguments`, how ?? '')
      try { how ? justEvent(name).emitBy(a.emitter, ...args) : a.emitter.emit(name, ...args) } catch (e) { T.fail(`emit(${label(name)}) threw ${e?.stack ?? e}`) }
      const errs = entries(a.logs, mark, logLevels.error)
      if (!twinThrew) {
        T.eq(a.record.map(r => [r[0], r[1], r.length]), a.twinRecord.map(r => [r[0], r[1], r.length]), `listeners called by emit(${label(name)})`)
        a.record.forEach((r, i) => T.sameList(r.slice(2), a.twinRecord[i].slice(2), `arguments of listener ${r[0]}`))
        T.is(errs.length, 0, `errors logged by emit(${label(name)}) although no listener threw`)
        T.count(a.record.length > 1 ? 'delivered.many' : a.record.length ? 'delivered' : 'unheard')
      } else if (a.thrown.length) {
        // at least up to the first failure the same listeners ran
        T.eq(a.record.slice(0, a.twinRecord.length).map(r => r[0]), a.twinRecord.map(r => r[0]), `listeners called by emit(${label(name)}) up to the first failure`)
        T.is(errs.length, a.thrown.length, `errors logged for ${a.thrown.length} failing listeners`)
        a.thrown.forEach((e, i) => T.ok(errs[i].args.some(x => Object.is(x, e)), () => `the error logged does not carry what the listener threw (${String(e?.message ?? e)})`))
        T.count('trapped')
      } else {
        // an unheard `error` event of a plain node emitter is a failure of emit itself
        T.ok(errs.length <= 1, 'errors logged for an unheard error event')
        T.count('unheard.error')
      }
      apps.forEach((x, i) => { if (x !== a) T.is(x.logs.length, others[i], `log entries of app ${i} made by an event of app ${a.n}`) })
    }
    for (let i = T.range(1, 3); i > 0; i--) await create()
    const steps = T.steps(10, 35, 120)
    for (let i = 0; i < steps; i++) {
      const a = T.pick(apps)
      const name = T.pick(names)
      await T.weighted([
        [6, () => sub(a, name)],
        [1.5, () => {
          if (!a.listeners.length) return
          const l = T.pick(a.listeners)
          const op = T.pick(['off', 'removeListener'])
          T.step(op, a.n, label(name), `listener ${l.id}`)
          both(a, (e, side) => e[op](name, side === 'real' ? l.fn : l.twin))
          T.count('off')
        }],
        [0.4, () => { T.step('removeAllListeners', a.n, label(name)); both(a, e => e.removeAllListeners(name)) }],
        [1.2, () => {
          // a listener that starts to throw at one of its next calls
          if (!a.listeners.length) return
          const l = T.pick(a.listeners)
          l.throws = T.bool(0.25) ? undefined : { at: (l['calls-real'] ?? 0) + T.range(1, 2), err: T.pick([new Error(`listener ${l.id}`), new TypeError('t'), 'text', 42, Object.freeze(new Error('frozen')), undefined, null, 0, '', false]) }
          l['calls-twin'] = l['calls-real'] ?? 0
          T.step('listener', l.id, l.throws ? `throws from call ${l.throws.at}` : 'no longer throws')
        }],
        [1, () => {
          // a listener that (un)subscribes while an event is delivered
          if (!a.listeners.length) return
          const l = T.pick(a.listeners)
          if (l.throws) return
          l['calls-twin'] = l['calls-real'] ?? 0
          const other = T.bool() ? T.pick(a.listeners) : make(a)
          const op = T.pick(['on', 'once', 'off'])
          l.script.push({ at: (l['calls-real'] ?? 0) + 1, run: side => (side === 'real' ? a.emitter : a.twin)[op](name, side === 'real' ? other.fn : other.twin) })
          T.step('at its next call listener', l.id, op, label(name), `listener ${other.id}`)
          T.count('scripted')
        }],
        [9, () => {
          if (typeof name === 'string' && T.bool(0.1)) {
            const args = [T.any(), T.any()]
            emit(a, name, args, 'by justEvent')
            T.count('justEvent')
          } else emit(a, name, Array.from({ length: T.weighted([[3, 0], [4, 1], [3, 2], [1, 5], [1, 9]]) }, () => T.any()))
        }],
        [0.5, () => (apps.length < 5 ? create() : undefined)]
      ])()
    }
    T.interesting()
  }
}
