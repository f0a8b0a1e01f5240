import { clone, print } from '../lib/plain.mjs'

export default {
  async setup() {
    return await import('@just-web/states')
  },
  async run(T, { createStore, createRegistry, adder, withAdder, push, unshift }) {
    const form = T.weighted([[3, 'push'], [3, 'unshift'], [3, 'record'], [2, 'fold'], [1.5, 'throwing'], [1, 'first-wins']])
    const via = T.pick(['withAdder', 'adder'])
    const array = form === 'push' || form === 'unshift' || (form === 'throwing' && T.bool())
    const base = array ? Array.from({ length: T.size(40, 4) }, () => T.json(1)) : {}
    const s0 = array ? createStore(base) : T.bool() ? createRegistry(base) : createStore(base)
    let calls = []
    const boom = new Error('handler failed')
    const handle = {
      push: (r, e) => { push(r, e) },
      unshift: (r, e) => { unshift(r, e) },
      record: (r, e) => { r[e.id] = e },
      fold: (r, e) => { r.total = (r.total ?? 0) * 3 + e.n; r.last = e.n },
      'first-wins': (r, e) => { if (!Object.prototype.hasOwnProperty.call(r, e.id)) r[e.id] = e },
      throwing: (r, e) => { if (array) r.push(e); else r[e.id] = e; if (e.bad) throw boom }
    }[form]
    // what the handler returns means nothing
    const returns = T.bool(0.3) ? T.pick([false, true, 0, null, 'x', {}, [], Symbol('r'), Promise.resolve()]) : undefined
    const handler = (r, e) => { calls.push(e); handle(r, e); return returns }
    const direct = (form === 'push' || form === 'unshift') && T.bool(0.6) // the exported helper itself
    const h = direct ? (form === 'push' ? push : unshift) : handler
    const s = via === 'withAdder' ? withAdder(s0, h) : s0
    const add = via === 'withAdder' ? (T.bool() ? (...a) => s.add(...a) : s.add) : adder(s0, h)
    if (via === 'withAdder') for (const k of Object.keys(s0)) T.ok(k in s, () => `extended store lost ${k}`)
    T.step(`${via} ${form}${direct ? ' direct' : ''} on`, base)
    let uid = 0
    const ids = T.confuse(T.strPool(6)).filter(k => k !== '__proto__')
    const entry = () => array && form !== 'throwing' ? T.weighted([[4, () => T.json(1)], [1, () => undefined], [1, () => Symbol('e')], [1, () => [T.json(0)]]])() : { id: T.pick(ids), n: ++uid }
    /** reference: fold over an independent copy */
    const expected = (v, es) => {
      if (form === 'push') return [...v, ...es]
      if (form === 'unshift') return [...[...es].reverse(), ...v]
      const m = clone(v)
      for (const e of es) handle(m, e)
      return m
    }
    let log = []
    const handlers = T.range(0, 4)
    for (let i = 0; i < handlers; i++) s.onChange((v, p) => { log.push([i, v, p]); T.is(s.get(), v, 'value while notifying') })
    let reentrant = false
    let depth = 0
    if (array && form !== 'throwing' && T.bool(0.15)) {
      reentrant = true
      s.onChange(() => { if (depth++ === 0) { add('inner') } depth-- })
    }
    let cur = print(s.get())
    let value = s.get()
    const steps = T.steps(6, 16, 50)
    for (let k = 0; k < steps; k++) {
      const op = T.weighted([[6, 'add'], [1, 'none'], [1.5, 'set'], [1, 'reset'], [form === 'throwing' ? 3 : 0, 'bad']])
      log = []
      calls = []
      const before = s.get()
      if (op === 'add') {
        const n = T.bool(0.5) ? 1 : T.size(400, 6)
        const es = Array.from({ length: n }, entry)
        T.step(`add ${n}`, es)
        const want = expected(value, reentrant ? es : es)
        add(...es)
        if (reentrant && es.length) {
          const w2 = form === 'push' ? [...want, 'inner'] : ['inner', ...want]
          T.is(print(s.get()), print(w2), 'add inside a handler')
          cur = print(w2)
          value = s.get()
          T.count('reentrant')
          continue
        }
        T.is(print(s.get()), print(want), `value after add of ${n} entries`)
        if (!direct) T.sameList(calls, es, 'entries given to the handler')
        const changed = print(want) !== cur || (form === 'record' && n > 0) // re-adding equal content may or may not be a change
        const now = s.get()
        if (print(want) === cur && now === before) T.is(log.length, 0, 'notifications of an add without effect')
        else T.sameList(log.map(e => e[0]), Array.from({ length: handlers }, (_, i) => i), `handlers notified by one add of ${n} entries`)
        for (const [, v, p] of log) { T.is(v, now, 'new value notified'); T.is(p, before, 'old value notified') }
        if (!changed) T.is(now, before, 'value after an add without effect')
        T.count('added', n)
        if (n > 1) T.count('batches')
      } else if (op === 'none') {
        T.step('add()')
        add()
        T.is(s.get(), before, 'value after add() without entries')
        T.is(log.length, 0, 'notifications of add() without entries')
        T.is(calls.length, 0, 'handler calls of add() without entries')
        T.count('empty')
        continue
      } else if (op === 'bad') {
        const es = Array.from({ length: T.range(1, 6) }, entry)
        const at = T.int(es.length)
        es[at] = { ...es[at], bad: true }
        T.step(`add ${es.length}, entry ${at} fails`)
        T.throws(() => add(...es), boom, 'add with a failing entry')
        T.is(s.get(), before, 'value after a failed add')
        T.is(log.length, 0, 'notifications of a failed add')
        T.sameList(calls, es.slice(0, at + 1), 'entries given to the handler until it failed')
        T.count('failed')
        continue
      } else if (op === 'set') {
        const v = array ? [T.json(1), k] : { ['s' + k]: { id: 's' + k, n: k } }
        T.step('set', v)
        depth = 1
        s.set(v)
        depth = 0
        T.is(s.get(), v, 'value after set')
      } else {
        T.step('reset()')
        depth = 1
        s.reset()
        depth = 0
        T.is(s.get(), base, 'value after reset')
      }
      value = s.get()
      cur = print(value)
      T.is(s0.get(), value, 'value seen through the original store')
      if (typeof s.keys === 'function') { T.sameList(s.keys(), Reflect.ownKeys(value), 'keys()'); T.is(s.size(), Reflect.ownKeys(value).length, 'size()') }
    }
    T.count(`form.${form}`)
    if (steps > 2) T.interesting()
  }
}
