import { clone, isPlain, randomEdit } from '../lib/plain.mjs'

export default {
  async setup() {
    return await import('@just-web/states')
  },
  async run(T, lib) {
    const { createStore, createState, createRegistry, nothing } = lib
    const kind = T.weighted([[5, 'store'], [2, 'registry'], [2, 'state']])
    const init = kind === 'registry' ? T.obj(2) : T.weighted([[3, () => T.json(2)], [1, () => T.num()], [1, () => undefined]])()
    let s
    if (kind === 'state') {
      const [v0, set, onChange, reset] = createState(init)
      s = { cur: v0, get() { return this.cur }, set, reset, onChange }
      onChange(v => { s.cur = v })
    } else s = kind === 'store' ? createStore(init) : createRegistry(init)
    T.step(`${kind} init`, init)

    let model = init
    let uid = 0
    // a second store, set from inside handlers of the first (and answering back into a third one)
    const other = T.bool(0.5) ? (T.bool() ? createStore({ n: 0 }) : createRegistry({ n: 0 })) : undefined
    const third = createStore(0)
    const otherSeen = [], thirdSeen = []
    other?.onChange((v, p) => { otherSeen.push([v, p]); const n = v.n; third.set(n); T.is(thirdSeen.at(-1), n, 'a set made in a handler of another store: told its handlers before returning') })
    third.onChange(v => thirdSeen.push(v))
    function setOther(by) {
      const p = other.get(), n = ++uid, v = { n }
      T.step(`  h${by}: other.set(`, v, ')')
      const had = otherSeen.length
      T.is(other.set(v), v, 'a set of another store made in a handler: result')
      T.is(otherSeen.length, had + 1, 'a set of another store made in a handler: times its handler ran before set returned')
      T.is(otherSeen[had][0], v, 'a set of another store made in a handler: new value')
      T.is(otherSeen[had][1], p, 'a set of another store made in a handler: previous value')
      T.is(third.get(), n, 'a set two stores away')
      T.count('other.sets')
    }
    const handlers = [] // {id, fn, active, off}
    const reentrant = T.bool(0.3)
    // events of the change in progress (top level), and per handler the changes seen
    let log = []
    let depth = 0
    const changes = [] // {v, p, nested}
    let budget = 0
    let pending = false
    const learn = v => { pending = false; commit(v) }
    const commit = v => { changes.push({ v, p: model }); model = v }
    function subscribe() {
      const h = { id: handlers.length, seen: [], from: changes.length, acts: reentrant && T.bool(0.35) }
      const handler = (v, p, ...rest) => {
        if (pending) learn(v)
        T.is(rest.length, 0, `handler ${h.id} extra arguments`)
        T.is(s.get(), model, `handler ${h.id}: value reported by the store while it runs`)
        log.push({ h: h.id, v, p, depth })
        h.seen.push({ v, p })
        if (other && (h.id < 2 || T.bool(0.02))) setOther(h.id)
        if (h.acts && budget > 0 && T.bool(0.6)) {
          budget--
          nestedSet(h.id)
        }
      }
      h.fn = handler
      handlers.push(h)
      h.off = s.onChange(h.fn)
      T.step(`onChange(h${h.id})`)
      return h
    }
    function nestedSet(by) {
      const v = kind === 'registry' ? { ['n' + ++uid]: uid } : { nested: ++uid }
      T.step(`  h${by}: set(`, v, ')')
      T.count('reentrant.sets')
      commit(v)
      depth++
      const n = changes.length
      const ret = s.set(v)
      depth--
      T.is(ret, v, 'nested set returns its value')
      for (const h of handlers) if (h.active) T.ok(h.seen.some(e => Object.is(e.v, v)), () => `nested set by h${by} returned before h${h.id} was notified of it`)
    }
    const many = T.size(T.byScale(12, 40, 300), 5)
    for (let i = 0; i < many; i++) subscribe().active = true
    T.count('handlers', many)

    const steps = T.steps(8, 30, 150)
    for (let k = 0; k < steps; k++) {
      const cur = s.get()
      T.is(cur, model, `store value before step ${k}`)
      const plain = isPlain(cur)
      const op = T.weighted([[6, 'set'], [2, 'return'], [plain ? 4 : 0, 'edit'], [1, 'same'], [1, 'noop'], [plain ? 1 : 0, 'selfassign'], [0.8, 'copy'], [0.8, 'reset'], [kind === 'registry' ? 0 : 0.6, 'nothing'], [1, 'sub'], [1, 'resub'], [0.7, 'unsub'], [0.7, 'throw']])
      log = []
      const before = changes.length
      let expectRet
      const fresh = () => kind === 'registry' ? { ['k' + ++uid]: uid } : T.weighted([[3, () => ({ u: ++uid, x: T.json(1) })], [2, () => ++uid + 1000], [2, () => T.pick([0, '', false, null, NaN, -0, undefined, true, 'a'])], [1, () => [++uid]]])()
      if (op === 'sub') { if (handlers.length < 400) subscribe().active = true; continue }
      if (op === 'resub') {
        const h = handlers.length && T.pick(handlers)
        if (!h || !h.active) continue
        T.step(`onChange(h${h.id}) again`)
        s.onChange(h.fn)
        T.count('resubscribed')
        continue
      }
      if (op === 'unsub') {
        const h = handlers.length && T.pick(handlers)
        if (!h || !h.active) continue
        T.step(`h${h.id}.off()`)
        h.off()
        h.active = false
        h.to = changes.length
        continue
      }
      budget = reentrant ? 3 : 0
      let ret
      let expected // {v} when the new identity is known in advance
      if (op === 'set') { const v = fresh(); expected = { v } ; T.step('set(', v, ')') ; if (!Object.is(v, cur)) commit(v); ret = s.set(v) }
      else if (op === 'return') {
        let v = fresh()
        if (v === undefined) v = null
        expected = { v }
        T.step('set(() =>', v, ')')
        let calls = 0
        ret = s.set(() => { calls++; if (!Object.is(v, cur)) commit(v); return v })
        T.is(calls, 1, 'updater calls')
      } else if (op === 'same') { expected = { v: cur }; T.step('set(current)'); ret = s.set(cur) }
      else if (op === 'noop') { expected = { v: cur }; T.step('set(() => {})'); ret = s.set(() => {}) }
      else if (op === 'selfassign') {
        const ks = Object.keys(cur)
        expected = { v: cur }
        T.step('set(d => { d.k = d.k })')
        const k0 = ks.length ? T.pick(ks) : undefined
        if (k0 !== undefined && typeof cur[k0] === 'object') continue
        ret = s.set(d => { if (k0 !== undefined) d[k0] = cur[k0] })
      } else if (op === 'copy') {
        const v = clone(cur)
        expected = { v }
        T.step('set(copy of current)')
        if (!Object.is(v, cur)) commit(v)
        ret = s.set(v)
      } else if (op === 'reset') { expected = { v: init }; T.step('reset()'); if (!Object.is(init, cur)) commit(init); s.reset() }
      else if (op === 'nothing') { expected = { v: undefined }; T.step('set(() => nothing)'); if (cur !== undefined) commit(undefined); ret = s.set(() => nothing) }
      else if (op === 'throw') {
        T.step('set(() => { throw })')
        const e = new Error('x')
        const ed = plain ? randomEdit(T, clone(cur)) : undefined
        T.throws(() => s.set(d => { ed?.apply(d); throw e }), e, 'set(throwing updater)')
        T.is(log.length, 0, 'notifications after a throwing updater')
        T.is(s.get(), cur, 'value after a throwing updater')
        continue
      } else {
        // in-place edit: the identity of the new value is learnt from its first observation
        const ed = randomEdit(T, clone(cur))
        T.step(`set(d => ${ed.name})`)
        budget = 0
        pending = true
        ret = s.set(d => ed.apply(d))
        if (pending) learn(ret)
        T.is(s.get(), ret, 'in-place edit: set returns the current value')
        T.ok(!Object.is(ret, cur), 'in-place edit produced no new value')
        expected = { v: ret }
      }
      T.count(`op.${op}`)
      // verify this change
      const made = changes.slice(before)
      if (op === 'reset') { /* no return value */ } else T.is(ret, expected.v, `${op}: return value`)
      const active = handlers.filter(h => h.active)
      if (made.length === 0) {
        T.is(log.length, 0, `${op}: notifications for an unchanged value`)
        T.count('unchanged')
      } else if (made.length === 1) {
        T.sameList(log.map(e => e.h), active.map(h => h.id), `${op}: handlers called, in order`)
        for (const e of log) {
          T.is(e.v, made[0].v, `${op}: handler h${e.h} new value`)
          T.is(e.p, made[0].p, `${op}: handler h${e.h} previous value`)
        }
        T.count('changes')
        T.count('notifications', log.length)
      } else {
        // re-entrant: every handler saw every change exactly once
        for (const h of active) {
          const seen = log.filter(e => e.h === h.id)
          T.is(seen.length, made.length, `re-entrant change: notifications of h${h.id}`)
          for (const c of made) T.is(seen.filter(e => Object.is(e.v, c.v) && Object.is(e.p, c.p)).length, 1, `re-entrant change: h${h.id} told of one change`)
        }
        T.count('reentrant.changes', made.length)
      }
    }
    // totals over the whole life
    for (const h of handlers) T.is(h.seen.length, (h.to ?? changes.length) - h.from, `h${h.id}: total notifications`)
    if (many && changes.length) T.interesting()
  }
}
