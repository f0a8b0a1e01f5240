import { turn } from '../lib/case.mjs'
import { clone, containers, isPlain, print, randomEdit, unfrozenPath, vary } from '../lib/plain.mjs'

const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k)

export default {
  async setup() {
    return await import('@just-web/states')
  },
  directed: [
    { name: 'values with Map and Set inside', async run(T, { createStore }) {
      // (only replaced as a whole: drafts of Map and Set need a plugin of immer)
      const make = i => T.pick([() => new Map([['k', { i, l: [{}] }], [{ i }, [[i]]]]), () => new Set([{ i, l: [{}] }, [i]]), () => ({ m: new Map([[i, { v: {} }]]), s: new Set([[{}]]) }), () => [new Set(), new Map([[1, new Set([{ i }])]])]])()
      const plains = v => v instanceof Map ? [...v.values()].flatMap(plains) : v instanceof Set ? [...v].flatMap(plains) : isPlain(v) ? [v, ...Object.values(v).flatMap(plains)] : []
      const first = make(0)
      const s = createStore(first)
      const heard = []
      s.onChange((v, p) => heard.push([v, p]))
      let old = first
      const look = (v, what) => { for (const x of plains(v)) T.ok(Object.isFrozen(x), () => `${what}: ${print(x)} inside is not frozen`) }
      look(s.get(), 'initial value')
      for (let i = 1; i < 12; i++) {
        const v = i % 4 ? make(i) : first
        heard.length = 0
        if (v === first) s.reset()
        else T.is(s.set(v), v, 'result of set')
        T.is(s.get(), v, 'value')
        T.sameList(heard.flat(), v === old ? [] : [v, old], 'notification')
        look(s.get(), 'value')
        old = v
      }
      T.count('maps.and.sets')
      T.interesting()
    } }
  ],
  async run(T, { createStore, createState, createRegistry, nothing }) {
    const kind = T.weighted([[5, 'store'], [2, 'registry'], [2, 'state']])
    const depth = T.byScale(2, 4, 6)
    const plain = () => vary(T, raw())
    // deep chains and long lists: nothing is too big to be frozen
    const big = () => {
      const n = T.pick([20, 101, 300, T.size(2000)])
      if (T.bool()) { let v = { end: [{}] }; for (let i = 0; i < Math.min(n, 300); i++) v = i % 3 ? { v } : i % 2 ? [v] : { a: 1, v }; return v }
      const list = Array.from({ length: n }, (_, i) => ({ i, l: [i] }))
      return T.bool(0.6) ? list : Object.fromEntries(list.map(x => [`k${x.i}`, x]))
    }
    const raw = () => { if (bigs < 2 && T.bool(0.03)) { bigs++; T.count('big.values'); const v = big(); return kind === 'registry' ? { v } : v } return small() }
    let bigs = 0
    const small = () => kind === 'registry' ? T.obj(depth) : T.weighted([[5, () => T.obj(depth)], [2, () => Array.from({ length: T.range(0, 5) }, () => T.json(depth - 1))], [1, () => T.json(depth)]])()
    const snapshots = [] // everything ever handed out: {v, text, from}
    const seen = new Map()
    const take = (v, from) => {
      T.count(`snapshots.${from}`)
      if (!isPlain(v)) return
      const p = unfrozenPath(v)
      T.ok(!p, () => `value from ${from}: ${p} is not frozen in ${print(v)}`)
      if (seen.has(v)) return
      seen.set(v, true)
      snapshots.push({ v, text: print(v), from })
    }
    const audit = what => {
      for (const s of snapshots) T.ok(print(s.v) === s.text, () => `${what}: a snapshot taken earlier from ${s.from} changed from ${s.text} to ${print(s.v)}`)
      for (const s of snapshots.slice(-3)) { const p = unfrozenPath(s.v); T.ok(!p, () => `${what}: ${p} of a snapshot from ${s.from} is no longer frozen`) }
      T.count('audits')
    }
    let init = plain()
    // parts of the value can be used at several places
    if (isPlain(init) && !Array.isArray(init) && Object.isExtensible(init) && T.bool(0.2)) { const part = T.obj(1); init.p1 = part; init.p2 = { part } }
    T.step(`${kind} init`, init)
    let notified = 0
    let s
    if (kind === 'state') {
      const [v0, set, onChange, reset] = createState(init)
      take(v0, 'createState')
      s = { cur: v0, get() { return this.cur }, set, reset, onChange }
      onChange(v => { s.cur = v })
    } else s = kind === 'store' ? createStore(init) : createRegistry(init)
    take(s.get(), 'get')
    s.onChange((v, p) => { notified++; take(v, 'handler value'); take(p, 'handler previous value'); take(s.get(), 'get in handler') })
    const shared = (what, before, after, path) => {
      // every container that is not on the edited path keeps its identity
      for (const { path: q, node } of containers(before)) {
        if (q.length >= path.length && path.every((k, i) => k === q[i])) continue // inside the edited container
        if (q.length <= path.length && q.every((k, i) => k === path[i])) continue // on the way to it
        let n = after
        for (const k of q) n = n !== null && typeof n === 'object' && own(n, k) ? n[k] : undefined
        T.ok(n === node, () => `${what}: the untouched part ${q.map(String).join('/')} was replaced by a copy`)
        T.count('shared.parts')
      }
    }
    /** somebody tries to modify a snapshot */
    const attack = v => {
      const c = T.pick(containers(v)).node
      const ops = [() => { c.hacked = 1 }, () => { for (const k of Object.keys(c)) { c[k] = 'hacked'; break } c.zzz = 1 }, () => { delete c[Object.keys(c)[0] ?? 'x']; c.zzz = 1 }, () => Object.setPrototypeOf(c, { evil: 1 }), () => Array.isArray(c) ? c.push(1) : Object.assign(c, { k: 1 })]
      T.throws(T.pick(ops), undefined, 'modifying a snapshot')
      T.count('attacks')
    }
    const steps = T.steps(8, 25, 120)
    for (let k = 0; k < steps; k++) {
      const cur = s.get()
      const p = isPlain(cur)
      const text = print(cur)
      notified = 0
      const op = T.weighted([[3, 'set'], [2, 'return'], [p ? 5 : 0, 'edit'], [p ? 1.5 : 0, 'asyncedit'], [p ? 1.5 : 0, 'wrap'], [p ? 1 : 0, 'asyncwrap'], [p ? 1 : 0, 'asyncreturn'], [1, 'reset'], [p ? 1.5 : 0, 'throw'], [p ? 1 : 0, 'asyncthrow'], [p ? 1.5 : 0, 'attack'], [p ? 0.7 : 0, 'noop'], [p ? 0.6 : 0, 'reuse'], [kind === 'registry' ? 0 : 0.3, 'nothing']])
      T.count(`op.${op}`)
      if (op === 'set') { const v = plain(); T.step('set(', v, ')'); take(s.set(v), 'set'); take(v, 'the value set') } else if (op === 'return') { const v = plain(); T.step('set(() =>', v, ')'); take(s.set(() => v), 'set(updater)') } else if (op === 'edit' || op === 'asyncedit') {
        const m = clone(cur)
        const e = randomEdit(T, m)
        e.apply(m)
        T.step(`${op}: ${e.name}`)
        const r = op === 'edit' ? s.set(d => e.apply(d)) : await T.value(s.set(async d => { if (T.bool()) { e.apply(d); await null } else { await null; e.apply(d) } }), 'async edit')
        take(r, op === 'edit' ? 'set(in-place updater)' : 'set(async in-place updater)')
        T.is(print(r), print(m), `${op}: content`)
        shared(op, cur, r, e.path)
        T.is(notified, 1, `${op}: notifications`)
      } else if (op === 'asyncreturn') {
        const v = plain()
        T.step('set(async () =>', v, ')')
        const r = await T.value(s.set(async d => { if (T.bool()) { print(d); await null } return v }), 'async replacement')
        take(r, 'set(async updater)')
        T.is(print(r), print(v), 'asyncreturn: content')
      } else if (op === 'wrap' || op === 'asyncwrap') {
        const ks = Object.keys(cur).filter(q => isPlain(cur[q]))
        const x = plain()
        const key = ks.length ? T.pick(ks) : undefined
        T.step(`${op}: set(d => ({ old: d.${key}, x }))`, x)
        const wrap = d => ({ old: key === undefined ? 1 : d[key], list: key === undefined ? [] : [d[key], { again: d[key] }], x })
        const r = op === 'wrap' ? s.set(wrap) : await T.value(s.set(async d => { if (T.bool()) { await null; return wrap(d) } const v = wrap(d); await null; return v }), 'async wrapping updater')
        take(r, 'set(updater wrapping parts)')
        if (key !== undefined) T.ok(r.old === cur[key] && r.list[0] === cur[key], 'a part of the draft that was returned unchanged was copied')
      } else if (op === 'reset') { T.step('reset()'); s.reset() } else if (op === 'nothing') { T.step('set(() => nothing)'); s.set(() => nothing) } else if (op === 'reuse') {
        // an older snapshot is part of a new value
        const old = T.pick(snapshots)
        T.step('set(value containing a snapshot)')
        take(s.set({ old: old.v, more: T.json(2) }), 'set')
      } else if (op === 'attack') { T.step('modify a snapshot'); attack(T.bool() || !snapshots.length ? cur : T.pick(snapshots).v) } else if (op === 'noop') { T.step('read-only updater'); s.set(d => { print(d) }); T.is(notified, 0, 'notifications of a read-only updater'); T.is(s.get(), cur, 'value after a read-only updater') } else {
        const m = clone(cur)
        const es = []
        for (let i = T.range(1, 4); i > 0; i--) { const e = randomEdit(T, m); e.apply(m); es.push(e) }
        const err = new Error('updater failed')
        T.step(`${op}: ${es.map(e => e.name).join('; ')}`)
        if (op === 'throw') T.throws(() => s.set(d => { for (const e of es) e.apply(d); throw err }), err, 'failing updater')
        else {
          const cut = T.range(0, es.length)
          const r = await T.settled(s.set(async d => { for (const [i, e] of es.entries()) { if (i === cut) await null; e.apply(d) } await null; throw err }), 'failing async updater')
          T.is(r.status, 'rejected', 'outcome of a failing async updater')
          T.is(r.reason, err, 'error of a failing async updater')
        }
        await turn()
        T.is(s.get(), cur, `${op}: value after the failure`)
        T.is(print(s.get()), text, `${op}: content after the failure`)
        T.is(notified, 0, `${op}: notifications`)
      }
      take(s.get(), 'get')
      if (k % 4 === 3 || T.scale === 'small') audit(`after ${op}`)
    }
    audit('finally')
    T.count('snapshots', snapshots.length)
    if (snapshots.length > 2) T.interesting()
  }
}
