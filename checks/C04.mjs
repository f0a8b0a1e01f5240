import { turn } from '../lib/case.mjs'
import { clone, isPlain, print, randomEdit } from '../lib/plain.mjs'

function deferred() {
  const d = { settled: false }
  d.promise = new Promise((res, rej) => { d.resolve = v => { d.settled = true; res(v) }; d.reject = e => { d.settled = true; rej(e) } })
  d.promise.catch(() => {})
  return d
}

export default {
  async setup() {
    return await import('@just-web/states')
  },
  directed: [
    { name: 'sets made by handlers of an async commit', async run(T, { createStore }) {
      const s = createStore(0)
      const seen = []
      s.onChange((v, p) => { if (v === 1) s.set(2); if (v === 2) s.set(d => d + 1) })
      s.onChange((v, p) => seen.push(`${p}->${v}`))
      let rel
      const p = s.set(() => new Promise(r => { rel = r }))
      rel(1)
      await T.value(p, 'async set')
      T.is(s.get(), 3, 'value')
      T.eq(seen.sort(), ['0->1', '1->2', '2->3'], 'changes seen by the last handler')
      T.interesting()
    } },
    { name: 'await the set in a loop', async run(T, { createStore }) {
      const s = createStore({ n: 0, list: [] })
      for (let i = 0; i < 50; i++) {
        const r = await T.value(s.set(async d => { await null; d.n++; await null; d.list.push(d.n) }), `set ${i}`)
        T.is(r, s.get(), 'resolved value')
        T.is(r.n, i + 1, 'counter')
        T.is(r.list.length, i + 1, 'list')
      }
      T.interesting()
    } }
  ],
  async run(T, { createStore, createState, createRegistry, nothing }) {
    const kind = T.weighted([[5, 'store'], [2, 'registry'], [2, 'state'], [1, 'bare']])
    const init = kind === 'registry' ? T.obj(2) : T.weighted([[4, () => T.obj(2)], [2, () => T.json(2)], [1, () => T.num()], [0.5, () => undefined]])()
    let s
    if (kind === 'bare') {
      // nothing of the check's own listens: what an updater that does nothing returns is the value
      const [, set, onChange, reset] = createState(init)
      s = { get: () => set(() => {}), set, reset, onChange }
    } else if (kind === 'state') {
      const [v0, set, onChange, reset] = createState(init)
      s = { cur: v0, get() { return this.cur }, set, reset, onChange }
      onChange(v => { s.cur = v })
    } else s = kind === 'store' ? createStore(init) : createRegistry(init)
    T.step(`${kind} init`, init)
    let current = init // identity of the value in the store
    let shadow = print(init)
    let version = 0
    let log = []
    const handlers = []
    const subscribe = () => {
      const h = { id: handlers.length, on: true }
      h.fn = (v, p) => { log.push({ h, v, p }); T.is(s.get(), v, `h${h.id}: value reported by the store while it runs`) }
      h.off = s.onChange(h.fn)
      handlers.push(h)
    }
    for (let i = kind === 'bare' && T.bool(0.6) ? 0 : T.range(0, T.byScale(3, 6, 30)); i > 0; i--) subscribe()
    const quiet = what => {
      T.is(log.length, 0, `${what}: notifications`)
      T.is(s.get(), current, `${what}: value`)
      T.is(print(s.get()), shadow, `${what}: content`)
    }
    /** one commit: the log holds exactly one call per handler, in order, with (new, current) */
    const committed = (what, v, entries = log.splice(0)) => {
      const act = handlers.filter(h => h.on)
      if (Object.is(v, current)) return T.is(entries.length, 0, `${what}: notifications for an unchanged value`)
      T.sameList(entries.map(e => e.h.id), act.map(h => h.id), `${what}: handlers called`)
      for (const e of entries) {
        T.is(e.v, v, `${what}: new value given to h${e.h.id}`)
        T.is(e.p, current, `${what}: previous value given to h${e.h.id}`)
      }
      T.count('commits')
      T.count('notifications', entries.length)
      current = v
      shadow = print(v)
      version++
    }
    let uid = 0
    const fresh = () => kind === 'registry'
      ? T.weighted([[4, () => ({ ['k' + ++uid]: uid })], [1, () => ({})]])()
      : T.weighted([[3, () => ({ u: ++uid, x: T.json(1) })], [3, () => T.pick([null, false, 0, '', NaN, -0, true])], [1, () => ++uid], [1, () => [++uid]], [0.5, () => current ?? null], [0.6, () => new Date(++uid)]])()

    const open = []
    function start() {
      const base = s.get()
      const plain = isPlain(base)
      const u = { id: T.uid = (T.uid ?? 0) + 1, base, version, gate: deferred(), done: undefined, edits: [], arg: undefined }
      u.form = T.weighted([[3, 'direct'], [3, 'await'], [plain ? 4 : 0, 'edit'], [plain ? 1 : 0, 'returndraft'], [plain && kind !== 'registry' ? 0.7 : 0, 'child'], [0.8, 'void']])
      u.end = u.form === 'direct' || u.form === 'await' ? T.weighted([[5, 'value'], [kind === 'registry' ? 0 : 1.5, 'nothing'], [2, 'reject'], [0.8, 'undefined']]) : T.weighted([[5, 'value'], [1.5, 'reject']])
      const err = T.pick([new Error('async failure'), 'text', undefined, null, 0])
      u.err = err
      u.value = u.form === 'direct' || u.form === 'await' ? (u.end === 'nothing' ? nothing : u.end === 'undefined' ? undefined : fresh()) : undefined
      if (u.value === undefined && u.end === 'value' && (u.form === 'direct' || u.form === 'await')) u.value = null
      if (u.form === 'edit' || u.form === 'returndraft') {
        const m = clone(base)
        for (let i = T.range(1, 4); i > 0; i--) { const e = randomEdit(T, m); e.apply(m); u.edits.push(e) }
        u.model = m
        u.first = T.range(0, u.edits.length) // edits made before the first await
        u.hops = T.range(0, 3)
      } else if (u.form === 'child') {
        const ks = Object.keys(base).filter(k => base[k] !== undefined && typeof base[k] !== 'function')
        u.key = ks.length ? T.pick(ks) : undefined
        if (u.key === undefined) u.form = 'void'
      }
      let fn
      // a promise need not be of the class Promise
      const foreign = u.form === 'direct' && T.bool(0.2)
      if (foreign) { u.foreign = true; T.count('foreign.promise') }
      if (u.form === 'direct') fn = d => { u.calls = (u.calls ?? 0) + 1; u.arg = print(d); return foreign ? { then: (...a) => u.gate.promise.then(...a), catch: (...a) => u.gate.promise.catch(...a), finally: (...a) => u.gate.promise.finally(...a) } : u.gate.promise }
      else fn = async d => {
        u.calls = (u.calls ?? 0) + 1
        u.arg = print(d)
        if (u.form === 'edit' || u.form === 'returndraft') {
          for (const e of u.edits.slice(0, u.first)) e.apply(d)
          await u.gate.promise
          for (const e of u.edits.slice(u.first)) { for (let i = 0; i < u.hops; i++) await null; e.apply(d) }
          if (u.form === 'returndraft') return d
          return
        }
        await u.gate.promise
        if (u.form === 'child') return d[u.key]
        if (u.form === 'void') return
        return u.value
      }
      T.step(`u${u.id}: set(${u.form} ${u.end}`, u.form === 'direct' || u.form === 'await' ? u.value : u.edits.map(e => e.name).join(' ; '), ')')
      const before = print(base)
      const ret = s.set(fn)
      T.is(u.calls, 1, `u${u.id} updater calls`)
      T.is(u.arg, before, `u${u.id} updater argument`)
      T.ok(ret !== null && typeof ret === 'object' && typeof ret.then === 'function', () => `u${u.id}: set(async updater) returned no promise`)
      ret.then(v => { u.out = { status: 'fulfilled', v, log: log.length, now: s.get() } }, e => { u.out = { status: 'rejected', e } })
      T.count(`form.${u.form}.${u.end}`)
      quiet(`u${u.id} started`)
      open.push(u)
      if (open.length > 1) T.count('overlapping')
    }
    const settle = u => {
      T.step(`settle u${u.id} (${u.end})`)
      if (u.end === 'reject') u.gate.reject(u.err)
      else u.gate.resolve(u.form === 'direct' ? u.value : undefined)
    }
    /** what the store may take when u commits; undefined: any of `texts` */
    function verify(u, entries) {
      const what = `u${u.id} (${u.form} ${u.end})`
      T.ok(u.out, () => `${what}: the promise returned by set is still pending after it settled`)
      if (u.end === 'reject') {
        T.is(u.out.status, 'rejected', `${what}: outcome`)
        T.is(u.out.e, u.err, `${what}: rejection reason`)
        if (!entries) quiet(`${what} rejected`)
        T.count('rejected')
        return
      }
      T.is(u.out.status, 'fulfilled', `${what}: outcome (${u.out.e?.stack ?? u.out.e})`)
      const direct = u.form === 'direct' || u.form === 'await'
      if (direct && u.end !== 'undefined') {
        const v = u.end === 'nothing' ? undefined : u.value
        committed(what, v, entries)
        T.is(u.out.v, v, `${what}: value of the promise returned by set`)
      } else if (u.form === 'void' || u.end === 'undefined') {
        committed(what, current, entries)
        T.is(u.out.v, current, `${what}: value of the promise returned by set`)
      } else {
        const stale = u.version !== version
        const v = entries ? (entries[0]?.v ?? u.out.v) : s.get()
        if (u.form === 'child' && Object.is(v, u.base[u.key]) && Object.is(v, current)) { committed(what, v, entries) } else committed(what, v, entries)
        T.is(u.out.v, v, `${what}: value of the promise returned by set`)
        const texts = []
        if (u.form === 'child') texts.push(print(u.base[u.key]))
        else {
          texts.push(print(u.model))
          if (stale) {
            try { const m = clone(u.currentAtSettle); for (const e of u.edits) e.apply(m); texts.push(print(m)) } catch {}
          }
        }
        T.ok(texts.includes(print(v)), () => `${what}: the store took ${print(v)} instead of ${texts.join(' or ')}`)
        T.count(stale ? 'inplace.overlapped' : 'inplace.committed')
      }
    }
    const steps = T.steps(8, 24, 80)
    for (let k = 0; k < steps || open.length; k++) {
      const op = T.weighted([[k < steps && open.length < 8 ? 4 : 0, 'start'], [open.length ? 4 : 0, 'settle'], [open.length > 1 ? 1.5 : 0, 'batch'], [k < steps ? 1.5 : 0, 'sync'], [0.5, 'sub'], [0.4, 'unsub'], [0.5, 'idle'], [k < steps ? 0.4 : 0, 'reset'], [0.0001, 'idle']])
      if (op === 'start') start()
      else if (op === 'settle') {
        const u = T.pick(open)
        open.splice(open.indexOf(u), 1)
        u.currentAtSettle = s.get()
        settle(u)
        quiet(`u${u.id} settled but nothing has run yet`)
        await turn()
        if (u.out?.status === 'fulfilled') {
          // the promise resolves only after the value is in place and everybody was told
          T.is(u.out.log, log.length, `u${u.id}: notifications made before the promise returned by set resolved`)
          T.is(u.out.now, s.get(), `u${u.id}: value of the store when the promise returned by set resolved`)
        }
        verify(u)
      } else if (op === 'batch') {
        // several settle in the same tick: direct ones of the class Promise only, so that settle order is
        // commit order (others may take a few microtasks more, by how they are waited for)
        const b = T.shuffle(open.filter(u => u.form === 'direct' && !u.foreign))
        if (b.length < 2) continue
        for (const u of b) { open.splice(open.indexOf(u), 1); settle(u) }
        quiet('batch settled but nothing has run yet')
        T.count('batches')
        await turn()
        const all = log.splice(0)
        const act = handlers.filter(h => h.on).length
        let from = 0
        for (const u of b) {
          const v = u.end === 'reject' || u.end === 'undefined' ? current : u.end === 'nothing' ? undefined : u.value
          const n = Object.is(v, current) ? 0 : act
          verify(u, all.slice(from, from + n))
          from += n
        }
        T.is(all.length, from, 'batch: total notifications')
        T.is(s.get(), current, 'batch: final value')
      } else if (op === 'sync') {
        const v = fresh()
        T.step('set(', v, ')')
        s.set(v)
        committed('sync set', v)
      } else if (op === 'reset') {
        T.step('reset()')
        s.reset()
        committed('reset', init)
      } else if (op === 'sub') { if (handlers.length < 40) { subscribe(); T.step('subscribe') } } else if (op === 'unsub') {
        const a = handlers.filter(h => h.on)
        if (a.length) { const h = T.pick(a); h.off(); h.on = false; T.step(`unsubscribe h${h.id}`) }
      } else await turn()
      quiet(`after ${op}`)
      for (const u of open) T.ok(!u.out, () => `u${u.id}: promise returned by set settled before the updater`)
    }
    T.count('updaters', T.uid ?? 0)
    if ((T.uid ?? 0) > 1) T.interesting()
  }
}
