import { clone, isPlain, print, randomEdit, vary } from '../lib/plain.mjs'

class Thenable { then() { throw new Error('a stored thenable must not be called') } }
class Opaque { constructor(n) { this.n = n } }
const boom = () => Object.assign(new Error('updater failed'), { mark: true })

export default {
  async setup() {
    return await import('@just-web/states')
  },
  async run(T, { createStore, createState, createRegistry, nothing }) {
    const n = 1 + T.size(T.byScale(2, 4, 40), 3)
    const stores = []
    for (let i = 0; i < n; i++) {
      const kind = T.weighted([[5, 'store'], [2, 'registry'], [3, 'state']])
      let init = kind === 'registry' ? T.obj(2) : T.weighted([[5, () => T.json(3)], [2, () => T.any()], [1, () => T.obj(3)], [0.7, () => function f() { throw new Error('a stored function must not be called') }]])()
      if (init instanceof Map) init = 0
      const model = { init, v: init, shadow: print(init) }
      let s
      if (kind === 'state') {
        const [v0, set, onChange, reset] = createState(init)
        T.is(v0, init, `store ${i}: first element of createState`)
        // without any listener, what an updater that does nothing returns is the value
        if (typeof init !== 'function' && T.bool(0.3)) s = { get: () => set(() => {}), set, reset }
        else {
          s = { cur: v0, get() { return this.cur }, set, reset }
          onChange(v => { s.cur = v })
        }
      } else s = kind === 'store' ? createStore(init) : createRegistry(init)
      T.step(`#${i} ${kind} init`, init)
      stores.push({ i, kind, s, model, fn: typeof init === 'function' })
    }
    const verify = what => {
      for (const { i, s, model } of stores) {
        const g = s.get()
        if (model.exact) T.is(g, model.v, `${what}: store ${i} value`)
        T.is(print(g), model.shadow, `${what}: store ${i} content`)
      }
    }
    verify('initially')
    const steps = T.steps(10, 40, 400)
    for (let k = 0; k < steps; k++) {
      const e = T.pick(stores)
      const { s, model, i } = e
      const cur = s.get()
      const plain = isPlain(cur)
      const op = T.weighted([[5, 'set'], [1, 'same'], [1.5, 'copy'], [1.3, 'reset'], ...(e.fn ? [[2, 'fnvalue']] : [
        [3, 'return'], [plain ? 5 : 0, 'edit'], [1, 'nothing'], [e.kind === 'registry' ? 0 : 0.4, 'returnfn'], [1.2, 'throw'], [1, 'void'], [plain ? 1 : 0, 'editreturn'], [plain ? 1 : 0, 'spread'], [plain ? 0.6 : 0, 'child'], [plain ? 0.7 : 0, 'multi'], [e.kind === 'registry' ? 0 : 0.8, 'again']])])
      const commit = (v, exact) => { model.v = v; model.shadow = print(v); model.exact = exact }
      T.count(`op.${op}`)
      let ret
      if (op === 'set' || op === 'fnvalue') {
        let v = op === 'fnvalue' ? () => { throw new Error('a stored function must not be called') } : e.kind === 'registry' ? T.obj(2) : T.any()
        if (v instanceof Map || (typeof v === 'function' && !e.fn)) v = null
        if (e.kind !== 'registry' && !e.fn && T.bool(0.06)) { v = T.pick([() => Promise.resolve(1), () => Promise.reject(new Error('a value')), () => new Thenable(), () => new Promise(() => {})])(); if (v instanceof Promise) v.catch(() => {}); T.count('promise.as.value') }
        v = vary(T, v, 0.1)
        T.step(`#${i}.set`, v)
        ret = s.set(v)
        commit(v, true)
        T.is(ret, v, `#${i}.set returns the value`)
      } else if (op === 'same') {
        if (typeof cur === 'function' && !e.fn) continue
        T.step(`#${i}.set(current)`)
        T.is(s.set(cur), cur, `#${i}.set(current) returns it`)
      } else if (op === 'copy') {
        const v = clone(cur)
        if (typeof v === 'function' && !e.fn) continue
        T.step(`#${i}.set(copy of current)`)
        ret = s.set(v)
        commit(v, true)
        T.is(ret, v, `#${i}.set(copy) returns the value`)
      } else if (op === 'reset') {
        T.step(`#${i}.reset()`)
        s.reset()
        commit(model.init, true)
      } else if (op === 'return') {
        let v = e.kind === 'registry' ? T.obj(2) : T.any()
        if (v === undefined || typeof v === 'function' || v instanceof Map) v = T.pick([null, 0, '', false, NaN])
        T.step(`#${i}.set(() =>`, v, ')')
        let arg
        ret = s.set(d => { arg = print(d); return v })
        T.is(arg, model.shadow, `#${i} updater argument`)
        commit(v, true)
        T.is(ret, v, `#${i}.set(updater) returns the new value`)
      } else if (op === 'again') {
        // the same updater function for the same value: it is called each time, its result may differ
        let result, calls = 0
        const u = () => { calls++; return result }
        T.step(`#${i}: one updater function used several times`)
        for (let q = 1, end = T.range(2, 4); q <= end; q++) {
          result = T.pick([{ q, k }, `${k} ${q}`, k + q / 10, [q, k]])
          ret = s.set(u)
          commit(result, true)
          T.is(calls, q, `#${i}: calls of an updater function used ${q} times`)
          T.is(ret, result, `#${i}.set(updater used ${q} times) returns the new value`)
          T.is(s.get(), result, `#${i} after an updater used ${q} times`)
          if (q < end && typeof cur !== 'function') { s.set(cur); commit(cur, true) }
        }
      } else if (op === 'returnfn') {
        const v = () => { throw new Error('a returned function must not be called') }
        T.step(`#${i}.set(() => function)`)
        ret = s.set(() => v)
        commit(v, true)
        T.is(ret, v, `#${i}.set(updater returning a function) returns it`)
      } else if (op === 'edit' || op === 'editreturn' || op === 'multi') {
        const m = clone(cur)
        const edits = []
        for (let q = op === 'multi' ? T.range(2, 6) : 1; q > 0; q--) {
          const ed = randomEdit(T, m)
          ed.apply(m)
          edits.push(ed)
        }
        T.step(`#${i}.set(d => ${edits.map(x => x.name).join('; ')}${op === 'editreturn' ? '; return d' : ''})`)
        ret = s.set(d => { for (const ed of edits) ed.apply(d); if (op === 'editreturn') return d })
        commit(m, false)
        T.is(print(ret), model.shadow, `#${i}.set(in-place updater) returns the new value`)
      } else if (op === 'spread') {
        const x = T.json(1)
        const v = Array.isArray(cur) ? [...clone(cur), x] : { ...clone(cur), added: x }
        T.step(`#${i}.set(d => ({...d, added:`, x, '}))')
        ret = s.set(d => (Array.isArray(d) ? [...d, x] : { ...d, added: x }))
        commit(v, false)
        T.is(print(ret), model.shadow, `#${i}.set(spread) returns the new value`)
      } else if (op === 'child') {
        const ks = Object.keys(cur).filter(q => cur[q] !== undefined && typeof cur[q] !== 'function')
        if (!ks.length || e.kind === 'registry') continue
        const key = T.pick(ks)
        const v = clone(cur[key])
        T.step(`#${i}.set(d => d[${JSON.stringify(key)}])`)
        ret = s.set(d => d[key])
        commit(v, false)
        T.is(print(ret), model.shadow, `#${i}.set(child) returns the new value`)
      } else if (op === 'nothing') {
        if (e.kind === 'registry') continue
        T.step(`#${i}.set(() => nothing)`)
        ret = s.set(() => nothing)
        commit(undefined, true)
        T.is(ret, undefined, `#${i}.set(nothing) returns undefined`)
      } else if (op === 'void') {
        T.step(`#${i}.set(() => undefined)`)
        ret = s.set(() => {})
        T.is(ret, cur, `#${i}.set(no-op updater) returns the current value`)
        T.is(s.get(), cur, `#${i} after a no-op updater`)
      } else {
        const err = T.bool(0.7) ? boom() : T.pick(['text', 0, null])
        const ed = plain && T.bool() ? randomEdit(T, clone(cur)) : undefined
        T.step(`#${i}.set(d => ${ed?.name ?? ''}; throw)`)
        T.throws(() => s.set(d => { ed?.apply(d); throw err }), err, `#${i}.set(throwing updater)`)
        T.is(s.get(), cur, `#${i} after a throwing updater`)
      }
      if (k % 5 === 4 || n < 6) verify(`after step ${k}`)
    }
    verify('finally')
    T.count('stores', n)
    T.count('steps', steps)
    if (steps > 3) T.interesting()
  }
}
