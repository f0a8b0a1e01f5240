// A Web Storage double that records every operation and may refuse writes.
// Like the real thing it lists its entries as own properties and refuses a wrong receiver.
const inner = new WeakMap()
const of = s => inner.get(s) ?? (() => { throw new TypeError('Illegal invocation') })()
export class RecStorage {
  ops = []
  /** (op, key, value) => error to throw, or nothing */
  refuse = undefined
  constructor(init = []) {
    const m = new Map(init)
    const self = new Proxy(this, {
      get: (t, k, r) => (typeof k === 'symbol' || k in t ? Reflect.get(t, k, r) : m.get(k)),
      set: (t, k, v, r) => (typeof k === 'symbol' || k in t ? Reflect.set(t, k, v) : (r.setItem(k, v), true)),
      has: (t, k) => k in t || m.has(k),
      deleteProperty: (t, k) => (k in t || self.removeItem(k), true),
      ownKeys: () => (self.rec('key', '*'), [...m.keys()]),
      getOwnPropertyDescriptor: (t, k) => (m.has(k) ? { value: m.get(k), enumerable: true, configurable: true, writable: true } : undefined)
    })
    inner.set(self, m)
    return self
  }
  rec(op, key, value) {
    this.ops.push({ op, key, value })
    const e = this.refuse?.(op, key, value)
    if (e) { this.ops[this.ops.length - 1].refused = true; throw e }
  }
  get length() { const m = of(this); this.rec('length'); return m.size }
  key(i) { const m = of(this); this.rec('key', i); return [...m.keys()][Number(i)] ?? null }
  getItem(k) { const m = of(this); k = String(k); this.rec('getItem', k); return m.get(k) ?? null }
  setItem(k, v) { const m = of(this); k = String(k); v = String(v); this.rec('setItem', k, v); m.set(k, v) }
  removeItem(k) { const m = of(this); k = String(k); this.rec('removeItem', k); m.delete(k) }
  clear() { const m = of(this); this.rec('clear'); m.clear() }
  // for the monitors (not recorded)
  snapshot() { return new Map(of(this)) }
  put(k, v) { of(this).set(k, v) }
  drop(k) { of(this).delete(k) }
  writes(from = 0) { return this.ops.slice(from).filter(o => o.op === 'setItem' || o.op === 'removeItem' || o.op === 'clear') }
}
/** entries of any Web Storage, without going through the recorder */
export function snapshot(s) {
  if (s instanceof RecStorage) return s.snapshot()
  const m = new Map()
  for (let i = 0; i < s.length; i++) m.set(s.key(i), s.getItem(s.key(i)))
  return m
}
export function put(s, k, v) { if (s instanceof RecStorage) s.put(k, v); else s.setItem(k, v) }
export const diff = (a, b) => {
  const keys = new Set([...a.keys(), ...b.keys()])
  return [...keys].filter(k => a.get(k) !== b.get(k))
}
