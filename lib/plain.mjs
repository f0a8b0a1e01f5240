// Reference helpers for plain data: independent clone, fingerprint, random edits.
export const isPlain = v => v !== null && typeof v === 'object' && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype || Object.getPrototypeOf(v) === null)

export function clone(v) {
  if (!isPlain(v)) return v
  if (Array.isArray(v)) return v.map(clone)
  const r = Object.create(Object.getPrototypeOf(v))
  for (const k of Reflect.ownKeys(v)) r[k] = clone(v[k])
  return r
}

const ids = new WeakMap()
let next = 1
/** structural text of a value; non-plain objects and functions are identified by reference */
export function print(v) {
  if (isPlain(v)) {
    if (Array.isArray(v)) return `[${v.map(print).join(',')}]`
    return `{${Reflect.ownKeys(v).map(k => `${String(typeof k === 'symbol' ? `@${id(k)}` : JSON.stringify(k))}:${print(v[k])}`).join(',')}}`
  }
  if ((typeof v === 'object' && v !== null) || typeof v === 'function') return `#${id(v)}`
  if (typeof v === 'symbol') return `@${id(v)}`
  if (Object.is(v, -0)) return '-0'
  return typeof v === 'string' ? JSON.stringify(v) : `${typeof v}:${String(v)}`
}
const symIds = new Map()
function id(v) {
  const m = typeof v === 'symbol' ? symIds : ids
  if (!m.has(v)) m.set(v, next++)
  return m.get(v)
}

/** first path at which a value is not deeply frozen plain data, or undefined */
export function unfrozenPath(v, path = '$', seen = new Set()) {
  if (!isPlain(v) || seen.has(v)) return
  seen.add(v)
  if (!Object.isFrozen(v)) return path
  for (const k of Reflect.ownKeys(v)) {
    const p = unfrozenPath(v[k], `${path}.${String(k)}`, seen)
    if (p) return p
  }
}

/** all plain containers inside v with their paths */
export function containers(v, path = [], out = []) {
  if (isPlain(v)) {
    out.push({ path, node: v })
    for (const k of Reflect.ownKeys(v)) containers(v[k], [...path, k], out)
  }
  return out
}
const SYMS = [Symbol('one'), Symbol('two'), Symbol.for('just-web')]
/** v with some members under symbol keys, some containers shared, some frozen (at the first level only) */
export function vary(T, v, chance = 0.25) {
  if (!isPlain(v)) return v
  if (T.bool(chance)) for (const { node } of containers(v)) if (!Array.isArray(node) && T.bool(0.4)) node[T.pick(SYMS)] = T.weighted([[2, () => T.obj(2)], [1, () => [T.json(1), T.obj(1)]], [1, () => T.json(1)]])()
  if (T.bool(chance)) for (const { node } of containers(v)) if (T.bool(0.3)) Object.freeze(node)
  return v
}
export const at = (v, path) => path.reduce((a, k) => {
  // own members only: edits never reach a prototype
  if (!Object.prototype.hasOwnProperty.call(a, k)) throw new Error(`no own member ${String(k)}`)
  return a[k]
}, v)

/**
 * A random in-place edit of `model` (plain container), as a function applicable to any
 * structurally equal target (the draft and the model's clone). Always changes something.
 */
export function randomEdit(T, model, { value = () => T.json(2) } = {}) {
  const all = containers(model)
  const { path, node } = T.pick(all)
  const fresh = value()
  const where = path.map(String).join('/')
  if (Array.isArray(node)) {
    const ops = [['push', t => { t.push(clone(fresh)) }], ['unshift', t => { t.unshift(clone(fresh)) }]]
    if (node.length) {
      const i = T.int(node.length)
      ops.push(['pop', t => { t.pop() }], ['shift', t => { t.shift() }], [`splice ${i}`, t => { t.splice(i, 1, clone(fresh), clone(fresh)) }],
        [`[${i}]=`, t => { t[i] = [clone(fresh), 'e'] }], ['length=0', t => { t.length = 0 }])
    }
    const [name, f] = T.pick(ops)
    return { path, name: `${where}.${name} ${print(fresh)}`, apply: target => f(at(target, path)) }
  }
  const keys = Reflect.ownKeys(node)
  let k = keys.length && T.bool(0.4) ? T.pick(keys) : T.str(40)
  if (k === '__proto__') k = 'proto'
  if (keys.includes(k) && T.bool(0.4)) return { path, name: `delete ${where}/${String(k)}`, apply: target => { delete at(target, path)[k] } }
  return { path, name: `${where}/${String(k)} = ${print(fresh)}`, apply: target => { at(target, path)[k] = [clone(fresh), 'e'] } }
}
