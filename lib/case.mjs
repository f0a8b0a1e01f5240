import { isDeepStrictEqual, inspect } from 'node:util'
import { Rng, hash32 } from './rng.mjs'
import { jump, pump } from './clock.mjs'

export class Violation extends Error {
  constructor(msg, key) {
    super(msg)
    this.key = key
  }
}
export const show = v => inspect(v, { depth: 6, breakLength: 160, maxArrayLength: 30, maxStringLength: 300 })

const HOSTILE = ['__proto__', 'constructor', 'toString', 'valueOf', 'hasOwnProperty', 'isPrototypeOf', 'toLocaleString', 'prototype',
  'length', 'name', '__defineGetter__', '', ' ', '0', '1', '-1', '10', '01', '1.5', 'NaN', 'null', 'undefined', 'true', 'false', '{}', '[]', '"', "'", '\\',
  '/', '//', ':', 'a:b', 'a.b', '.a', 'a.', '..', '%20', '%', '#', '?', 'a b', '\n', '\t', '\u0000', 'é', 'e\u0301', 'ß', 'ı', 'İ', '日本語', '😀', '👨‍👩‍👧‍👦', '\u{10FFFF}', '\uFFFF', '\uFEFF', '𝒳y', 'A', 'a', 'Aa', 'aA',
  '$', '$1', '$&', '${x}', '<b>', '--', 'then', 'get', 'set', 'keys', 'default', 'immer-nothing', '@just-web/x', 'test', 'test:', 'test:x', 'x:test',
  // texts that look like something else
  '2020-01-01T00:00:00.000Z', '2020-01-01', '/Date(0)/', '1e3', '0x10', '1n', 'Infinity', '-0', '1,000', 'YWJj', 'data:,x', '#fff', 'http://x/y?z=1#w', 'file:///x', '\\u0041', '%F0%9F%98%80', '&amp;', '/x/g',
  'function () {}', '() => 1', 'Symbol(s)', '[object Object]', 'a@b.c', '192.168.0.1', '00000000-0000-0000-0000-000000000000', 'yes', 'no', 'on', 'off', '__v', '_', '@', '$ref', '$date', 'toJSON', 'en-US', 'utf-8', 'v1.2.3', '\u202e', '\u200b', '\r\n', '*']
const WORDS = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta', 'k1', 'k2', 'k3', 'x', 'y', 'z']

export class Case {
  constructor({ id, seed, index, dict, tier }) {
    this.id = id
    this.index = index
    this.tier = tier
    this.dict = dict
    this.rng = new Rng(`${seed}/${id}/${index}`)
    // every case has a scale: mostly small histories, some medium, a few large
    const s = this.rng.float()
    this.scale = index < 3 ? 'small' : s < 0.62 ? 'small' : s < 0.92 ? 'medium' : 'large'
    this.trace = []
    this.traceDropped = 0
    this.counters = {}
    this.checks = 0
    this.sig = 0
    this.nontrivial = false
    this.time = new Rng(`${seed}/${id}/${index}/time`)
    // how often time passes between two steps
    this.pace = this.time.pick([0, 0, 0.03, 0.1, 0.4])
  }
  // --- randomness -------------------------------------------------------
  bool(p) { return this.rng.bool(p) }
  int(n) { return this.rng.int(n) }
  range(a, b) { return this.rng.range(a, b) }
  pick(a) { return this.rng.pick(a) }
  weighted(p) { return this.rng.weighted(p) }
  shuffle(a) { return this.rng.shuffle(a) }
  byScale(small, medium, large) { return this.scale === 'small' ? small : this.scale === 'medium' ? medium : large }
  /** number of steps of a history: uniform up to the scale's bound */
  steps(small, medium, large) { return this.range(Math.max(1, this.byScale(small, medium, large) >> 1), this.byScale(small, medium, large)) }
  /** a count, near a literal of the code now and then */
  size(max, typical = Math.min(4, max)) {
    if (this.bool(0.12)) {
      const c = this.dict.nums.filter(n => n >= 1 && n <= max + 1)
      if (c.length) return Math.max(0, Math.min(max, this.pick(c) + this.pick([-1, 0, 1])))
    }
    if (this.scale === 'large' && this.bool(0.25)) return this.range(0, max)
    return this.range(0, typical)
  }
  /** a string: ordinary words, hostile names, literals of the code, unicode, long ones */
  str(max = 3000) {
    return this.weighted([
      [10, () => this.pick(WORDS)],
      [8, () => this.pick(HOSTILE)],
      [2, () => this.pick(this.dict.strs)],
      [2, () => this.pick(WORDS) + this.pick([':', '.', '/', '-', ' ', '_', '', '+', ',']) + this.pick(HOSTILE)],
      [2, () => this.unicode(this.range(0, 12))],
      [1, () => this.unicode(Math.min(max, this.pick(this.dict.nums.filter(n => n <= max)) + this.pick([-1, 0, 1])))],
      [0.6, () => 'q'.repeat(Math.max(0, Math.min(max, this.pick(this.dict.nums.filter(n => n <= max)) + this.pick([-1, 0, 1]))))],
      [this.scale === 'large' ? 1 : 0.1, () => this.unicode(this.range(0, max))],
      [1, () => String(this.int(1000))],
      [1, () => JSON.stringify(this.pick([1, 'a', null, { a: 1 }, [1, 2], true]))]
    ])()
  }
  /** well-formed unicode of n code points */
  unicode(n) {
    let s = ''
    for (let i = 0; i < n; i++) {
      const c = this.weighted([[5, this.range(32, 126)], [1, this.range(0, 31)], [2, this.range(0x80, 0x7ff)], [2, this.range(0x800, 0xd7ff)], [1, this.range(0xe000, 0xffff)], [2, this.range(0x10000, 0x10ffff)]])
      s += String.fromCodePoint(c)
    }
    return s
  }
  /** a long well-formed string: beyond the buffers, cuts and batches one would think of */
  long() {
    const n = this.byScale(this.pick([300, 1100, 5000]), this.pick([5000, 20000, 70000]), this.pick([70000, 300000]))
    const s = this.unicode(this.range(1, 40))
    return s.repeat(Math.ceil(n / s.length)) + this.pick(['', 'e', '\n', '😀'])
  }
  /** a large number of entries */
  bulk() { return this.byScale(this.pick([40, 70, 110]), this.pick([110, 140, 270]), this.pick([270, 530, 1030])) }
  /** a small pool of distinct strings so that histories collide on keys */
  strPool(n, gen = () => this.str(200)) {
    const s = new Set()
    for (let i = 0; i < 60 && s.size < n; i++) s.add(gen())
    return [...s]
  }
  /** a string that sloppy comparison, encoding, matching or cutting would take for `s` */
  confusable(s) {
    const n = this.pick([1, 2, 8, 16, 32, 64, 128, 255])
    return this.weighted([
      [2, () => s.toUpperCase()], [1, () => s.toLowerCase()], [2, () => s + this.pick([' ', '\n', '\t', '.', '/', '-', '_', '0', 's', '\u0000', '%'])], [1, () => ' ' + s],
      [2, () => s.slice(0, -1)], [1, () => s.slice(1)], [1, () => s.trim()], [1, () => encodeURIComponent(s.toWellFormed())],
      [1, () => s.normalize(this.pick(['NFC', 'NFD', 'NFKC']))], [2, () => s.replace(/[^a-z0-9]/i, 'x')], [2, () => s.replace(/[a-z]/i, this.pick(['.', '*', '?', '[a-z]', '\\w', '%']))],
      [2, () => s.replace(/[-_./: ]/g, c => this.pick(['-', '_', '.', '/', ' ', ''].filter(x => x !== c)))], [1, () => s + s], [1, () => [...s].reverse().join('')],
      [1, () => s.padEnd(n, 'p') + 'a'], [1, () => s.padEnd(n, 'p') + 'b'], [1, () => `${s}.*`], [1, () => JSON.stringify(s)], [1, () => btoa(encodeURIComponent(s.toWellFormed()))],
      [1, () => `${s}x`], [1, () => `x${s}`], [1, () => `__${s}`], [1, () => `${s}__proto__`]
    ])()
  }
  /** `list` and, in some cases, a few strings easily taken for one of its members */
  confuse(list, p = 0.4, max = 3) {
    const out = [...list]
    if (list.length && this.bool(p)) for (let i = this.range(1, max); i > 0; i--) out.push(this.confusable(this.pick(out)))
    return [...new Set(out)]
  }
  num() {
    return this.weighted([[6, this.range(-3, 20)], [1, 0], [1, -0], [1, NaN], [0.5, Infinity], [0.5, -Infinity], [1, Number.MAX_SAFE_INTEGER], [1, 0.1 + this.int(10)], [1, 1e21], [1, this.pick(this.dict.nums)]])
  }
  /** plain JSON data */
  json(depth = 3) {
    const leaf = () => this.weighted([[3, () => this.range(-5, 50)], [3, () => this.str(60)], [1, () => true], [1, () => false], [1.5, () => null], [1, () => 0], [1, () => ''], [0.5, () => 1.5e300], [0.5, () => -7.25]])()
    if (depth <= 0 || this.bool(0.35)) return leaf()
    if (this.bool(0.4)) return Array.from({ length: this.range(0, 4) }, () => this.json(depth - 1))
    return this.obj(depth)
  }
  obj(depth = 3) {
    const o = {}
    const n = this.range(0, 4)
    for (let i = 0; i < n; i++) {
      let k = this.str(30)
      if (k === '__proto__') k = 'proto'
      o[k] = this.json(depth - 1)
    }
    return o
  }
  /** any JS value */
  any() {
    return this.weighted([
      [6, () => this.json(2)], [1, () => undefined], [1, () => NaN], [1, () => -0], [1, () => Symbol('s')], [1, () => 10n],
      [1, () => () => 1], [1, () => new Error('e')], [1, () => new Date(0)], [0.5, () => new Map([[1, 2]])], [1, () => this.num()]
    ])()
  }
  // --- recording --------------------------------------------------------
  step(...parts) {
    const line = parts.map(p => (typeof p === 'string' ? p : show(p))).join(' ')
    this.sig = hash32(line, this.sig)
    if (this.pace && this.time.bool(this.pace)) {
      const ms = this.time.pick([1, 20, 110, 310, 600, 1100, 5100, 61e3, 601e3, 3601e3, 90000e3])
      jump(ms)
      this.count('clock.jumps')
      if (this.trace.length < 400) this.trace.push(`(${ms} ms pass)`)
    }
    if (this.trace.length < 400) this.trace.push(line.length > 600 ? `${line.slice(0, 600)}…` : line)
    else this.traceDropped++
  }
  count(name, n = 1) { this.counters[name] = (this.counters[name] ?? 0) + n }
  interesting() { this.nontrivial = true }
  // --- verdicts ---------------------------------------------------------
  fail(msg, key) { throw new Violation(msg, key) }
  ok(cond, msg) {
    this.checks++
    if (!cond) this.fail(typeof msg === 'function' ? msg() : msg)
  }
  is(actual, expected, msg) {
    this.checks++
    if (!Object.is(actual, expected)) this.fail(`${msg}: expected ${show(expected)}, got ${show(actual)}`)
  }
  eq(actual, expected, msg) {
    this.checks++
    if (!isDeepStrictEqual(actual, expected)) this.fail(`${msg}: expected ${show(expected)}, got ${show(actual)}`)
  }
  /** same elements, same order, by identity */
  sameList(actual, expected, msg) {
    this.checks++
    if (actual.length !== expected.length || actual.some((a, i) => !Object.is(a, expected[i])))
      this.fail(`${msg}: expected ${show(expected)}, got ${show(actual)}`)
  }
  throws(fn, err, msg) {
    this.checks++
    try {
      fn()
    } catch (e) {
      if (err !== undefined && !Object.is(e, err)) this.fail(`${msg}: threw ${show(e)} instead of ${show(err)}`)
      return e
    }
    this.fail(`${msg}: nothing was thrown`)
  }
  /** await with a logical bound: settled within `turns` event-loop turns, or a violation */
  async settled(p, what, turns = 40) {
    if (p === null || (typeof p !== 'object' && typeof p !== 'function') || typeof p.then !== 'function') return { status: 'fulfilled', value: p, sync: true }
    let r
    p.then(value => { r ??= { status: 'fulfilled', value } }, reason => { r ??= { status: 'rejected', reason } })
    for (let i = 0; i < turns && !r; i++) await turn()
    if (!r) this.fail(`${what}: promise still pending after ${turns} event-loop turns although everything it waits for is settled`)
    return r
  }
  async value(p, what, turns) {
    const r = await this.settled(p, what, turns)
    if (r.status === 'rejected') this.fail(`${what}: rejected with ${show(r.reason)}`)
    return r.value
  }
}
export const turn = () => new Promise(r => setImmediate(r)).then(pump)
export const micro = async (n = 3) => { for (let i = 0; i < n; i++) await null }
