// Deterministic pseudo-random source: one independent stream per (seed, property, case).
export function hash32(str, h = 0x811c9dc5) {
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i)
    h = Math.imul(h, 0x01000193)
  }
  h ^= h >>> 16
  h = Math.imul(h, 0x85ebca6b)
  h ^= h >>> 13
  h = Math.imul(h, 0xc2b2ae35)
  return (h ^ (h >>> 16)) >>> 0
}
export class Rng {
  constructor(seed) {
    this.s = hash32(String(seed)) || 1
  }
  u32() {
    let t = (this.s = (this.s + 0x6d2b79f5) | 0)
    t = Math.imul(t ^ (t >>> 15), t | 1)
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61)
    return (t ^ (t >>> 14)) >>> 0
  }
  float() {
    return this.u32() / 4294967296
  }
  /** integer in [0, n) */
  int(n) {
    return Math.floor(this.float() * n)
  }
  /** integer in [a, b] */
  range(a, b) {
    return a + this.int(b - a + 1)
  }
  bool(p = 0.5) {
    return this.float() < p
  }
  pick(a) {
    return a[this.int(a.length)]
  }
  /** pairs [weight, value] */
  weighted(pairs) {
    let t = 0
    for (const [w] of pairs) t += w
    let x = this.float() * t
    for (const [w, v] of pairs) if ((x -= w) < 0) return v
    return pairs[pairs.length - 1][1]
  }
  shuffle(a) {
    const r = [...a]
    for (let i = r.length - 1; i > 0; i--) {
      const j = this.int(i + 1)
      ;[r[i], r[j]] = [r[j], r[i]]
    }
    return r
  }
}
