// The clock of a worker: real time plus jumps. Time passes between the steps of some histories
// (a millisecond to a day), and timers that become due run at the next turn of the event loop.
export const real = { now: Date.now, setTimeout: globalThis.setTimeout, clearTimeout: globalThis.clearTimeout }
let offset = 0
let timers = []
const now = () => real.now() + offset

let held
/** what the page reads as the time; timers are not affected */
export const hold = ms => { held = ms }
const shown = () => held ?? now()

export function jump(ms) { offset += ms }

/** run the timers that are due; what they throw is an uncaught exception, as ever */
export function pump() {
  if (!timers.length) return
  for (;;) {
    const t = timers.filter(x => x.at <= now()).sort((a, b) => a.at - b.at)[0]
    if (!t) return
    if (t.every === undefined) timers = timers.filter(x => x !== t)
    else t.at = Math.max(now() + 1, t.at + t.every)
    try {
      t.fn(...t.args)
    } catch (e) {
      queueMicrotask(() => { throw e })
    }
  }
}
function start(fn, ms, args, every) {
  const t = { fn, at: now() + ms, args, every, ref() { return t }, unref() { t.backup?.unref(); return t }, hasRef: () => true, refresh() { t.at = now() + ms; return t }, close() { stop(t) }, [Symbol.toPrimitive]: () => 1e9 + t.n }
  t.n = ++uid
  t.backup = real.setTimeout(pump, ms + 1)
  timers.push(t)
  return t
}
let uid = 0
const stop = t => { timers = timers.filter(x => x !== t && 1e9 + x.n !== t) }

export function installClock() {
  const { setInterval, clearInterval } = globalThis
  // short waits are left to the host
  globalThis.setTimeout = Object.assign((fn, ms = 0, ...args) => (ms > 4 && typeof fn === 'function' ? start(fn, ms, args) : real.setTimeout(fn, ms, ...args)), real.setTimeout)
  globalThis.setInterval = (fn, ms = 0, ...args) => (ms > 4 ? start(fn, ms, args, ms) : setInterval(fn, ms, ...args))
  globalThis.clearTimeout = t => { stop(t); real.clearTimeout(t?.backup ?? t) }
  globalThis.clearInterval = t => { stop(t); clearInterval(t?.backup ?? t) }
  const D = Date
  globalThis.Date = new Proxy(D, {
    construct: (t, args, nt) => Reflect.construct(t, args.length ? args : [shown()], nt),
    get: (t, p, r) => (p === 'now' ? shown : Reflect.get(t, p))
  })
  const perf = performance.now.bind(performance)
  Object.defineProperty(performance, 'now', { configurable: true, writable: true, value: () => held ?? perf() + offset })
}
