// One exploration worker: runs its share of the cases of a check in its own process.
import fs from 'node:fs'
import inspector from 'node:inspector'
import { Case, Violation, show } from './case.mjs'
import { REPO, loadedFiles } from './loader.mjs'
import { mine } from './dictionary.mjs'
import { installClock, real } from './clock.mjs'

const [, , id, cfgJson] = process.argv
const cfg = JSON.parse(cfgJson)
const send = m => new Promise(r => process.send ? process.send(m, r) : r(console.log(JSON.stringify(m, null, 1))))

const stray = []
process.on('unhandledRejection', e => stray.push(['unhandledRejection', e]))
process.on('uncaughtException', e => stray.push(['uncaughtException', e]))

installClock()

const session = new inspector.Session()
session.connect()
const post = (m, p) => new Promise((res, rej) => session.post(m, p, (e, r) => (e ? rej(e) : res(r))))
await post('Profiler.enable')
await post('Profiler.startPreciseCoverage', { callCount: true, detailed: true })

const reached = new Map() // file -> Uint8Array over the compiled text
/** code of the anchored files that nothing has executed so far (accumulated over calls) */
async function takeCoverage(anchors) {
  const { result } = await post('Profiler.takePreciseCoverage')
  for (const s of result) {
    if (!s.url.startsWith('file://')) continue
    const f = decodeURIComponent(s.url.slice(7))
    if (!loadedFiles.has(f) || !anchors.some(a => f === `${REPO}/${a}`)) continue
    const n = loadedFiles.get(f).length
    const now = new Int8Array(n)
    for (const fn of s.functions) for (const r of fn.ranges) now.fill(r.count > 0 ? 1 : 0, r.startOffset, r.endOffset)
    if (!reached.has(f)) reached.set(f, new Uint8Array(n))
    const acc = reached.get(f)
    for (let i = 0; i < n; i++) if (now[i]) acc[i] = 1
  }
}
function missing() {
  const out = []
  for (const [f, acc] of reached) {
    const code = loadedFiles.get(f)
    const end = code.indexOf('//# sourceMappingURL')
    for (let i = 0; i < (end < 0 ? acc.length : end); i++) {
      if (acc[i]) continue
      let j = i
      while (j < acc.length && !acc[j]) j++
      const text = code.slice(i, j).trim()
      if (/[\w]/.test(text.replace(/^else\b/, ''))) out.push(`${f.slice(REPO.length + 1)}: ${text.replace(/\s+/g, ' ').slice(0, 80)}`)
      i = j
    }
  }
  return out
}

const { large } = await import('./large.mjs')
let check, ctx
try {
  check = (await import(`../checks/${id}.mjs`)).default
  ctx = await check.setup?.(cfg)
} catch (e) {
  await send({ type: 'error', message: `setup failed: ${e?.stack ?? e}` })
  process.exit(3)
}
const dict = mine()
const t0 = real.now()
const report = { type: 'done', evaluations: 0, nontrivial: 0, sigs: [], counters: {}, checks: 0, samples: [], known: [], capped: false }
const sigs = new Set()

/** tells the parent which case is running, so that one that never ends is noticed */
function beat(index) {
  try {
    fs.writeSync(4, `${index}\n`)
  } catch {}
}

async function one(index) {
  beat(index)
  const T = new Case({ id, seed: cfg.seed, index, dict, tier: cfg.tier })
  stray.length = 0
  try {
    const directed = [...check.directed ?? [], ...large[id] ?? []]
    if (index < directed.length) {
      T.directed = directed[index].name
      T.step(`directed: ${directed[index].name}`)
      await directed[index].run(T, ctx)
    } else await check.run(T, ctx)
    if (check.strayIsViolation !== false && stray.length) {
      await new Promise(r => setImmediate(r))
      T.fail(`stray ${stray[0][0]}: ${show(stray[0][1])}`)
    }
  } catch (e) {
    const v = e instanceof Violation
    const message = v ? e.message : `unexpected exception: ${e?.stack ?? show(e)}`
    const key = v ? e.key : undefined
    if (key && cfg.known.includes(key)) {
      report.known.push({ key, message, index })
    } else return { index, message, key, directed: T.directed, trace: T.trace, dropped: T.traceDropped }
  }
  report.evaluations++
  report.checks += T.checks
  for (const [k, n] of Object.entries(T.counters)) report.counters[k] = (report.counters[k] ?? 0) + n
  if (T.nontrivial) {
    report.nontrivial++
    if (sigs.size < 200000) sigs.add(T.sig)
    if (report.samples.length < 2 && T.trace.length > 3) report.samples.push({ case: index, trace: T.trace.slice(0, 14) })
  }
}

let violation
let ran = 0
const want = cfg.only !== undefined ? [cfg.only] : null
if (want) violation = await one(want[0])
else {
  for (let i = cfg.worker; i < cfg.cases; i += cfg.workers) {
    violation = await one(i)
    ran++
    if (violation) break
    if (real.now() - t0 > cfg.capMs) {
      report.capped = true
      break
    }
    if ((ran & 15) === 0) await new Promise(r => setImmediate(r))
  }
  // coverage-guided continuation: parts of the anchored code no case has reached yet
  if (!violation && cfg.anchors.length) {
    await takeCoverage(cfg.anchors)
    let i = cfg.cases + cfg.worker
    const until = real.now() + cfg.extraMs
    while (!violation && missing().length && real.now() < until) {
      for (let k = 0; k < 20 && !violation && real.now() < until; k++, i += cfg.workers) {
        violation = await one(i)
        report.extra = (report.extra ?? 0) + 1
      }
      await takeCoverage(cfg.anchors)
    }
    report.coverage = { bytes: [...reached.values()].reduce((a, r) => a + r.length, 0), files: reached.size, uncovered: missing() }
  }
}
try {
  await check.teardown?.(ctx)
} catch {}
report.sigs = [...sigs]
report.wall = real.now() - t0
await send(violation ? { type: 'violation', violation, report: { ...report, evaluations: report.evaluations + 1 } } : report)
process.exit(0)
