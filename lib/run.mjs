#!/usr/bin/env node
// node lib/run.mjs <property> [--case N] [--seed S]   (run in /verif)
import { fork } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const id = process.argv[2]
const arg = n => (process.argv.includes(n) ? process.argv[process.argv.indexOf(n) + 1] : undefined)
let only = arg('--case')
let slot // which of the environments a check provides (see `cfg.slot`)
let seed = Number(arg('--seed') ?? process.env.VERIF_SEED ?? 1)
const replay = arg('--replay')
if (replay) {
  const r = JSON.parse(fs.readFileSync(replay, 'utf8'))
  only = r.case
  seed = r.seed
  slot = r.slot
}
if (!Number.isInteger(seed)) seed = 1
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'
const started = Date.now()

const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const prop = props.find(p => p.id === id)
const meta = (await import('../checks/meta.mjs')).default[id]
if (!prop || !meta) {
  console.error(`unknown property ${id}`)
  process.exit(2)
}
const kfile = path.join(root, 'known-findings.txt')
const known = (fs.existsSync(kfile) ? fs.readFileSync(kfile, 'utf8').split('\n') : [])
  .map(l => /^KNOWN-FINDING: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(m => m && m[1] === id).map(m => ({ key: m[2], text: m[3] }))

const workers = only !== undefined ? 1 : Math.max(1, Math.min(meta.workers ?? 6, os.availableParallelism()))
const mult = tier === 'thorough' ? (meta.thorough ?? 15) : 1
const base = {
  seed, tier, workers, cases: Math.round(meta.cases * mult), known: known.map(k => k.key),
  capMs: tier === 'thorough' ? 3_000_000 : 120_000, extraMs: tier === 'thorough' ? 300_000 : (meta.extraMs ?? 4_000),
  anchors: meta.cover ?? prop.anchors.files, ...(only !== undefined ? { only: Number(only) } : {})
}
const results = []
let failure
let watchdog
const children = []
/** a worker got stuck in, or died of, one case: it is a violation if the case alone does the same again */
const SILENT = Number(process.env.VERIF_SILENT_MS ?? 75_000)
const suspects = []
const confirmStuck = index => new Promise(res => {
  const c = fork(path.join(root, 'lib/worker.mjs'), [id, JSON.stringify({ ...base, worker: 0, workers: 1, only: index, slot: index % workers })], {
    execArgv: ['--expose-gc', '--no-warnings', '--max-old-space-size=3000'], stdio: ['ignore', 'ignore', 'ignore', 'ipc', 'pipe'], cwd: root,
    env: { ...process.env, TZ: 'UTC', NODE_ENV: 'test' }
  })
  let msg
  c.stdio[4].on('data', () => {})
  c.on('message', m => (msg = m))
  const t = setTimeout(() => c.kill('SIGKILL'), SILENT)
  c.on('exit', () => {
    clearTimeout(t)
    res(msg)
  })
})
await new Promise(resolve => {
  let open = workers
  watchdog = setTimeout(() => {
    failure ??= { type: 'error', message: 'watchdog: workers did not finish in time' }
    resolve()
  }, tier === 'thorough' ? 3_900_000 : 600_000)
  for (let w = 0; w < workers; w++) {
    const c = fork(path.join(root, 'lib/worker.mjs'), [id, JSON.stringify({ ...base, worker: w, slot: only === undefined ? w : (slot ?? Number(only) % 6) })], {
      execArgv: ['--expose-gc', '--no-warnings', '--max-old-space-size=3000'], stdio: ['ignore', 'pipe', 'pipe', 'ipc', 'pipe'], cwd: root,
      env: { ...process.env, TZ: 'UTC', NODE_ENV: 'test' }
    })
    let msg
    let err = ''
    let at = ''
    let quiet
    const beat = () => {
      clearTimeout(quiet)
      quiet = setTimeout(() => c.kill('SIGKILL'), SILENT)
    }
    c.stdio[4].on('data', d => {
      at = (at + d).slice(-40)
      beat()
    })
    c.stderr.on('data', d => (err = (err + d).slice(-4000)))
    c.stdout.on('data', () => {})
    c.on('message', m => {
      msg = m
      if (m.type === 'violation' || m.type === 'error') {
        failure ??= m
        if (m.type === 'violation' && failure.type !== 'violation') failure = m
        resolve()
      } else results.push(m)
    })
    c.on('exit', (code, signal) => {
      clearTimeout(quiet)
      if (!msg && !failure) {
        const index = Number(/(\d+)\n$/.exec(at)?.[1] ?? NaN)
        suspects.push({ w, index, how: `worker ${w} ended with ${code ?? signal} and no report in case ${index}: ${err}` })
      }
      if (--open === 0) resolve()
    })
    children.push(c)
  }
})
clearTimeout(watchdog)
for (const c of children) c.kill('SIGKILL')
const empty = { evaluations: 1, checks: 0, counters: {}, sigs: [], samples: [], known: [], capped: false }
for (const s of suspects) {
  if (failure) break
  if (Number.isNaN(s.index)) {
    failure = { type: 'error', message: s.how }
    break
  }
  const m = await confirmStuck(s.index)
  if (m?.type === 'violation') failure = m
  else if (m) failure = { type: 'error', message: `${s.how} (alone the case ends)` }
  else failure = { type: 'violation', report: empty, violation: { index: s.index, trace: [], dropped: 0, message: `case ${s.index} does not come to an end (twice: endless loop, never settling promise or exhausted memory)` } }
}

const all = failure?.type === 'violation' ? [...results, failure.report] : results
const sum = (f, z = 0) => all.reduce((a, r) => a + f(r), z)
const sigs = new Set()
for (const r of all) for (const s of r.sigs) sigs.add(s)
const counters = {}
for (const r of all) for (const [k, n] of Object.entries(r.counters)) counters[k] = (counters[k] ?? 0) + n
// a range counts as reached if any worker reached it
const cov = all.map(r => r.coverage).filter(Boolean)
const unreached = cov.length ? cov.map(c => c.uncovered).reduce((a, b) => a.filter(x => b.includes(x))) : []
const evidence = {
  property: id, tier, seed, level: meta.level ?? 'exploration',
  coverage: {
    evaluations: sum(r => r.evaluations),
    distinct_nontrivial: sigs.size,
    rule: meta.rule,
    samples: all.flatMap(r => r.samples).slice(0, 3),
    monitor_checks: sum(r => r.checks),
    observed: counters,
    anchored_files_measured: Math.max(0, ...cov.map(c => c.files)),
    anchored_code_never_reached: unreached,
    extra_cases_for_unreached_code: sum(r => r.extra ?? 0),
    time_capped_workers: sum(r => (r.capped ? 1 : 0)),
    workers
  },
  assumptions: meta.assumptions ?? [],
  wall_s: (Date.now() - started) / 1000,
  violations: failure?.type === 'violation' ? 1 : 0
}
if (only === undefined) {
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true })
  if (evidence.coverage.samples.length === 0) evidence.coverage.samples = ['(none recorded)']
  fs.writeFileSync(path.join(root, 'evidence', `${id}.json`), JSON.stringify(evidence, null, 1) + '\n')
}
const knownHit = new Map(all.flatMap(r => r.known).map(k => [k.key, k]))
for (const k of known) console.log(`KNOWN-FINDING: property=${id} ${k.text}${knownHit.has(k.key) ? '' : ' (not observed in this run)'}`)

if (failure?.type === 'violation') {
  const v = failure.violation
  fs.mkdirSync(path.join(root, 'replays'), { recursive: true })
  const file = path.join(root, 'replays', `${id}-${seed}-${v.index}.json`)
  fs.writeFileSync(file, JSON.stringify({ property: id, seed, case: v.index, slot: only === undefined ? v.index % workers : slot ?? Number(only) % 6, directed: v.directed, message: v.message, trace: v.trace, droppedSteps: v.dropped,
    replay: `cd /verif && node lib/run.mjs ${id} --replay ${file}` }, null, 1))
  console.log(`${id}: ${v.message}`)
  for (const l of v.trace.slice(-12)) console.log(`  | ${l}`)
  console.log(`VIOLATION property=${id} replay=${file}`)
  process.exit(1)
}
if (failure) {
  console.error(`${id}: inconclusive: ${failure.message}`)
  process.exit(2)
}
const missing = (meta.mustObserve ?? []).filter(k => !counters[k])
if (only === undefined && (evidence.coverage.evaluations === 0 || missing.length)) {
  console.error(`${id}: inconclusive: ${missing.length ? `never observed: ${missing.join(', ')}` : 'nothing evaluated'}`)
  process.exit(2)
}
console.log(`${id}: held on ${evidence.coverage.evaluations} cases (${sigs.size} distinct non-trivial, ${evidence.coverage.monitor_checks} monitor checks) in ${evidence.wall_s.toFixed(1)} s; ` +
  `anchored code never reached: ${unreached.length}${unreached.length ? ' ' + unreached.slice(0, 5).join(' ') : ''}`)
