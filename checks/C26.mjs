import { appLib, NAMES } from '../lib/apps.mjs'
import { micro, turn } from '../lib/case.mjs'
import { hold } from '../lib/clock.mjs'

const realRandom = Math.random
const all = new Map() // ids made from real randomness in this process -> case
const EXTREMES = [0, 1 - 2 ** -53, 2 ** -53, 5e-324, 0.5, 0.25, 1 / 36, 35 / 36, 1e-7, 0.1, 36 ** -5, 0.999999, 1 / 3, 2 ** -30, 0.75, 0.0000152587890625]

export default {
  async setup() {
    return { ...await appLib(), ...await import('@just-web/app'), ...await import('@just-web/id/testing'), ...await import('@just-web/id') }
  },
  async run(T, { justApp, justTestApp, idGizmoFn, idTestGizmoFn, incubate, define, createMemoryLogReporter }) {
    const source = T.weighted([[4, 'real'], [2, 'extreme'], [2, 'short'], [1, 'constant'], [1, 'mixed']])
    const constant = T.pick(EXTREMES)
    const random = {
      real: realRandom,
      extreme: () => T.pick(EXTREMES),
      // few significant bits: short base 36 texts
      short: () => T.int(2 ** T.range(0, 12)) / 2 ** 12,
      constant: () => constant,
      mixed: () => (T.bool(0.3) ? T.pick(EXTREMES) : T.rng.float())
    }[source]
    T.count(`source.${source}`)
    // a coarse clock: the same reading for many apps
    const coarse = source === 'real' && T.bool()
    if (coarse) { hold(1.7e12); T.count('coarse.clock') }
    const seen = []
    const check = (app, name, what) => {
      T.is(app.name, name, `name of ${what}`)
      T.is(typeof app.id, 'string', `type of the id of ${what}`)
      T.ok(/^[a-z0-9]{15}$/.test(app.id), () => `id of ${what} is ${JSON.stringify(app.id)} (random source: ${source})`)
    }
    const apps = []
    Math.random = random
    try {
      const steps = T.steps(3, 8, 40)
      for (let i = 0; i < steps; i++) {
        const kind = T.weighted([[4, 'justApp'], [4, 'justTestApp'], [1, 'idGizmo'], [1, 'idTestGizmo']])
        const given = kind === 'justApp' || kind === 'idGizmo' || T.bool(0.8)
        const name = given ? (T.bool() ? T.pick(NAMES) : T.str(200)) : 'test'
        // options made from another app carry more than the name
        const extra = T.bool(0.1) && apps.length ? { ...T.pick([T.pick(apps).app, { id: 'given' }, { id: T.pick(apps).id, name: 'other' }]), name } : undefined
        if (extra) T.count('options.of.another.app')
        let b = extra && kind === 'idGizmo' ? incubate().with(idGizmoFn(extra))
          : extra && kind === 'justApp' ? justApp({ ...extra, log: { reporters: [createMemoryLogReporter()] } })
          : kind === 'justApp' ? justApp({ name, log: { reporters: [createMemoryLogReporter()] } })
          : kind === 'justTestApp' ? justTestApp(given ? { name } : T.pick([undefined, {}]))
            : incubate().with(kind === 'idGizmo' ? idGizmoFn({ name }) : idTestGizmoFn(given ? { name } : undefined))
        const gizmos = T.range(0, 3)
        for (let g = 0; g < gizmos; g++) b = b.with(define({ static: define.require(), async create(ctx) { const { id, name: nm } = ctx; if (T.bool()) await micro(); T.is(ctx.id, id, 'id during creation'); T.is(nm, name, 'name seen by a gizmo during creation'); return { [`g${g}`]: id } } }))
        const n = T.weighted([[6, 1], [2, 2], [1, T.range(3, 12)]])
        const concurrent = n > 1 && T.bool()
        T.step('create', n, kind, JSON.stringify(name), concurrent ? 'at once' : '')
        const made = []
        if (concurrent) made.push(...await Promise.all(Array.from({ length: n }, () => b.create())))
        else for (let k = 0; k < n; k++) made.push(await b.create())
        if (n > 1) T.count(concurrent ? 'concurrent' : 'same.builder')
        if (T.bool(0.1)) await turn()
        for (const app of made) {
          check(app, name, `an app of ${kind}`)
          for (let g = 0; g < gizmos; g++) T.is(app[`g${g}`], app.id, 'id contributed by a gizmo')
          apps.push({ app, id: app.id, name })
          seen.push(app.id)
          if (source === 'real') {
            if (all.has(app.id)) T.fail(`two apps have the id ${app.id} (of ${all.size} apps made in this process)`)
            all.set(app.id, T.index)
          }
          T.count('created')
        }
        for (const a of apps) { T.is(a.app.id, a.id, 'id of an app created earlier'); T.is(a.app.name, a.name, 'name of an app created earlier') }
      }
    } finally { Math.random = realRandom; hold() }
    if (source === 'real') {
      T.is(new Set(seen).size, seen.length, 'different ids')
      T.count('distinct', seen.length)
    }
    T.interesting()
  }
}
