export default {
  async setup() {
    return await import('@just-web/states')
  },
  directed: [
    { name: 'dispose twice keeps the neighbour and the store', async run(T, { createStore }) {
      const s = createStore(0)
      const seen = []
      const off = s.onChange(() => seen.push('a'))
      s.onChange(() => seen.push('b'))
      off(); off(); off()
      s.set(1)
      T.eq(seen, ['b'], 'handlers called')
      T.is(s.get(), 1, 'value')
      T.interesting()
    } }
  ],
  async run(T, { createStore, createState, createRegistry }) {
    const kind = T.weighted([[5, 'store'], [2, 'registry'], [2, 'state']])
    const init = kind === 'registry' ? { i: 0 } : 0
    let s
    if (kind === 'state') {
      const [v0, set, onChange, reset] = createState(init)
      s = { cur: v0, get() { return this.cur }, set, reset, onChange }
      // an updater that returns what it gets shows the value without any handler of our own
      if (T.bool()) s.get = () => set(v => v)
      else onChange(v => { s.cur = v })
    } else s = kind === 'store' ? createStore(init) : createRegistry(init)
    T.step(`${kind}`)
    let uid = 0
    let model = init
    const fresh = () => { uid++; return kind === 'registry' ? { ['k' + uid]: uid } : uid }

    const fns = [] // handler functions: {id, fn, sub: current subscription or undefined, plan}
    const subs = [] // subscription order: {f, off, active}
    let active = [] // active subscriptions in order
    // notification frames: the change being delivered, and who still has to hear of it
    const frames = []
    let nestBudget = 0

    function newFn() {
      const f = { id: fns.length, sub: undefined, plan: T.weighted([[6, 'none'], [2, 'selfoff'], [2, 'offother'], [0.7, 'offall'], [0.8, 'off+on'], [1, 'subnew'], [0.6, 'nest'], [0.7, 'doubleoff']]) }
      // handlers made at one place have the same name and the same text
      const handler = (v, p) => called(f, v, p)
      f.fn = handler
      fns.push(f)
      return f
    }
    function subscribe(f) {
      const sub = { f, active: true, n: subs.length }
      subs.push(sub)
      f.sub = sub
      active.push(sub)
      sub.off = s.onChange(f.fn)
      T.step(`  on f${f.id} -> s${sub.n}`)
      return sub
    }
    function off(sub, why) {
      T.step(`  off s${sub.n} (f${sub.f.id})${sub.active ? '' : ' again'} ${why}`)
      T.count(sub.active ? 'unsubscribed' : 'unsubscribed.again')
      if (sub.active) {
        sub.active = false
        active = active.filter(x => x !== sub)
        if (sub.f.sub === sub) sub.f.sub = undefined
        if (frames.length) T.count('unsubscribed.while.notifying')
      }
      T.is(sub.off(), undefined, 'unsubscribe returns nothing')
    }
    function called(f, v, p) {
      const fr = frames[frames.length - 1]
      T.ok(fr, () => `f${f.id} called outside of any change`)
      T.ok(f.sub, () => `f${f.id} called (${v}) although it is not subscribed`)
      T.is(v, fr.v, `f${f.id} new value`)
      T.is(p, fr.p, `f${f.id} previous value`)
      const sub = f.sub
      if (fr.late.has(sub)) { T.count('notified.late.subscriber'); return }
      // everybody before it in the queue must have been removed meanwhile
      while (fr.queue.length && fr.queue[0] !== sub) {
        const q = fr.queue.shift()
        T.ok(!q.active, () => `f${q.f.id} (s${q.n}) was skipped: f${f.id} (s${sub.n}) was called before it`)
      }
      T.ok(fr.queue[0] === sub, () => `f${f.id} (s${sub.n}) called again for the same change, or out of order`)
      fr.queue.shift()
      T.count('notifications')
      act(f, fr)
    }
    function act(f, fr) {
      if (f.plan === 'none' || !T.bool(0.6)) return
      T.step(`  in f${f.id}: ${f.plan}`)
      if (f.plan === 'selfoff' && f.sub) off(f.sub, 'self')
      else if (f.plan === 'doubleoff' && f.sub) { const x = f.sub; off(x, 'self'); off(x, 'self') }
      else if (f.plan === 'offother' && active.length) for (let i = T.range(1, 3); i > 0 && active.length; i--) off(T.pick(active), 'other')
      else if (f.plan === 'offall') for (const x of [...active]) off(x, 'all')
      else if (f.plan === 'off+on' && f.sub) { off(f.sub, 'self'); const x = subscribe(f); for (const y of frames) y.late.add(x) }
      else if (f.plan === 'subnew' && fns.length < 60) { const x = subscribe(newFn()); for (const y of frames) y.late.add(x) }
      else if (f.plan === 'nest' && nestBudget > 0) { nestBudget--; change() }
    }
    function change() {
      const v = fresh()
      T.step(`set(${JSON.stringify(v)})`)
      const fr = { v, p: model, queue: [...active], late: new Set() }
      frames.push(fr)
      model = v
      s.set(T.bool(0.3) ? () => v : v)
      frames.pop()
      for (const q of fr.queue) T.ok(!q.active, () => `f${q.f.id} (s${q.n}) was never told of the change to ${JSON.stringify(v)}`)
      T.count('changes')
    }
    const n0 = T.size(T.byScale(8, 20, 120), 6)
    for (let i = 0; i < n0; i++) subscribe(newFn())
    const steps = T.steps(10, 40, 200)
    for (let k = 0; k < steps; k++) {
      const op = T.weighted([[4, 'set'], [2, 'on'], [3, 'off'], [2, 'offagain'], [2, 'resub'], [0.4, 'offall']])
      if (op === 'set') { nestBudget = 3; change() }
      else if (op === 'on' && fns.length < 150) subscribe(newFn())
      else if (op === 'off' && active.length) off(T.pick(active), '')
      else if (op === 'offagain' && subs.length) off(T.pick(subs), '')
      else if (op === 'resub') {
        const idle = fns.filter(f => !f.sub)
        if (idle.length) { subscribe(T.pick(idle)); T.count('resubscribed') }
      } else if (op === 'offall') for (const x of T.shuffle(active)) off(x, '')
      T.is(s.get(), model, `store value after ${op}`)
    }
    nestBudget = 0
    change()
    T.is(s.get(), model, 'store value at the end')
    for (const x of [...active]) off(x, 'end')
    s.reset()
    T.is(s.get(), init, 'value after the final reset')
    if (subs.length > 1) T.interesting()
  }
}
