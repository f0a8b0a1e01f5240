import { installDom } from '../lib/loader.mjs'
import { appLib } from '../lib/apps.mjs'
import { snapshot } from '../lib/storage.mjs'

export default {
  async setup() {
    const { window: w } = installDom()
    // the host's fetch: like a browser's, it refuses to be called on anything but the global object
    const host = { calls: [], answer: undefined, id: 'host' }
    host.fn = function (...args) {
      if (this !== undefined && this !== globalThis && this !== w) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation")
      host.calls.push(args)
      return host.answer(...args)
    }
    globalThis.fetch = w.fetch = host.fn
    return {
      ...await appLib(), ...await import('@just-web/fetch'), ...await import('@just-web/fetch/testing'), ...await import('@just-web/browser'), ...await import('@just-web/browser/testing'), ...await import('@just-web/history'),
      window: w, host
    }
  },
  async run(T, { justApp, justTestApp, createMemoryLogReporter, fetchGizmo, fetchTestGizmoFn, browserGizmoFn, browserTestGizmoFn, historyGizmoFn, window: w, host }) {
    let uid = 0
    // a host whose fetch was replaced after the packages were loaded (a polyfill, a mock)
    const replaced = T.bool(0.15)
    const hostFn = globalThis.fetch
    if (replaced) {
      const h = { calls: [], id: 'replaced host', answer: undefined }
      h.fn = function (...args) {
        if (this !== undefined && this !== globalThis && this !== w) throw new TypeError("Failed to execute 'fetch' on 'Window': Illegal invocation")
        h.calls.push(args)
        return h.answer(...args)
      }
      globalThis.fetch = w.fetch = h.fn
      host = h
      T.count('host.replaced')
    }
    try {
    const historyGizmo = historyGizmoFn()
    const underlying = () => {
      const u = { id: `fetch ${++uid}`, calls: [] }
      u.fn = (...args) => { u.calls.push(args); return u.answer(...args) }
      return u
    }
    const apps = []
    const gizmos = []
    async function create() {
      const a = { n: apps.length }
      // the same gizmo can be used for several apps
      const again = gizmos.length && T.bool(0.3) ? T.pick(gizmos) : undefined
      const optionFetch = again ? again.optionFetch : T.bool(0.35) ? underlying() : undefined
      const gizmo = T.weighted([[replaced ? 0 : 3, undefined], [1, 'fetchGizmo'], [2, 'stub'], [1, 'test default']])
      const later = T.bool(0.15) ? underlying() : undefined
      const stub = gizmo === 'stub' ? underlying() : undefined
      const kind = again ? again.kind : T.weighted([[4, 'browser'], [1, 'test'], [1, 'none']])
      T.step('create', a.n, 'fetch option:', optionFetch?.id ?? 'none', 'fetch gizmo:', gizmo ?? 'none', stub?.id ?? '', 'browser gizmo:', kind, later ? 'another fetch gizmo afterwards' : '')
      let b = T.bool() ? justTestApp({ name: `app${a.n}` }) : justApp({ name: `app${a.n}`, log: { reporters: [createMemoryLogReporter()] } })
      if (gizmo === 'fetchGizmo') b = b.with(fetchGizmo)
      if (gizmo === 'stub') b = b.with(fetchTestGizmoFn({ fetch: stub.fn }))
      if (gizmo === 'test default') b = b.with(fetchTestGizmoFn(T.pick([undefined, {}])))
      const opts = optionFetch ? { fetch: optionFetch.fn } : T.pick([undefined, {}, { fetch: undefined }])
      if (kind !== 'none') {
        const g = again ?? { optionFetch, kind, gizmo: kind === 'browser' ? browserGizmoFn(opts) : browserTestGizmoFn(opts) }
        if (again) T.count('gizmo.again')
        else gizmos.push(g)
        b = b.with(g.gizmo)
      }
      if (later) b = b.with(fetchTestGizmoFn({ fetch: later.fn }))
      a.history = T.bool(0.4) ? T.weighted([[2, 'own'], [3, 'browser']]) : undefined
      if (a.history === 'own') { a.own = { location: { pathname: '/own' }, push() {} }; b = b.with(historyGizmoFn({ history: a.own })) }
      if (a.history === 'browser') b = b.with(T.bool(0.3) ? historyGizmo : historyGizmoFn(T.pick([undefined, {}, { history: undefined }])))
      if (T.bool(0.3)) w.history.pushState(null, '', `/before/${++uid}`)
      a.app = await b.create()
      a.kind = kind
      if (a.history === 'browser') {
        const l = a.app.history.location
        T.is(new URL(`${l.pathname}${l.search}${l.hash}`, w.location.href).href, w.location.href, 'history.location of a new app')
      }
      const first = gizmo === 'stub' ? stub : gizmo ? host : undefined
      a.fetch = later ?? (kind === 'browser' ? optionFetch ?? first ?? host : kind === 'test' ? optionFetch ?? first ?? host : first)
      T.count(`fetch.${later ? 'later' : a.fetch === optionFetch && kind !== 'none' ? 'option' : a.fetch === host ? 'host' : a.fetch ? 'gizmo' : 'none'}`)
      apps.push(a)
    }
    async function callFetch(a) {
      const f = a.fetch
      if (!f) { T.is(a.app.fetch, undefined, 'fetch of an app without any'); return }
      const outcome = T.weighted([[3, 'response'], [2, 'rejected'], [1, 'rejected later']])
      const value = outcome === 'response' ? new Response('x', { status: T.pick([200, 404, 500]) }) : T.pick([new TypeError('Failed to fetch'), new DOMException('aborted', 'AbortError'), 'text', undefined])
      for (const u of [host, ...apps.map(x => x.fetch)]) if (u) u.answer = () => { throw new Error(`${u.id} was called instead of ${f.id}`) }
      f.answer = async () => {
        if (outcome === 'rejected') throw value
        await null
        await null
        if (outcome !== 'response') throw value
        return value
      }
      const init = T.pick([{ method: 'POST', body: T.str(50) }, { headers: { a: 'b' }, signal: AbortSignal.abort() }, {}, undefined, null])
      const args = T.weighted([[3, [T.str(200)]], [3, [`http://x/${T.int(99)}`, init]], [1, [new URL('http://x/y'), init]], [1, [new Request('http://x/z', { method: 'PUT', body: 'b' })]], [0.5, []], [0.5, ['a', init, 'extra', 4]]])
      T.step('fetch', a.n, ...args.map(x => (x instanceof Request ? 'Request' : x instanceof URL ? 'URL' : JSON.stringify(x) ?? 'undefined')), '->', outcome)
      f.calls.length = 0
      const bare = T.bool(0.3)
      const { fetch } = a.app
      let p
      try { p = bare ? fetch(...args) : a.app.fetch(...args) } catch (e) { p = Promise.reject(e) }
      const r = await T.settled(p, 'a call of app.fetch')
      T.is(r.status, outcome === 'response' ? 'fulfilled' : 'rejected', `outcome of app.fetch (${r.status === 'rejected' ? r.reason?.message ?? r.reason : 'a response'})`)
      T.is(r.status === 'fulfilled' ? r.value : r.reason, value, 'what app.fetch returned or rejected with')
      T.is(f.calls.length, 1, `calls of ${f.id}`)
      T.sameList(f.calls[0], args, `arguments received by ${f.id}`)
      T.count(outcome === 'response' ? 'fetched' : 'fetch.failed')
    }
    function useStorage(a) {
      if (a.kind === 'none') return
      const which = T.pick(['localStorage', 'sessionStorage'])
      const host = w[which]
      const s = a.app.browser[which]
      const k = T.pick(['a', 'b', T.str(30)])
      const v = T.str(100)
      T.weighted([
        [4, () => { T.step(which, 'set', k, v); s.setItem(k, v); T.is(host.getItem(k), v, `host's ${which} after setItem`) }],
        [3, () => { T.step(which, 'set on the host', k, v); host.setItem(k, v); T.is(s.getItem(k), v, `app's ${which} after the host stored an item`) }],
        [1, () => { T.step(which, 'remove', k); s.removeItem(k); T.is(host.getItem(k), null, `host's ${which} after removeItem`) }],
        [0.5, () => { T.step(which, 'clear'); s.clear(); T.is(host.length, 0, `host's ${which} after clear`) }],
        [0.5, () => { host.clear(); T.is(s.length, 0, `app's ${which} after the host cleared it`); T.is(s.getItem(k), null, 'item after clear') }]
      ])()
      T.eq(snapshot(s), snapshot(host), `contents of ${which}`)
      T.count('storage')
    }
    const where = () => `${w.location.pathname}${w.location.search}${w.location.hash}`
    async function navigate(a) {
      const h = a.app.history
      if (a.history === 'own') { T.is(h, a.own, 'the given history'); T.count('history.own'); return }
      if (a.history !== 'browser') return
      const path = `/${T.pick(['a', 'b', 'c%20d', 'é'])}${T.pick(['', '/x', '/'])}${T.pick(['', '?q=1', `?n=${T.int(9)}`])}${T.pick(['', '#h'])}`
      const same = what => {
        const l = h.location
        T.is(new URL(`${l.pathname}${l.search}${l.hash}`, w.location.href).href, w.location.href, `history.location ${what}`)
      }
      const heard = []
      const off = h.listen((...args) => heard.push(args))
      await T.weighted([
        [3, () => { T.step('push', a.n, path); h.push(path, { s: uid }); T.is(w.location.href, new URL(path, w.location.href).href, 'host location after push'); same('after push') }],
        [2, () => { T.step('replace', a.n, path); const n = w.history.length; h.replace(path); T.is(w.location.href, new URL(path, w.location.href).href, 'host location after replace'); T.is(w.history.length, n, 'host history length after replace'); same('after replace') }],
        [2, async () => {
          const popped = new Promise(r => w.addEventListener('popstate', r, { once: true }))
          T.step('push, push, back', a.n)
          h.push('/1')
          h.push('/2')
          if (T.bool()) w.history.back()
          else h.go(-1)
          await Promise.race([popped, new Promise((_, rej) => setTimeout(() => rej(new Error('no popstate event from the host')), 5000))])
          T.is(where(), '/1', 'host location after going back')
          same('after the host went back')
          T.is(heard.length, 3, 'changes heard by a history listener')
          T.count('history.back')
        }]
      ])()
      T.ok(heard.length >= 1, 'history listeners hear of the navigation')
      off()
      T.count('history.browser')
    }
    w.localStorage.clear()
    w.sessionStorage.clear()
    for (let i = T.range(1, 3); i > 0; i--) await create()
    for (let i = T.steps(6, 18, 50); i > 0; i--) {
      const a = T.pick(apps)
      await T.weighted([[4, () => callFetch(a)], [4, () => useStorage(a)], [2, () => navigate(a)], [0.5, () => (apps.length < 6 ? create() : undefined)],
        [1, () => {
          if (a.kind === 'none') return
          const { navigator, location } = a.app.browser
          T.is(location.href, w.location.href, 'app.browser.location')
          T.is(navigator.userAgent, w.navigator.userAgent, 'app.browser.navigator')
          T.is(navigator.language, w.navigator.language, 'language of app.browser.navigator')
          w.history.pushState(null, '', `/pushed/${++uid}`)
          T.is(location.pathname, `/pushed/${uid}`, 'app.browser.location after the host moved on')
          T.count('location')
        }]])()
    }
    } finally { globalThis.fetch = w.fetch = hostFn }
    T.interesting()
  }
}
