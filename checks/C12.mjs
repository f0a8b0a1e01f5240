/**
 * Reference sentence case, written independently: words are split where a lower-case letter or
 * digit meets an upper-case letter, before the last capital of a run of capitals followed by a
 * lower-case letter, and at everything that is neither an ASCII letter nor a digit.
 */
export function reference(s) {
  const words = []
  let w = ''
  const lower = c => c >= 'a' && c <= 'z'
  const upper = c => c >= 'A' && c <= 'Z'
  const digit = c => c >= '0' && c <= '9'
  for (let i = 0; i < s.length; i++) {
    const c = s[i]
    if (!lower(c) && !upper(c) && !digit(c)) { if (w) words.push(w); w = ''; continue }
    const p = w ? w[w.length - 1] : ''
    const n = s[i + 1] ?? ''
    if (w && upper(c) && (lower(p) || digit(p) || (upper(p) && lower(n)))) { words.push(w); w = '' }
    w += c
  }
  if (w) words.push(w)
  const t = words.join(' ').toLowerCase()
  return t ? t[0].toUpperCase() + t.slice(1) : ''
}

export default {
  async setup() {
    return await import('@just-web/commands')
  },
  directed: [
    { name: 'documented forms', async run(T, { formatCommand }) {
      for (const [id, title] of [['just-web.showCommandPalette', 'Show command palette'], ['a.b', 'B'], ['plugin.some-command', 'Some command'], ['open', 'Open'], ['openFile', 'Open file'], ['x.XMLHttpRequest', 'Xml http request'], ['x.y.doIt', 'Y do it'], ['.hidden', 'Hidden'], ['x.', '']])
        T.is(formatCommand({ id }).title, title, `title of ${id}`)
      T.interesting()
    } }
  ],
  async run(T, { formatCommand }) {
    const words = ['show', 'Command', 'palette', 'XML', 'http', 'a', 'B', '2', '10x', 'v2', 'open', 'FILE', 'getURL', 'iOS', 'x1Y2']
    const seps = ['', '', '-', '_', ' ', '.', '/', ':', '--', '. ', '+']
    const part = () => { let s = ''; for (let i = T.range(0, 4); i > 0; i--) s += (s ? T.pick(seps) : '') + T.pick(words); return s }
    const cmd = { }
    const form = T.weighted([[6, 'dotted'], [3, 'bare'], [2, 'leading'], [1, 'trailing'], [2, 'many'], [2, 'any']])
    cmd.id = form === 'dotted' ? `${T.pick(['just-web', 'p', 'my_plugin', 'Plugin', '', '@scope/x'])}.${part()}` : form === 'bare' ? part().replaceAll('.', '') : form === 'leading' ? `.${part()}` : form === 'trailing' ? `${part()}.` : form === 'many' ? Array.from({ length: T.range(2, 6) }, part).join('.') : T.str(300)
    if (T.bool(0.4)) cmd.title = T.weighted([[1, ''], [4, T.str(60)], [1, cmd.id]])
    if (T.bool(0.5)) cmd.description = T.weighted([[1, ''], [3, T.str(80)]])
    for (const k of ['category', 'key', 'mac', 'commandPalette', 'icon', 'extra']) if (T.bool(0.2)) cmd[k] = k === 'icon' ? { light: 'x' } : k === 'commandPalette' ? false : 'v'
    // instances of a class, contributions made from a prototype, and ones with getters
    const shape = T.weighted([[8, 'plain'], [1, 'inherited'], [1, 'getters']])
    const given = { ...cmd }
    if (shape === 'inherited') {
      const own = T.pick([[], ['id'], ['title'], ['description']])
      Object.setPrototypeOf(cmd, Object.defineProperties({}, Object.fromEntries(Object.keys(given).filter(k => !own.includes(k)).map(k => [k, { configurable: true, get: () => given[k] }]))))
      for (const k of Object.keys(given)) if (!own.includes(k)) delete cmd[k]
      T.count('shape.inherited')
    }
    if (shape === 'getters') { for (const k of Object.keys(given)) Object.defineProperty(cmd, k, { enumerable: true, get: () => given[k] }); T.count('shape.getters') }
    if (T.bool(0.3)) Object.freeze(cmd)
    T.step('formatCommand', shape, given)
    const before = JSON.stringify(cmd)
    const r = formatCommand(cmd)
    T.is(JSON.stringify(cmd), before, 'contribution after formatCommand')
    T.ok(r !== cmd, 'formatCommand returned the contribution itself')
    T.is(r.id, cmd.id, 'id')
    T.is(r.description, cmd.description, 'description')
    if (cmd.title !== undefined) { T.is(r.title, cmd.title, 'given title'); T.count('given.title') } else {
      const i = cmd.id.indexOf('.')
      const rest = i < 0 ? cmd.id : cmd.id.slice(i + 1)
      if (/^[\x20-\x7e]*$/.test(rest)) { T.is(r.title, reference(rest), `title generated for ${JSON.stringify(cmd.id)}`); T.count(i < 0 ? 'generated.bare' : 'generated') } else {
        // outside ASCII only the shape is asserted
        T.is(typeof r.title, 'string', 'generated title')
        T.ok(!/^ | $| {2}/.test(r.title), () => `title ${JSON.stringify(r.title)} has stray spaces`)
        T.count('generated.unicode')
      }
    }
    T.eq(formatCommand({ ...given }), r, 'second call with an equal contribution')
    const junk = formatCommand({ id: 'other.thing', title: 'T' })
    T.eq(junk, { id: 'other.thing', title: 'T', description: undefined }, 'a different contribution')
    T.eq(formatCommand(cmd), r, 'third call')
    T.interesting()
  }
}
