import { execFile } from 'node:child_process'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const child = path.join(path.dirname(path.dirname(fileURLToPath(import.meta.url))), 'lib/host-child.mjs')
// user agents as browsers send them; N is a version number, M an OS X version
const MAC = [
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/N.1 Safari/605.1.15',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36 Edg/N.0.0.0',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36 OPR/N.0.0.0',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36 Vivaldi/N.1',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X 10.15; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X 11_2; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) MyApp/1.0.0 Chrome/N.0.0.0 Electron/N.0.0 Safari/537.36',
  'Mozilla/5.0 (Macintosh; Intel Mac OS X M) AppleWebKit/537.36 (KHTML, like Gecko) HeadlessChrome/N.0.0.0 Safari/537.36',
  'Mozilla/5.0 (Macintosh; U; PPC Mac OS X 10_5_8; en-us) AppleWebKit/533.19.4 (KHTML, like Gecko) Version/5.0.3 Safari/533.19.4',
  'Opera/9.80 (Macintosh; Intel Mac OS X 10.6.8; U; en) Presto/2.9.168 Version/11.52'
]
const OTHER = [
  'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36',
  'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36 Edg/N.0.0.0',
  'Mozilla/5.0 (Windows NT 6.1; WOW64; Trident/7.0; rv:11.0) like Gecko',
  'Mozilla/5.0 (Windows NT 10.0; Win64; x64; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36',
  'Mozilla/5.0 (X11; Ubuntu; Linux x86_64; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (X11; Fedora; Linux x86_64; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (X11; CrOS x86_64 14541.0.0) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36',
  'Mozilla/5.0 (X11; FreeBSD amd64; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (X11; OpenBSD amd64; rv:N.0) Gecko/20100101 Firefox/N.0',
  'Mozilla/5.0 (Linux; Android 13; Pixel 7) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Mobile Safari/537.36',
  'Mozilla/5.0 (Linux; Android 10; K) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Mobile Safari/537.36',
  'Mozilla/5.0 (Android 13; Mobile; rv:N.0) Gecko/N.0 Firefox/N.0',
  'Mozilla/5.0 (Linux; Android 12; SAMSUNG SM-G991B) AppleWebKit/537.36 (KHTML, like Gecko) SamsungBrowser/N.0 Chrome/N.0.0.0 Mobile Safari/537.36',
  'Mozilla/5.0 (iPhone; CPU iPhone OS 16_5 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.5 Mobile/15E148 Safari/604.1',
  'Mozilla/5.0 (iPhone; CPU iPhone OS 16_5 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) CriOS/N.0.0.0 Mobile/15E148 Safari/604.1',
  'Mozilla/5.0 (iPad; CPU OS 12_2 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/12.1 Mobile/15E148 Safari/604.1',
  'Mozilla/5.0 (iPod touch; CPU iPhone OS 12_0 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/12.0 Mobile/15E148 Safari/604.1',
  'Mozilla/5.0 (PlayStation 4 3.11) AppleWebKit/537.73 (KHTML, like Gecko)',
  'Mozilla/5.0 (Nintendo Switch; WifiWebAuthApplet) AppleWebKit/601.6 (KHTML, like Gecko) NF/4.0.0.5.10 NintendoBrowser/5.1.0.13343',
  'Mozilla/5.0 (Windows NT 10.0; Win64; x64; Xbox; Xbox One) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/N.0.0.0 Safari/537.36 Edge/N.0',
  'Mozilla/5.0 (Mobile; Nokia_8110_4G; rv:48.0) Gecko/48.0 Firefox/48.0 KAIOS/2.5',
  'Mozilla/5.0 (SMART-TV; LINUX; Tizen 5.0) AppleWebKit/537.36 (KHTML, like Gecko) Version/5.0 TV Safari/537.36',
  'Mozilla/5.0 (compatible; Googlebot/2.1; +http://www.google.com/bot.html)',
  'Opera/9.80 (Windows NT 6.1; U; en) Presto/2.12.388 Version/12.18',
  'curl/8.0', 'x', 'Macbeth/1.0 (some device)'
]
const NODE = ['darwin', 'linux', 'win32', 'freebsd', 'openbsd', 'sunos', 'aix', 'android']
const ALL = [...MAC.map(ua => ({ kind: 'browser', ua, mac: true, platform: 'MacIntel' })), ...OTHER.map(ua => ({ kind: 'browser', ua, mac: false, platform: /Win/.test(ua) ? 'Win32' : /iP/.test(ua) ? 'iPhone' : 'Linux x86_64' })), ...NODE.map(p => ({ kind: 'node', platform: p, mac: p === 'darwin' }))]

async function check(T, host) {
  const fill = s => s?.replace(/\bN\b/g, String(T.range(60, 140))).replace(/\bM\b/g, T.pick(['10_15_7', '10_11_6', '11_0', '13_4_1', '14_2', '10_9_5']))
  const h = { ...host, ua: fill(host.ua), press: T.bool(0.6) }
  // Node.js hosts have a navigator or not, depending on the version
  if (h.kind === 'node') { if (T.bool(0.4)) h.noNavigator = true; else h.ua = `Node.js/${T.range(18, 26)}` }
  h.bindings = Array.from({ length: 4 }, (_, i) => T.weighted([[2, { id: `c${i}`, key: T.pick(['ctrl+p', 'a', 'g i']), mac: T.pick(['cmd+p', 'b']) }], [1, { id: `c${i}`, key: T.pick(['ctrl+q', 'x']) }], [1, { id: `c${i}`, mac: T.pick(['cmd+q', 'y']) }]]))
  T.step(h.kind, h.ua ?? '', h.platform, h.mac ? '(a Mac)' : '', h.noNavigator ? 'without navigator' : '')
  const out = await new Promise((res, rej) => execFile(process.execPath, ['--no-warnings', child, JSON.stringify(h)], { timeout: 60_000, env: { ...process.env, NODE_CHANNEL_FD: undefined } }, (e, stdout, stderr) => {
    const m = /^RESULT (.*)$/m.exec(stdout)
    if (m) res(JSON.parse(m[1]))
    else rej(new Error(`the host process printed no result: ${e?.message ?? ''} ${stderr.slice(-1500)}`))
  }))
  const keys = mac => h.bindings.map(b => ({ id: b.id, ...((mac ? b.mac ?? b.key : b.key) === undefined ? {} : { key: mac ? b.mac ?? b.key : b.key }) }))
  T.sameList(out.direct, [h.mac, h.mac], 'isMac()')
  for (const a of out.apps) {
    T.sameList(a.isMac, [h.mac, h.mac, h.mac], 'app.os.isMac()')
    T.eq(a.keys, keys(h.mac), 'keys in effect')
  }
  T.sameList(out.fake.isMac, [!h.mac], 'an overridden isMac()')
  T.eq(out.fake.keys, keys(!h.mac), 'keys in effect with an overridden isMac()')
  if (out.pressed) { T.eq(out.pressed, h.mac ? { q: 0, m: 1 } : { q: 1, m: 0 }, 'commands run by the keys'); T.count('pressed') }
  T.count(`${h.kind}.${h.mac ? 'mac' : 'other'}`)
  T.interesting()
}

export default {
  async setup() {
    // the children do the work; loading here lets the coverage name files
    return {}
  },
  directed: ALL.map((h, i) => ({ name: `host ${i}`, run: T => check(T, h) })),
  run: T => check(T, T.pick(ALL))
}
