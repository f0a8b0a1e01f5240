// Loads the TypeScript sources of /repo's working tree directly: every run sees the
// current tree and nothing in /repo is written.
import { registerHooks, createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'

export const REPO = process.env.VERIF_REPO ?? '/repo'
const req = createRequire('/opt/veriftools/node/node_modules/package.json')
const esbuild = req('esbuild')

/** package name -> directory, read from the working tree */
export const packages = new Map()
for (const group of ['frameworks', 'libraries', 'plugins', 'presets']) {
  const g = path.join(REPO, group)
  if (!fs.existsSync(g)) continue
  for (const d of fs.readdirSync(g)) {
    const pj = path.join(g, d, 'package.json')
    if (fs.existsSync(pj)) packages.set(JSON.parse(fs.readFileSync(pj, 'utf8')).name, path.join(g, d))
  }
}

const compiled = new Map() // file -> js
export const loadedFiles = compiled

function firstExisting(...files) {
  return files.find(f => fs.existsSync(f) && fs.statSync(f).isFile())
}

function repoEntry(spec) {
  const m = /^(@just-web\/[^/]+)(?:\/(.+))?$/.exec(spec)
  if (!m) return
  const dir = packages.get(m[1])
  if (!dir) return
  const sub = m[2]
  return sub
    ? firstExisting(path.join(dir, 'src', sub, 'index.ts'), path.join(dir, 'src', `${sub}.ts`))
    : firstExisting(path.join(dir, 'src', 'index.ts'))
}

/** `history` has an ES `module` entry but no `exports`: take what a bundler would pick */
function bundlerEntry(spec, parent) {
  if (spec !== 'history') return
  for (let dir = path.dirname(parent); ; dir = path.dirname(dir)) {
    const pj = path.join(dir, 'node_modules', spec, 'package.json')
    if (fs.existsSync(pj)) {
      const p = JSON.parse(fs.readFileSync(pj, 'utf8'))
      return p.module && !p.exports ? fs.realpathSync(path.join(path.dirname(pj), p.module)) : undefined
    }
    if (dir === path.dirname(dir)) return
  }
}

registerHooks({
  resolve(spec, context, next) {
    const parent = context.parentURL?.startsWith('file:') ? fileURLToPath(context.parentURL) : undefined
    const entry = repoEntry(spec)
    if (entry) return { url: pathToFileURL(entry).href, format: 'module', shortCircuit: true }
    if (parent?.startsWith(REPO + '/') && !parent.includes('/node_modules/') && /^\.\.?(\/|$)/.test(spec)) {
      const base = path.resolve(path.dirname(parent), spec)
      const f = firstExisting(base.replace(/\.js$/, '.ts'), base.replace(/\.js$/, '.tsx'), `${base}.ts`, path.join(base, 'index.ts'), base)
      if (f) return { url: pathToFileURL(f).href, format: 'module', shortCircuit: true }
    }
    if (parent?.startsWith(REPO + '/')) {
      const m = bundlerEntry(spec, parent)
      if (m) return { url: pathToFileURL(m).href, format: 'module', shortCircuit: true }
    }
    return next(spec, context)
  },
  load(url, context, next) {
    if (url.startsWith('file:') && /\.tsx?$/.test(url)) {
      const f = fileURLToPath(url)
      const r = esbuild.transformSync(fs.readFileSync(f, 'utf8'), {
        loader: f.endsWith('x') ? 'tsx' : 'ts', format: 'esm', target: 'es2022', sourcefile: f, sourcemap: 'inline',
        tsconfigRaw: { compilerOptions: { useDefineForClassFields: true } }
      })
      compiled.set(f, r.code)
      return { format: 'module', source: r.code, shortCircuit: true }
    }
    if (url.startsWith('file:') && /\/history\/index\.js$/.test(url))
      return { format: 'module', source: fs.readFileSync(fileURLToPath(url), 'utf8'), shortCircuit: true }
    return next(url, context)
  }
})

/** resolve a third-party module the way a /repo package does (same instance) */
export function requireFrom(pkg, spec) {
  return createRequire(path.join(packages.get(pkg), 'package.json'))(spec)
}
export async function importFrom(pkg, spec) {
  const r = createRequire(path.join(packages.get(pkg), 'package.json'))
  return import(pathToFileURL(r.resolve(spec)).href)
}

/** install a jsdom window as the global browser environment; call before importing browser packages */
export function installDom({ url = 'http://localhost:3000/', userAgent } = {}) {
  const r = createRequire(path.join(REPO, 'node_modules/.pnpm/node_modules/x.js'))
  const { JSDOM, ResourceLoader, VirtualConsole } = r('jsdom')
  const vc = new VirtualConsole()
  const dom = new JSDOM('<!doctype html><html><body></body></html>', {
    url, virtualConsole: vc, pretendToBeVisual: false,
    ...(userAgent ? { resources: new ResourceLoader({ userAgent }) } : {})
  })
  const w = dom.window
  const def = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true })
  def('window', w)
  for (const k of ['document', 'navigator', 'location', 'localStorage', 'sessionStorage', 'history',
    'Event', 'ErrorEvent', 'KeyboardEvent', 'CustomEvent', 'EventTarget', 'HTMLElement', 'Element', 'Node', 'Storage',
    // the window refuses the ones of Node.js
    'AbortController', 'AbortSignal', 'UIEvent', 'MouseEvent', 'PopStateEvent', 'StorageEvent', 'MutationObserver'])
    def(k, w[k])
  // what a page also finds as members of its window
  def('self', w)
  for (const k of ['fetch', 'structuredClone', 'queueMicrotask', 'Request', 'Response'])
    if (!(k in w)) Object.defineProperty(w, k, { configurable: true, get: () => globalThis[k], set(v) { globalThis[k] = v } })
  for (const k of ['addEventListener', 'removeEventListener', 'dispatchEvent']) {
    // like a browser's: fine on the global object or without receiver, refused on any other one
    def(k, function (...args) {
      if (this !== undefined && this !== globalThis && this !== w) throw new TypeError('Illegal invocation')
      return w[k](...args)
    })
  }
  return { dom, window: w, virtualConsole: vc }
}
