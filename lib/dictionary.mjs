// Literals of the current sources, used only to steer generators towards the sizes, counts and
// strings the code itself mentions. They never take part in a verdict.
import fs from 'node:fs'
import path from 'node:path'
import { packages } from './loader.mjs'

/** texts that the simple regular expression matches, by and large */
export function samples(re) {
  return re.replace(/^\^|\$$/g, '').split(/\|(?![^(]*\))/).flatMap(alt => {
    let s = alt.replace(/\(\?[=!<][^)]*\)/g, '').replace(/(\\.|\[[^\]]*\]|[^{}])\{(\d+)(?:,\d*)?\}/g, (_, atom, n) => atom.repeat(Math.min(n, 40)))
    for (let i = 0; i < 4; i++) s = s.replace(/\((?:\?:)?([^()|]*)(?:\|[^()]*)?\)/g, '$1')
    s = s.replace(/\[\^[^\]]*\]/g, 'x').replace(/\[(\\?.)[^\]]*\]/g, '$1').replace(/\\d/g, '2').replace(/\\s/g, ' ').replace(/\\w/g, 'w').replace(/\\[bB]/g, '').replace(/(?<!\\)[*+?^$]/g, '').replace(/(?<!\\)\./g, '.').replace(/\\u\{?([0-9a-f]{4,6})\}?/gi, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/\\(.)/g, '$1')
    return [s, `${s}x`]
  })
}

export function mine() {
  const nums = new Set()
  const strs = new Set()
  const walk = d => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const f = path.join(d, e.name)
      if (e.isDirectory()) walk(f)
      else if (/\.tsx?$/.test(e.name) && !/\.(spec|unit)\./.test(e.name)) {
        const src = fs.readFileSync(f, 'utf8').replace(/\/\*[\s\S]*?\*\//g, '').replace(/(^|[^:'"`])\/\/.*$/gm, '$1')
        for (const m of src.matchAll(/(?<![\w.$])(0x[0-9a-f]+|\d[\d_]*(?:e\d+)?)(?![\w])/gi)) {
          const n = Number(m[1].replaceAll('_', ''))
          if (Number.isInteger(n) && n <= 1e9) nums.add(n)
        }
        for (const m of src.matchAll(/(?:'((?:[^'\\\n]|\\.)*)'|"((?:[^"\\\n]|\\.)*)"|`((?:[^`\\$]|\\.)*)`)/g)) {
          const s = m[1] ?? m[2] ?? m[3]
          if (s !== undefined && s.length <= 40 && !s.startsWith('@just-web/') && !s.startsWith('./') && !s.startsWith('../')) strs.add(s)
        }
        // a text that a regular expression of the code would match
        for (const m of src.matchAll(/(?:[=(,:?!|&]|return)\s*\/((?:[^/\\\n[*]|\\.|\[(?:[^\]\\\n]|\\.)*\])(?:[^/\\\n[]|\\.|\[(?:[^\]\\\n]|\\.)*\])*)\/[a-z]*/g)) for (const s of samples(m[1])) if (s && s.length <= 60) strs.add(s)
      }
    }
  }
  for (const dir of [...packages.values()].sort()) if (fs.existsSync(path.join(dir, 'src'))) walk(path.join(dir, 'src'))
  return { nums: [...nums].sort((a, b) => a - b), strs: [...strs].sort() }
}
