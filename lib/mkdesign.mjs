#!/usr/bin/env node
// DESIGN.md = lib/DESIGN.tmpl.md + tables made from properties.jsonl, checks/meta.mjs, known-findings.txt and seeded/*/meta.json
import fs from 'node:fs'
import meta from '../checks/meta.mjs'
import why from './why.mjs'
const root = new URL('..', import.meta.url).pathname
const read = f => fs.readFileSync(root + f, 'utf8')
const props = read('properties.jsonl').trim().split('\n').map(l => JSON.parse(l))
const per = props.map(p => {
  const m = meta[p.id]
  return [`### ${p.id} ${p.title}`, '',
    `* *Workload and monitor:* ${m.rule}.`,
    `* *Oracle:* ${why[p.id][0]}`,
    `* *Bounds:* ${m.cases} cases quick, ${Math.round(m.cases * (m.thorough ?? 15))} thorough (time-capped). Must observe: ${(m.mustObserve ?? []).map(x => `\`${x}\``).join(', ')}.`,
    ...(m.assumptions?.length ? [`* *Assumes:* ${m.assumptions.join('; ')}.`] : []),
    `* *Beyond tests:* ${why[p.id][1]}`].join('\n')
}).join('\n\n')
const fixed = read('known-findings.txt').split('\n').map(l => /^fixed: property=(\S+) (\S+) (.*)$/.exec(l)).filter(Boolean).map(m => `* ${m[1]} \`${m[2]}\` — ${m[3]}`).join('\n')
const seeded = fs.existsSync(root + 'seeded')
  ? ['| bug | breaks | needs | caught by |', '|---|---|---|---|', ...fs.readdirSync(root + 'seeded').sort().map(d => {
      const m = JSON.parse(read(`seeded/${d}/meta.json`))
      return `| ${d} | ${m.what_it_breaks} | ${m.needs} | ${m.property}${why.also[d] ? `, ${why.also[d]}` : ''} |`
    })].join('\n')
  : ''
fs.writeFileSync(root + 'DESIGN.md', read('lib/DESIGN.tmpl.md').replace('PERPROP', () => per).replace('FIXED', () => fixed).replace('SEEDED', () => seeded).replace('MUTATION', () => why.mutation))
