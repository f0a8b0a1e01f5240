// Writes MANIFEST.json: every property with a check module is claimed, the others are listed.
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import meta from '../checks/meta.mjs'
const root = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const checks = []
const na = []
for (const { id } of props) {
  const m = meta[id]
  if (!m || !fs.existsSync(path.join(root, 'checks', `${id}.mjs`))) {
    na.push({ property: id, reason: 'the runtime monitor for this property is not built yet' })
    continue
  }
  checks.push({
    property: id,
    quick_cmd: `node lib/run.mjs ${id}`,
    thorough_cmd: `VERIF_TIER=thorough node lib/run.mjs ${id}`,
    technique: m.technique ?? 'runtime monitoring: online model-based monitor over seeded random histories of the real code',
    level: 'exploration',
    level_note: (m.note ?? 'No violation on any execution observed; the histories are random samples (seeded), not an enumeration, so absence outside them is not shown.') +
      ' Trusts the monitor\'s model, Node 22, esbuild (type stripping) and the third-party packages the code uses.'
  })
}
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({
  version: 1, setup_cmd: 'node --version', checks, not_applicable: na,
  notes: 'No hooks are needed: every guarantee is observable through public APIs, recording doubles of storage, fetch, console and DOM events. Checks load the TypeScript sources of /repo directly, so they always see the current working tree.'
}, null, 1) + '\n')
