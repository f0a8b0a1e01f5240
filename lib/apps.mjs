// Shared pieces of the app-level checks.
export async function appLib() {
  const lib = { ...await import('@just-web/app'), ...await import('@just-web/app/testing') }
  // the first app created by justApp also serves as process-wide log: keep it apart and observable
  const processWide = lib.createMemoryLogReporter()
  await lib.justApp({ name: 'process-wide', log: { reporters: [processWide], logLevel: lib.logLevels.error } }).create()
  processWide.logs.length = 0
  return { ...lib, processWide }
}
export const NAMES = ['', 'toString', 'constructor', 'valueOf', 'hasOwnProperty', '__proto__', '__defineSetter__', 'isPrototypeOf', 'a', 'a.b', 'a.b.c', '.a', 'just-web.x', '0', '1', 'é', '😀', ' ', 'length', 'name', 'then']

export const text = e => e.args.map(a => (typeof a === 'string' ? a : a?.message ?? String(a))).join(' ')
/** entries of a level added since `from` */
export const entries = (logs, from, level) => logs.slice(from).filter(e => level === undefined || e.level === level)
