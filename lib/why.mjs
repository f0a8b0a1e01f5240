// oracle and reach of every property, for DESIGN.md
export default {
  C01: ['an independent sequential interpreter of the operations on deep copies of plain data, run beside the store', 'tests set once or twice; aliasing between stores, resets after in-place edits, `nothing`, function-valued stores and long mixed histories only appear in combination.'],
  C02: ['the list of changes derived from the operations; each handler call must be the next undelivered change of that handler', 'one handler and one set is what a test samples; reentrant sets, 300 handlers and no-op updaters are histories.'],
  C03: ['a queue, per change in progress, of the handlers it still owes', 'unsubscribing during a notification has as many cases as positions in the list times actions inside handlers.'],
  C04: ['a schedule log: what each settle must commit, given the state at that moment', 'overlapping updaters settle in any order; tests await one.'],
  C05: ['a deep walk for unfrozen containers, fingerprints of every snapshot ever taken, identity of untouched parts', 'a leak of a mutable part shows only for some shape, depth and operation, and only later.'],
  C06: ['an ordered map with the language\'s key order', 'the four views can disagree only for particular keys and after particular histories.'],
  C07: ['a fold over an independent copy', 'batches with repeated, failing and hundreds of entries.'],
  C08: ['a twin created without an app, in lock-step, plus the expected log of every app', 'cross-app leakage needs several apps and levels at once.'],
  C09: ['a map id -> latest handler per app plus the expected log', 'prototype-named ids, nested and re-registering handlers.'],
  C10: ['a small state machine per command (default handler, app, registered handlers)', 'the lifecycle has many orders of connect/define/register.'],
  C11: ['a first-wins map per app', 'duplicates inside one batch, several apps, info objects shared.'],
  C12: ['an independently written sentence-case function (ASCII), idempotence and determinism for all ids', 'the title is defined for every id; tests try a few.'],
  C13: ['a first-wins map plus the expected warnings', 'mac/key/none combinations times hosts times batches.'],
  C14: ['a model of the live key map (first wins, normalised combinations) against really dispatched DOM events', 'bindings change while the app runs; tests press one key.'],
  C15: ['the log of sets; each listener call must match the next one', 'sets from inside listeners and several apps.'],
  C16: ['a model of the saved choice per (storage, name) and entry-by-entry storage diffs', 'needs restarts, changes of the browser and foreign entries.'],
  C17: ['a map route -> registration with identities', 'stale unregister functions and navigation inside handlers.'],
  C18: ['a map, read completely after every step', 'hostile keys/values and async, failing, removing updaters in any order, in both implementations.'],
  C19: ['a map per (storage, name); recorded storage accesses must belong to the acting app', 'needs many apps alive and foreign entries.'],
  C20: ['a map of independent JSON copies', 'aliasing shows only when a caller modifies what it was given, later.'],
  C21: ['the exact expected storage contents (encoded) and a refusing storage', 'crash-like write refusals, restarts, all of Unicode.'],
  C22: ['the list of dispatched errors between creation and cleanup', 'errors during creation, twice the same error, errors from inside subscribers.'],
  C23: ['recording doubles: who was called with what; the host compared after each step', 'precedence has many combinations of options and gizmos.'],
  C24: ['a plain emitter put through the same operations', 'listeners throwing from the n-th call on, removing others during delivery.'],
  C25: ['the plan of the composition: expected event sequence', 'failures at every step, sync/async mixes, builders reused concurrently.'],
  C26: ['form, name, constancy; distinctness over the whole process under the real source', 'the shape of an id depends on the random source; rare draws (trailing zeros) are never sampled by a test.'],
  C27: ['the expected entries of every reporter of every app after each call', 'leakage between apps, levels and reporters is a matter of combination.'],
  C28: ['a specification model of Web Storage; recorders tell which object was used', 'index walks after replacements and removals; partly given doubles.'],
  C29: ['a hand-written table of hosts (user agent or platform -> system)', 'tests run on one host.'],
  C30: ['an intl object created directly from an equal configuration', 'configuration space times format functions, caches shared between apps.'],
  C31: ['identity of members before/after the preset, plus the models of the single plugins', 'only whole apps, several at a time, show lost or shared members.'],
  C32: ['listener lists, storages and event emitters compared before/after each cleanup; the other apps must go on', 'what is left behind, or taken from another app, shows only after cleanup in pages with several apps.'],
  C33: ['the list of invocations, known from the calls the workload makes and the handlers that start', 'who calls what through which way (registry, function, key, preference) is a product of all of them.'],
  C34: ['a second app with only the gizmos a service needs, put through the same operations', 'interactions of gizmos are as many as there are combinations and orders.'],
  C35: ['weak references to everything handed over and let go, looked at after forced garbage collection; what is in use must still be there', 'memory held for ever passes every functional test.'],
  C36: ['fingerprints of the content (and of what can still be changed) of every input before/after each use; results of fresh, frozen and reused inputs compared', 'specs pass literals and never look at them, or use them, again.'],
  C37: ['recording backends: which handler of which app ran, with what, and what it gave back; a map of JSON copies for the stores', 'backends are replaced, fail, answer later or are missing in any order and in several apps; the spec replaces one command once.'],
  also: {},
  mutation: `Besides the planted bugs, 1028 single-operator mutants of the sources (dropped statements, members and arguments, changed
literals, operators and conditions, removed fallbacks), picked at random from 1665, were put through the stable tests and, when those
passed, through the checks anchored in the changed file: 791 failed a test, 139 more were caught by a check, 98 stayed. The 98 were read one by one:
texts and sub-ids of log entries (not part of any property), optimisations whose removal changes nothing observable (the WeakSet of frozen
values, \`includes\` before \`splice\`), defaults equal to what they default to, descriptors' flags, and what is listed as deliberately not asserted.`
}
