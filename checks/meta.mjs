// Per property: number of cases of a quick run, how a case is made, what has to be observed.
export default {
  C01: {
    cases: 20000, thorough: 40,
    rule: 'seeded random histories of value sets, all updater shapes and resets over 1..40 stores, registries and states at once, compared after each step with an independent sequential model; non-trivial: more than 3 steps, distinct by the full operation trace',
    mustObserve: ['op.set', 'op.edit', 'op.nothing', 'op.throw', 'op.reset', 'op.fnvalue']
  },
  C02: {
    cases: 12000,
    rule: 'seeded random histories of subscribe/unsubscribe/set/update/reset with 0..300 handlers, no-op updates and sets made inside handlers; every handler call is matched against the list of changes; non-trivial: at least one handler and one change, distinct by trace',
    mustObserve: ['changes', 'unchanged', 'reentrant.changes', 'resubscribed', 'op.edit', 'op.noop']
  },
  C03: {
    cases: 12000,
    rule: 'seeded random interleavings of subscribe, unsubscribe (once, again, from inside handlers: itself, others, all), re-subscribe and changes; an online monitor keeps the queue of handlers each change still has to reach; non-trivial: at least two subscriptions, distinct by trace',
    mustObserve: ['notifications', 'unsubscribed.again', 'unsubscribed.while.notifying', 'resubscribed', 'changes']
  },
  C04: {
    cases: 6000,
    rule: 'seeded random schedules of up to 8 overlapping async updaters (value, null-like value, nothing, undefined, in-place before and after awaits, part of the draft, rejection) settled in random order, one at a time or several in one tick, between synchronous sets, resets and (un)subscriptions; every settle is matched against the log of notifications and the returned promise; non-trivial: at least two updaters, distinct by trace',
    mustObserve: ['commits', 'rejected', 'overlapping', 'batches', 'inplace.committed', 'form.direct.nothing', 'form.await.value', 'form.edit.value']
  },
  C05: {
    cases: 5000,
    rule: 'seeded random histories of sets, returned values, in-place and wrapping updaters, failing updaters, resets and attempted modifications of snapshots on values up to six levels deep; every value ever handed out is walked for unfrozen parts, fingerprinted and re-fingerprinted later, untouched parts are compared by identity; non-trivial: more than two snapshots, distinct by trace',
    mustObserve: ['audits', 'attacks', 'shared.parts', 'op.throw', 'op.asyncthrow', 'op.wrap', 'snapshots.handler value', 'snapshots.createState']
  },
  C06: {
    cases: 9000,
    rule: 'seeded random histories of puts, deletes, replacements, sets and resets on registries with and without given record over ordinary, prototype-named, numeric, empty, unicode and symbol keys; after each step and inside handlers all views are compared with an independent ordered map; non-trivial: all, distinct by trace',
    mustObserve: ['verified', 'verified.hard.keys', 'verified.symbols', 'deleted', 'views']
  },
  C07: {
    cases: 8000,
    rule: 'seeded random batches of 0..400 entries through adder/withAdder with push, unshift, folding, first-wins and failing handlers on array stores, record stores and registries, between sets and resets; compared with a fold over an independent copy; non-trivial: more than two steps, distinct by trace',
    mustObserve: ['added', 'batches', 'empty', 'failed', 'reentrant', 'form.push', 'form.unshift', 'form.fold']
  },
  C08: {
    cases: 8000,
    rule: 'seeded random histories on up to 12 states, stores and registries of up to 5 apps with every log level and own, foreign, levelled or no meta logger, each run in lock-step with a twin created directly; after every step the planck entries of every app are compared with the expected ones; non-trivial: at least two states, distinct by trace',
    mustObserve: ['changed', 'unchanged', 'logged', 'unwatched', 'logger.none', 'logger.own', 'logger.other']
  },
  C09: {
    cases: 8000,
    rule: 'seeded random histories of register and invoke over up to 25 ids (prototype names, empty, unicode) in up to 4 apps, with given, throwing, async, re-registering and nested invoking handlers; calls, arguments, results and log entries of all apps are compared with a map id -> latest handler; non-trivial: more than three steps, distinct by trace',
    mustObserve: ['registered', 'overridden', 'unknown', 'nested', 'nested.unknown', 'reregistered.while.running', 'invoked.value', 'invoked.throw', 'invoked.async']
  },
  C10: {
    cases: 10000,
    rule: 'seeded random histories of call, connect (with and without handler, several apps), defineHandler, register and invoke over up to 6 commands in string and info form sharing ids; compared with a model of default handler, connected app and handlers per app; non-trivial: more than four steps, distinct by trace',
    mustObserve: ['called.default', 'called.missing', 'called.connected', 'called.connected.missing', 'connected', 'moved', 'connected.without.handler', 'defined.after.connect']
  },
  C11: {
    cases: 6000,
    rule: 'seeded random batches of contributions and connects of string and info commands with and without handler over up to 3 apps; identity and content of every kept contribution, error entries and notifications are compared with a first-wins model; non-trivial: more than three steps, distinct by trace',
    mustObserve: ['added', 'duplicates', 'duplicates.in.batch', 'connected.contributing', 'connected.silent', 'connected.again']
  },
  C12: {
    cases: 120000,
    rule: 'seeded random contributions (dotted, bare, leading and trailing dot, acronyms, digits, unicode ids; titles and descriptions present, empty or absent; frozen or not), titles compared with an independently written sentence-case reference for ASCII ids; non-trivial: all, distinct by contribution',
    mustObserve: ['given.title', 'generated', 'generated.bare', 'generated.unicode']
  },
  C13: {
    cases: 6000,
    rule: 'seeded random batches of key bindings, connects of commands with and without key, handler and keyboard, and formatting on alternating hosts over up to 3 apps, compared with a first-wins model; non-trivial: more than three steps, distinct by trace',
    mustObserve: ['added', 'duplicates', 'connected.binding', 'connected.no.binding', 'connected.without.keyboard', 'formatted.mac', 'formatted.other']
  },
  C14: {
    cases: 2400,
    rule: 'seeded random histories of binding additions, batches, removals, replacements, sets and resets on Mac and other hosts; after each change DOM key events (modifier down, key down, key press, key up) for bound, unbound, partial and random combinations and sequences are dispatched in jsdom with virtual timers, and the commands run, prevented events and warnings are compared with a first-wins model; non-trivial: more than two changes, distinct by trace',
    mustObserve: ['combinations.pressed', 'sequences.pressed', 'cmd.in.later.step', 'unbound.pressed', 'incomplete', 'removed', 'replaced', 'reset', 'duplicates', 'connected', 'changed.while.pressed'],
    assumptions: ['jsdom delivers keyboard events as a browser does', 'sequence timeouts are driven by virtual timers']
  },
  C15: {
    cases: 5000,
    rule: 'seeded random histories of language sets (API, command handler, command object), listener registrations, sets and registrations made inside listeners over up to 5 apps with and without commands and keyboard; every listener call is matched against the log of sets; non-trivial: all, distinct by trace',
    mustObserve: ['set.api', 'set.command', 'set.singleton', 'set.same', 'nested', 'nested.other', 'added.while.notifying']
  },
  C16: {
    cases: 5000,
    rule: 'seeded random histories of app starts (same and different names, one or two storages, jsdom local storage or a recording double), language choices by API and command, clears, changes of the browser language, foreign entries and choices made inside listeners; storage contents are diffed around every operation; non-trivial: all, distinct by trace',
    mustObserve: ['set.api', 'set.command', 'set.singleton', 'cleared', 'started.fresh', 'started.saved', 'browser.changed', 'nested', 'nested.in.clear']
  },
  C17: {
    cases: 5000,
    rule: 'seeded random histories of registering, refusing, unregistering (current, stale, refused, repeated), clearing, configuring and navigating over ordinary, hierarchical and prototype-named routes in up to 5 apps, also from inside handlers; calls, log entries and hasRoute are compared with a map route -> registration; non-trivial: all, distinct by trace',
    mustObserve: ['registered', 'refused', 'unregistered', 'unregistered.stale', 'unregistered.refused', 'cleared', 'configured', 'navigated', 'navigated.initial', 'unknown', 'unknown.initial', 'nested.navigate', 'nested.unregister', 'nested.replace', 'handler.threw']
  },
  C18: {
    cases: 8000,
    cover: ['plugins/preferences/src/memory_preferences_gizmo.ts', 'plugins/browser-preferences/src/browser_preferences_gizmo.ts'],
    rule: 'seeded random histories of get, set, sync, async, failing and removing updaters and clearAll over hostile keys and values on the in-memory and the browser implementation, through the API and the command handlers; every known key is read with and without default after every step and compared with a map; non-trivial: all, distinct by trace',
    mustObserve: ['impl.memory', 'impl.browser', 'set.value', 'set.removed', 'update.value', 'update.removed', 'update.failed', 'update.async', 'async.batched', 'cleared']
  },
  C19: {
    cases: 4000,
    rule: 'seeded random interleavings of get, set, sync and async updates, stores, clearAll and restarts over up to 8 live apps (in-memory and browser, same and different names, one or two storages full of foreign entries); after every step every app reads every key, the storage is compared entry by entry and every recorded storage access is checked for its owner; non-trivial: at least two apps, distinct by trace',
    mustObserve: ['memory.apps', 'browser.apps', 'same.name', 'foreign', 'cleared', 'async', 'stores', 'singletons']
  },
  C20: {
    cases: 5000,
    rule: 'seeded random histories of set, returning, in-place, async, failing and removing updates and reads over several stores on the same and different keys of one app, defaults of every JSON shape, handed-out values and updater arguments modified afterwards, restarts of browser apps; every read is compared with a map of independent JSON copies; non-trivial: all, distinct by trace',
    mustObserve: ['set', 'set.undefined', 'update.returned', 'update.inplace', 'update.nothing', 'update.async.returned', 'update.async.inplace', 'update.failed', 'default.read', 'tampered', 'cleared', 'two.stores'],
    cover: ['plugins/preferences/src/preferences_gizmo.ts']
  },
  C21: {
    cases: 3000,
    rule: 'seeded random histories of saves, updates, removals, clears, reads and restarts of browser apps on a recording storage (which may refuse writes) or the jsdom local storage, keys and values over all of well-formed Unicode and up to 100000 characters; after every step the storage is compared entry by entry with the expected encoded contents and recorded writes are matched with the operation; non-trivial: all, distinct by trace',
    mustObserve: ['saved', 'removed', 'restarted', 'read', 'refused', 'cleared', 'long', 'astral', 'earlier.entries']
  },
  C22: {
    cases: 1500,
    rule: 'seeded random histories of error events (dispatched ErrorEvents with any message, place and cause; exceptions thrown by page listeners in jsdom) before, during and after creation and cleanup of up to 6 apps with and without preventDefault, also from inside subscribers; captured errors, log entries, notifications and defaultPrevented are matched with the list of events; non-trivial: all, distinct by trace',
    mustObserve: ['prevented', 'not.prevented', 'without.cause', 'thrown', 'before.creation', 'during.creation', 'during.start', 'cleaned.up', 'attacked', 'nested'],
    assumptions: ['jsdom dispatches error events as a browser does']
  },
  C23: {
    cases: 6000,
    cover: ['plugins/history/src/history_gizmo.ts', 'plugins/fetch/src/fetch_gizmo.ts'],
    rule: 'seeded random combinations of fetch option, fetch gizmo before and after, test gizmo and host fetch (which, like a browser, refuses a wrong receiver) in up to 6 apps, histories of fetch calls with any arguments and outcome, storage operations from both sides and navigations; recording doubles tell which fetch ran and the jsdom host is compared after each step; non-trivial: all, distinct by trace',
    mustObserve: ['fetch.option', 'fetch.host', 'fetch.gizmo', 'fetch.later', 'fetched', 'fetch.failed', 'storage', 'history.own', 'history.browser', 'history.back', 'location'],
    assumptions: ['jsdom storage, location and history behave as a browser\'s']
  },
  C24: {
    cases: 9000,
    rule: 'seeded random histories of on, once, off, removeAllListeners and emit (any arguments, hostile and symbol names, justEvent), listeners that throw from some call on or (un)subscribe while an event is delivered, over up to 5 apps with the default or an own emitter; every delivery is compared with a plain emitter put through the same operations, every error with the log; non-trivial: all, distinct by trace',
    mustObserve: ['delivered', 'delivered.many', 'trapped', 'unheard', 'once', 'off', 'own', 'scripted', 'justEvent', 'unheard.error']
  },
  C25: {
    cases: 12000,
    rule: 'seeded random compositions of up to 20 gizmos (objects, tuples, start functions, side effects only, merged instances, overlapping members, replaced logs, sync and async), init and start functions, log options and failures at any step, created once, again or concurrently through justApp and justTestApp; the sequence of creation, start and log events and the members visible at each step are compared with the plan; non-trivial: at least two gizmos, distinct by plan',
    mustObserve: ['announced', 'announced.custom', 'announced.internally', 'level.below.info', 'failed.create', 'failed.gizmo.start', 'failed.start', 'failed.init', 'concurrent', 'created.again']
  },
  C26: {
    cases: 6000,
    rule: 'seeded random batches of apps (justApp, justTestApp, id gizmos; one by one, again from one builder, concurrently) with hostile names, under the real random source and under sources that yield extremes, few bits, constants or mixtures; form and name of every app are checked, ids made from real randomness are compared across the whole process; non-trivial: all, distinct by trace',
    mustObserve: ['created', 'distinct', 'concurrent', 'same.builder', 'source.extreme', 'source.short', 'source.constant', 'source.mixed', 'source.real']
  },
  C27: {
    cases: 5000,
    rule: 'seeded random histories of log calls with every level, custom levels, on and count through the app log, plain, prefixed, prefix-only and non-console loggers with hostile ids, over up to 7 apps (equal names, shared log options) with several memory, recording console and real console reporters; after each call every reporter of every app is compared with the expected entries; non-trivial: all, distinct by trace',
    mustObserve: ['kept', 'dropped', 'custom', 'on', 'count', 'level.changed', 'by.app', 'by.getLogger', 'by.prefixed', 'by.prefixonly', 'by.nonConsole', 'by.prefixednonConsole', 'shared.options']
  },
  C28: {
    cases: 15000,
    rule: 'three kinds of seeded random histories: operations with hostile keys and indexes on several stub storages compared step by step with a specification model; operations on partly stubbed host storages (recording ones that refuse a wrong receiver like a browser, and jsdom ones) where recorders tell who was used; apps with every subset of test gizmo options whose members, fetch, isMac and error capture are compared with the given and the real ones; non-trivial: all, distinct by trace',
    mustObserve: ['replaced', 'removed', 'removed.missing', 'key.out.of.range', 'clear', 'given', 'forwarded', 'member.given', 'member.real', 'os.given', 'os.real', 'fetch.given', 'fetch.real', 'error'],
    assumptions: ['jsdom storage behaves as a browser\'s']
  },
  C29: {
    cases: 110, thorough: 12,
    rule: 'one process per host: 39 user agents of desktop, mobile, console and other systems with random versions (jsdom page) and 8 Node.js platforms (with and without navigator), each with four apps, one overriding app, random key bindings and, in pages, real key presses; isMac and the keys in effect are compared with the known system; non-trivial: all, distinct by host',
    mustObserve: ['browser.mac', 'browser.other', 'node.mac', 'node.other', 'pressed'],
    cover: [],
    assumptions: ['the host table states correctly which user agents and platforms are macOS; iPads that present themselves as Macs are not in it']
  },
  C30: {
    cases: 6000,
    rule: 'seeded random configurations (locales known and unknown, messages valid and broken, time zones, formats, rich text, error and warning callbacks that record, throw or are left to the default) in up to 7 apps with no, own or shared caches, and histories of every format function with random values; every result, thrown error, callback call and console line is compared with an intl object created directly from an equal configuration, and the contents of the caches and the sharing of formatters with what the caches given demand; non-trivial: all, distinct by trace',
    mustObserve: ['formatMessage', 't', 'formatNumber', 'formatDate', 'formatTime', 'formatDateTimeRange', 'formatRelativeTime', 'formatPlural', 'formatList', 'formatDisplayName', 'problem', 'config.problem', 'messages.changed', 'formatter.shared', 'formatter.separate', 'cache.none', 'cache.own', 'cache.shared', 'onError.record', 'onError.throw', 'onError.default', 'gizmo.again'],
    assumptions: ['the FormatJS library itself formats correctly: it is the reference']
  },
  C31: {
    cases: 4000,
    rule: 'seeded random apps (up to 6) of the real and the test preset with every subset of options, other gizmos around it, hostile names and shared storages, and histories of preference operations (direct, through commands, stores, singletons), fetches, uncaught errors, navigations and log calls; members are compared by identity with those before the preset, services with a model and the jsdom host; non-trivial: all, distinct by trace',
    mustObserve: ['kept.members', 'given.members', 'history.own', 'history.memory', 'history.browser', 'preference.direct', 'preference.command', 'singleton', 'store', 'cleared', 'cleaned.up', 'cleaned.up.test', 'fetch', 'error', 'push'],
    assumptions: ['jsdom storage, history and error events behave as a browser\'s']
  },
  C32: {
    cases: 4000,
    rule: 'seeded random apps (up to 12, several from one builder, some created at once) of up to 20 gizmos with and without sync or async cleanup functions, gizmos made of others, init and start functions, the browser gizmo or preset or their test variants, and histories of error events, further creations and cleanups; the cleanup functions run and the errors captured by every app are compared with a model after every step; non-trivial: at least two apps, distinct by trace',
    mustObserve: ['cleaned.up', 'cleanup.functions', 'created.at.once', 'cleaned.browser', 'cleaned.browser.test', 'cleaned.preset', 'cleaned.preset.test', 'error'],
    assumptions: ['jsdom dispatches error events as a browser does']
  },
  C33: {
    cases: 5000,
    rule: 'seeded random histories of registering, connecting and invoking commands (through the registry, command functions, pressed keys, preferences and the set-language command; known, unknown, throwing, asynchronous and nested) in up to 5 apps of every log level; the trace entries naming a command are compared with the list of invocations when each handler starts and after every step; non-trivial: an app that logs traces with at least two invocations, distinct by trace',
    mustObserve: ['invoked.fn', 'invoked.invoke', 'invoked.key', 'unknown', 'threw', 'nested', 'preference.get', 'preference.set', 'preference.clearAll', 'preference.command', 'language']
  },
  C34: {
    cases: 2500,
    rule: 'seeded random apps of up to 13 gizmos in a random permitted order and, for each of its services, an app with only the gizmos this service needs; random operations on the services, interleaved, are done on both apps and what they return, call, capture and log is compared after every step; non-trivial: at least three services, distinct by trace',
    mustObserve: ['service.commands', 'service.keyboard', 'service.connect', 'service.routes', 'service.i18n', 'service.i18nCommands', 'service.browserI18n', 'service.memoryPreferences', 'service.browserPreferences', 'service.browser', 'service.events', 'service.states', 'service.formatjs', 'service.history', 'service.os', 'service.log'],
    technique: 'runtime monitoring: differential monitor of the real code in crowded and minimal apps over seeded random histories'
  },
  C35: {
    cases: 240,
    rule: 'seeded random histories of subscribing, setting, editing, registering, replacing, refusing, removing, failing, settling and dropping over up to 6 stores and registries, all services of one app and further apps; every object handed over is watched by a weak reference, and after full garbage collections in between and at the end those no longer in use have to be gone and those in use still there; non-trivial: at least one object was seen to be freed, distinct by trace',
    mustObserve: ['freed', 'in.use', 'watched.handler', 'watched.value', 'watched.entry', 'watched.route handler', 'watched.refused route handler', 'watched.command handler', 'watched.replaced command handler', 'watched.listener', 'watched.binding', 'watched.contribution', 'watched.async updater', 'watched.failed updater', 'watched.preference store', 'watched.history listener', 'watched.app', 'app.dropped', 'store.dropped'],
    technique: 'runtime monitoring: leak monitor (weak references and forced garbage collection) of the real code over seeded random histories'
  },
  C36: {
    cases: 1500,
    rule: 'seeded random inputs of 19 entry points, each used by a fixed program of operations four times: fresh, deeply frozen, and both again; their content is fingerprinted before and after each use and the results of all four runs are compared; distinct by trace',
    mustObserve: ['kind.justApp', 'kind.justTestApp', 'kind.commandsGizmoFn', 'kind.keyboardGizmoFn', 'kind.contributions', 'kind.command', 'kind.formatKeyBinding', 'kind.i18nGizmoFn', 'kind.formatJSGizmoFn', 'kind.routesConfig', 'kind.state', 'kind.adder', 'kind.preferenceStore', 'kind.browserGizmoFn', 'kind.browserTestGizmoFn', 'kind.presetsBrowserGizmoFn', 'kind.osTestGizmoFn', 'kind.stubLocalStorage', 'kind.arguments'],
    technique: 'runtime monitoring: fingerprints of inputs and differential runs (fresh, frozen, reused) of the real code over seeded random inputs'
  },
  C37: {
    cases: 6000,
    rule: 'seeded random apps (up to 5) with the preferences gizmo alone or that of the memory or browser plugin, whose preference commands are given in the options, registered, connected or defined and registered, replaced in the middle and made to fail, with up to dozens of recording backends (sync, async, and ones which ask for the updated value later), and histories of gets, sets, clears and preference stores; every call of a backend, result, promise and error is matched with the operation made; non-trivial: all, distinct by trace',
    mustObserve: ['backend.sync', 'backend.async', 'backend.late', 'kind.bare', 'kind.memory', 'kind.browser', 'given.in.options', 'replaced', 'how.register', 'how.connect', 'how.define', 'unregistered', 'failed', 'op.get', 'op.set', 'op.clear', 'store.read', 'store.default', 'store.value', 'store.fn', 'store.async', 'store.edit', 'store.nothing', 'store.throw', 'store.late', 'several.apps']
  }
}
