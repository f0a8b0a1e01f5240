#!/usr/bin/env python3
"""Regenerates properties.jsonl (single source for the property texts)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

ST='libraries/states/src/'
prop("C01","A store holds exactly the result of the sets applied to it, in order",
 "For every sequence of value sets, synchronous updater sets and resets, a store (or registry) reports exactly the value obtained by applying them in order to its initial value: a set value is stored as given, an updater may return a new value, edit its draft in place, or return `nothing` to clear the value to undefined. `set` returns the value it left in the store, a throwing updater leaves the value as it was, and `reset` brings back the initial value. Stores do not affect one another, and a store whose initial value is a function stores functions as plain values instead of calling them.",
 ["histories","inputs"],"all sequences of set/update/reset over values of every JSON shape, functions, falsy values, NaN, -0 and symbols, on many stores at once",
 "The specs set a store once or twice with a number or a small object; they never run long mixed histories, falsy values or several stores against an independent model.",
 [ST+'state.ts',ST+'store.ts',ST+'registry.ts'],[("set()",ST+'state.ts set'),("reset()",ST+'state.ts reset'),("store value tracking",ST+'store.ts createStore')],
 [("value","current value of the state",ST+'state.ts')],["store.get()","return value of store.set()"])
prop("C02","Each change notifies each subscriber exactly once, in order, with (new, old)",
 "Every synchronous set, update or reset that changes the value (by Object.is) calls every subscribed handler exactly once, in subscription order and before `set` returns, with the new value and the value it replaced; one that leaves the value unchanged calls nobody. Subscribing a handler that is already subscribed does not make it run twice. When a handler runs the store already reports the new value, and a set made from inside a handler is itself notified completely, so each handler sees each change exactly once.",
 ["histories","inputs"],"all histories of subscribe/unsubscribe/set/update/reset, any number of handlers, including sets made inside handlers",
 "Specs subscribe one handler and make one change; multiplicity, order across many handlers, no-op updates and re-entrant sets need every history.",
 [ST+'state.ts',ST+'store.ts'],[("notification",ST+'state.ts change'),("duplicate handler guard",ST+'state.ts onChange')],
 [("handlers","subscribed handlers in order",ST+'state.ts')],["handler invocations (value, prev)"])
prop("C03","Unsubscribing removes exactly that subscription and is idempotent",
 "After the function returned by `onChange` has been called, that handler receives no further notification, not even from a notification in progress that has not reached it yet. Unsubscribing has no effect on any other subscription or on the store's own value, also when it is called from inside a handler: every other subscribed handler still gets that change and every later one exactly once. Calling the same unsubscribe function again has no effect, and a handler that was removed can be subscribed again and then works normally.",
 ["histories"],"all interleavings of subscribe, unsubscribe (once, repeatedly, from inside handlers), re-subscribe and changes",
 "The one spec removes the only handler once; double removal, removal during notification and neighbours of the removed handler are never exercised.",
 [ST+'state.ts'],[("unsubscribe closure",ST+'state.ts onChange')],[("handlers","subscribed handlers in order",ST+'state.ts')],["handler invocations after dispose","store.get()"])
prop("C04","Async updates commit atomically on settle, in settle order",
 "An asynchronous updater changes nothing and notifies nobody until its promise settles. When it resolves, the store takes the resolved value (including null, false, 0 and ''), or undefined if it resolved `nothing`, or its in-place edits if it resolved undefined; the promise returned by `set` then resolves to that value after every handler was notified exactly once with the new value and the value it replaced (nobody if they are identical). When it rejects, value and handlers are untouched and the returned promise rejects with the same error; overlapping updates each commit in the order in which they settle.",
 ["schedules","fault_sequences","inputs"],"all settle orders of any number of overlapping async updaters, resolved or rejected, interleaved with synchronous sets, subscriptions and resets",
 "Specs await one async updater at a time; overlapping updates, settle order, rejection, null results and edits made after an await are schedule-dependent.",
 [ST+'state.ts',ST+'types.ts'],[("async branch of set()",ST+'state.ts set')],[("value","current value",ST+'state.ts')],["store.get() between settles","promise returned by set()","handler invocations"])
prop("C05","Values handed out by a store are deeply immutable snapshots",
 "Every plain object or array obtained from a store (initial value, `get`, `set` result, handler arguments) is frozen at every depth, and no later set, update, reset or failed updater ever changes the content of a snapshot taken earlier. A failing updater is rolled back completely, without notification. Parts of the value that an in-place update did not touch keep their identity.",
 ["histories","inputs"],"all nested plain data and all sequences of in-place edits, replacements, failed updates and attempted outside mutations",
 "Specs check that one flat object is frozen; depth, aliasing between snapshots and rollback after a partial edit are never checked.",
 [ST+'state.ts'],[("freeze / immer produce",ST+'state.ts createState, set')],[("value","current frozen value",ST+'state.ts')],["deep walk of every snapshot"])
prop("C06","A registry's keys, size, values, has and get always agree",
 "At any time a registry's `keys()` lists exactly the keys of `get()` (string keys in record order, then symbol keys), `size()` is their number, `values()` are their values in the same order, and, for entries with a value other than undefined, `has(key)` is true exactly for those keys, whatever the key is named (including '', 'constructor', 'toString', '__proto__', numeric strings and symbols). The same holds inside change handlers. Read-only views of stores and registries always show the same current data as the original, receive the same notifications, and offer no function to change it.",
 ["histories","inputs"],"all key sets over ordinary, numeric, prototype-named, empty, unicode and symbol keys, after any sequence of additions, replacements, deletions and resets",
 "Specs use one or two ordinary keys; names inherited from Object.prototype, symbols and agreement after deletes are not reached.",
 [ST+'registry.ts',ST+'store.ts'],[("keys/has/size/values",ST+'registry.ts createRegistry'),("toReadonlyRegistry/toReadonlyStore",ST+'registry.ts, '+ST+'store.ts')],None,["registry views"])
prop("C07","add() folds all its entries into one change, in argument order",
 "`add(...entries)` built by `adder`/`withAdder` applies its handler to every entry exactly once, in argument order, on top of the current value, as a single change with a single notification per handler; with no effective edit nothing is notified. If the handler throws for any entry, none of the entries of that call is added. With `push` the array becomes the old items followed by the entries, with `unshift` the entries end up reversed in front of the old items, and the extended store keeps all operations of the store it was built from.",
 ["inputs","histories","fault_sequences"],"all batches of entries (empty to hundreds) on array stores and registries, interleaved with plain sets, with and without failing entries",
 "Specs add one or two entries once; atomicity on failure, single notification and interleaving with other sets are not sampled.",
 [ST+'adder.ts'],[("adder/withAdder/push/unshift",ST+'adder.ts')],None,["store value and notifications after add()"])
prop("C08","States created through an app log every change to the right logger only",
 "A state, store or registry created through `app.states` behaves exactly like one created directly and, for every effective change, logs one planck-level entry holding the old and the new value to its app's own logger, or to the logger given in its meta option instead. No entry of one app's states ever appears in another app's log, nothing is logged for a set that changes nothing, and the logging level never alters what the store does.",
 ["histories","configurations"],"all histories of changes over several apps, log levels, custom loggers, and states, stores and registries mixed",
 "Specs create one store per kind in one app and never compare logs across apps, levels or histories.",
 [ST+'states_gizmo.ts',ST+'state.ts'],[("statesGizmo",ST+'states_gizmo.ts'),("planck log",ST+'state.ts change')],None,["app.log.reporter.logs"])

CM='plugins/commands/src/'
prop("C09","Invoking a command runs exactly its latest handler, or is reported",
 "For every command id, `invoke(id, ...args)` calls the most recently registered handler (or the one given in the options) exactly once with exactly those arguments and returns or throws exactly what it returns or throws. Invoking an id that was never registered calls nothing, returns undefined and logs an error naming the id, also for ids such as 'toString' or '__proto__'; registering over an existing handler logs a notice naming the id. `has` and `keys` list exactly the registered ids, and apps do not share handlers.",
 ["histories","inputs"],"all sequences of register/invoke/has/keys over arbitrary ids, arities, argument values, sync/async/throwing handlers, and several apps",
 "Specs register one or two well-behaved ids; arbitrary ids, re-registration histories and throwing or async handlers are unbounded.",
 [CM+'handlers.ts',CM+'commands_gizmo.ts'],[("handlerRegistry",CM+'handlers.ts')],[("registry","id -> handler",CM+'handlers.ts')],["handler calls","app.log.reporter"])
prop("C10","A command function follows its connect/defineHandler lifecycle",
 "Before `connect`, calling a command runs its current default handler (constructor argument or last `defineHandler`) with the same arguments and result, or logs an error naming it if there is none. `connect(ctx, handler?)` registers the given or default handler under the command's id (nothing is registered when there is neither), and from then on calling the command is the same as invoking that id in the connected app, including handlers registered there later; connecting again moves it to the new app. The function carries its id as `id` and `name` and all given info fields, and `defineHandler` returns the handler it was given.",
 ["histories","inputs"],"all sequences of call/connect/defineHandler/register on commands built from a string or an info object, over one or more apps",
 "Specs cover single steps of the lifecycle; orderings of connect, defineHandler, re-registration and reconnection to another app multiply.",
 [CM+'command.ts'],[("command()",CM+'command.ts')],[("h, ctx","default handler, connected app",CM+'command.ts')],["handler calls","logs","commands.handlers.keys()"])
prop("C11","Command contributions: first registration wins, duplicates are reported",
 "`contributions.add` keeps for every id the first contribution added (or given in the options) exactly as given, and for each further one with a known id logs one error naming that id and changes nothing; this holds for several contributions added in one call and for ids named like object prototype members. Connecting a command made from an info object with a handler contributes its info exactly once, while string-form commands and commands without handler contribute nothing. Contributions of one app are never visible in another.",
 ["histories","inputs"],"all sequences of add calls (batches, duplicates within a batch, hostile ids) and command connects over several apps",
 "Specs add at most two contributions; batches with internal duplicates, hostile ids and reconnect histories are not sampled.",
 [CM+'contributions.ts',CM+'command.ts'],[("contributionRegistry",CM+'contributions.ts'),("connect()",CM+'command.ts')],None,["contributions.get()","app.log.reporter"])
prop("C12","formatCommand always yields id, description and the right title",
 "`formatCommand(cmd)` returns the command's id and description unchanged, and as title the given title when there is one. Otherwise the title is the part of the id after its first '.' (the whole id if it has none) in sentence case: its words, split at separators and case changes, lower-cased, joined by single spaces, with the first letter capitalised. It never modifies the contribution it is given and equal inputs give equal results.",
 ["inputs"],"all ids (with no, one or several dots, separators, camelCase, digits) and all combinations of title and description",
 "Three specs use 'plugin.someCommand'-like ids only; ids without a dot or with several words and separators are unbounded.",
 [CM+'formatCommand.ts'],[("generateTitle",CM+'formatCommand.ts')],None,["returned object"])

KB='plugins/keyboard/src/'
prop("C13","Key binding contributions: first wins, and connect registers them when due",
 "The key binding registry keeps for every command id the first binding added (or given in the options) as given, logs one warning naming the id for each duplicate, and changes nothing else, for any batch and any id. Connecting an info-object command that has a handler and a `key` or a `mac` binding adds exactly that binding to the connected app when it has a keyboard gizmo, and nothing otherwise. `formatKeyBinding` yields the id and, on a Mac, the `mac` key or else `key`, on any other host `key`.",
 ["histories","inputs","configurations"],"all batches of bindings with or without key/mac, duplicates, hostile ids, apps with and without keyboard, Mac and non-Mac hosts",
 "Specs check single additions; duplicate batches, mac-only commands and apps without keyboard combine freely.",
 [KB+'keyBindings.ts',KB+'keyboard_gizmo.ts',CM+'command.ts'],[("keyBindingRegistry, formatKeyBinding",KB+'keyBindings.ts'),("connect()",CM+'command.ts')],None,["keyBindingContributions.get()","app.log.reporter"])
BK='plugins/browser-keyboard/src/'
prop("C14","Live browser shortcuts always mirror the registered key bindings",
 "Once the app has started, pressing a key combination or sequence invokes exactly one command: that of the first registered binding whose effective key (`mac`, else `key`, on a Mac; `key` elsewhere) is that combination, exactly once, with the event's default action prevented; combinations without binding invoke nothing (a combination that only begins another bound sequence waits for that sequence). This holds for the bindings present at start and after every later addition, replacement, removal or reset of bindings. Every further binding on an already taken key is ignored with a warning naming its command and key, however the combination is spelled ('shift+ctrl+p' is 'ctrl+shift+p'), and 'cmd' means the Command key everywhere in a sequence.",
 ["histories","inputs","configurations"],"all histories of binding changes before and after start, all key combinations and sequences, Mac and non-Mac hosts",
 "Specs press one or two keys after one addition; removal, rebinding, duplicates after change and multi-step sequences are histories.",
 [BK+'keyBindings.ts',BK+'browser_keyboard_gizmo.ts'],[("startKeyBindings, bindKey",BK+'keyBindings.ts')],[("keys","taken keys",BK+'keyBindings.ts')],["DOM KeyboardEvents -> command handler calls","app.log.reporter"])

prop("C15","The current language is always the last one set, and every listener hears it",
 "`getLanguage()` is the initial language until the first `setLanguage` and afterwards always the last one set, directly or through the set-language command of that app. Each set calls every registered listener exactly once, in registration order, with the new and the previous language, and the new language is already current when listeners run. With a commands gizmo present the command sets the language of that app; without one the gizmo works the same without it.",
 ["histories","inputs","configurations"],"all sequences of language changes via API and command, listeners added at any time, with and without commands/keyboard, several apps",
 "Specs make one change with one listener; histories of changes through both routes and several apps are not explored.",
 ['plugins/i18n/src/i18n_gizmo.ts','plugins/i18n/src/commands.ts'],[("i18nGizmoFn",'plugins/i18n/src/i18n_gizmo.ts')],[("language","current language",'plugins/i18n/src/i18n_gizmo.ts')],["getLanguage()","listener calls"])
prop("C16","The chosen browser language survives restarts until it is cleared",
 "An app starts in the language last chosen by an app of the same name on the same local storage, or in the browser's language when none was chosen or the choice was cleared. Choosing a language (by API or command) saves it before `setLanguage` returns; `clearLanguage` switches back to the browser's language, notifies listeners and forgets the choice. Apps with different names never see each other's choice and no other storage entry is touched.",
 ["histories","crash_points","inputs"],"all sequences of choose/clear/restart over several app names sharing a storage, restart after any step",
 "Specs check one choose or clear in a single app life; restarts at every point and several apps on one storage are not covered.",
 ['plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts','plugins/i18n/src/i18n_gizmo.ts'],[("browserI18nGizmo",'plugins/browser-i18n/src/browser_i18n_gizmo.ts')],None,["getLanguage() after re-creation","full storage content"])
prop("C17","Routes: navigation runs exactly the registered handler",
 "`navigate(route)` calls exactly the handler currently registered for that route once, synchronously, and `navigate()` does so for the configured initial route ('/' by default); an unknown route calls nothing and logs an error naming it, a known one logs a notice naming it. Registering a taken route is refused with an error naming it and leaves the first handler, `hasRoute` tells exactly which routes are registered, `clearRoutes` removes all of them and keeps the configuration. The function returned by `register` removes that registration only, however often and whenever it is called.",
 ["histories","inputs"],"all sequences of register/unregister/navigate/config/clear over arbitrary route names, navigation inside handlers, several apps",
 "Specs exercise each call once; stale unregister functions, re-registration, clear and hostile route names are histories.",
 ['plugins/routes/src/routes_gizmo.ts'],[("routes API",'plugins/routes/src/routes_gizmo.ts')],[("store.routes","route -> handler",'plugins/routes/src/routes_gizmo.ts')],["handler calls","app.log.reporter"])

PR='plugins/preferences/src/'; BP='plugins/browser-preferences/src/'
prop("C18","User preferences behave as a map from key to string",
 "`preferences.get(key, default)` returns the string last set for exactly that key, or the default when there is none; `set` with a string stores it, with an updater (sync or async) stores what the updater returns for the current value (undefined when there is none), and with undefined or `nothing`, given or returned, removes it. Other keys are never affected, a failing updater changes nothing, and an async update takes effect before the promise returned by `set` resolves. `clearAll` removes every preference; all this holds for the in-memory and the browser implementation alike, for any well-formed Unicode key and value strings.",
 ["histories","inputs","fault_sequences"],"all sequences of get/set/update/clearAll over arbitrary key and value strings (empty, prototype names, unicode, JSON), on both implementations",
 "Specs set one or two plain ASCII values; hostile keys and values, removal via updaters, failing updaters and awaiting are not sampled.",
 [PR+'memory_preferences_gizmo.ts',BP+'browser_preferences_gizmo.ts',PR+'preferences_gizmo.ts'],[("set/get/clearAll commands",PR+'memory_preferences_gizmo.ts, '+BP+'browser_preferences_gizmo.ts')],None,["preferences.get() of every key after every step"])
prop("C19","Apps never see or touch each other's preferences or foreign storage",
 "With any number of apps alive at once, each app's preferences are its own: set, update and clearAll in one never change what another app reads, including stores created from them. In the browser, apps with different names (free of colons) sharing one local storage keep separate preferences, and no operation reads, changes or removes a storage entry that does not belong to that app's name; two apps with the same name on the same storage share theirs.",
 ["histories","configurations"],"all interleavings of preference operations over several memory and browser apps, equal and different names, on a storage holding foreign entries",
 "Specs always have one live app, so cross-app leakage cannot show.",
 [PR+'preferences_gizmo.ts',PR+'memory_preferences_gizmo.ts',BP+'browser_preferences_gizmo.ts'],[("per-app routing of the preference calls",PR+'preferences_gizmo.ts'),("key prefix",BP+'browser_preferences_gizmo.ts getKey')],None,["preferences.get() in every app","full storage content"])
prop("C20","Preference stores round-trip any JSON value and never alter the default",
 "`preferences.createStore(key, default)` gets back a JSON-equal copy of the value last set (objects, arrays, strings, numbers, booleans and null at any depth), or the default when none is stored; setting undefined or returning `nothing` removes it. Updaters, sync or async, receive the current value (or default), and either their returned value or, if they return undefined, their in-place edits are stored. Values handed out are independent copies of what is stored, the default passed by the caller is never modified, and two stores on the same key of one app see the same value.",
 ["inputs","histories"],"all JSON values, keys, defaults and sequences of set/update/async update/remove, on both implementations",
 "Specs use one flat object and one key; nested values, falsy values, in-place edits of stored values and default aliasing are unbounded.",
 [PR+'preferences_gizmo.ts'],[("createStore",PR+'preferences_gizmo.ts')],None,["store.get()","default object after the run"])
prop("C21","Browser preferences survive restarts byte for byte",
 "A preference saved by an app is read back identically by any later app of the same name on the same local storage, for every well-formed Unicode key and value of any length, and stays under the documented key `<app name>:<key>` in encoded form until it is removed or cleared. Reading, with or without default, never writes to the storage, and each set writes or removes only its own entry. When the storage refuses a write, the previous value remains readable and no other preference is lost.",
 ["crash_points","inputs","fault_sequences"],"all saved histories, restart after any step, all well-formed Unicode strings, storage write failures at any point",
 "Specs never recreate an app and use ASCII; encoding of all of Unicode, restarts and quota errors are not sampled.",
 [BP+'browser_preferences_gizmo.ts'],[("serialize/deserialize, getKey",BP+'browser_preferences_gizmo.ts')],None,["recorded storage operations","preferences.get() in a fresh app"])

BR='plugins/browser/src/'
prop("C22","Every uncaught browser error is captured exactly once, in order",
 "From the moment the browser gizmo is created (also while the rest of the app is still being created) until its cleanup runs, every window `ErrorEvent` is appended exactly once, in order, to `browser.errors` as an error carrying the event's message, file name, line, column and the original error as cause, and logged once as error to the app. Subscribers of `errors` are told of each, the list is read-only, and nothing is captured after cleanup. The event's default action is prevented exactly when the `preventDefault` option is true.",
 ["histories","configurations","crash_points"],"all sequences of error events with any message, location and cause, before/during/after creation, with and without preventDefault, several apps at once",
 "Specs throw one error and look at it; order, multiplicity, several apps, creation-time errors and cleanup are histories.",
 [BR+'browser_gizmo.ts',BR+'error_store.ts',BR+'errors.ts'],[("error listener",BR+'browser_gizmo.ts'),("error store",BR+'error_store.ts')],None,["app.browser.errors.get()","app.log.reporter","ErrorEvent.defaultPrevented"])
prop("C23","The browser gizmo exposes the real browser services, fetch by precedence",
 "`app.browser` exposes the host's own session storage, local storage, navigator and location: whatever is written or read through them is what the host holds. `app.fetch` is the `fetch` given in the options, else the one provided by an earlier fetch gizmo of the app, else the host's fetch, and calling it passes all arguments through and returns or rejects exactly as the underlying one. `historyGizmoFn` exposes the given history instance itself, or a browser history that tracks the host's location.",
 ["configurations","inputs"],"all combinations of fetch option, fetch gizmo and host fetch, all request arguments and outcomes, all storage operations and navigations",
 "Specs check that members exist; precedence combinations and pass-through of arguments, results and failures are not exercised.",
 [BR+'browser_gizmo.ts',BR+'browser_gizmo.ctx.ts','plugins/fetch/src/fetch_gizmo.ts','plugins/history/src/history_gizmo.ts'],[("browserGizmoFn",BR+'browser_gizmo.ts'),("fetchGizmo",'plugins/fetch/src/fetch_gizmo.ts'),("historyGizmoFn",'plugins/history/src/history_gizmo.ts')],None,["host objects vs app.browser members","fetch calls"])
prop("C24","A throwing event listener never reaches the emitter and is always logged",
 "`app.events.emitter.emit` never throws, whatever its listeners do: an error thrown by a listener is logged exactly once as an error in that app's log. Events whose listeners do not throw are delivered to every listener subscribed to exactly that event, once, in subscription order, with exactly the emitted arguments; `once` and `off` work as on a plain emitter, and later emits are unaffected by earlier failures. With a custom emitter in the options that same emitter is used, and apps never receive each other's events.",
 ["histories","fault_sequences"],"all sequences of on/once/off/emit over any event names and arguments, listeners that throw any value, default and custom emitters, several apps",
 "Specs emit one event with one throwing listener; sequences mixing failures with later deliveries and several emitters are not covered.",
 ['plugins/events/src/events_gizmo.ts'],[("trapError emitter",'plugins/events/src/events_gizmo.ts')],None,["listener calls","app.log.reporter"])

AP='frameworks/app/src/'
prop("C25","Creating an app runs every gizmo once, in order, and announces it once",
 "`create()` runs every gizmo's creation exactly once, in the order they were added with `with()`, each seeing what all earlier ones provide (its own contribution is visible to all later ones, and later contributions replace earlier members of the same name). Every gizmo's start function runs exactly once, after its own creation; after all gizmos the init function and then the start function given to `create` run, which receive the complete app; the created app then logs `created (id: <id>)` exactly once to its own log, after all other creation-time logs. If any creation or start step fails, `create` rejects with that error and nothing is announced.",
 ["programs","configurations","fault_sequences"],"all compositions of sync/async gizmos with overlapping members, start functions, failures at any step, with options for name and log, on justApp and justTestApp",
 "Specs compose one or two gizmos that succeed; orders, overrides, failures at each step and repeated creation are combinatorial.",
 [AP+'just_app.ts',AP+'just_app.logic.ts',AP+'just_app.testing.ts'],[("incubateApp proxy",AP+'just_app.logic.ts')],None,["creation/start event log","log entries"])
prop("C26","Every created app has its given name and a fresh well-formed id",
 "Every app created has exactly the name given in its options ('test' by default for test apps) and an id of exactly 15 lower-case letters or digits, whatever the random source yields. Ids differ for all apps, including apps created repeatedly from the same builder or concurrently, and the id and name of an app never change and are what every gizmo of it sees during creation.",
 ["inputs","histories","configurations"],"all names, any number of creations (sequential, concurrent, same builder), extreme random values",
 "Two unit tests sample 100 random ids for distinctness only; format under extreme random values and repeated builders are not covered.",
 ['frameworks/id/src/id_gizmo.ts','frameworks/id/src/id_gizmo.logic.ts','frameworks/id/src/id_gizmo.testing.ts'],[("genAppID",'frameworks/id/src/id_gizmo.logic.ts'),("idGizmoFn",'frameworks/id/src/id_gizmo.ts')],None,["app.id, app.name"])
LG='frameworks/log/src/'
prop("C27","Log entries carry the right logger id, level and arguments, inside their app",
 "Everything logged through an app reaches that app's reporters exactly once, in order, with its level, exactly its arguments, and a logger id of `<app name>` for the app's own methods, `<app name>:<id>` for `getLogger(id)`/`getNonConsoleLogger(id)`, and `<app name>:<prefix>` or `<app name>:<prefix>:<id>` for prefixed loggers; entries below the enabled level are dropped and only those. Custom levels given in the options have working methods of that level on the app log. Non-console loggers never reach a console reporter, and no entry of one app ever reaches another app's reporters.",
 ["inputs","configurations","histories"],"all sequences of log calls over loggers, prefixes, levels, custom levels and apps, logged values of any type",
 "Specs log a line per method; ids from prefix combinations, level filtering, custom levels, reporter routing and several apps multiply.",
 [LG+'log_gizmo.ts',LG+'log_gizmo.logic.ts',LG+'logger.ts',LG+'log_gizmo.testing.ts'],[("buildLogContext",LG+'log_gizmo.logic.ts'),("prefixed loggers",LG+'logger.ts')],None,["memory reporter entries","console reporter output"])
prop("C28","Test doubles behave like the real services, with exactly the given overrides",
 "`stubStorage()` behaves as an empty, independent Web Storage for every sequence of setItem/getItem/removeItem/clear/key/length (missing items and out-of-range indexes give null, replacing an item keeps its position). `stubLocalStorage`/`stubSessionStorage` use the given members and forward every other one to the host's storage. The browser, fetch and OS test gizmos expose exactly the given storages, navigator, location, fetch and isMac, and the real ones for what is not given.",
 ["histories","inputs","configurations"],"all storage operation sequences with arbitrary keys and values, all subsets of overrides",
 "Specs call a handful of storage members; iteration order after deletes, hostile keys and subsets of overrides are unbounded.",
 [BR+'browser_gizmo.testing.ts',BR+'testing/storage.mocks.ts','plugins/fetch/src/fetch_gizmo.mocks.ts','plugins/os/src/os_gizmo.mocks.ts'],[("stubStorage, browserTestGizmoFn",BR+'browser_gizmo.testing.ts'),("stubLocalStorage/stubSessionStorage",BR+'testing/storage.mocks.ts')],None,["storage views after every step","app members"])
prop("C29","isMac tells the truth about the host",
 "`app.os.isMac()` is true exactly when the host's operating system is macOS, for every user agent and for Node hosts alike, every time it is called and in every app, and it decides which of a command's keys is in effect.",
 ["configurations","inputs"],"all host environments: browser user agents of desktop, mobile and console systems, and Node platforms",
 "The specs overwrite the detected operating system, so detection itself is never exercised.",
 ['plugins/os/src/os.ts','plugins/os/src/os.ctx.ts','plugins/os/src/os_gizmo.ts'],[("isMac, platform detection",'plugins/os/src/os.ts, os.ctx.ts')],None,["app.os.isMac() in a process per host"])
prop("C30","app.formatjs.intl formats exactly as the given configuration demands",
 "`app.formatjs.intl` formats messages, dates, numbers, plurals, lists, relative times and display names exactly as an intl object created directly from the same configuration does, including default messages, missing translations and the configured error callback, which is called for the same problems and never silenced. Two apps with different configurations never influence each other, and a given cache is the one used.",
 ["inputs","configurations"],"all locales, message sets, values, configurations, with and without cache, several apps",
 "The single spec formats one message; configuration options, errors, caches and several apps are not exercised.",
 ['plugins/formatjs/src/formatjs_gizmo.ts'],[("formatJSGizmoFn",'plugins/formatjs/src/formatjs_gizmo.ts')],None,["formatted strings","onError calls"])
prop("C31","The browser preset adds working browser services and keeps the app's own",
 "Adding the browser preset gives the app `browser`, `fetch`, `preferences` and `history` working as the individual gizmos do (errors captured into the app, preferences saved under the app's name, the options of browser and history honoured), and leaves every member the app already had, its id, name, log, commands and keyboard, the very same objects. The test preset does the same on its overrides with an in-memory history by default. Preferences commands of the app act on the same preferences as `app.preferences`.",
 ["configurations","histories"],"all option combinations, real and test preset, with and without keyboard, further gizmos before and after, several apps",
 "Specs create the preset once and look at members; identity of existing members, options and working services in combination are not checked.",
 ['presets/browser/src/presets_browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.mocks.ts'],[("presetsBrowserGizmoFn",'presets/browser/src/presets_browser_gizmo.ts'),("presetsBrowserTestGizmoFn",'presets/browser/src/presets_browser_gizmo.mocks.ts')],None,["app members","storage","history"])

prop("C32","Cleaning up an app releases what it holds, and nothing of other apps",
 "When `incubate.cleanup(app)` is called on an app created by `justApp` or `justTestApp`, every cleanup function returned by the start functions of its gizmos, by its init function and by the start function given to `create` runs exactly once, in that order; none runs before, and none of any other app, even one created by the same builder. A browser gizmo, whether added itself, as the test gizmo or within the browser preset or its test variant, stops capturing errors with the cleanup of its app, while every other app goes on capturing them.",
 ["histories","programs","configurations"],"all compositions of gizmos with and without cleanup functions, several apps from the same and different builders, errors and cleanups in any order",
 "One spec removes the listener of one browser gizmo; cleanup of composed apps, presets and several apps at once is never exercised.",
 ['frameworks/app/src/just_app.logic.ts',BR+'browser_gizmo.ts',BR+'browser_gizmo.testing.ts','presets/browser/src/presets_browser_gizmo.ts','presets/browser/src/presets_browser_gizmo.mocks.ts'],[("incubateApp create",'frameworks/app/src/just_app.logic.ts incubateApp'),("listener removal",BR+'browser_gizmo.ts'),("cleanup of bundled gizmos",'presets/browser/src/presets_browser_gizmo.ts')],None,["cleanup function calls","app.browser.errors after cleanup"])
prop("C33","Every command invocation is tracked in the log of its app",
 "Every invocation of a command, through `commands.handlers.invoke`, the connected command function, a pressed key, the preferences API or the set-language command, is logged exactly once at trace level, naming the command's id, in the log of the app that runs it and before its handler runs. This holds for nested, failing and asynchronous commands and for ids without handler; apps with a level below trace log no invocations, and no invocation appears in the log of another app.",
 ["histories","configurations"],"all histories of registering and invoking commands over several apps, all routes to a command, all log levels",
 "No spec looks at the trace log of invocations; once-only and before-the-handler are about every invocation on every route.",
 ['plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/preferences/src/preferences_gizmo.ts','plugins/browser-keyboard/src/keyBindings.ts','plugins/i18n/src/i18n_gizmo.ts'],[("invoke()",'plugins/commands/src/handlers.ts invoke'),("command function",'plugins/commands/src/command.ts')],None,["log entries at trace level","handler invocations"])

prop("C34","Services of an app work the same whatever else the app is made of",
 "A service of an app (commands, key bindings, routes, language, preferences, browser errors, events, states, formatting, history, log) returns, stores, notifies and logs for every operation exactly the same in an app composed of many gizmos, added in any order their requirements permit, as in an app holding only the gizmos the service needs, however the operations of different services are interleaved.",
 ["programs","histories","configurations"],"all sets and permitted orders of gizmos, all interleaved histories of operations on their services, real and test apps, log levels",
 "Specs build the smallest app for the plugin at hand; the combinations users run are never composed.",
 ['frameworks/app/src/just_app.logic.ts','frameworks/log/src/log_gizmo.logic.ts','plugins/commands/src/commands_gizmo.ts','plugins/commands/src/command.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/browser-i18n/src/browser_i18n_gizmo.ts','plugins/preferences/src/memory_preferences_gizmo.ts','plugins/preferences/src/preferences_gizmo.ts','plugins/browser-preferences/src/browser_preferences_gizmo.ts','plugins/events/src/events_gizmo.ts','libraries/states/src/states_gizmo.ts'],[("optional dependencies",'plugins/i18n/src/i18n_gizmo.ts, plugins/commands/src/command.ts'),("composition",'frameworks/app/src/just_app.logic.ts')],None,["results, notifications and log entries in both apps"])

prop("C35","What is removed or replaced is let go",
 "Nothing just-web handed an object to keeps it alive once it is no longer in use: unsubscribed handlers, replaced store values, deleted registry entries, handlers, bindings, contributions and routes that were replaced, refused, unregistered or cleared, removed event and history listeners, settled or failed updaters with their errors and uncommitted parts, arguments of invocations and emits, dropped stores and preference stores, and whole apps nobody refers to (without cleanup functions) can be garbage collected, while everything still registered stays in use. Entries of memory log reporters, captured browser errors and initial values are kept by design.",
 ["histories","resources"],"all histories of registering, replacing, removing, failing and dropping over all services and stores, in apps that go on running",
 "Memory that is never released passes every functional test; it shows only in long-running pages.",
 [ST+'state.ts',ST+'store.ts',ST+'registry.ts',ST+'adder.ts','plugins/routes/src/routes_gizmo.ts','plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/commands/src/contributions.ts','plugins/keyboard/src/keyBindings.ts','plugins/browser-keyboard/src/keyBindings.ts','plugins/events/src/events_gizmo.ts','plugins/preferences/src/preferences_gizmo.ts','plugins/preferences/src/memory_preferences_gizmo.ts','frameworks/app/src/just_app.logic.ts','frameworks/log/src/log_gizmo.logic.ts'],[("handlers of a state",ST+'state.ts onChange'),("routes",'plugins/routes/src/routes_gizmo.ts'),("apps",'frameworks/app/src/just_app.logic.ts')],None,["weak references after garbage collection"])

prop("C36","What is given to just-web stays as it is, and may be frozen or used again",
 "No function of just-web changes the content of an object it is given: options of apps and gizmos, contributions, commands, key bindings, configurations, initial values, values and parts put into stores, defaults and values of preference stores, arguments of invocations and events (things given to be written to, such as storages, reporters, caches, emitters and histories, aside; plain data given to a store or registry gets frozen, nothing else does). Deeply frozen input gives the same results as unfrozen input, and so does using the same input a second time.",
 ["inputs","configurations"],"all inputs of all entry points, fresh, deeply frozen and used again, under all operations on what was created from them",
 "Specs pass literals and never look at them again.",
 [ST+'state.ts',ST+'registry.ts',ST+'adder.ts','frameworks/app/src/just_app.ts','frameworks/app/src/just_app.testing.ts','frameworks/log/src/log_gizmo.ts','frameworks/log/src/log_gizmo.testing.ts','frameworks/log/src/log_gizmo.logic.ts','plugins/commands/src/commands_gizmo.ts','plugins/commands/src/contributions.ts','plugins/commands/src/handlers.ts','plugins/commands/src/command.ts','plugins/commands/src/formatCommand.ts','plugins/keyboard/src/keyBindings.ts','plugins/keyboard/src/keyboard_gizmo.ts','plugins/routes/src/routes_gizmo.ts','plugins/i18n/src/i18n_gizmo.ts','plugins/formatjs/src/formatjs_gizmo.ts','plugins/preferences/src/preferences_gizmo.ts','plugins/browser/src/browser_gizmo.ts','plugins/browser/src/browser_gizmo.testing.ts','presets/browser/src/presets_browser_gizmo.ts'],[("options",'frameworks/app/src/just_app.ts, plugins/*/src/*_gizmo.ts'),("values",ST+'state.ts')],None,["content of the objects given","results with frozen input"])

prop("C37","app.preferences and its stores work on whatever the preference commands are",
 "`app.preferences.get`, `set` and `clearAll` each run exactly the handler registered at that moment in that app for the corresponding preference command (given in the options, by the memory or browser plugin, or registered, connected or replaced at any time), once, with exactly the given key and values, and give back its result or promise, or throw its error; without a handler the call is reported as an unregistered command. The handlers of other apps are never run. Preference stores work on every such handler: `get()` gives the value of the text the handler returns for its key, or the default when it returns none; `set(value)` gives it the value as JSON text, or undefined; and an updater reaches it as an updater that turns the text stored when the handler runs it (or none, meaning the default) into the new text, synchronously or as a promise, passes errors on and leaves the default untouched.",
 ["inputs","histories","configurations"],"all keys, values, updaters, sync and async backends, all ways and times of registering or replacing them, several apps",
 "One spec replaces the get command once; replaced, failing, missing, asynchronous and late-reading backends of several apps are not exercised.",
 ['plugins/preferences/src/preferences_gizmo.ts','plugins/preferences/src/preferences.ts'],[("preferencesGizmo",'plugins/preferences/src/preferences_gizmo.ts'),("invokeBy",'plugins/preferences/src/preferences_gizmo.ts')],None,["calls of the registered handlers","results","error log"])

import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
