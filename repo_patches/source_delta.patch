From 15b8e88a0bb7512cff825e06986f15a5a2f59d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 01/26] fix: unsubscribing twice no longer removes another
 state handler

---
 libraries/states/src/state.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..58dfdac 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -88,7 +88,10 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let subscribed = true
 		return () => {
+			if (!subscribed) return
+			subscribed = false
 			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
-- 
2.43.0


From d41d09bd5d125eae05d04881ee57b34205314cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 02/26] fix: unsubscribing during a state notification no
 longer skips other handlers

---
 libraries/states/src/state.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 58dfdac..c78dcf5 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,8 +49,9 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
-			h(value, old)
+		// handlers can unsubscribe while being notified
+		handlers.slice().forEach(h => {
+			if (handlers.includes(h)) h(value, old)
 		})
 		return value
 	}
-- 
2.43.0


From 42dd1532f5be041e2f22f7597593f84c795e9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 03/26] fix: state changes are committed in one place

- an async updater resolving to `nothing` clears the value
- an async updater resolving to `null` sets the value to `null`
- handlers of an async update get the value which is actually replaced
- an updater resulting in the same value does not notify the handlers
---
 libraries/states/src/state.ts | 45 ++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index c78dcf5..42ca90a 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -47,42 +47,39 @@ export function createState<T>(
 	let value = Object.freeze(init)
 	const log = meta?.logger ?? getDefaultLogger()
 
-	function notifyAfterSet(old: T, value: T) {
-		log.planck('state changed:', old, value)
+	function change(newValue: T) {
+		const old = value
+		if (Object.is(old, newValue)) return old
+		value = Object.freeze(newValue)
+		log.planck('state changed:', old, newValue)
 		// handlers can unsubscribe while being notified
 		handlers.slice().forEach(h => {
-			if (handlers.includes(h)) h(value, old)
+			if (handlers.includes(h)) h(newValue, old)
 		})
-		return value
+		return newValue
 	}
 
 	function set(
 		newValue: T | ((draft: T) => T | void | typeof nothing) | ((draft: T) => Promise<T | void | typeof nothing>)
 	) {
-		if (Object.is(value, newValue)) return newValue
+		if (typeof init === 'function' || typeof newValue !== 'function') return change(newValue as T)
 
 		const old = value
-		if (typeof init === 'function' || typeof newValue !== 'function') {
-			value = Object.freeze(newValue as T)
-		} else {
-			let p: Promise<T | void> | undefined
-			const r = produce(old, draft => {
-				const x = (newValue as any)(draft)
-				if (isPromise(x)) p = x
-				else return x
+		let p: Promise<T | void | typeof nothing> | undefined
+		const r = produce(old, draft => {
+			const x = (newValue as any)(draft)
+			if (isPromise(x)) p = x
+			else return x
+		})
+		if (p) {
+			return p.then(v => {
+				if (v === nothing) return change(undefined as any)
+				// neither a new value nor an in-place update
+				if (v === undefined && r === old) return value
+				return change(v === undefined ? r : (v as T))
 			})
-			if (p) {
-				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
-					return notifyAfterSet(old, value)
-				})
-			}
-			value = Object.freeze(r)
 		}
-		return notifyAfterSet(old, value)
+		return change(r)
 	}
 
 	function onChange(handler: StateChangeHandler<T>) {
-- 
2.43.0


From a7eac8c0be8a192840a3a70ff85499a8405be2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 04/26] fix: states set directly are immutable at every depth,
 like the updated ones

---
 libraries/states/src/state.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 42ca90a..15d269d 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { nothing, produce } from 'immer'
+import { freeze, nothing, produce } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -44,13 +44,13 @@ export function createState<T>(
 	meta?: StateMeta
 ): [value: T, set: SetState<T>, onChange: OnStateChange<T>, reset: ResetState] {
 	const handlers: StateChangeHandler<T>[] = []
-	let value = Object.freeze(init)
+	let value = deepFreeze(init)
 	const log = meta?.logger ?? getDefaultLogger()
 
 	function change(newValue: T) {
 		const old = value
 		if (Object.is(old, newValue)) return old
-		value = Object.freeze(newValue)
+		value = deepFreeze(newValue)
 		log.planck('state changed:', old, newValue)
 		// handlers can unsubscribe while being notified
 		handlers.slice().forEach(h => {
@@ -100,3 +100,7 @@ export function createState<T>(
 
 	return [value, set as any, onChange, reset]
 }
+
+function deepFreeze<T>(value: T) {
+	return Object.freeze(freeze(value, true))
+}
-- 
2.43.0


From 4a5a2aaebed73f78addb05cf38b3ed4faff72725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 05/26] fix: async updaters can update the draft, and return
 parts of it, after awaiting

---
 libraries/states/src/state.ts | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 15d269d..9d8277a 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { freeze, nothing, produce } from 'immer'
+import { createDraft, current, finishDraft, freeze, nothing } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -64,22 +64,25 @@ export function createState<T>(
 	) {
 		if (typeof init === 'function' || typeof newValue !== 'function') return change(newValue as T)
 
+		// Not using `produce()` because it revokes the draft before an async updater completes.
+		// The value is wrapped so that it does not need to be draftable.
 		const old = value
-		let p: Promise<T | void | typeof nothing> | undefined
-		const r = produce(old, draft => {
-			const x = (newValue as any)(draft)
-			if (isPromise(x)) p = x
-			else return x
-		})
-		if (p) {
-			return p.then(v => {
-				if (v === nothing) return change(undefined as any)
-				// neither a new value nor an in-place update
-				if (v === undefined && r === old) return value
-				return change(v === undefined ? r : (v as T))
-			})
+		const draft = createDraft({ value: old, result: undefined as any })
+		const result = (newValue as any)(draft.value)
+		return isPromise(result) ? result.then(finish) : finish(result)
+
+		function finish(v: T | void | typeof nothing) {
+			const inPlace = v === undefined || Object.is(v, draft.value)
+			if (!inPlace) {
+				if (!Object.is(current(draft).value, old))
+					throw new Error('An updater returned a new value *and* modified its draft. Either return a new value *or* modify the draft.')
+				draft.result = v === nothing ? undefined : v
+			}
+			const done = finishDraft(draft)
+			// neither a new value nor an in-place update
+			if (v === undefined && Object.is(done.value, old)) return value
+			return change((inPlace ? done.value : done.result) as T)
 		}
-		return change(r)
 	}
 
 	function onChange(handler: StateChangeHandler<T>) {
-- 
2.43.0


From 19af11e422ae49fb42d29b3d81ac03e3cd4c9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 06/26] fix: a registry does not have the members of
 Object.prototype

---
 libraries/states/src/registry.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..5255d4f 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -1,4 +1,4 @@
-import { type KeyTypes, pick, type Widen } from 'type-plus'
+import { type KeyTypes, pick, record, type Widen } from 'type-plus'
 import type { OnStateChange, ResetState, SetState, StateMeta } from './state.js'
 import { createStore } from './store.js'
 
@@ -22,7 +22,7 @@ export type Registry<K extends KeyTypes, T> = ReadonlyRegistry<K, T> & {
 export type RegistryValue<R extends Registry<any, any>> = ReturnType<R['get']>
 
 export function createRegistry<K extends KeyTypes, T>(
-	init = {} as Record<K, T>,
+	init = record() as Record<K, T>,
 	meta?: StateMeta
 ): Registry<Widen<K>, T> {
 	const store = createStore<Record<Widen<K>, T>>(init as any, meta)
@@ -33,7 +33,8 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			const r = store.get()
+			return Object.prototype.hasOwnProperty.call(r, key) && r[key] !== undefined
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From e3f238b3c5ad39a2715b8546edf6b24d116ae90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 07/26] fix: members of Object.prototype are not registered
 command handlers

---
 plugins/commands/src/handlers.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..2e61b66 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,7 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(record(options))
 
 	return {
 		/**
-- 
2.43.0


From 10fc875831bea87ceaf41d3ab00a4f09acb314b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 08/26] fix: default title of a command whose id has no dot

---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From 5a5515ac6464bd938cabe3880bd4c009ead428ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 09/26] fix: cmd is the Command key in every step of a key
 sequence

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..5252dca 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -50,5 +50,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From 999c033f8d9e232821b43b897893164b14f6a52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 10/26] fix: detect the os when platform is loaded as a native
 module

---
 plugins/os/src/os.ctx.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/os/src/os.ctx.ts b/plugins/os/src/os.ctx.ts
index e70a7a3..5a24dcf 100644
--- a/plugins/os/src/os.ctx.ts
+++ b/plugins/os/src/os.ctx.ts
@@ -1,4 +1,4 @@
-import * as platform from 'platform'
+import platform from 'platform'
 
 export namespace ctx {
 	export interface OperatingSystem {
-- 
2.43.0


From 892c8db46ba6215c9affcfe520cce55ea0aab91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 11/26] fix: unregistering a route does not remove a later
 registration

---
 plugins/routes/src/routes_gizmo.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..393db5a 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -36,13 +36,15 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				// unique for each registration, so that it can be told from a later one
+				const entry: Route = () => handler()
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
 					store.set(s => {
-						delete s.routes[route]
+						if (s.routes[route] === entry) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From 81d992e648e994c902567bcd72a465b97e0a9bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 12/26] fix: app id always has 15 characters

---
 frameworks/id/src/id_gizmo.logic.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..05020a0 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,5 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15).padEnd(15, '0')
 	}
 }
-- 
2.43.0


From bc241908e805a50267282419c6ca5b7e31c2a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 13/26] fix: preferences of an app always use the
 implementation of that app

---
 plugins/preferences/src/preferences_gizmo.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..0036621 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -1,8 +1,8 @@
 import { define } from '@just-web/app'
-import type { CommandsGizmo } from '@just-web/commands'
+import type { Command, CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,13 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create(ctx) {
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				// the commands are shared between apps, so they are invoked through the app of this gizmo.
+				get: invokeBy(ctx, getUserPreference),
+				set: invokeBy(ctx, setUserPreference),
+				clearAll: invokeBy(ctx, clearAllUserPreferences),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
@@ -73,4 +74,8 @@ export const preferencesGizmo = define({
 	}
 })
 
+function invokeBy<F extends AnyFunction>(ctx: CommandsGizmo, command: Command<F>) {
+	return ((...args: any[]) => ctx.commands.handlers.invoke(command.id, ...args)) as ExtractFunction<Command<F>>
+}
+
 export type PreferencesGizmo = define.Infer<typeof preferencesGizmo>
-- 
2.43.0


From c08e274922ebd75709d9a5c26048d7414f41f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 14/26] fix: preference is removed when its updater returns
 undefined

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..11d8dfe 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, async (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as any)(original) : value
 			MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..9f70f35 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,7 +32,7 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? (value as any)(storage[key]) : value
 			return MaybePromise.transform(v, v => {
 				if (isNothing(v)) delete storage[key]
 				else storage[key] = v
-- 
2.43.0


From e93b712ff792f414a3087bee428961fc81ea05d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 15/26] fix: async set of a browser preference resolves after
 the value is saved

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 11d8dfe..f3e531b 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -32,7 +32,7 @@ export const browserPreferencesGizmo = define({
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? (value as any)(original) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 6039e6425991c3cd10165b8c930f5d8652526d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 16/26] fix: preference stores keep in-place updates and never
 modify their default value

---
 plugins/preferences/src/preferences_gizmo.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index 0036621..670dd8b 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -50,10 +50,13 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
+								// `defaultValue` is copied as it must not be updated in-place
+								const json = v ?? JSON.stringify(defaultValue)
+								const orig: T = json !== undefined ? JSON.parse(json) : json
 								return MaybePromise.transform(value(orig as any), v => {
 									if (isNothing(v)) return v
-									if (v !== undefined) return JSON.stringify(v)
+									// `undefined` means `orig` is updated in-place
+									return JSON.stringify(v === undefined ? orig : v)
 								})
 							})
 						}
-- 
2.43.0


From d7c42d864a6082d8a17dfab89c0715226796c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 17/26] fix: two spellings of one key combination are the same
 shortcut

---
 plugins/browser-keyboard/src/keyBindings.ts | 29 +++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 5252dca..bc770fa 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -6,6 +6,15 @@ import Mousetrap from 'mousetrap'
 import { forEachKey, record } from 'type-plus'
 
 let keys: Record<string, boolean>
+
+const aliases: Record<string, string> = record({
+	cmd: 'meta',
+	command: 'meta',
+	option: 'alt',
+	return: 'enter',
+	escape: 'esc'
+})
+
 export function startKeyBindings(param: LogGizmo & KeyboardGizmo & CommandsGizmo & OSGizmo) {
 	const keyBindings = param.keyboard.keyBindingContributions
 
@@ -29,10 +38,11 @@ function bindKey(
 	const key = getKey({ os }, keyBinding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
-		if (keys[key]) {
+		const combination = getCombination(key)
+		if (keys[combination]) {
 			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
 		} else {
-			keys[key] = true
+			keys[combination] = true
 			log.trace(`binding: ${key} -> ${keyBinding.id}`)
 			Mousetrap.bind(toMousetrapKey(key), e => {
 				log.trace(`trigger ${key}`)
@@ -49,6 +59,21 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 	return keyBinding.key as string
 }
 
+/**
+ * The same key combination can be written in different ways,
+ * e.g. `ctrl+shift+p` and `shift+ctrl+p`, or `cmd+k` and `command+k`.
+ */
+function getCombination(key: string) {
+	return key
+		.trim()
+		.split(/\s+/)
+		.map(step => {
+			const parts = step.split('+').map(part => aliases[part] ?? part)
+			return [...parts.slice(0, -1).sort(), ...parts.slice(-1)].join('+')
+		})
+		.join(' ')
+}
+
 function toMousetrapKey(key: string) {
 	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From c5ea66ad81d4c7639ed5d4abfaa41b6a330cc8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 18/26] fix: uncaught errors with a read-only name, such as
 DOMException, were not captured

The base class of BrowserError assigns a name to the cause, which throws in the
error listener when the cause does not allow it, and replaces a thrown primitive
with an object.
---
 plugins/browser/src/errors.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/errors.ts b/plugins/browser/src/errors.ts
index 08d9205..6bf23c1 100644
--- a/plugins/browser/src/errors.ts
+++ b/plugins/browser/src/errors.ts
@@ -14,6 +14,9 @@ export class BrowserError extends JustWebBrowserError {
 		public colno?: number,
 		error?: Error
 	) {
-		super(event.toString(), { cause: error })
+		super(event.toString())
+		// set here as the base class assigns a `name` to the cause,
+		// which fails for read-only ones (e.g. `DOMException`).
+		if (error !== undefined && error !== null) this.cause = error
 	}
 }
-- 
2.43.0


From 889e3145535510cca9b0aac66b831816fbdb170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 19/26] fix: the fetch provided by the fetch test gizmo could
 not be called in browsers

The host's fetch refuses to be called as a method of the app unless it is bound.
---
 plugins/fetch/src/fetch_gizmo.mocks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/fetch/src/fetch_gizmo.mocks.ts b/plugins/fetch/src/fetch_gizmo.mocks.ts
index ded1479..0a961a0 100644
--- a/plugins/fetch/src/fetch_gizmo.mocks.ts
+++ b/plugins/fetch/src/fetch_gizmo.mocks.ts
@@ -9,7 +9,7 @@ export const fetchTestGizmoFn = (options?: FetchTestGizmoOptions) =>
 	define({
 		create() {
 			return {
-				fetch: options?.fetch ?? (fetch as Fetch)
+				fetch: options?.fetch ?? (globalThis.fetch.bind(globalThis) as Fetch)
 			}
 		}
 	})
-- 
2.43.0


From c9abbe5e40c7d79b221495e0f453ab755dbcbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 20/26] fix: test apps created with the same log options shared
 their memory reporter

The memory reporter was added to the options of the caller, so that logs of one
app showed up in the reporter of the others.
---
 frameworks/log/src/log_gizmo.testing.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frameworks/log/src/log_gizmo.testing.ts b/frameworks/log/src/log_gizmo.testing.ts
index ad45ea4..eeaa834 100644
--- a/frameworks/log/src/log_gizmo.testing.ts
+++ b/frameworks/log/src/log_gizmo.testing.ts
@@ -26,7 +26,9 @@ export type LogTestGizmoOptions<N extends string = LogMethodNames> = StandardLog
 export const logTestGizmoFn = define(<N extends string = LogMethodNames>(options?: LogTestGizmoOptions<N>) => ({
 	static: define.require(idGizmoFn),
 	async create(ctx: IdGizmo) {
-		const sl = createStandardLogForTest<N>(options)
+		// copy the options as the memory reporter is added to it,
+		// which should not be shared with other apps.
+		const sl = createStandardLogForTest<N>({ ...options, reporters: [...(options?.reporters ?? [])] })
 		return {
 			log: Object.assign(buildLogContext<N>(ctx.name, sl, options), {
 				reporter: sl.reporter
-- 
2.43.0


From f7d9653d929d753763f00ec3449397cd5fa613df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:32 +0000
Subject: [PATCH 21/26] fix: stubStorage().key() returned the first key for
 negative indexes

---
 plugins/browser/src/browser_gizmo.testing.ts | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index f5d478f..3190be1 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -43,11 +43,8 @@ export function stubStorage(): Storage {
 			return m.size
 		},
 		key(index) {
-			let c = 0
-			for (const e of m.keys()) {
-				if (++c > index) return e
-			}
-			return null
+			// same conversion as the `unsigned long` of `Storage.key()`
+			return Array.from(m.keys())[index >>> 0] ?? null
 		},
 		removeItem(key: string) {
 			m.delete(key)
-- 
2.43.0


From 77836678eae9b53a1041868bcb62ae5219a2ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 22/26] fix: isMac() was false on macOS Node.js hosts

---
 plugins/os/src/os.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/os/src/os.ts b/plugins/os/src/os.ts
index 409fcc8..c82e021 100644
--- a/plugins/os/src/os.ts
+++ b/plugins/os/src/os.ts
@@ -6,5 +6,6 @@ import { ctx } from './os.ctx.js'
  * @return {boolean} Returns true if the operating system is macOS, otherwise false.
  */
 export function isMac() {
-	return ctx.os?.family === 'OS X'
+	// 'Darwin' is what Node.js hosts report
+	return ctx.os?.family === 'OS X' || ctx.os?.family === 'Darwin'
 }
-- 
2.43.0


From c34be423238eebcd2828802622c9875ba390f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 23/26] fix: a language chosen by a listener during
 clearLanguage was forgotten (C16)

clearLanguage removed the saved choice after its listeners had run, and
saved the browser's language as a choice before that.
---
 plugins/browser-i18n/src/browser_i18n_gizmo.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/plugins/browser-i18n/src/browser_i18n_gizmo.ts b/plugins/browser-i18n/src/browser_i18n_gizmo.ts
index 2977a46..8f30957 100644
--- a/plugins/browser-i18n/src/browser_i18n_gizmo.ts
+++ b/plugins/browser-i18n/src/browser_i18n_gizmo.ts
@@ -16,15 +16,22 @@ export const browserI18nGizmo = define({
 
 		const { i18n } = await incubate({ commands, keyboard }).with(i18nGizmoFn({ language })).create()
 
+		let clearing = false
+		// this is the first listener, so a language chosen by another listener is saved after this.
 		i18n.languageChanged(newLanguage => {
+			if (clearing) {
+				clearing = false
+				browser.localStorage.removeItem(storageKey)
+				return
+			}
 			browser.localStorage.setItem(storageKey, newLanguage)
 		})
 		return {
 			i18n: {
 				...i18n,
 				clearLanguage() {
+					clearing = true
 					i18n.setLanguage(browser.navigator.language)
-					browser.localStorage.removeItem(storageKey)
 				}
 			}
 		}
-- 
2.43.0


From d3b0a3e115e1814fb5dac5a31e5129caf9f5ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 24/26] fix: 'mod+p' and 'ctrl+p', 'ctrl++' and 'ctrl+plus'
 were bound as different keys (C14)

---
 plugins/browser-keyboard/src/keyBindings.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index bc770fa..c2f6021 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -12,7 +12,9 @@ const aliases: Record<string, string> = record({
 	command: 'meta',
 	option: 'alt',
 	return: 'enter',
-	escape: 'esc'
+	escape: 'esc',
+	// same test as in `Mousetrap`
+	mod: /Mac|iPod|iPhone|iPad/.test(globalThis.navigator?.platform) ? 'meta' : 'ctrl'
 })
 
 export function startKeyBindings(param: LogGizmo & KeyboardGizmo & CommandsGizmo & OSGizmo) {
@@ -68,7 +70,7 @@ function getCombination(key: string) {
 		.trim()
 		.split(/\s+/)
 		.map(step => {
-			const parts = step.split('+').map(part => aliases[part] ?? part)
+			const parts = (step === '+' ? 'plus' : step.replace(/\+{2}/g, '+plus')).split('+').map(part => aliases[part] ?? part)
 			return [...parts.slice(0, -1).sort(), ...parts.slice(-1)].join('+')
 		})
 		.join(' ')
-- 
2.43.0


From 0a551cbedd7dd19695b682aab9e085a68b79a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:37 +0000
Subject: [PATCH 25/26] fix: the window error listener of a preset or a test
 app stayed after cleanup (C22, C31)

---
 plugins/browser/src/browser_gizmo.testing.ts  | 36 +++++++++++--------
 .../src/presets_browser_gizmo.mocks.ts        | 21 +++++------
 presets/browser/src/presets_browser_gizmo.ts  | 19 ++++------
 3 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index 3190be1..33b545d 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -12,23 +12,29 @@ export interface BrowserTestGizmoOptions extends BrowserGizmoOptions {
 
 export const browserTestGizmoFn: (
 	options?: BrowserTestGizmoOptions
-) => GizmoStatic<DepBuilder<LogGizmo, unknown>, BrowserGizmo> = define((options?: BrowserTestGizmoOptions) => ({
-	static: define.require<LogGizmo>(),
-	async create(ctx) {
-		const { browser, fetch } = await incubate(ctx).with(browserGizmoFn(options)).create()
+) => GizmoStatic<DepBuilder<LogGizmo, unknown>, [BrowserGizmo, () => () => void]> = define(
+	(options?: BrowserTestGizmoOptions) => ({
+		static: define.require<LogGizmo>(),
+		async create(ctx) {
+			const app = await incubate(ctx).with(browserGizmoFn(options)).create()
+			const { browser, fetch } = app
 
-		return {
-			browser: {
-				...browser,
-				sessionStorage: options?.sessionStorage ?? browser.sessionStorage,
-				localStorage: options?.localStorage ?? browser.localStorage,
-				navigator: (options?.navigator ?? browser.navigator) as Navigator,
-				location: (options?.location ?? browser.location) as Location
-			},
-			fetch
+			return [
+				{
+					browser: {
+						...browser,
+						sessionStorage: options?.sessionStorage ?? browser.sessionStorage,
+						localStorage: options?.localStorage ?? browser.localStorage,
+						navigator: (options?.navigator ?? browser.navigator) as Navigator,
+						location: (options?.location ?? browser.location) as Location
+					},
+					fetch
+				},
+				() => () => incubate.cleanup(app)
+			]
 		}
-	}
-}))
+	})
+)
 
 export function stubStorage(): Storage {
 	const m = new Map<string, string>()
diff --git a/presets/browser/src/presets_browser_gizmo.mocks.ts b/presets/browser/src/presets_browser_gizmo.mocks.ts
index 9d4583a..825adb7 100644
--- a/presets/browser/src/presets_browser_gizmo.mocks.ts
+++ b/presets/browser/src/presets_browser_gizmo.mocks.ts
@@ -15,18 +15,13 @@ export interface PresetsBrowserTestGizmoOptions {
 
 export const presetsBrowserTestGizmoFn = define((options?: PresetsBrowserTestGizmoOptions) => ({
 	static: define.require<IdGizmo>().require<LogGizmo>().require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create(ctx): Promise<PresetsBrowserGizmo> {
-		return omit(
-			await incubate(ctx)
-				.with(browserTestGizmoFn(options?.browser))
-				.with(browserPreferencesGizmo)
-				.with(historyGizmoFn(options?.history ?? { history: createMemoryHistory() }))
-				.create(),
-			'name',
-			'id',
-			'log',
-			'keyboard',
-			'commands'
-		)
+	async create(ctx): Promise<[PresetsBrowserGizmo, () => () => void]> {
+		const app = await incubate(ctx)
+			.with(browserTestGizmoFn(options?.browser))
+			.with(browserPreferencesGizmo)
+			.with(historyGizmoFn(options?.history ?? { history: createMemoryHistory() }))
+			.create()
+
+		return [omit(app, 'name', 'id', 'log', 'keyboard', 'commands'), () => () => incubate.cleanup(app)]
 	}
 }))
diff --git a/presets/browser/src/presets_browser_gizmo.ts b/presets/browser/src/presets_browser_gizmo.ts
index 354c02b..3c22185 100644
--- a/presets/browser/src/presets_browser_gizmo.ts
+++ b/presets/browser/src/presets_browser_gizmo.ts
@@ -14,18 +14,13 @@ export interface PresetsBrowserGizmoOptions {
 export const presetsBrowserGizmoFn = define((options?: PresetsBrowserGizmoOptions) => ({
 	static: define.require<IdGizmo>().require<LogGizmo>().require<CommandsGizmo>().optional<KeyboardGizmo>(),
 	async create(ctx) {
-		return omit(
-			await incubate(ctx)
-				.with(browserGizmoFn(options?.browser))
-				.with(browserPreferencesGizmo)
-				.with(historyGizmoFn(options?.history))
-				.create(),
-			'name',
-			'id',
-			'log',
-			'keyboard',
-			'commands'
-		)
+		const app = await incubate(ctx)
+			.with(browserGizmoFn(options?.browser))
+			.with(browserPreferencesGizmo)
+			.with(historyGizmoFn(options?.history))
+			.create()
+
+		return [omit(app, 'name', 'id', 'log', 'keyboard', 'commands'), () => () => incubate.cleanup(app)]
 	}
 }))
 
-- 
2.43.0


From 9772046e634adc1c89ec551fa19f82eb8119fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 26/26] fix: freeze values under symbol keys and inside frozen
 objects

---
 libraries/states/src/state.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 9d8277a..64860ca 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -1,5 +1,5 @@
 import { type Logger, logLevels } from '@just-web/app'
-import { createDraft, current, finishDraft, freeze, nothing } from 'immer'
+import { createDraft, current, finishDraft, freeze, isDraft, isDraftable, nothing } from 'immer'
 import { tersify } from 'tersify'
 import { type AnyFunction, isPromise } from 'type-plus'
 import { getDefaultLogger } from './log.js'
@@ -104,6 +104,19 @@ export function createState<T>(
 	return [value, set as any, onChange, reset]
 }
 
+const frozen = new WeakSet<object>()
+
 function deepFreeze<T>(value: T) {
-	return Object.freeze(freeze(value, true))
+	freezeDeep(value)
+	return Object.freeze(value)
+}
+
+/**
+ * `freeze(value, true)` of `immer` skips the content of frozen objects and under symbol keys.
+ */
+function freezeDeep(value: any) {
+	if (!isDraftable(value) || isDraft(value) || frozen.has(value)) return
+	frozen.add(freeze(value, true))
+	if (value instanceof Map || value instanceof Set) value.forEach(freezeDeep)
+	else Reflect.ownKeys(value).forEach(key => freezeDeep(Object.getOwnPropertyDescriptor(value, key)!.value))
 }
-- 
2.43.0

