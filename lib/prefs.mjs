// Shared by the preference checks: apps with either implementation, and controlled async updaters.
import { installDom } from './loader.mjs'
import { appLib } from './apps.mjs'

export async function prefsLib() {
  installDom()
  return {
    ...await appLib(), ...await import('@just-web/commands'), ...await import('@just-web/keyboard'), ...await import('@just-web/browser/testing'),
    ...await import('@just-web/preferences'), ...await import('@just-web/browser-preferences'), ...await import('@just-web/states')
  }
}
/** an app with preferences; storage undefined means the in-memory implementation */
export async function prefsApp(lib, { name, storage, keyboard = false, level }) {
  let b = lib.justTestApp({ name, log: { logLevel: level ?? lib.logLevels.trace } })
  if (keyboard) b = b.with(lib.keyboardGizmoFn())
  b = b.with(lib.commandsGizmoFn())
  return storage
    ? b.with(lib.browserTestGizmoFn({ localStorage: storage })).with(lib.browserPreferencesGizmo).create()
    : b.with(lib.memoryPreferencesGizmo).create()
}
export const KEYS = ['a', 'b', 'a:b', ':', ':a', 'a:', '', ' ', 'toString', '__proto__', 'constructor', 'hasOwnProperty', '__defineGetter__', 'length', 'getItem', 'clear', 'key', '0', '1', '-1', 'é', 'e\u0301', '😀', '\u0000', '\n', 'a b', 'A', 'undefined', 'null', 'then']
/** well-formed strings only: lone surrogates have no encoding */
export const wellFormed = s => s.toWellFormed()
export function deferred() {
  const d = {}
  d.promise = new Promise((res, rej) => { d.resolve = res; d.reject = rej })
  return d
}
