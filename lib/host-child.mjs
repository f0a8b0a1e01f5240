// Runs the os gizmo as one host would: argv[2] is the host as JSON. Prints what the apps say.
const host = JSON.parse(process.argv[2])
const { installDom } = await import('./loader.mjs')
if (host.kind === 'browser') {
  process.browser = true // a bundled `process` of a page, not Node.js
  const { window } = installDom({ userAgent: host.ua })
  Object.defineProperty(window.navigator, 'platform', { value: host.platform, configurable: true })
} else {
  if (host.noNavigator) delete globalThis.navigator
  else if (host.ua) Object.defineProperty(globalThis, 'navigator', { value: { userAgent: host.ua }, configurable: true })
  Object.defineProperty(process, 'platform', { value: host.platform })
}
const { justApp } = await import('@just-web/app')
const { justTestApp } = await import('@just-web/app/testing')
const { osGizmo, isMac } = await import('@just-web/os')
const { osTestGizmoFn } = await import('@just-web/os/testing')
const { keyboardGizmoFn, formatKeyBinding } = await import('@just-web/keyboard')
const out = { direct: [], apps: [] }
out.direct.push(isMac())
for (const make of [() => justApp({ name: 'a', log: { reporters: [] } }).with(osGizmo), () => justTestApp({ name: 'b' }).with(osGizmo), () => justTestApp({ name: 'c' }).with(osTestGizmoFn()), () => justTestApp({ name: 'd' }).with(osTestGizmoFn({}))]) {
  const app = await make().with(keyboardGizmoFn()).create()
  const detached = app.os.isMac
  out.apps.push({ isMac: [app.os.isMac(), app.os.isMac(), detached()], keys: host.bindings.map(b => formatKeyBinding(app, b)) })
}
// an app that overrides isMac leaves the others alone
const fake = await justTestApp({ name: 'e' }).with(osTestGizmoFn({ isMac: () => !host.mac })).with(keyboardGizmoFn()).create()
out.fake = { isMac: [fake.os.isMac()], keys: host.bindings.map(b => formatKeyBinding(fake, b)) }
out.direct.push(isMac())
// browser-keyboard binds the key in effect
if (host.kind === 'browser' && host.press) {
  const { commandsGizmoFn } = await import('@just-web/commands')
  const { browserKeyboardGizmo } = await import('@just-web/browser-keyboard')
  const calls = []
  await justTestApp({ name: 'f' }).with(osGizmo).with(keyboardGizmoFn({ keyBindingContributions: [{ id: 'x', key: 'q', mac: 'm' }] }))
    .with(commandsGizmoFn({ handlers: { x: () => { calls.push('x') } } })).with(browserKeyboardGizmo).create()
  const press = key => {
    const before = calls.length
    for (const t of ['keydown', 'keypress', 'keyup']) {
      const e = new KeyboardEvent(t, { key, bubbles: true, cancelable: true })
      Object.defineProperty(e, 'which', { value: (t === 'keypress' ? key : key.toUpperCase()).charCodeAt(0) })
      document.body.dispatchEvent(e)
    }
    return calls.length - before
  }
  out.pressed = { q: press('q'), m: press('m') }
}
console.log(`RESULT ${JSON.stringify(out)}`)
process.exit(0)
