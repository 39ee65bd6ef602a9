'use strict'
// Runs the real configure command in a module directory, with a Python that records what it is asked to run.
for (const m of ['graceful-fs', 'tar', 'semver', 'exponential-backoff', 'make-fetch-happen', 'nopt', 'which', 'tinyglobby', 'proc-log', 'env-paths']) {
  try { require(m) } catch {}
}
if (process.env.VFJ_PLATFORM) Object.defineProperty(process, 'platform', { value: process.env.VFJ_PLATFORM })
const fs = require('fs')
const path = require('path')
const clean = { ...process.env }
const exec = process.execPath
const config = process.config
const version = process.version
let gyp
const PY = `#!/bin/sh
case "$1$2" in
-c*sys.executable*) echo "$0" ;;
-c*version_info*) echo 3.12.3 ;;
-c*) exec /usr/bin/python3 -c 'import sys; sys.executable = sys.argv[1]; exec(sys.argv[2])' "$0" "$2" ;;
*)
  { printf '%s\\0' "$@"; } > "$VF_REC"
  { printf '%s\\0' "$PWD" "$PYTHONPATH" "$PYTHON" "$GYP_MSVS_VERSION" "$GYP_MSVS_OVERRIDE_PATH"; } > "$VF_REC.env"
  echo x >> "$VF_REC.n"
  case "$VF_DIE" in [0-9]*) exit $VF_DIE ;; *) kill -$VF_DIE $$ ;; esac ;;
esac
`
const sub = (x, root) => x.replaceAll('@R@', root)
// c: {tree: {path: content}, env, argv: words and options, config: process.config, exec: process.execPath, die: exit code or signal}
module.exports = async (c) => {
  const root = fs.mkdtempSync(path.join(clean.TMPDIR, 'c'))
  for (const d of ['mod', 'home', 'dev', 'tmp']) fs.mkdirSync(path.join(root, d))
  for (const [n, t] of Object.entries(c.tree)) {
    const p = path.join(root, n)
    fs.mkdirSync(path.dirname(p), { recursive: true })
    if (t.b64) fs.writeFileSync(p, Buffer.from(t.b64, 'base64'))
    else fs.writeFileSync(p, sub(t, root))
  }
  fs.writeFileSync(path.join(root, 'my py'), PY, { mode: 0o755 })
  for (const k of Object.keys(process.env)) if (!(k in clean)) delete process.env[k]
  Object.assign(process.env, clean, { HOME: path.join(root, 'home'), TMPDIR: path.join(root, 'tmp'), VF_REC: path.join(root, 'rec'), VF_DIE: String(c.die || 0), comspec: '/bin/sh' })
  for (const [k, v] of Object.entries(c.env || {})) process.env[k] = sub(v, root)
  process.chdir(path.join(root, 'mod'))
  process.execPath = c.exec ? sub(c.exec, root) : exec
  Object.defineProperty(process, 'config', { value: c.config ? JSON.parse(sub(JSON.stringify(c.config), root)) : config, configurable: true, writable: true })
  gyp ||= require(path.join(process.env.VF_REPO, 'lib', 'node-gyp.js'))
  let error = null
  const g = gyp()
  g.parseArgv(['node', 'node-gyp.js', '--python', path.join(root, 'my py'), ...c.argv.map((a) => sub(a, root))])
  g.devDir = path.join(root, 'dev')
  let before
  try {
    for (let t; (t = g.todo.shift());) {
      before = t.args.slice()
      await g.commands[t.name](t.args)
    }
  } catch (e) {
    error = e.message
  }
  process.chdir('/')
  const read = (p) => { try { return fs.readFileSync(p, 'utf8') } catch { return null } }
  const z = (p) => { const s = read(p); return s === null ? null : s.split('\0').slice(0, -1) }
  const out = { root, error, version, arch: process.arch, runs: (read(path.join(root, 'rec.n')) || '').length / 2, args: z(path.join(root, 'rec')), env: z(path.join(root, 'rec.env')), config: read(path.join(root, 'mod/build/config.gypi')), before, read: c.read ? read(path.join(root, c.read)) : null, dev: fs.readdirSync(path.join(root, 'dev')),
    stray: fs.readdirSync(path.join(root, 'mod')).concat(fs.readdirSync(path.join(root, 'tmp'))) }
  fs.rmSync(root, { recursive: true, force: true })
  return out
}
