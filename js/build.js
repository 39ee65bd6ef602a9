'use strict'
// Runs the real build command in a module directory, with a tool that records what it is asked to do.
for (const m of ['graceful-fs', 'tar', 'semver', 'exponential-backoff', 'make-fetch-happen', 'nopt', 'which', 'tinyglobby', 'proc-log', 'env-paths']) {
  try { require(m) } catch {}
}
if (process.env.VFJ_PLATFORM) Object.defineProperty(process, 'platform', { value: process.env.VFJ_PLATFORM })
const fs = require('fs')
const os = require('os')
const path = require('path')
const clean = { ...process.env }
const gyp = require(path.join(process.env.VF_REPO, 'lib', 'node-gyp.js'))
const log = require(path.join(process.env.VF_REPO, 'lib', 'log.js'))
const TOOL = `#!/bin/sh
{ printf '%s\\0' "$@"; } >> "$VF_REC"
printf '\\1\\0' >> "$VF_REC"
{ printf '%s\\0' "$0" "$PWD" "$PATH" "$(command -v python3)" "$(/usr/bin/readlink "$(command -v python3)")"; } > "$VF_REC.env"
case "$VF_DIE" in [0-9]*) exit $VF_DIE ;; *) kill -$VF_DIE $$ ;; esac
`
// c: {config: text of config.gypi or null, tree: {path: content}, dirs: [], env, argv, die, tools: {name: where}, twice}
module.exports = async (c) => {
  const root = fs.mkdtempSync(path.join(clean.TMPDIR, 'b'))
  for (const d of ['mod', 'bin', 'opt tools', 'home', ...(c.dirs || [])]) fs.mkdirSync(path.join(root, d), { recursive: true })
  const sub = (x) => x.replaceAll('@R@', root)
  for (const [n, t] of Object.entries(c.tree || {})) {
    fs.mkdirSync(path.dirname(path.join(root, n)), { recursive: true })
    fs.writeFileSync(path.join(root, n), sub(t))
  }
  for (const [n, t] of Object.entries(c.links || {})) {
    fs.mkdirSync(path.dirname(path.join(root, n)), { recursive: true })
    fs.symlinkSync(sub(t), path.join(root, n))
  }
  if (c.config !== null) {
    fs.mkdirSync(path.join(root, 'mod', 'build'), { recursive: true })
    fs.writeFileSync(path.join(root, 'mod', 'build', 'config.gypi'), sub(c.config))
  }
  for (const t of c.tools) fs.writeFileSync(path.join(root, t), TOOL, { mode: 0o755 })
  const error = []
  process.chdir(path.join(root, 'mod'))
  const read = (p) => { try { return fs.readFileSync(p, 'utf8') } catch { return null } }
  for (let n = 0; n < (c.twice ? 2 : 1); n++) {
    for (const k of Object.keys(process.env)) if (!(k in clean)) delete process.env[k]
    Object.assign(process.env, clean, { HOME: path.join(root, 'home'), VF_REC: path.join(root, 'rec'), VF_DIE: String(c.die || 0), PATH: path.join(root, 'bin') + (c.path ? ':' + sub(c.path) : '') })
    for (const [k, v] of Object.entries(c.env || {})) process.env[k] = sub(v)
    log.logger.level = 'info'
    const g = gyp()
    g.parseArgv(['node', 'node-gyp.js', ...c.argv.map(sub)])
    try {
      for (let t; (t = g.todo.shift());) await g.commands[t.name](t.args)
      error.push(null)
    } catch (e) {
      error.push(e.message)
    }
  }
  process.chdir('/')
  log.logger.level = 'info'
  const rec = read(path.join(root, 'rec'))
  const env = read(path.join(root, 'rec.env'))
  let bins = null
  try { bins = fs.readdirSync(path.join(root, 'mod/build/node_gyp_bins')) } catch {}
  const out = { root, error, cpus: os.cpus().length, args: rec === null ? [] : rec.split('\x01\0').slice(0, -1).map((s) => s.split('\0').slice(0, -1)), env: env === null ? null : env.split('\0').slice(0, -1), bins, config: read(path.join(root, 'mod/build/config.gypi')), mod: fs.readdirSync(path.join(root, 'mod')).sort() }
  fs.rmSync(root, { recursive: true, force: true })
  return out
}
