'use strict'
// Runs remove or clean on a small tree, without privileges, and tells what is left. Whole paths outside the case's directory are refused.
const fs = require('fs')
const path = require('path')
const lib = path.join(process.env.VF_REPO, 'lib')
let root = null
let escapes = []
function guard (o, name, promise) {
  const orig = o[name]
  if (typeof orig !== 'function') return
  o[name] = function (p, ...rest) {
    const full = path.resolve(String(p))
    if (root !== null && !full.startsWith(root + '/')) {
      escapes.push(name + ' ' + full)
      const err = Object.assign(new Error('EPERM'), { code: 'EPERM' })
      if (promise) return Promise.reject(err)
      const cb = rest[rest.length - 1]
      if (typeof cb === 'function') return cb(err)
      throw err
    }
    return orig.call(this, p, ...rest)
  }
}
for (const n of ['rm', 'rmdir', 'unlink', 'rename']) {
  guard(fs.promises, n, true)
  guard(fs, n, false)
  guard(fs, n + 'Sync', false)
}
const gyp = require(path.join(lib, 'node-gyp.js'))
for (const c of ['remove', 'clean', 'list']) require(path.join(lib, c + '.js'))
if (process.getuid() === 0) {
  process.setgroups([])
  process.setgid(65534)
  process.setuid(65534)
}

function build (dir, tree) {
  for (const [n, c] of Object.entries(tree)) {
    const p = path.join(dir, n)
    fs.mkdirSync(path.dirname(p), { recursive: true })
    if (c === null) fs.mkdirSync(p, { recursive: true })
    else if (typeof c === 'string') fs.writeFileSync(p, c)
    else fs.symlinkSync(c.link.replace('@', dir), p)
  }
}
function snapshot (dir, base = dir, out = {}) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name)
    const n = path.relative(base, p)
    if (e.isSymbolicLink()) out[n] = { link: fs.readlinkSync(p).replace(base, '@') }
    else if (e.isDirectory()) { out[n] = null; snapshot(p, base, out) } else out[n] = fs.readFileSync(p, 'utf8')
  }
  return out
}
// c: {root, tree, devdir, cwd, cmd, argv, target}
module.exports = async (c) => {
  const dir = fs.realpathSync(fs.mkdtempSync(path.join(process.env.VFJ_SCRATCH, 'r')))
  const sub = (s) => typeof s === 'string' ? s.replace('@', dir) : s
  root = null
  build(dir, c.tree)
  const before = snapshot(dir)
  process.chdir(path.join(dir, c.cwd))
  const g = gyp()
  g.parseArgv(['node', 'node-gyp.js', c.cmd])
  g.devDir = sub(c.devdir)
  if (c.target !== undefined) g.opts.target = sub(c.target)
  escapes = []
  root = dir
  let result = null
  let error = null
  try {
    result = await g.commands[c.cmd](c.argv.map(sub))
  } catch (e) {
    error = e.message
  }
  root = null
  process.chdir('/')
  const after = snapshot(dir)
  fs.rmSync(dir, { recursive: true, force: true })
  return { before, after, result: result === undefined ? null : result, error, escapes }
}
