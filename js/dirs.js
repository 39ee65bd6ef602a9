'use strict'
// findNodeDirectory on a layout, or findAccessibleSync on real files.
const fs = require('fs')
const path = require('path')
const lib = (n) => require(path.join(process.env.VF_REPO, 'lib', n))
const { findAccessibleSync } = lib('util.js')
const findNodeDirectory = lib('find-node-directory.js')
if (process.getuid() === 0 && process.env.VFJ_DROP) {
  process.setgroups([])
  process.setgid(65534)
  process.setuid(65534)
}
module.exports = (c) => {
  if (c.script) return findNodeDirectory(c.script, { execPath: c.exec, platform: c.platform })
  const root = fs.mkdtempSync(path.join(process.env.TMPDIR, 'd'))
  const base = path.join(root, 'base dir')
  fs.mkdirSync(base)
  for (const [n, kind] of c.files) {
    const p = path.join(base, n)
    if (kind === 'absent') continue
    fs.mkdirSync(path.dirname(p), { recursive: true })
    if (kind === 'dir') fs.mkdirSync(p)
    else if (kind === 'dangling') fs.symlinkSync('nowhere', p)
    else if (kind === 'loop') fs.symlinkSync(path.basename(p), p)
    else if (kind === 'link') { fs.writeFileSync(p + '.real', ''); fs.symlinkSync(p + '.real', p) } else fs.writeFileSync(p, '', { mode: kind === 'unreadable' ? 0o200 : 0o644 })
  }
  if (c.relative) process.chdir(root)
  const r = findAccessibleSync('x', c.relative ? 'base dir' : base, c.files.map((f) => c.absolute ? path.join(base, f[0]) : f[0]))
  const inside = fs.realpathSync(root) + '/'
  const leak = fs.readdirSync('/proc/self/fd').filter((n) => {
    try { return fs.readlinkSync('/proc/self/fd/' + n).startsWith(inside) } catch { return false }
  }).length
  process.chdir('/')
  fs.rmSync(root, { recursive: true, force: true })
  return { found: r === undefined ? null : r.replace(base, '@B@'), none: r === undefined, leak }
}
