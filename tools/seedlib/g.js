// Demonstration helper: the checkout is the current directory, scratch files live in a fresh directory.
const fs = require('fs'); const os = require('os'); const path = require('path'); const http = require('http')
const crypto = require('crypto'); const cp = require('child_process')
const REPO = process.cwd()
const TMP = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), 'demo')))
process.on('exit', () => fs.rmSync(TMP, { recursive: true, force: true }))
const lib = (n) => require(path.join(REPO, 'lib', n))
const expect = (c, ...what) => { if (!c) { console.log('FAIL', ...what); process.exit(1) } }
const as = (platform) => Object.defineProperty(process, 'platform', { value: platform })
// a header archive as nodejs.org ships it; files: {name: contents}
function tarball (files, top = 'node-v1.2.3') {
  const d = fs.mkdtempSync(path.join(TMP, 'tar'))
  for (const n in files) {
    fs.mkdirSync(path.dirname(path.join(d, top, n)), { recursive: true })
    fs.writeFileSync(path.join(d, top, n), files[n])
  }
  cp.execFileSync('tar', ['-czf', 'out.tgz', top], { cwd: d })
  return path.join(d, 'out.tgz')
}
// pages: {path: body or [status, body]}; gives back [url, close]
async function serve (pages) {
  const s = http.createServer((q, r) => {
    let p = pages[q.url]
    if (p === undefined) p = [404, '']
    if (!Array.isArray(p)) p = [200, p]
    r.writeHead(p[0]); r.end(p[1])
  })
  await new Promise((resolve) => s.listen(0, '127.0.0.1', resolve))
  return ['http://127.0.0.1:' + s.address().port, () => { s.close(); s.closeAllConnections() }]
}
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex')
const tried = async (p) => { try { await p; return null } catch (e) { return e } }
const main = (f) => f().then(() => process.exit(0), (e) => { console.log('FAIL', e.stack); process.exit(1) })
module.exports = { fs, os, path, cp, REPO, TMP, lib, expect, as, tarball, serve, sha, tried, main }
