'use strict'
// Runs one header-management command on a given device directory against a scripted mirror; tells the tree afterwards, the requests and the outcome.
for (const m of ['graceful-fs', 'tar', 'semver', 'exponential-backoff', 'make-fetch-happen', 'nopt', 'proc-log']) {
  try { require(m) } catch {}
}
if (process.env.VFJ_PLATFORM) Object.defineProperty(process, 'platform', { value: process.env.VFJ_PLATFORM })
const fs = require('fs')
const http = require('http')
const path = require('path')
const data = JSON.parse(fs.readFileSync(process.env.VFJ_DATA, 'utf8'))
const gyp = require(path.join(process.env.VF_REPO, 'lib', 'node-gyp.js'))
let answers = {}
let requests = []
const server = http.createServer((req, res) => {
  requests.push(req.url)
  const a = answers[req.url]
  if (a === undefined) {
    res.writeHead(404)
    return res.end('no')
  }
  res.writeHead(200)
  res.end(Buffer.from(a, 'base64'))
})
server.unref()
let url
const ready = new Promise((resolve) => server.listen(0, '127.0.0.1', () => { url = 'http://127.0.0.1:' + server.address().port; resolve() }))
function snapshot (dir, base = dir, out = {}) {
  let entries = []
  try { entries = fs.readdirSync(dir, { withFileTypes: true }) } catch (e) { return out }
  for (const e of entries) {
    const p = path.join(dir, e.name)
    if (e.isDirectory()) { snapshot(p, base, out); if (fs.readdirSync(p).length === 0) out[path.relative(base, p) + '/'] = '' } else out[path.relative(base, p)] = fs.readFileSync(p, 'utf8')
  }
  return out
}
// c: {files: {path: content or [content table key]}, mirror: name of the answers, cmd: words}
module.exports = async (c) => {
  await ready
  const root = fs.mkdtempSync(path.join(process.env.TMPDIR, 's'))
  const dev = path.join(root, 'dev')
  fs.mkdirSync(path.join(root, 'tmp'))
  for (const [n, t] of Object.entries(c.files)) {
    const p = path.join(dev, n)
    fs.mkdirSync(path.dirname(p), { recursive: true })
    fs.writeFileSync(p, data.contents[t] ?? t)
  }
  answers = data.mirrors[c.mirror]
  requests = []
  const saved = process.env.TMPDIR
  process.env.TMPDIR = path.join(root, 'tmp')
  for (const k of Object.keys(process.env)) if (/^npm_config_/.test(k)) delete process.env[k]
  Object.assign(process.env, c.env || {})
  const g = gyp()
  g.parseArgv(['node', 'node-gyp.js', ...c.cmd, '--dist-url', url + '/dist'])
  g.devDir = dev
  let error = null
  let result = null
  try {
    for (let t; (t = g.todo.shift());) result = await g.commands[t.name](t.args)
  } catch (e) {
    error = e.message
  }
  process.env.TMPDIR = saved
  const exists = fs.existsSync(dev)
  const after = snapshot(dev)
  const names = {}
  for (const [t, x] of Object.entries(data.contents)) names[x] = t
  for (const n of Object.keys(after)) if (after[n] in names) after[n] = names[after[n]]
  const left = fs.readdirSync(path.join(root, 'tmp'))
  fs.rmSync(root, { recursive: true, force: true })
  return { error, result: result === undefined ? null : result, requests, after, exists, left }
}
