'use strict'
// Preloaded before bin/node-gyp.js: the commands named in VFJ_CMDS are replaced by recorders with scripted outcomes.
const Module = require('module')
const fs = require('fs')
const path = require('path')
const lib = path.join(fs.realpathSync(process.env.VF_REPO), 'lib')
const script = JSON.parse(process.env.VFJ_SCRIPT)
const replaced = new Set(process.env.VFJ_CMDS.split(',').map((n) => path.join(lib, n + '.js')))
let n = 0
const record = (o) => fs.appendFileSync(process.env.VFJ_OUT, JSON.stringify(o) + '\n')
const load = Module._load
Module._load = function (request, parent, ...rest) {
  if (parent && /^[./]/.test(request)) {
    let file
    try { file = Module._resolveFilename(request, parent) } catch {}
    if (file && replaced.has(file)) return recorder(path.basename(file, '.js'))
  }
  return load.call(this, request, parent, ...rest)
}
function recorder (name) {
  const f = async (gyp, argv) => {
    const mine = n++
    const what = script[mine] || 'ok'
    const opts = { ...gyp.opts }
    delete opts.argv
    record({ begin: name, args: argv, opts, cwd: process.cwd(), devDir: gyp.devDir, log: require(path.join(lib, 'log.js')).logger.level?.id ?? null })
    if (what !== 'sync') await new Promise((resolve) => setTimeout(resolve, 2))
    record({ end: name })
    switch (what) {
      case 'fail': throw new Error('broken pipe dream ' + mine)
      case 'type': return undefined.property
      case 'never': return new Promise(() => {})
      case 'uncaught':
        setImmediate(() => { throw new Error('broken pipe dream ' + mine) })
        return new Promise((resolve) => setTimeout(resolve, 1000))
      case 'text': return 'said ' + mine
      case 'list': return ['1.2.3', '4.5.6-rc.1']
      case 'empty': return []
    }
  }
  if (script[n] === 'syncfail') {
    const g = (gyp, argv) => {
      record({ begin: name, args: argv, opts: {}, cwd: process.cwd(), devDir: gyp.devDir })
      record({ end: name })
      throw new Error('broken pipe dream ' + n++)
    }
    g.usage = name
    return g
  }
  f.usage = 'Recorded ' + name
  return f
}
