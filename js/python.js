'use strict'
const path = require('path')
const { format } = require('util')
const lib = path.join(process.env.VF_REPO, 'lib')
const Finder = require(path.join(lib, 'find-python.js'))
let text = []
process.on('log', (level, ...args) => { if (level === 'error') text.push(format(...args)) })

// c: {config, env, win, defaults, answers: {command: [kind, path]}, versions: {path: output or null}}
module.exports = async (c) => {
  const f = new Finder(c.config)
  f.env = c.env
  f.win = c.win
  if (c.defaults) f.winDefaultLocations = c.defaults
  const calls = []
  const version = JSON.stringify(f.argsVersion)
  f.execFile = async (exec, args, opts) => {
    let name = exec
    let a = args
    if (opts && opts.shell) {
      name = name.replace(/^"(.*)"$/, '$1')
      a = a.map((x) => x.replace(/^"(.*)"$/, '$1'))
    }
    const launcher = a[0] === '-3'
    if (launcher) a = a.slice(1)
    const isVersion = JSON.stringify(a) === version
    calls.push([name, isVersion ? 'version' : 'path', launcher, !!(opts && opts.shell), opts && opts.env && opts.env.TERM, Object.keys((opts && opts.env) || {}).sort().join()])
    const missing = () => [Object.assign(new Error('spawn ' + name + ' ENOENT'), { code: 'ENOENT' }), '', '']
    const out = isVersion ? c.versions[name] : c.answers[name]
    if (out === undefined || out === null) return missing()
    if (out === 'THROW') throw new Error('cannot spawn')
    if (out === 'FAIL') return [Object.assign(new Error('Command failed'), { code: 1 }), '', 'oh no']
    return [null, out, '']
  }
  text = []
  let found = null
  let error = null
  try {
    found = await f.findPython()
  } catch (e) {
    error = e.message
  }
  return { found, error, calls, text: text.join('\n') }
}
