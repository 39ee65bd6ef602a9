'use strict'
const path = require('path')
const gyp = require(path.join(process.env.VF_REPO, 'lib', 'node-gyp.js'))
const log = require(path.join(process.env.VF_REPO, 'lib', 'log.js'))
module.exports = (c) => {
  for (const k of Object.keys(process.env)) if (/^npm_config_/.test(k)) delete process.env[k]
  Object.assign(process.env, c.env)
  log.logger.level = 'info'
  const g = gyp()
  g.parseArgv(['node', 'node-gyp.js', ...c.argv])
  const opts = { ...g.opts }
  delete opts.argv
  return { todo: g.todo, opts, level: log.logger.level?.id ?? null }
}
