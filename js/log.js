'use strict'
// A fresh logger per case; c: {tty, events: [[kind, ...]]}; what reaches the stream after each event.
const path = require('path')
const file = require.resolve(path.join(process.env.VF_REPO, 'lib', 'log.js'))
const gypFile = require.resolve(path.join(process.env.VF_REPO, 'lib', 'node-gyp.js'))
delete process.env.NODE_GYP_NULL_LOGGER
module.exports = (c) => {
  process.removeAllListeners('log')
  delete require.cache[file]
  const log = require(file)
  let g
  let text = ''
  let writes = 0
  log.logger.stream = { isTTY: c.tty, write: (s) => { text += s; writes++ } }
  const out = []
  for (const [kind, ...a] of c.events) {
    if (kind === 'log') log[a[0]](...a.slice(1))
    else if (kind === 'with') log.withPrefix(a[1])[a[0]](...a.slice(2))
    else if (kind === 'level') log.logger.level = a[0] ?? undefined
    else if (kind === 'pause') log.pause()
    else if (kind === 'resume') log.resume()
    else if (kind === 'parse') {
      if (!g) { delete require.cache[gypFile]; g = require(gypFile)() }
      g.parseArgv(['node', 'node-gyp.js', ...a])
    } else if (kind === 'visible') text += log.logger.isVisible(a[0]) ? '+' : '-'
    out.push(text)
    text = ''
  }
  return out
}
