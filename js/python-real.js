'use strict'
const path = require('path')
const Finder = require(path.join(process.env.VF_REPO, 'lib', 'find-python.js'))
module.exports = async (c) => {
  const f = new Finder(c.config)
  f.env = c.env
  process.env.PATH = c.env.PATH
  try {
    return { found: await f.findPython() }
  } catch (e) {
    return { error: e.message }
  }
}
