'use strict'
const path = require('path')
const processRelease = require(path.join(process.env.VF_REPO, 'lib', 'process-release.js'))
module.exports = (c) => {
  if (c.mirror == null) delete process.env.NODEJS_ORG_MIRROR
  else process.env.NODEJS_ORG_MIRROR = c.mirror
  const r = processRelease(c.argv, { opts: c.opts }, c.version, c.release)
  if (r.semver) r.semver = r.semver.version
  return r
}
