'use strict'
// Preloaded before the program: makes it believe it runs on another platform, without changing how its libraries touch the disk.
for (const m of ['graceful-fs', 'tar', 'semver', 'exponential-backoff', 'make-fetch-happen', 'nopt', 'env-paths', 'which', 'tinyglobby', 'proc-log']) {
  try { require(m) } catch {}
}
if (process.env.VFJ_PLATFORM) Object.defineProperty(process, 'platform', { value: process.env.VFJ_PLATFORM })
