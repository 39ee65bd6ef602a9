'use strict'
// node batch.js WORKER IN OUT: runs the worker on every case of the JSON array in IN and writes the results to OUT.
const fs = require('fs')
const path = require('path')
;(async () => {
  const work = require(path.resolve(__dirname, process.argv[2]))
  const out = []
  for (const c of JSON.parse(fs.readFileSync(process.argv[3], 'utf8'))) {
    try {
      out.push({ ok: await work(c) })
    } catch (e) {
      out.push({ error: String(e && e.message), stack: String(e && e.stack) })
    }
  }
  fs.writeFileSync(process.argv[4], JSON.stringify(out))
  process.exit(0)
})()
