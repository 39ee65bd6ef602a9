'use strict'
const path = require('path')
const { format } = require('util')
Object.defineProperty(process, 'platform', { value: 'win32' })
const cp = require('child_process')
let run
cp.execFile = (exec, args, opts, done) => {
  const r = run(exec, args)
  process.nextTick(() => (typeof opts === 'function' ? opts : done)(...r))
  return { stdin: { end () {} } }
}
const Finder = require(path.join(process.env.VF_REPO, 'lib', 'find-visualstudio.js'))
let text = []
process.on('log', (level, ...args) => { if (level === 'error') text.push(format(...args)) })
const same = (a, b) => path.win32.relative(a, b) === ''

// What reg.exe answers. The keys of 64-bit programs and (with /reg:32, or under Wow6432Node) those of 32-bit ones are apart, except on 32-bit systems.
function reg (c, args) {
  const [verb, key, flag, value, ...more] = args
  const no = [Object.assign(new Error('Command failed'), { code: 1 }), '', 'ERROR: The system was unable to find the specified registry key or value.\r\n']
  if (verb !== 'query' || flag !== '/v' || more.some((m) => m !== '/reg:32')) return no
  const one = c.arch === 'ia32'
  const low = one || more.includes('/reg:32') || /\\Wow6432Node\\/i.test(key)
  const k = key.replace(/\\Wow6432Node(?=\\)/i, '').toLowerCase()
  if (one && /wow6432node/i.test(key)) return no
  let found
  for (const [v, o] of Object.entries(c.old)) {
    if (k === 'hklm\\software\\microsoft\\visualstudio\\sxs\\vc7' && value === v && low === (one || o.in === 32)) found = o.vc
    if (k === 'hklm\\software\\microsoft\\msbuild\\toolsversions\\' + v && value === 'MSBuildToolsPath' && o.msbuild) found = low ? o.msbuild : 'C:\\MSB64\\' + v
  }
  if (found === undefined) return no
  return [null, `\r\nHKEY_LOCAL_MACHINE${key.slice(4)}\r\n    ${value}    REG_SZ    ${found}\r\n\r\n`, '']
}

// c: {machine: [{path, version, packages, exists: [...]}], old: {version: {vc, msbuild}}, vssetup, powershell, node, request, env, arch}
module.exports = async (c) => {
  Object.defineProperty(process, 'arch', { value: c.arch })
  for (const k of ['VCINSTALLDIR', 'VSCMD_VER', 'WindowsSDKVersion']) {
    if (c.env[k] === undefined) delete process.env[k]
    else process.env[k] = c.env[k]
  }
  const f = new Finder({ major: c.node, minor: 0, patch: 0 }, c.request)
  f.msBuildPathExists = (p) => c.machine.some((i) => i.exists.some((e) => same(path.win32.join(i.path, e), p)))
  run = (exec, args) => {
    if (exec === path.join('C:\\Windows', 'System32', 'reg.exe')) return reg(c, args)
    const cmd = args[args.length - 1]
    if (c.powershell === 'broken') return [Object.assign(new Error('spawn powershell ENOENT'), { code: 'ENOENT' }), '', '']
    if (/Get-Module/.test(cmd)) {
      return c.vssetup ? [null, '2.2.16\n', ''] : [new Error('Command failed'), '', 'null']
    }
    if (/Get-VSSetupInstance/.test(cmd)) {
      const m = /InstallationPath -eq '(.*?)' }/.exec(cmd)
      const list = c.machine.filter((i) => !m || i.path.toLowerCase() === m[1].toLowerCase()).map((i) => {
        const v = /^(\d+)\.(\d+)\.(\d+)\.(\d+)/.exec(i.version) || [0, -1, -1, -1, -1]
        return { InstallationPath: i.path, InstallationVersion: { Major: +v[1], Minor: +v[2], Build: +v[3], Revision: +v[4] }, Packages: i.packages.map((p) => ({ Id: p })) }
      })
      return [null, list.length === 0 ? '' : JSON.stringify(list.length === 1 ? list[0] : list), '']
    }
    if (/Add-Type/.test(cmd)) {
      if (c.powershell === 'garbage') return [null, 'Add-Type : something {', '']
      if (c.powershell === 'object') return [null, '{}', '']
      return [null, JSON.stringify(c.machine.map((i) => ({ path: i.path, version: i.version, packages: i.packages }))), '']
    }
    throw new Error('unexpected command ' + cmd)
  }
  text = []
  try {
    const i = await f.findVisualStudio()
    return { found: { path: i.path, version: i.version, year: i.versionYear, major: i.versionMajor, minor: i.versionMinor, msBuild: i.msBuild, toolset: i.toolset, sdk: i.sdk } }
  } catch (e) {
    return { error: e.message, text: text.join('\n') }
  }
}
