'use strict'
// A Windows machine with Visual Studio installations, as its probes report them.
const path = require('path').win32

const STD = { path: 'C:\\VS\\2022\\Community', version: '17.6.33829.357', packages: ['Microsoft.VisualStudio.VC.MSBuild.Base', 'Microsoft.VisualStudio.Component.VC.Tools.x86.x64', 'Microsoft.VisualStudio.Component.VC.Tools.ARM64', 'Microsoft.VisualStudio.Component.Windows11SDK.22621'], msbuild: true }

function install (w, spec = { instances: [STD] }) {
  const m = w.m
  const d = m.disk
  for (const i of spec.instances || []) {
    if (i.msbuild) d.put(path.join(i.path, 'MSBuild', 'Current', 'Bin', 'MSBuild.exe'), 'exe')
    if (i.msbuildArm64) d.put(path.join(i.path, 'MSBuild', 'Current', 'Bin', 'arm64', 'MSBuild.exe'), 'exe')
  }
  const prev = m.program
  m.program = (rec, proc) => {
    const base = path.basename(rec.command.replace(/^"|"$/g, '')).toLowerCase()
    const slow = (r) => r && spec.slow ? { ...r, delay: spec.slow } : r
    if (base === 'powershell.exe') return slow(powershell(spec, rec))
    if (base === 'reg.exe') return slow(reg(spec, rec, proc.arch || m.arch))
    return prev(rec, proc)
  }
}

// the many packages of a full installation that nobody looks for
function filler (i) { return Array.from({ length: i.filler || 0 }, (_, k) => 'Microsoft.VisualStudio.Filler.Component.Number' + k) }

function reply (fault, good) {
  if (!fault) return { stdout: good }
  const f = { ...fault }
  if (f.kind === 'exit') return { code: f.code || 1, stdout: f.stdout || '', stderr: 'failed' }
  if (f.kind === 'signal') return { signal: 'SIGKILL', stdout: good.slice(0, f.cut || 0) }
  if (f.kind === 'garbage') return { stdout: f.stdout }
  if (f.kind === 'truncated') return { stdout: good.slice(0, Math.floor(good.length * f.frac)) }
  if (f.kind === 'stderr') return { stdout: good, stderr: 'warning: something' }
  if (f.kind === 'bom') return { stdout: '\ufeff' + good }
  throw new Error('unknown probe fault ' + f.kind)
}

function powershell (spec, rec) {
  const a = rec.args.join(' ')
  rec.tool = 'powershell'
  const faults = spec.faults || {}
  if (faults.powershell === 'missing') return null
  if (/ListAvailable/.test(a)) {
    rec.probe = 'module'
    if (!spec.setupModule) return { code: 1, stderr: 'cannot call a method on a null-valued expression' }
    return reply(faults.module, '2.2.16\r\n')
  }
  const inst = spec.instances || []
  if (/Get-VSSetupInstance/.test(a)) {
    rec.probe = 'setup'
    if (!spec.setupModule) return { code: 1, stderr: 'not recognized' }
    const f = /InstallationPath -eq '([^']*)'/.exec(a)
    const list = inst.filter((i) => !i.old && (!f || i.path.toLowerCase() === f[1].toLowerCase())).map((i) => {
      const [Major, Minor, Build, Revision] = i.version.split('.').map(Number)
      return { InstanceId: 'x', InstallationPath: i.path, InstallationVersion: { Major, Minor, Build, Revision }, Packages: i.packages.concat(filler(i)).map((Id) => ({ Id, Version: '1', ...(i.filler ? { UniqueId: Id + ',version=17.6.33829.357,chip=x64,language=neutral', Chip: 'x64', Language: null, Branch: null, Type: 'Component', IsExtension: false, '': ' '.repeat(200) } : {}) })) }
    })
    const out = list.length === 0 ? '' : JSON.stringify(list.length === 1 ? list[0] : list)
    return reply(faults.setup, out)
  }
  if (/Add-Type/.test(a)) {
    rec.probe = 'cs'
    return reply(faults.cs, JSON.stringify(inst.filter((i) => !i.old).map((i) => ({ path: i.path, version: i.version, packages: i.packages.concat(filler(i)) }))))
  }
  rec.probe = 'unknown'
  return { code: 1, stderr: 'unknown command' }
}

function reg (spec, rec, arch) {
  rec.tool = 'reg'
  const faults = spec.faults || {}
  if (faults.reg === 'missing') return null
  const key = rec.args[1]
  const value = rec.args[rec.args.indexOf('/v') + 1]
  const table = spec.registry || {}
  let v = table[`${key}\\${value}`.toLowerCase()]
  // the 64-bit view of the registry names the 64-bit MSBuild
  if (v !== undefined && /MSBuild/.test(key) && arch !== 'ia32' && !rec.args.includes('/reg:32')) v += 'amd64\\'
  if (v === undefined) return { code: 1, stderr: 'ERROR: The system was unable to find the specified registry key or value.\r\n' }
  return reply(faults.reg, `\r\n${key}\r\n    ${value}    REG_SZ    ${v}\r\n\r\n`)
}

module.exports = { install, STD }
