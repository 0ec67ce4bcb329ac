'use strict'
// C10: Visual Studio discovery over installations, probe failures and garbage.
const path = require('path').win32
const { World } = require('../scn')
const programs = require('../programs')
const vsworld = require('../vsworld')
const G = require('../gen')

const FAMILIES = ['plain', 'plain', 'probe', 'probe', 'garbage', 'garbage', 'spawn', 'prompt', 'old']
const X64 = 'Microsoft.VisualStudio.Component.VC.Tools.x86.x64'
const ARM = 'Microsoft.VisualStudio.Component.VC.Tools.ARM64'
const BASE = 'Microsoft.VisualStudio.VC.MSBuild.Base'
const EXPRESS = 'Microsoft.VisualStudio.WDExpress'
const YEARS = { 15: 2017, 16: 2019, 17: 2022 }

function sdks (rng) {
  return rng.pick([
    () => ['Microsoft.VisualStudio.Component.Windows11SDK.22621'], () => ['Microsoft.VisualStudio.Component.Windows10SDK.19041'],
    () => ['Microsoft.VisualStudio.Component.Windows10SDK.19041', 'Microsoft.VisualStudio.Component.Windows11SDK.22000'], () => ['Microsoft.VisualStudio.Component.Windows10SDK.9999', 'Microsoft.VisualStudio.Component.Windows10SDK.10240'],
    () => ['Microsoft.VisualStudio.Component.Windows10SDK.15063.Desktop'], () => ['Microsoft.VisualStudio.Component.Windows81SDK'],
    () => ['Microsoft.VisualStudio.Component.Windows10SDK.14393.UWP'], () => ['Microsoft.VisualStudio.Component.Windows10SDK.IpOverUsb'], () => ['Microsoft.VisualStudio.Component.Windows10SDK.17763.UWP', 'Microsoft.VisualStudio.Component.Windows81SDK'], () => []
  ])()
}
function instance (rng, i) {
  const major = rng.pick([15, 16, 17, 17, 16, 15, 18, 14, 99])
  const year = YEARS[major]
  const edition = rng.pick(['Community', 'BuildTools', 'Professional', 'Enterprise', 'Preview'])
  const p = rng.pick([`C:\\Program Files\\Microsoft Visual Studio\\${year || 'x' + major}\\${edition}${i}`, `D:\\VS\\${major}-${i}`, `E:\\Outils ü\\vs${i}`])
  const packages = []
  if (rng.bool(0.85)) packages.push(BASE)
  if (rng.bool(0.8)) packages.push(rng.bool(0.9) ? X64 : EXPRESS)
  if (rng.bool(0.4)) packages.push(ARM)
  packages.push(...(rng.bool(0.8) ? ['Microsoft.VisualStudio.Component.Windows11SDK.22621'] : sdks(rng)))
  packages.push('Microsoft.VisualStudio.Component.Roslyn.Compiler', 'Microsoft.Component.MSBuild')
  const v = rng.bool(0.06) ? rng.pick(['', 'garbage', '17', 'v17.1.2', 'NaN.1.2']) : `${major}.${rng.pick([0, 3, 8, 9, 11])}.${rng.int(40000)}.${rng.int(500)}`
  return { path: p, version: v, packages: rng.shuffle(packages), msbuild: packages.includes(BASE) ? true : rng.bool(0.4), msbuildArm64: rng.bool(0.3) }
}

function probeFault (rng, kind) {
  const f = rng.pick([
    () => ({ kind: 'exit', code: rng.pick([1, 2, 5]) }), () => ({ kind: 'exit', code: 1, keep: true }), () => ({ kind: 'signal' }), () => ({ kind: 'truncated', frac: rng.float() }), () => ({ kind: 'garbage', stdout: rng.pick(['', 'not json', 'WARNING: profile\r\n', '<html>', '\u0000\u0001']) })
  ])()
  return f
}
const GARBAGE = ['{}', 'null', '[]', '[null]', '"text"', '5', 'true', '[{}]', '[1,2]', '[[]]', '{"InstallationPath":null}', '{"InstallationPath":"C:\\\\x"}', '{"InstallationPath":"C:\\\\x","InstallationVersion":null,"Packages":[]}', '[{"path":"C:\\\\x","version":"17.1.1"}]', '[{"path":null,"version":"17.1.1","packages":[]}]', '[{"path":"C:\\\\x","version":null,"packages":null}]', '[{"path":"C:\\\\x","version":"17.0.0","packages":[null]}]', '[{"path":"C:\\\\x","version":"17.0.0","packages":"all"}]']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const { w } = G.world(rng, { platform: 'win32' })
  w.hostVersion = rng.pick(['24.0.0', '22.3.0', '21.0.0', '20.11.1', '19.0.0', '18.19.0', '16.20.2', '10.24.1'])
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, env: {}, opt: {}, vs: { instances: [], faults: {}, registry: {}, setupModule: rng.bool(0.5) }, faults: [] }
  s.target = rng.pick([w.hostVersion, w.hostVersion, '22.0.0', '21.7.3', '19.0.0', '18.0.0', '9.0.0', '8.17.0', '6.17.1'])
  s.targetArch = rng.pick([undefined, undefined, 'arm64', 'ia32', 'x64'])
  const n = rng.pick([0, 1, 1, 2, 2, 3, 4])
  for (let k = 0; k < n; k++) { const it = instance(rng, k); if (!s.vs.instances.some((x) => x.path === it.path)) s.vs.instances.push(it) }
  const old = (v) => {
    const y = v === '14.0' ? 'C:\\Program Files (x86)\\Microsoft Visual Studio 14.0' : 'D:\\VS12'
    const hive = rng.bool() ? 'HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7' : 'HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7'
    s.vs.registry[`${hive}\\${v}`.toLowerCase()] = y + '\\VC\\'
    if (rng.bool(0.75)) s.vs.registry[`HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\${v}\\MSBuildToolsPath`.toLowerCase()] = `C:\\Program Files (x86)\\MSBuild\\${v}\\bin\\`
    return y
  }
  if (rng.bool(0.15)) s.vs.slow = rng.pick([5000, 31000, 65000, 200000])
  if (rng.bool(0.08)) for (const it of s.vs.instances) it.filler = rng.pick([300, 1500, 4000])
  const olds = []
  if (family === 'old' || rng.bool(0.3)) olds.push(old('14.0'))
  if (family === 'old' || rng.bool(0.2)) olds.push(old('12.0'))
  if (family === 'old') { s.target = rng.pick(['18.0.0', '19.0.0', '16.20.2', '9.0.0', '8.17.0', '6.17.1']); if (rng.bool(0.7)) s.vs.instances = s.vs.instances.slice(0, 1); if (rng.bool(0.3)) s.vs.faults.reg = { kind: rng.pick(['exit', 'signal', 'stderr']), code: 1 } }
  const paths = s.vs.instances.map((x) => x.path).concat(olds)
  if (rng.bool(0.35)) s.opt.msvs = rng.bool(0.6) || !paths.length ? rng.pick(['2013', '2015', '2017', '2019', '2019', '2022', '2022', '2010', '2030', 'C:\\nowhere']) : (() => { const p = rng.pick(paths); return rng.pick([p, p.toLowerCase(), p + '\\', p + '\\x\\..', p.replace(/\\/g, '/')]) })()
  if (family === 'prompt' || rng.bool(0.1)) {
    if (paths.length && rng.bool(0.9)) {
      const p = rng.pick(paths)
      s.env.VCINSTALLDIR = p + rng.pick(['\\VC\\', '\\VC'])
      const it = s.vs.instances.find((x) => x.path === p)
      if (it && rng.bool(0.7)) s.env.VSCMD_VER = it.version.split('.').slice(0, 3).join('.')
      if (it && !s.env.VSCMD_VER && rng.bool(0.3)) s.env.VSCMD_VER = 'unknown'
      if (rng.bool(0.7)) s.env.WindowsSDKVersion = rng.pick(['10.0.22621.0\\', '10.0.19041.0\\', '10.0.17763.0', 'winv6.3\\', '\\'])
    } else s.env.VCINSTALLDIR = 'Z:\\gone\\VC\\'
  }
  if (family === 'probe') {
    const f = s.vs.faults
    for (const k of rng.sample(['module', 'setup', 'cs', 'reg', 'powershell'], rng.range(1, 3))) {
      if (k === 'powershell') { if (rng.bool(0.4)) f.powershell = 'missing'; continue }
      f[k] = k === 'reg' ? rng.pick([{ kind: 'exit', code: 1 }, { kind: 'signal' }, { kind: 'garbage', stdout: 'junk' }, 'missing', { kind: 'stderr' }]) : k === 'module' ? rng.pick([{ kind: 'exit', code: 1 }, { kind: 'signal' }]) : probeFault(rng, k)
    }
    if (f.setup || f.module) s.vs.setupModule = true
    if (rng.bool(0.1)) s.env.SystemRoot = null
  }
  if (family === 'garbage') {
    const f = s.vs.faults
    const g = () => ({ kind: 'garbage', stdout: rng.pick(GARBAGE), json: true })
    const which = rng.pick(['setup', 'setup', 'cs', 'both'])
    if (which !== 'cs') { f.setup = g(); s.vs.setupModule = true }
    if (which !== 'setup') f.cs = g()
  }
  if (family === 'spawn') {
    const probe = await run(s)
    const ops = probe.ops.filter((o) => o[1] === 'spawn' && /powershell|reg\.exe/i.test(o[3]))
    for (let k = rng.range(1, 3); k > 0 && ops.length; k--) { const op = rng.pick(ops); s.faults.push({ proc: 'p1', kind: 'spawn', nk: op[2], error: rng.pick(['ENOENT', 'EACCES', 'EAGAIN', 'EMFILE', 'ENOMEM']) }) }
  }
  return s
}

// ---- the model ----
function supported (target, year) {
  const major = Number(target.split('.')[0])
  return year === 2022 || year === 2019 || (year === 2017 && major < 22) || (year === 2015 && major < 19) || (year === 2013 && major < 9)
}
function sdkOf (packages) {
  let best = 0
  for (const p of packages) {
    const x = /^Microsoft\.VisualStudio\.Component\.Windows1[01]SDK\.(\d+)(?:\.(.*))?$/.exec(p)
    if (x && (x[2] === undefined || x[2].split('.')[0] === 'Desktop')) best = Math.max(best, Number(x[1]))
  }
  return best ? `10.0.${best}.0` : packages.includes('Microsoft.VisualStudio.Component.Windows81SDK') ? '8.1' : null
}
// what an installation gives, or null when it is not usable
function judge (it, s, arch, disk) {
  const v = /^(\d+)\.(\d+)/.exec(it.version || '')
  const year = v && YEARS[v[1]]
  if (!year || !supported(s.target, year)) return null
  const has = (p) => it.packages.includes(p)
  const cur = path.join(it.path, 'MSBuild', 'Current', 'Bin', 'MSBuild.exe')
  const a64 = path.join(it.path, 'MSBuild', 'Current', 'Bin', 'arm64', 'MSBuild.exe')
  let msBuild = null
  if (has(BASE) && year === 2017) msBuild = path.join(it.path, 'MSBuild', '15.0', 'Bin', 'MSBuild.exe')
  else if (arch === 'arm64' && disk.node(a64)) msBuild = a64
  else if ((has(BASE) && year === 2019) || disk.node(cur)) msBuild = cur
  if (!msBuild) return null
  if (!(has(X64) || has(EXPRESS) || (arch === 'arm64' && has(ARM)))) return null
  const sdk = sdkOf(it.packages)
  if (!sdk) return null
  return { year, path: path.resolve(it.path), msBuild, sdk, toolset: { 2017: 'v141', 2019: 'v142', 2022: 'v143' }[year], major: Number(v[1]), minor: Number(v[2]) }
}
const same = (a, b) => path.relative(a, b) === ''
function matches (c, s) {
  const o = s.opt.msvs
  if (o && /^\d{4}$/.test(o) ? Number(o) !== c.year : o && !same(path.resolve(o), c.path)) return false
  if (s.env.VCINSTALLDIR && !same(path.resolve(s.env.VCINSTALLDIR, '..'), c.path)) return false
  return true
}

async function run (s) {
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const w = new World(s)
  const m = w.m
  programs.install(w, {})
  vsworld.install(w, s.vs)
  m.disk.put('D:\\node\\include\\node\\common.gypi', '{}')
  m.disk.put(m.j(m.cwd, 'binding.gyp'), '{}')
  const env = {}
  for (const k of Object.keys(s.env)) env[k] = s.env[k] === null ? undefined : s.env[k]
  const args = ['configure', '--nodedir=D:\\node', '--target=' + s.target]
  if (s.targetArch) args.push('--arch=' + s.targetArch)
  if (s.opt.msvs) args.push('--msvs-version=' + s.opt.msvs)
  const r = await w.phase({ procs: [{ name: 'p1', args, env }], faults: s.faults })
  const p = r.procs.p1
  const arch = m.arch
  const F = s.vs.faults
  const what = `node ${s.target} ${arch} ${JSON.stringify(s.opt)} ${JSON.stringify(s.env)} ${JSON.stringify(F)}${s.faults.length ? ' spawn faults' : ''}`

  // who could be found by a probe that works
  const noPs = F.powershell === 'missing' || s.env.SystemRoot === null
  const spawnF = r.applied.length > 0
  // a probe works if its answer is the true one; it is lost or doubtful otherwise
  const state = (k) => { const f = F[k]; if (noPs) return 'lost'; if (!f) return k === 'setup' && s.vs.instances.some((x) => x.filler) ? 'doubtful' : 'works'; if (f.kind === 'stderr') return 'works'; return f.json ? 'doubtful' : 'lost' }
  const setup = !s.vs.setupModule ? 'lost' : F.module ? 'lost' : state('setup')
  const cs = state('cs')
  const sure = setup === 'works' || cs === 'works'
  let cands = sure || setup === 'doubtful' || cs === 'doubtful' || spawnF ? s.vs.instances.map((x) => judge(x, s, arch, m.disk)).filter(Boolean) : []
  if (s.env.VCINSTALLDIR) {
    const sv = /^(\d+)\.(\d+)\.(\d+)\..*/.exec(s.env.WindowsSDKVersion || '')
    const c = judge({ path: path.resolve(s.env.VCINSTALLDIR, '..'), version: s.env.VSCMD_VER, packages: [X64, ARM, BASE, ...(sv ? [`Microsoft.VisualStudio.Component.Windows10SDK.${sv[3]}`] : [])] }, s, arch, m.disk)
    if (c) cands.push({ ...c, prompt: true })
  }
  const oldOnes = []
  for (const [v, year] of [['14.0', 2015], ['12.0', 2013]]) {
    if (!supported(s.target, year) || F.reg || s.env.SystemRoot === null) continue
    const vc = ['HKLM\\Software\\Microsoft\\VisualStudio\\SxS\\VC7', 'HKLM\\Software\\Wow6432Node\\Microsoft\\VisualStudio\\SxS\\VC7'].map((k) => s.vs.registry[`${k}\\${v}`.toLowerCase()]).find((x) => x)
    const mb = s.vs.registry[`HKLM\\Software\\Microsoft\\MSBuild\\ToolsVersions\\${v}\\MSBuildToolsPath`.toLowerCase()]
    if (vc && mb) oldOnes.push({ year, path: path.resolve(vc, '..'), msBuild: path.join(mb, 'MSBuild.exe'), sdk: null, toolset: { 2015: 'v140', 2013: 'v120' }[year], major: year === 2015 ? 14 : 12, minor: 0 })
  }
  cands = cands.concat(oldOnes).filter((c) => matches(c, s))
  const best = cands.length ? Math.max(...cands.map((c) => c.year)) : null
  const gyp = w.children.find((c) => c.tool === 'gyp')
  if (r.overrun) bad('hang', what + ': never finished')
  else if (p.children.some((c) => c.rec.spawnError && c.rec.args.some((a) => /gyp_main/.test(a)))) { /* the fault hit gyp itself */ } else if (!gyp) {
    if (p.exitCode === 0) bad('false-success', what + ': exit 0 without gyp')
    // with every probe of the new installations in doubt they may legitimately be missed
    const certain = cands.filter((c) => c.prompt || (c.year <= 2015 && !spawnF) || (sure && !spawnF))
    if (certain.length) bad('not-found', `${what}: ${certain[0].path} is usable, but configure failed: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
    else if (!/Could not find any Visual Studio/.test(p.stderrText)) bad('no-error', `${what}: failed without saying that no Visual Studio was found: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
  } else {
    const cfg = gyp.saw.includes.map((x) => x[1]).find((t) => t && /msbuild_path/.test(t))
    const c = cfg ? JSON.parse(cfg.split('\n').slice(1).join('\n')) : { variables: {}, target_defaults: {} }
    const used = gyp.env.GYP_MSVS_OVERRIDE_PATH
    const cand = cands.filter((x) => same(x.path, used))
    if (!cand.length) bad('unusable-chosen', `${what}: chose ${used}, which is not a usable installation (usable: ${cands.map((x) => x.path).join(', ') || 'none'})`)
    else {
      const certain = cands.filter((x) => x.prompt || (!spawnF && (sure || x.year <= 2015)))
      const newest = certain.length ? Math.max(...certain.map((x) => x.year)) : 0
      if (cand[0].year < newest) bad('not-newest', `${what}: chose ${used} (${cand[0].year}) although ${newest} is usable`)
      const ok = cand.some((x) => {
        const d = c.target_defaults
        const marm = (s.targetArch || arch) === 'arm64' && (x.major > 15 || (x.major === 15 && x.minor >= 9))
        return c.variables.msbuild_path === x.msBuild && d.msbuild_toolset === x.toolset && (d.msvs_windows_target_platform_version || null) === x.sdk &&
          gyp.env.GYP_MSVS_VERSION === String(Math.min(x.year, 2015)) && (d.msvs_enable_marmasm === 1) === marm
      })
      if (!ok) bad('wrong-record', `${what}: for ${used} (${cand[0].year} ${cand[0].major}.${cand[0].minor}) configure recorded ${JSON.stringify([c.variables.msbuild_path, c.target_defaults.msbuild_toolset, c.target_defaults.msvs_windows_target_platform_version, c.target_defaults.msvs_enable_marmasm, gyp.env.GYP_MSVS_VERSION])}`)
      void best
    }
  }
  return { violations, w, ops: w.ops, nontrivial: s.vs.instances.length > 0 || Object.keys(s.vs.registry).length > 0 }
}

module.exports = { generate, run }
