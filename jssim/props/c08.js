'use strict'
// C08: build uses exactly what configure recorded, and gyp is given what configure decided.
const { World } = require('../scn')
const programs = require('../programs')
const vsworld = require('../vsworld')
const { compareInstall } = require('../world')
const G = require('../gen')

const FAMILIES = ['plain', 'plain', 'history', 'history', 'crash', 'crash', 'fault', 'fail', 'spawn']
const EXPS = ['include/node/node.exp', 'out/Release/node.exp', 'out/Debug/node.exp', 'node.exp'] // in the order in which they are looked for
const BAD = [{ code: 1 }, { code: 2 }, { code: 127 }, { signal: 'SIGKILL' }, { signal: 'SIGTERM' }, { signal: 'SIGSEGV' }]

function configureOpts (rng, w, versions) {
  const o = {}
  const win = w.platform === 'win32'
  if (rng.bool(0.3)) o.debug = rng.bool() ? true : false // eslint-disable-line no-unneeded-ternary
  if (rng.bool(0.4)) o.python = rng.int(3)
  if (rng.bool(0.2)) o.envPython = rng.int(2)
  if (rng.bool(0.35)) o.arch = rng.pick(win ? ['ia32', 'x64', 'arm64', 'arm'] : ['x64', 'ia32', 'arm64', 'riscv64'])
  if (rng.bool(0.3)) o.nodedir = rng.pick(['custom', 'custom', 'home', 'src', 'tilde'])
  else if (o.arch === 'arm') delete o.arch // no release has headers for it
  if (o.nodedir) { /* no target */ } else if (rng.bool(0.35)) o.target = versions[1]
  if (rng.bool(0.15) && !o.nodedir) o.disturl = true
  if (rng.bool(0.1)) o.force = true
  if (rng.bool(0.1)) o.thin = true
  if (rng.bool(0.15)) o.ensure = true
  if (rng.bool(0.25)) o.vars = rng.sample([['--shared-libxml2', 'shared_libxml2', 'true'], ['--with-foo=bar', 'with_foo', 'bar'], ['--v8_opt=3', 'v8_opt', '3'], ['--foo-path=/a b/c', 'foo_path', '/a b/c'], ['--host-arch=mips', 'host_arch', 'mips'], ['--target-os=any', 'target_os', 'any'], ['--v8_enable_x', 'v8_enable_x', 'true'], ['--no-foo-opt', 'foo_opt', 'false'], ['--napi_build_version=6', 'napi_build_version', '6']], rng.range(1, 2))
  if (rng.bool(0.2)) o.gypArgs = rng.pick([['-Dfoo=bar'], ['-Da=1', '-Db=two words'], ['--no-duplicate-basename-check'], ['-I', 'extra.gypi'], ...(win ? [['-f', 'make'], ['--format=make']] : [['-f', 'make']])])
  if (rng.bool(0.15)) o.pypath = win ? 'C:\\pp' : '/opt/pp'
  return o
}
function buildOpts (rng, w) {
  const o = {}
  const win = w.platform === 'win32'
  if (rng.bool(0.35)) o.jobs = rng.pick(['1', '4', '16', 'max', 'MAX', 'Max', '0', 'abc', '8x'])
  if (rng.bool(0.2)) o.envJobs = rng.pick(['2', '7', 'max', 'junk', '-3'])
  if (rng.bool(0.15)) o.make = rng.pick(['gnumake', 'remake', 'nosuchmake'])
  if (rng.bool(0.15)) o.envMake = rng.pick(['envmake', 'nosuchenv'])
  if (rng.bool(0.25)) o.debug = rng.bool()
  if (rng.bool(0.2)) o.envPython = rng.int(2)
  if (rng.bool(0.2)) o.targets = rng.pick([['mytarget'], ['a', 'b'], ['all']])
  if (rng.bool(0.15)) o.verbose = true
  if (rng.bool(0.1) && win) o.solution = 'other.sln'
  return o
}

function clone (x) { return JSON.parse(JSON.stringify(x)) }

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const disturbed = family === 'fault' || family === 'spawn'
  const platform = rng.pick(['linux', 'linux', 'darwin', 'freebsd', 'openbsd', 'win32', 'win32', 'win32', disturbed ? 'linux' : 'aix', disturbed ? 'linux' : 'os400'])
  const { w } = G.world(rng, { platform })
  const versions = rng.sample(['20.11.1', '18.19.0', '22.3.0', '16.20.2', '24.0.0', '14.0.0'], 2)
  w.hostVersion = versions[0]
  w.cpus = rng.pick([1, 2, 8, 64])
  for (const v of versions) w.releases.push(G.releaseSpec(rng, v, { base: G.DEFAULT_BASE, size: 'tiny' }))
  for (const r of w.releases.slice()) w.releases.push({ ...r, base: 'https://mirror.example/dist', mirror: true })
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, placed: rng.bool(0.5), userGypi: rng.bool(0.3) ? rng.pick([['config.gypi'], ['common.gypi'], ['config.gypi', 'common.gypi']]) : [], runs: [] }
  // a Node.js that came with its headers (a fault while they are read means that others are used)
  if (!disturbed && rng.bool(0.2)) s.prefix = { version: rng.pick([versions[0], versions[0], versions[1], '20.11.0', 'none']) }
  if (/aix|os400/.test(platform)) s.exp = rng.sample(EXPS, rng.pick([0, 1, 1, 2, 3]))
  const run = (kind, c, b) => ({ kind, c, b, faults: [], chdir: rng.bool(0.12) ? rng.pick(['abs', 'rel', 'rel', 'gone', 'file']) : undefined })
  const full = () => run(rng.pick(['configure build', 'rebuild', 'clean configure build']), configureOpts(rng, w, versions), buildOpts(rng, w))
  const conf = () => run('configure', configureOpts(rng, w, versions), {})
  const bld = () => run('build', {}, buildOpts(rng, w))
  s.clang = rng.bool(0.2)
  s.slow = rng.bool(0.15) ? rng.pick([20000, 90000, 4000000]) : undefined
  if (family === 'plain') { if (rng.bool()) s.runs.push(full()); else s.runs.push(conf(), bld()) } else if (family === 'history') {
    const n = rng.range(2, 5)
    for (let k = 0; k < n; k++) s.runs.push(rng.pick([full, conf, bld, bld, () => run('clean', {}, {})])())
  } else if (family === 'fail') {
    const r = rng.pick([full, conf, full])()
    r[rng.bool(0.4) ? 'gyp' : 'make'] = { ...rng.pick(BAD), late: rng.bool() }
    if (rng.bool(0.6)) s.runs.push(rng.bool() ? conf() : full())
    s.runs.push(r, bld())
    if (r.make && r.kind === 'configure') { r.make = undefined; s.runs[s.runs.length - 1].make = rng.pick(BAD); s.runs.push(bld()) }
  } else {
    // crash, fault, spawn: one run is disturbed, then the build is asked for again
    const k = rng.int(3)
    if (k > 0) s.runs.push(rng.bool() ? conf() : full())
    const d = family === 'spawn' ? full() : rng.bool(0.6) ? conf() : rng.bool() ? full() : bld()
    s.runs.push(d)
    const at = s.runs.length - 1
    const probe = await run0(s)
    const ops = probe.ops.filter((o) => o[0] === 'r' + at)
    if (ops.length) {
      if (family === 'spawn') {
        const c = ops.filter((o) => o[1] === 'spawn')
        const t = c.filter((o) => /gyp_main|make |msbuild/i.test(o[3]))
        const op = rng.pick(t)
        if (op) d.faults.push({ proc: op[0], kind: 'spawn', nk: op[2], error: rng.pick(['ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM', 'E2BIG']) })
      } else {
        // towards the end of the run: config.gypi, gyp, the link, make
        const tail = ops.filter((o) => /[\\/]build([\\/]|$)/.test(o[3]) || o[1] === 'spawn')
        // a Python that cannot be started means another one is chosen, which is C09's subject
        const usable = (l) => l.filter((o) => family === 'crash' || o[1] !== 'spawn' || /gyp_main|make |msbuild/i.test(o[3]))
        const op = G.pickOp(rng, tail.length && rng.bool(0.8) ? usable(tail) : usable(ops)) || rng.pick(usable(ops))
        const f = family === 'crash' ? G.crashAt(rng, op) : G.faultAt(rng, op)
        if (f.error === 'EACCES' && f.kind.startsWith('fs.')) f.error = 'EIO' // the fallback directory is C04's subject
        d.faults.push(f)
      }
    }
    s.runs.push(rng.bool(0.75) ? bld() : full())
    if (rng.bool(0.4)) s.runs.push(rng.bool() ? conf() : full(), bld())
  }
  return s
}

function words (s, r, w) {
  const m = w.m
  const out = []
  // from elsewhere, or with a directory that is none and is passed over
  if (r.chdir) out.push(...{ abs: ['-C', m.cwd], rel: ['--directory=' + m.path.basename(m.cwd)], gone: ['-C', 'nosuchdir'], file: ['-C', 'binding.gyp'] }[r.chdir])
  const c = r.kind === 'build' || r.kind === 'clean' ? {} : r.c
  const hasBuild = /build/.test(r.kind)
  if (c.python !== undefined) out.push('--python=' + (c.python === 2 ? 'mypy' : w.pythons[c.python]))
  if (c.arch) out.push('--arch=' + c.arch)
  if (c.nodedir) out.push('--nodedir=' + w.nodedirArg(c.nodedir))
  if (c.target) out.push('--target=' + c.target)
  if (c.disturl) out.push('--dist-url=https://mirror.example/dist')
  if (c.force) out.push('--force-process-config')
  if (c.thin) out.push('--thin=1')
  if (c.ensure) out.push('--ensure')
  for (const v of c.vars || []) out.push(v[0])
  const debug = debugOf(r)
  if (debug !== undefined) out.push(debug ? '--debug' : '--release')
  if (hasBuild) {
    const b = r.b
    if (b.jobs) out.push('--jobs=' + b.jobs)
    if (b.make) out.push('--make=' + b.make)
    if (b.verbose) out.push('--verbose')
    if (b.solution && m.win) out.push('--solution=' + b.solution)
  }
  const k = r.kind.split(' ')
  const words = []
  for (const x of k) { words.push(x); if (x === 'build' && r.kind !== 'rebuild') words.push(...(r.b.targets || [])) }
  out.push(...words)
  // everything after -- goes to the last command, so only configure and rebuild can have it here
  if (['configure', 'rebuild'].includes(r.kind) && c.gypArgs) out.push('--', ...c.gypArgs)
  return out
}
function debugOf (r) {
  if (r.kind === 'build') return r.b.debug
  if (r.kind === 'clean') return undefined
  return r.c.debug
}

async function run0 (s) { return run(s) }

async function run (s) {
  const violations = []
  const w = new World(s)
  const m = w.m
  const win = w.win
  const bad = (kind, text) => violations.push({ kind, text })
  const std = win ? 'C:\\Python311\\python.exe' : '/usr/bin/python3'
  w.pythons = win ? ['D:\\py38\\python.exe', 'D:\\py 312\\python.exe'] : ['/opt/py38/bin/python3.8', '/opt/py 312/bin/python3']
  const table = { [std]: { exe: std, version: '3.11.2' }, python3: { exe: std, version: '3.11.2' } }
  w.pythons.forEach((p, k) => { table[p] = { exe: p, version: ['3.8.1', '3.12.0'][k] } })
  // a command on the PATH
  w.pythons[2] = w.pythons[0]
  table.mypy = { exe: w.pythons[0], version: '3.8.1' }
  const spec = { table, gyp: {}, make: {}, msbuild: {} }
  programs.install(w, spec)
  if (win) { vsworld.install(w); m.disk.put('C:\\tools\\make.exe', 'MZ') }
  for (const t of ['gnumake', 'remake', 'envmake']) m.disk.put(win ? `C:\\tools\\${t}.exe` : '/usr/local/bin/' + t, '#!', 0o755)
  m.disk.put(m.j(m.cwd, 'binding.gyp'), '{"targets": []}')
  m.disk.put(m.j(m.cwd, 'other.sln'), 'sln')
  for (const f of s.userGypi) m.disk.put(m.j(m.cwd, f), '{}')
  // directories for --nodedir
  const dirs = { custom: win ? 'D:\\node src' : '/opt/node', home: m.j(m.homedir, 'nodes', 'v1'), src: win ? 'D:\\checkout' : '/src/node', bare: win ? 'D:\\bare' : '/opt/bare', tilde: win ? 'C:\\PROGRA~1\\node~2' : '/src/a~b/node~1' }
  const cfgText = (x) => `# Do not edit. File was generated\n{ 'target_defaults': { 'cflags': ['-Wrong'], 'default_configuration': 'Release', 'defines': ['NO'], 'include_dirs': ['no'], 'libraries': ['-lno'] },\n  'variables': { 'host_arch': 'x64', 'clang': 1, 'from_nodedir': '${x}' } }\n`
  for (const k of ['custom', 'home', 'tilde']) { m.disk.put(m.j(dirs[k], 'include', 'node', 'common.gypi'), '{}'); m.disk.put(m.j(dirs[k], 'include', 'node', 'config.gypi'), cfgText(k)); m.disk.put(m.j(dirs[k], 'include', 'node', 'node_version.h'), '#') }
  m.disk.put(m.j(dirs.src, 'common.gypi'), '{}'); m.disk.put(m.j(dirs.src, 'config.gypi'), cfgText('src')); m.disk.mkdirp(dirs.bare)
  const prefix = win ? 'C:\\nodeprefix' : '/usr/nodeprefix'
  let processConfig
  if (s.prefix) {
    processConfig = { target_defaults: { cflags: ['-from-process-config'], default_configuration: 'Release', defines: [], include_dirs: [], libraries: [] }, variables: { host_arch: 'x64', from_process: 1, node_prefix: prefix, use_prefix_to_find_headers: true } }
    const v = s.prefix.version.split('.')
    if (v.length === 3) m.disk.put(m.j(prefix, 'include', 'node', 'node_version.h'), `#ifndef X\n#define NODE_MAJOR_VERSION ${v[0]}\n#define NODE_MINOR_VERSION ${v[1]}\n#define NODE_PATCH_VERSION ${v[2]}\n#define NODE_VERSION_IS_LTS 1\n`)
    m.disk.put(m.j(prefix, 'include', 'node', 'common.gypi'), '{}')
    m.disk.put(m.j(prefix, 'include', 'node', 'config.gypi'), cfgText('prefix'))
  } else if (s.clang) {
    // this Node.js was built with clang
    processConfig = { target_defaults: { cflags: ['-from-process-config'], defines: [], include_dirs: [], libraries: [] }, variables: { host_arch: 'x64', from_process: 1, clang: 1 } }
  }
  const usesPrefix = (r) => !r.c.nodedir && s.prefix && s.prefix.version === (r.c.target || host)
  for (const f of s.exp || []) m.disk.put('/usr/local/' + f, 'exports')
  w.nodedirArg = (k) => k === 'home' && !win ? '~/nodes/v1' : dirs[k]
  const rels = (v, mirror) => w.releases.find((r) => r.version === v && !!r.spec.mirror === !!mirror)
  const host = s.world.hostVersion
  if (s.placed) w.place(rels(host), { arch: [m.arch, 'x64', 'ia32', 'arm64'] })

  // gyp must find the complete headers at the moment it is started
  const prog = m.program
  let cur = null
  m.program = (rec, proc) => {
    const r = prog(rec, proc)
    if (rec.tool === 'gyp') { rec.run = cur; rec.headers = headersAt(cur) }
    if (rec.tool === 'make' || rec.tool === 'msbuild') {
      rec.run = cur
      rec.configText = m.disk.readText(m.j(m.cwd, 'build', 'config.gypi'))
    }
    return r
  }
  function nodeDirOf (r) { return usesPrefix(r) ? prefix : r.c.nodedir ? dirs[r.c.nodedir] : m.j(w.devDir, r.c.target || host) }
  function headersAt (r) {
    if (r.c.nodedir || usesPrefix(r)) return []
    const v = r.c.target || host
    const probs = [0, 1].map((k) => compareInstall(m.disk, nodeDirOf(r), rels(v, k), { win, arch: r.c.arch && winArchOf(r) ? r.c.arch : m.arch, otherArchs: true }))
    return probs.find((p) => p.length === 0) || probs[0]
  }
  function winArchOf (r) { return ['ia32', 'x64', 'arm64'].includes(r.c.arch) }

  let last = null // what the last successful configure recorded
  let alts = [] // records of unfinished configures since
  let ever = false // a configure completed since build/ was last removed
  let evals = 0
  for (let k = 0; k < s.runs.length; k++) {
    const r = s.runs[k]
    cur = r
    spec.gyp = { strict: true, slow: s.slow, ...r.gyp }; Object.keys(spec.gyp)
    programsSet(spec, r, s.slow)
    const args = words(s, r, w)
    const env = {}
    if (r.b.envJobs && /build/.test(r.kind)) env.JOBS = r.b.envJobs
    if (r.b.envMake && /build/.test(r.kind)) env.MAKE = r.b.envMake
    if (r.c.pypath && r.kind !== 'build') env.PYTHONPATH = r.c.pypath
    // the Python that the environment names counts when configuring, not when building
    const envPython = r.kind === 'build' ? r.b.envPython : r.c.envPython
    if (envPython !== undefined) env.PYTHON = w.pythons[envPython]
    const name = 'r' + k
    const before = w.children.length
    const cfgAtStart = m.disk.readText(m.j(m.cwd, 'build', 'config.gypi'))
    const res = await w.phase({ procs: [{ name, args, env, config: processConfig, cwd: r.chdir === 'abs' ? m.homedir : r.chdir === 'rel' ? m.path.dirname(m.cwd) : undefined }], faults: r.faults })
    const p = res.procs[name]
    const what = `run ${k}: node-gyp ${args.join(' ')}`
    if (res.overrun) { bad('hang', what + ' never finished'); break }
    const kids = w.children.slice(before)
    const eff = res.applied.filter((f) => !G.harmless(f))
    // (a directory that cannot be looked at is passed over, with a warning)
    if (/abs|rel/.test(r.chdir) && eff.some((f) => /stat/.test(f.kindHit) && m.path.basename(f.target) === m.path.basename(m.cwd))) break
    const gyps = kids.filter((c) => c.tool === 'gyp')
    const makes = kids.filter((c) => c.tool === 'make' || c.tool === 'msbuild')
    const hasConf = r.kind !== 'build' && r.kind !== 'clean'
    const hasBuild = /build/.test(r.kind)
    if (/clean|rebuild/.test(r.kind) && m.disk.node(m.j(m.cwd, 'build')) === null) { last = null; alts = []; ever = false } else if (/clean|rebuild/.test(r.kind) && (gyps.length || p.exitCode === 0)) { last = null; alts = []; ever = false }
    // ---- gyp ----
    const makeFmt = (c) => c.gypArgs && (r.kind === 'configure' || r.kind === 'rebuild') && c.gypArgs.some((a) => /^(--format=)?make/.test(a))
    const want = hasConf ? wantRecord(r) : null
    if (gyps.length > 1 || (gyps.length && !hasConf)) bad('gyp-count', `${what} started gyp ${gyps.length} times`)
    for (const g of gyps) { evals++; checkGyp(g, r, want, what, env, eff) }
    const gypOk = gyps.length === 1 && gyps[0].code === 0 && !gyps[0].killedWithParent
    if (gyps.length) {
      if (gypOk) { last = { ...want, byMake: !win || makeFmt(r.c) }; alts = []; ever = true } else alts.push({ ...want, byMake: !win || makeFmt(r.c) })
    } else if (hasConf) {
      // killed or failed before gyp: whatever of the record was written completely may count, a part may not
      alts.push({ ...want, byMake: !win || makeFmt(r.c) })
    }
    // ---- make / msbuild ----
    if (makes.length > 1 || (makes.length && !hasBuild)) bad('make-count', `${what} started ${makes.length} builds`)
    for (const c of makes) {
      evals++
      if (hasConf && !gypOk) bad('built-unconfigured', `${what} built although its configure had not succeeded`)
      const cands = [last, ...(hasConf ? [] : alts)].filter(Boolean)
      const parsed = parse(c.configText)
      if (!parsed) bad('built-unconfigured', `${what} built with the recorded configuration ${c.configText === null ? 'missing' : 'torn'}: ${JSON.stringify(c.configText).slice(0, 80)}`)
      if (!cands.length) bad('built-unconfigured', `${what} built although nothing was configured`)
      const probs = cands.map((x) => checkMake(c, r, x, what, env))
      if (cands.length && !probs.some((x) => x.length === 0)) bad('build-args', `${what}: ${probs[0][0]}; ran ${c.command} ${c.args.join(' ')}`)
    }
    const mk = makes[0]
    const crashed = !!p.signal
    if (p.exitCode === 0 && hasBuild) {
      if (makes.length !== 1) bad('false-success', `${what} exited 0 having started ${makes.length} builds`)
      else if (mk.code !== 0) bad('false-success', `${what} exited 0 although the build ended with ${mk.signal || mk.code}`)
      if (!hasConf && !ever) bad('built-unconfigured', `${what} exited 0 although configure never completed`)
    }
    if (hasConf && p.exitCode === 0 && !gypOk) bad('false-success', `${what} exited 0 without a successful gyp`)
    // without any fault or failing child, a configured build must succeed
    const failing = r.gyp || r.make || r.msbuild || (hasConf && s.exp && !s.exp.length)
    const b = r.b
    const badMake = hasBuild && last && last.byMake && makeName(r, env).startsWith('nosuch')
    const stale = win && last && !!m.disk.node(m.j(m.cwd, 'build', 'binding.sln')) === !!last.byMake
    if (!crashed && !eff.length && !failing && !badMake && p.exitCode !== 0 && (hasConf || (last && !alts.length)) && !(stale && hasBuild) && !(hasConf && r.c.nodedir === 'nothing')) bad('refused', `${what} failed: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
    if (badMake && p.exitCode === 0) bad('false-success', `${what} exited 0 although ${makeName(r, env)} does not exist`)
    if (!ever && !hasConf && hasBuild && p.exitCode === 0) bad('built-unconfigured', `${what} exited 0 although nothing was configured`)
    // ---- the python link ----
    if (!win && !crashed && hasBuild && !eff.some((f) => /^fs\.(rm|unlink|rmdir|readdir|lstat|stat)/.test(f.kindHit) && /node_gyp_bins/.test(f.target))) {
      const n = m.disk.node(m.j(m.cwd, 'build', 'node_gyp_bins', 'python3'), false)
      const reached = makes.length || p.children.some((c) => c.rec.spawnError)
      if (n && reached) bad('link-left', `${what} ended (exit ${p.exitCode}) and left build/node_gyp_bins/python3 behind`)
    }
    void cfgAtStart; void b
    if (violations.length) break
  }
  return { violations, w, ops: w.ops, nontrivial: evals > 0 }

  function parse (t) { if (t === null) return null; try { return JSON.parse(t.split('\n').filter((l) => !l.startsWith('#')).join('\n')) } catch { return null } }
  function makeName (r, env) { const platform = s.world.platform; return r.b.make || env.MAKE || (/bsd|aix|os400/.test(platform) ? 'gmake' : 'make') }
  function wantRecord (r) {
    return {
      buildType: r.c.debug === undefined ? 'Release' : r.c.debug ? 'Debug' : 'Release',
      arch: r.c.arch || m.arch,
      nodedir: nodeDirOf(r),
      python: r.c.python !== undefined ? w.pythons[r.c.python] : r.c.envPython !== undefined ? w.pythons[r.c.envPython] : std
    }
  }
  function checkGyp (g, r, want, what, env, eff) {
    const P = m.path
    if (g.spawnError) return
    const fail = (t) => bad('gyp-args', `${what}: ${t}`)
    if (g.command !== want.python) fail(`gyp was run with ${g.command}, the chosen Python is ${want.python}`)
    if (P.normalize(g.cwd) !== P.normalize(m.cwd)) fail('gyp was run in ' + g.cwd)
    if (!/[\\/]gyp[\\/]gyp_main\.py$/.test(g.args[0])) fail('gyp script is ' + g.args[0])
    if (!g.args.includes('binding.gyp')) fail('binding.gyp is not given to gyp')
    if (g.headers.length) bad('headers', `${what}: gyp was started while ${want.nodedir} was not complete: ${g.headers[0]}`)
    const inc = g.args.map((a, k) => g.args[k - 1] === '-I' ? P.resolve(m.cwd, a) : null).filter(Boolean)
    const cfg = P.resolve(m.cwd, 'build', 'config.gypi')
    const must = [cfg, P.join(nodeGypRoot(), 'addon.gypi'), ...s.userGypi.map((f) => P.resolve(m.cwd, f)), r.c.nodedir === 'src' || r.c.nodedir === 'bare' ? P.join(want.nodedir, 'common.gypi') : P.join(want.nodedir, 'include', 'node', 'common.gypi')]
    for (const f of must) if (!inc.some((x) => P.normalize(x) === P.normalize(f)) && !(g.code !== 0 && /common\.gypi$/.test(f) && eff.some((e) => /common\.gypi/.test(e.target)))) fail(`${f} is not among the includes ${inc.join(' ')}`)
    const seen = g.saw && g.saw.includes.find((x) => P.resolve(m.cwd, x[0]) === cfg)
    const c = seen && parse(seen[1])
    if (!c) fail('build/config.gypi is not readable when gyp starts')
    else {
      const v = c.variables || {}
      const d = c.target_defaults || {}
      const is = (n, a, b2) => { if (JSON.stringify(a) !== JSON.stringify(b2)) fail(`config.gypi records ${n} = ${JSON.stringify(a)}, expected ${JSON.stringify(b2)}`) }
      is('default_configuration', d.default_configuration, want.buildType)
      is('target_arch', v.target_arch, want.arch)
      is('python', v.python, want.python)
      if (P.resolve(v.nodedir || '') !== P.resolve(want.nodedir)) is('nodedir', v.nodedir, want.nodedir)
      is('standalone_static_library', v.standalone_static_library, r.c.thin ? 0 : 1)
      for (const n of ['cflags', 'defines', 'include_dirs', 'libraries']) is(n, d[n], [])
      // gyp evaluates the record as a Python literal
      walk(c, 'config.gypi', (at, x) => { if (typeof x === 'boolean' || x === null) fail(`${at} is the bare word ${x}, which gyp cannot evaluate`) })
      for (const x of r.c.vars || []) is(x[1], String(v[x[1]]), x[2])
      const custom = (r.c.nodedir || r.c.disturl || usesPrefix(r)) && !r.c.force && !['src', 'bare'].includes(r.c.nodedir)
      const ver = r.c.target || host
      const from = custom ? usesPrefix(r) ? 'nodedir prefix' : (r.c.nodedir ? 'nodedir ' + r.c.nodedir : 'headers ' + ver) : 'process'
      const got = v.from_process !== undefined ? 'process' : v.from_nodedir !== undefined ? 'nodedir ' + v.from_nodedir : v.from_headers !== undefined ? 'headers ' + v.from_headers : 'nothing'
      // an unreadable config.gypi is replaced by the running node's, with a warning
      if (!eff.some((f) => /config\.gypi/.test(f.target) || f.kindHit === 'fs.read')) is('(base configuration)', got, from)
      if (got.startsWith('nodedir') || (s.clang && !s.prefix && got === 'process')) is('clang', v.clang, win ? 0 : 1)
      if (win) {
        is('msbuild_path', v.msbuild_path, makeFmtArgs(r) ? undefined : 'C:\\VS\\2022\\Community\\MSBuild\\Current\\Bin\\MSBuild.exe')
        if (!makeFmtArgs(r)) is('msbuild_toolset', d.msbuild_toolset, 'v143')
      }
    }
    const def = (n, val) => { const a = g.args.filter((x) => x.startsWith(`-D${n}=`)); if (a.length !== 1 || a[0] !== `-D${n}=${val}`) fail(`-D${n} is ${a.join(' ') || 'missing'}, expected ${val}`) }
    def('node_root_dir', want.nodedir)
    def('module_root_dir', m.cwd)
    def('node_gyp_dir', nodeGypRoot())
    def('node_engine', 'v8')
    const lib = P.join(want.nodedir, r.c.nodedir || usesPrefix(r) ? '$(Configuration)' : '<(target_arch)', 'node.lib')
    def('node_lib_file', win ? lib.replace(/\\/g, '\\\\') : lib)
    if (s.exp) def('node_exp_file', m.path.join('/usr/local', EXPS.find((f) => s.exp.includes(f)) || 'none'))
    const val = (n) => g.args[g.args.indexOf(n) + 1]
    const fmt = g.args.map((a, k) => g.args[k - 1] === '-f' ? a : a.startsWith('--format=') ? a.slice(9) : null).filter(Boolean)
    if (makeFmtArgs(r) ? !fmt.includes('make') : JSON.stringify(fmt) !== JSON.stringify([win ? 'msvs' : 'make'])) if (!(makeFmtArgs(r) && win)) fail('gyp format is ' + fmt)
    if (P.resolve(m.cwd, val('--generator-output')) !== P.join(m.cwd, 'build')) fail('generator output is ' + val('--generator-output'))
    if (!g.args.includes('--depth=.')) fail('no --depth=.')
    if (['configure', 'rebuild'].includes(r.kind)) for (const a of r.c.gypArgs || []) if (!g.args.includes(a)) fail(`user argument ${a} did not reach gyp`)
    const pp = (g.env.PYTHONPATH || '').split(win ? ';' : ':')
    if (pp[0] !== P.join(nodeGypRoot(), 'gyp', 'pylib') || (env.PYTHONPATH && pp[1] !== env.PYTHONPATH) || pp.length !== (env.PYTHONPATH ? 2 : 1)) fail('PYTHONPATH is ' + g.env.PYTHONPATH)
    if (win && !makeFmtArgs(r)) { if (g.env.GYP_MSVS_VERSION !== '2015' || g.env.GYP_MSVS_OVERRIDE_PATH !== 'C:\\VS\\2022\\Community') fail(`GYP_MSVS_VERSION=${g.env.GYP_MSVS_VERSION} GYP_MSVS_OVERRIDE_PATH=${g.env.GYP_MSVS_OVERRIDE_PATH}`) }
  }
  function makeFmtArgs (r) { return ['configure', 'rebuild'].includes(r.kind) && (r.c.gypArgs || []).some((a) => /^(--format=)?make$/.test(a)) }
  function nodeGypRoot () { const { REPO } = require('../simproc'); return win ? 'C:' + REPO.replace(/\//g, '\\') : REPO }
  function checkMake (c, r, rec, what, env) {
    const out = []
    const P = m.path
    const b = r.b
    const d = debugOf(r)
    const type = d === undefined ? rec.buildType : d ? 'Debug' : 'Release'
    const jobs = b.jobs || env.JOBS
    const n = jobs === undefined ? null : /^max$/i.test(jobs) ? String(m.cpus || 4) : parseInt(jobs, 10) > 0 ? String(parseInt(jobs, 10)) : null
    if (P.normalize(c.cwd) !== P.normalize(m.cwd)) out.push('run in ' + c.cwd)
    if (c.tool === 'msbuild') {
      if (c.command !== 'C:\\VS\\2022\\Community\\MSBuild\\Current\\Bin\\MSBuild.exe') out.push('the MSBuild that configure found was not used')
      const plat = { x64: 'x64', arm64: 'ARM64', arm: 'ARM', ia32: 'Win32' }[rec.arch] || 'Win32'
      if (c.args.filter((a) => a.startsWith('/p:')).join(' ') !== `/p:Configuration=${type};Platform=${plat}`) out.push(`expected Configuration=${type};Platform=${plat}`)
      const mm = c.args.filter((a) => /^\/m/.test(a)).join(' ')
      if (mm !== (n ? '/m:' + n : '')) out.push(`expected ${n} jobs`)
      const sln = c.args.filter((a) => /\.sln$/.test(a))
      const wantSln = b.solution ? P.resolve(m.cwd, b.solution) : P.join(m.cwd, 'build', 'binding.sln')
      if (sln.length !== 1 || P.resolve(m.cwd, sln[0]) !== wantSln) out.push('solution is ' + sln)
      if (JSON.stringify(c.args.filter((a) => a.startsWith('/t:'))) !== JSON.stringify((r.kind === 'rebuild' ? [] : b.targets || []).map((t) => '/t:' + t))) out.push('targets are ' + c.args.filter((a) => a.startsWith('/t:')))
    } else {
      const name = makeName(r, env)
      if (P.basename(c.command) !== name) out.push(`expected ${name}`)
      if (c.args[c.args.indexOf('-C') + 1] !== 'build' || !c.args.includes('-C')) out.push('not run in build')
      if (c.args.filter((a) => a.startsWith('BUILDTYPE=')).join(' ') !== 'BUILDTYPE=' + type) out.push('expected BUILDTYPE=' + type)
      const j = c.args.indexOf('--jobs')
      if ((j < 0 ? null : c.args[j + 1]) !== n) out.push(`expected ${n} jobs`)
      const targets = win ? (b.targets || []).map((t) => '/t:' + t) : b.targets || []
      if (r.kind !== 'rebuild') for (const t of targets) if (!c.args.includes(t) && !(win && c.args.includes(t.slice(3)))) out.push('target ' + t + ' is missing')
      if (!!b.verbose !== c.args.includes('V=1')) out.push('V=1')
      if (!win) {
        const dir = m.j(m.cwd, 'build', 'node_gyp_bins')
        if ((c.env.PATH || '').split(':')[0] !== dir) out.push('PATH does not start with the link directory')
        for (const t of c.linkDuring || []) if (t !== rec.python) { out.push(`the python3 link points at ${t} during the build, the recorded Python is ${rec.python}`); break }
      }
    }
    return out
  }
}
function walk (x, at, f) { f(at, x); if (x && typeof x === 'object') for (const k of Object.keys(x)) walk(x[k], at + '.' + k, f) }
function programsSet (spec, r, slow) { spec.gyp = { strict: true, slow, ...r.gyp }; spec.make = spec.msbuild = { slow, ...r.make } }

module.exports = { generate, run, clone }
