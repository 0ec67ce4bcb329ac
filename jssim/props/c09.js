'use strict'
// C09: the Python used is the first candidate, in the documented order, that runs and reports a version of at least 3.6.
const { World } = require('../scn')
const programs = require('../programs')
const vsworld = require('../vsworld')
const G = require('../gen')

const FAMILIES = ['mixed', 'mixed', 'mixed', 'faults', 'faults', 'force', 'none', 'defaults']
const GOOD = ['3.6.0', '3.6.15', '3.7.17', '3.8.1', '3.9.19', '3.10.0', '3.11.2', '3.12.1', '3.13.0', '3.13.5', '3.14.0', '3.15.1', '3.16.0', '3.20.2', '3.100.0']
const OLD = ['2.7.18', '3.5.9', '3.4.10', '3.0.0', '2.6.9', '1.5.2', '3.5.100']
const JUNK = ['', 'Python 3.8.1', 'garbage', '3.8', '3', 'three', '<html>', 'command not found', '-1.0.0', '3.x.1']

// how an interpreter behaves; what is said about it is what the oracle goes by
function behaviour (rng, good) {
  if (rng.bool(good)) return { version: rng.pick(GOOD), ok: true, versionPad: rng.pick(['\n', '\r\n', '', ' \n']), stderr: rng.bool(0.2) ? 'DeprecationWarning: x\n' : '', delay: rng.bool(0.2) ? rng.pick([3000, 12000, 45000, 130000]) : undefined }
  return rng.pick([
    () => ({ version: rng.pick(OLD), py2: rng.bool(0.4), why: 'too old' }),
    () => ({ version: rng.pick(JUNK), why: 'not a version' }),
    () => ({ version: rng.pick(GOOD), failOn: 'version', code: rng.pick([1, 2, 9, 127, 255]), quiet: rng.bool(), why: 'exits non-zero' }),
    () => ({ version: rng.pick(GOOD), failOn: 'version', signal: rng.pick(['SIGKILL', 'SIGSEGV', 'SIGABRT', 'SIGILL']), quiet: rng.bool(), why: 'killed' }),
    () => ({ version: rng.pick(GOOD), failOn: 'exe', code: rng.pick([1, 3, 127, 9009]), quiet: rng.bool(), why: 'exits non-zero' }),
    () => ({ version: rng.pick(GOOD), failOn: 'exe', signal: rng.pick(['SIGKILL', 'SIGSEGV']), quiet: rng.bool(), why: 'killed' }),
    () => ({ gone: true, why: 'missing' }),
    () => ({ gone: true, why: 'missing' })
  ])()
}

function winDefaults (env) {
  const drive = env.SystemDrive || 'C:'
  const user = env.USERNAME || env.USER || (env.noUser ? null : 'u')
  const local = env.LOCALAPPDATA || `${drive}\\${user}\\AppData\\Local`
  const pf = env.ProgramW6432 || env.ProgramFiles || `${drive}\\Program Files`
  const pf86 = env['ProgramFiles(x86)'] || `${pf} (x86)`
  const out = []
  for (const v of ['311', '310', '39', '38']) if (!env.LOCALAPPDATA && !user) out.push(`${pf}\\Python${v}\\python.exe`, `${pf}\\Python${v}-32\\python.exe`, `${pf86}\\Python${v}-32\\python.exe`); else out.push(`${local}\\Programs\\Python\\Python${v}\\python.exe`, `${pf}\\Python${v}\\python.exe`, `${local}\\Programs\\Python\\Python${v}-32\\python.exe`, `${pf}\\Python${v}-32\\python.exe`, `${pf86}\\Python${v}-32\\python.exe`)
  return out
}

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const platform = rng.pick(['linux', 'darwin', 'freebsd', 'win32', 'win32'])
  const { w } = G.world(rng, { platform })
  if (!['x64', 'arm64'].includes(w.arch)) w.arch = 'x64'
  const win = platform === 'win32'
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, faults: [], env: {}, opt: {}, exes: {}, cmds: {} }
  const good = family === 'none' ? 0 : family === 'defaults' ? 0.25 : rng.pick([0.2, 0.4, 0.6])
  let nexe = 0
  const newExe = () => { nexe++; return win ? rng.pick([`D:\\py${nexe}\\python.exe`, `D:\\my tools\\python ${nexe}.exe`, `C:\\Users\\ü\\py${nexe}.exe`]) : rng.pick([`/opt/py${nexe}/bin/python3`, `/home/u/my tools/python${nexe}`, `/usr/bin/python3.${nexe}`]) }
  // a command that leads to an executable; a good command may lead to a bad executable and the other way round
  const command = (name) => {
    if (rng.bool(0.15)) { s.cmds[name] = { gone: true }; return name }
    const b = behaviour(rng, good)
    if (b.gone) { s.cmds[name] = { gone: true }; return name }
    const exe = rng.bool(0.25) && Object.keys(s.exes).length ? rng.pick(Object.keys(s.exes)) : newExe()
    if (!s.exes[exe]) s.exes[exe] = b
    const how = rng.int(12)
    s.cmds[name] = { exe }
    if (how === 0) s.cmds[name].said = rng.pick(['', 'gibberish', 'Python was not found; run without arguments to install from the Microsoft Store', '/nonexistent/python', '\n'])
    if (how === 1) s.cmds[name].pad = '\r\n'
    if (how === 2) Object.assign(s.cmds[name], { code: rng.pick([1, 9009, 127]), quiet: rng.bool() })
    if (how === 3) s.cmds[name].signal = 'SIGKILL'
    return name
  }
  if (family === 'force' || rng.bool(0.1)) s.env.NODE_GYP_FORCE_PYTHON = command(rng.pick(win ? ['forcepy', 'C:\\force\\python.exe'] : ['forcepy', '/force/bin/python', './local/py']))
  if (rng.bool(0.5)) s.opt.python = command(rng.pick(win ? ['mypy', 'C:\\my py\\python.exe', 'python3'] : ['mypy', '/my py/python', 'python3']))
  if (s.opt.python && rng.bool(0.3)) s.opt.byNpm = true
  if (rng.bool(0.5)) s.env.PYTHON = command(rng.pick(win ? ['envpy', 'C:\\envpy.exe', 'python'] : ['envpy', '/env/py', 'python']))
  for (const n of ['python3', 'python']) if (!s.cmds[n] && !(family === 'defaults' && rng.bool(0.8))) command(n)
  if (win) {
    if (rng.bool(0.2)) s.env.LOCALAPPDATA = null
    if (rng.bool(0.1)) { for (const k of ['LOCALAPPDATA', 'USERNAME', 'USER']) s.env[k] = null; s.noUser = rng.bool(0.7) }
    if (rng.bool(0.2)) s.env.ProgramW6432 = 'E:\\PF64'
    if (rng.bool(0.2)) s.env['ProgramFiles(x86)'] = null
    if (rng.bool(0.1)) s.env.SystemDrive = 'E:'
    if (!(family === 'defaults' && rng.bool(0.7)) && rng.bool(0.6)) { command('py.exe'); if (s.cmds['py.exe'].exe && rng.bool()) { const e = newExe(); s.exes[e] = { version: '2.7.18', py2: true, why: 'too old' }; s.cmds['py.exe'].exe2 = e } }
    if (rng.bool(0.6) || family === 'defaults') {
      const env = { SystemDrive: 'C:', USERNAME: 'u', LOCALAPPDATA: 'C:\\Users\\u\\AppData\\Local', ProgramFiles: 'C:\\Program Files', 'ProgramFiles(x86)': 'C:\\Program Files (x86)' }
      for (const k of Object.keys(s.env)) env[k] = s.env[k]
      env.noUser = s.noUser
      for (const loc of rng.sample(winDefaults(env), rng.range(1, 5))) s.exes[loc] = behaviour(rng, Math.max(good, 0.4))
      if (family === 'none') for (const e of Object.keys(s.exes)) if (s.exes[e].ok) s.exes[e] = { gone: true }
    }
  }
  if (family === 'faults') {
    const probe = await run(s)
    const ops = probe.ops.filter((o) => o[1] === 'spawn' && !/gyp_main|powershell|reg\.exe/i.test(o[3]))
    for (let k = rng.range(1, 2); k > 0 && ops.length; k--) { const op = rng.pick(ops); s.faults.push({ proc: 'p1', kind: 'spawn', nk: op[2], error: rng.pick(['EAGAIN', 'EMFILE', 'EACCES', 'ENOENT', 'ENOMEM', 'ETXTBSY']) }) }
  }
  return s
}

async function run (s) {
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const w = new World(s)
  const m = w.m
  const win = w.win
  const table = {}
  for (const e of Object.keys(s.exes)) {
    const b = s.exes[e]
    if (b.gone) continue
    table[e] = { exe: e, version: b.version, versionStdout: b.versionPad !== undefined ? b.version + b.versionPad : undefined, code: b.py2 ? 1 : b.code, failOn: b.py2 ? 'exe' : b.failOn, signal: b.signal, quiet: b.quiet, stderr: b.stderr, delay: b.delay }
    if (b.py2) table[e].exeStdout = ''
    if (b.quiet && b.code) { if (b.failOn === 'exe') table[e].exeStdout = ''; else table[e].versionStdout = '' }
  }
  for (const c of Object.keys(s.cmds)) {
    const d = s.cmds[c]
    if (d.gone || table[c]) continue
    const b = s.exes[d.exe] || {}
    const fails = d.code !== undefined || d.signal !== undefined
    table[c] = { exe: d.exe, version: b.version, exeStdout: d.said !== undefined ? d.said : d.exe + (d.pad || ''), exe2: d.exe2, code: d.code, signal: d.signal, quiet: d.quiet, failOn: fails ? 'exe' : undefined, delay: b.delay }
    if (d.quiet && fails) table[c].exeStdout = ''
    if (!fails) {
      // the command is the interpreter, so it fails the way the interpreter does
      const t = table[d.exe]
      if (!t) { table[c].exeStdout = d.said !== undefined ? d.said : d.exe } else if (t.failOn === 'exe') { table[c].code = t.code; table[c].signal = t.signal; table[c].quiet = t.quiet; table[c].failOn = 'exe'; if (t.exeStdout === '') table[c].exeStdout = '' }
    }
  }
  programs.install(w, { table })
  if (win) vsworld.install(w)
  const nd = win ? 'D:\\node' : '/opt/node'
  m.disk.put(m.j(nd, 'include', 'node', 'common.gypi'), '{}')
  m.disk.put(m.j(m.cwd, 'binding.gyp'), '{}')
  const env = { ...s.env }
  for (const k of Object.keys(env)) if (env[k] === null) env[k] = undefined
  const args = ['configure', '--nodedir=' + nd]
  if (s.opt.python) { if (s.opt.byNpm) env.npm_config_python = s.opt.python; else args.push('--python=' + s.opt.python) }

  const r = await w.phase({ procs: [{ name: 'p1', args, env, noUser: s.noUser }], faults: s.faults })
  const p = r.procs.p1
  const what = `${JSON.stringify(s.opt)} env ${JSON.stringify(s.env)}`

  // ---- the model: the documented order over what each candidate does ----
  let n = 0
  const faulted = new Set(r.applied.filter((f) => f.kind === 'spawn').map((f) => f.nk))
  const tried = []
  const norm = (c) => win ? c.toLowerCase() : c
  const lookup = (c) => { const k = Object.keys(table).find((x) => norm(x) === norm(c)); return k ? table[k] : null }
  const probe = (cmd, which, py3) => {
    const shellWouldRun = true
    void shellWouldRun
    if (!cmd) return null // an empty command cannot be started
    n++
    if (faulted.has(n)) return null
    const b = lookup(cmd)
    if (!b) return null
    const fails = (b.failOn === undefined || b.failOn === which) && (b.code || b.signal)
    if (fails) return null
    const out = which === 'exe' ? (b.exeStdout !== undefined ? b.exeStdout : b.exe) : (b.versionStdout !== undefined ? b.versionStdout : b.version + '\n')
    void py3
    return out.trim()
  }
  const usable = (exe) => {
    const v = probe(exe, 'version')
    const x = v === null ? null : /^(\d+)\.(\d+)\.(\d+)$/.exec(v)
    return x && (Number(x[1]) > 3 || (Number(x[1]) === 3 && Number(x[2]) >= 6)) ? exe : null
  }
  const byCommand = (c, exe3) => { tried.push(c); const e = probe(c, 'exe', exe3); return e === null ? null : usable(e) }
  const fullEnv = p.process ? { ...p.process.env } : {}
  const base = { SystemDrive: 'C:', USERNAME: 'u', LOCALAPPDATA: 'C:\\Users\\u\\AppData\\Local', ProgramFiles: 'C:\\Program Files', 'ProgramFiles(x86)': 'C:\\Program Files (x86)', ...s.env, noUser: s.noUser }
  void fullEnv
  let chosen = null
  if (s.env.NODE_GYP_FORCE_PYTHON) chosen = byCommand(s.env.NODE_GYP_FORCE_PYTHON)
  else {
    const steps = []
    if (s.opt.python) steps.push(() => byCommand(s.opt.python))
    if (s.env.PYTHON) steps.push(() => byCommand(s.env.PYTHON))
    if (win) steps.push(() => byCommand('py.exe', true))
    steps.push(() => byCommand('python3'), () => byCommand('python'))
    if (win) for (const l of winDefaults(base)) steps.push(() => { tried.push(l); return usable(l) })
    for (const f of steps) { chosen = f(); if (chosen) break }
  }
  const gyp = w.children.find((c) => c.tool === 'gyp')
  const used = gyp ? gyp.command : null
  if (r.overrun) bad('hang', what + ': never finished')
  else if (chosen === null) {
    if (gyp) bad('unusable-chosen', `${what}: ${used} was used, but no candidate is usable`)
    else if (p.exitCode === 0) bad('false-success', `${what}: exit 0 without a Python`)
    else {
      for (const c of tried) if (!p.stderrText.includes(c) && !(c === 'py.exe' && /py launcher/.test(p.stderrText))) { bad('not-listed', `${what}: the error does not list ${c}`); break }
      if (!/Could not find any Python installation/.test(p.stderrText)) bad('no-error', `${what}: failed without saying that no Python was found: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
    }
  } else if (p.children.some((c) => c.rec.spawnError && c.rec.args.some((a) => /gyp_main/.test(a)))) {
    const c = p.children.find((c) => c.rec.args.some((a) => /gyp_main/.test(a))).rec
    if (c.command !== chosen) bad('wrong-python', `${what}: tried ${c.command} instead of ${chosen}`)
  } else if (!gyp && r.applied.some((f) => /powershell|reg\.exe/i.test(f.target))) { /* Visual Studio could not be looked for: C10 */ } else if (!gyp) bad('not-found', `${what}: ${chosen} is usable but configure ended with ${p.exitCode}: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
  else {
    if (used !== chosen) bad('wrong-python', `${what}: used ${used} instead of ${chosen}`)
    if (gyp.env.PYTHON !== chosen) bad('wrong-python', `${what}: gyp was told PYTHON=${gyp.env.PYTHON} instead of ${chosen}`)
    const c = gyp.saw && gyp.saw.includes[0] && gyp.saw.includes[0][1]
    if (c && JSON.parse(c.split('\n').slice(1).join('\n')).variables.python !== chosen) bad('wrong-python', `${what}: config.gypi records another Python than ${chosen}`)
    if (p.exitCode !== 0) bad('refused', `${what}: configure failed with ${p.exitCode}`)
  }
  return { violations, w, ops: w.ops, nontrivial: tried.length > 0 }
}

module.exports = { generate, run, winDefaults }
