'use strict'
// C07: exit status and final line tell the truth about the run; commands run strictly in order; no log line is lost.
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { SimProcess, REPO } = require('../simproc')

const FAMILIES = ['sequence', 'sequence', 'child', 'child', 'fault', 'fault', 'vanish', 'loglevel', 'logger', 'crash', 'signal']
const LEVELS = ['silly', 'verbose', 'info', 'http', 'notice', 'warn', 'error', 'silent']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  if (family === 'logger') return loggerScenario(rng)
  const platform = rng.pick(['linux', 'linux', 'darwin', 'freebsd', 'win32', 'win32'])
  const { w } = G.world(rng, { platform })
  if (w.arch !== 'x64') w.arch = 'x64'
  const versions = rng.sample(G.VERSIONS, 2)
  w.hostVersion = versions[0]
  for (const v of versions) w.releases.push(G.releaseSpec(rng, v, { base: G.DEFAULT_BASE, size: 'tiny' }))
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, placed: rng.bool(0.6), built: rng.bool(0.4), gyp: {}, make: {} }
  const n = rng.range(1, family === 'sequence' ? 5 : 4)
  const words = []
  const pool = ['clean', 'configure', 'build', 'rebuild', 'configure', 'build', 'install', 'list', 'ls', 'remove', 'rm']
  if (rng.bool(0.3)) words.push(...rng.pick([['configure', 'build'], ['clean', 'configure', 'build'], ['rebuild', 'list'], ['rebuild', 'clean']]))
  else {
    for (let k = 0; k < n; k++) {
      const c = rng.pick(pool)
      words.push(c)
      if (c === 'remove' || c === 'rm') words.push(rng.pick(['', 'v']) + versions[1])
      if (c === 'install') words.push(versions[1])
      if (c === 'build' && rng.bool(0.2)) words.push('mytarget')
    }
  }
  const lv = rng.pick(['', '', '', 'silly', 'verbose', 'warn', 'error'])
  if (lv) words.unshift(rng.pick(['--loglevel=' + lv, ...(lv === 'silly' || lv === 'verbose' ? ['--' + lv] : [])]))
  if ((family === 'sequence' || family === 'fault') && rng.bool(0.2)) words.push('--', '-Dextra=1')
  if (words[words.length - 1] === '-Dextra=1' && !['configure', 'rebuild'].includes(words[words.length - 3])) words.splice(words.length - 2)
  s.phases = [{ procs: [{ name: 'p1', args: words, env: {} }], faults: [] }]
  if (family === 'child') {
    const bad = () => rng.pick([{ code: 1 }, { code: 2 }, { code: 127 }, { code: 255 }, { signal: 'SIGKILL' }, { signal: 'SIGTERM' }, { signal: 'SIGSEGV' }, { signal: rng.pick(['SIGABRT', 'SIGPIPE', 'SIGHUP', 'SIGINT']) }])
    if (!words.some((x) => ['configure', 'build', 'rebuild'].includes(x))) words.splice(words[0] && words[0].startsWith('--') ? 1 : 0, 0, 'rebuild')
    if (rng.bool(0.75)) s[rng.pick(['gyp', 'make'])] = { ...bad(), late: rng.bool() }
    else s.spawnFault = rng.pick(['ENOENT', 'EACCES', 'EAGAIN', 'ENOMEM', 'E2BIG'])
    if (s.spawnFault) {
      const probe = await run(s)
      const ops = probe.ops.filter((o) => o[1] === 'spawn')
      const tool = ops.filter((o) => /gyp_main|make|msbuild/i.test(o[3]))
      const op = tool.length ? rng.pick(tool) : null
      if (op) s.phases[0].faults.push({ proc: 'p1', kind: 'spawn', nk: op[2], error: s.spawnFault })
    }
  }
  if (family === 'fault') {
    const probe = await run(s)
    const op = G.pickOp(rng, probe.ops, (o) => o[1] === 'net' || o[1].startsWith('fs.'))
    if (op) { const f = G.faultAt(rng, op); if (f.error === 'EACCES' && /^fs\.(stat|mkdir)$/.test(f.kind)) f.error = 'EIO'; s.phases[0].faults.push(f) }
  }
  if (family === 'vanish') {
    s.placed = false
    const probe = await run(s)
    const ops = probe.ops.filter((o) => o[1] === 'net')
    if (ops.length) { const op = rng.pick(ops); s.phases[0].faults.push({ proc: op[0], kind: 'net', nk: op[2], vanish: rng.float() }) }
  }
  if (family === 'crash') {
    const probe = await run(s)
    const ops = probe.ops
    if (ops.length) s.phases[0].faults.push(G.crashAt(rng, rng.pick(ops)))
  }
  if (family === 'signal') {
    // interrupted from the terminal, or told to end: whatever the program does about it, it may not claim success for what was not done
    const probe = await run(s)
    s.phases[0].procs[0].signals = [{ at: rng.range(1, Math.max(2, probe.ended)), sig: rng.pick(['SIGINT', 'SIGINT', 'SIGTERM', 'SIGHUP']), group: rng.bool(0.6) }]
    if (rng.bool(0.2)) s.phases[0].procs[0].signals.push({ at: rng.range(1, Math.max(2, probe.ended)), sig: 'SIGINT', group: true })
  }
  if (family === 'loglevel') { s.levels = rng.sample(LEVELS.slice(1), 2); if (words[0].startsWith('--')) words.shift() }
  return s
}

// ---- a model of what the commands do, as seen from outside ----
function expectTokens (s, words, m, versions) {
  const cmds = []
  let rest = []
  for (const a of words) {
    if (a === '--') { rest = words.slice(words.indexOf('--') + 1); break }
    if (a.startsWith('--')) continue
    if (['clean', 'configure', 'build', 'rebuild', 'install', 'list', 'ls', 'remove', 'rm'].includes(a)) cmds.push([{ ls: 'list', rm: 'remove' }[a] || a])
    else cmds[cmds.length - 1].push(a)
  }
  if (rest.length && cmds.length) cmds[cmds.length - 1].push(...rest)
  const flat = []
  for (const c of cmds) if (c[0] === 'rebuild') flat.push(['clean'], ['configure', ...c.slice(1)], ['build']); else flat.push(c)
  const out = []
  const store = new Set(s.placed ? [versions[0]] : [])
  let built = s.built
  let ensure = false
  for (const c of flat) {
    if (c[0] === 'clean') { if (built) out.push('clean'); built = false }
    if (c[0] === 'configure') {
      ensure = true // configure sets opts.ensure, and the options live as long as the run
      if (!store.has(versions[0])) { out.push('net ' + versions[0]); store.add(versions[0]) }
      out.push('gyp>', s.gyp.code || s.gyp.signal ? 'gyp!' : 'gyp<')
      if (s.gyp.code || s.gyp.signal) return { out, ok: false, flat }
      built = true
    }
    if (c[0] === 'build') {
      if (!built) return { out, ok: false, flat }
      out.push('make>', s.make.code || s.make.signal ? 'make!' : 'make<')
      if (s.make.code || s.make.signal) return { out, ok: false, flat }
    }
    if (c[0] === 'install' && !(ensure && store.has(c[1]))) { out.push('net ' + c[1]); store.add(c[1]) }
    if (c[0] === 'list') out.push('list ' + ([...store].sort().join(',') || 'none'))
    if (c[0] === 'remove') { const v = c[1].replace(/^v/, ''); if (store.has(v)) out.push('removed ' + v); else out.push('absent ' + v); store.delete(v) }
  }
  return { out, ok: true, flat }
}

function execute (s, extraEnv) {
  const w = new World(s)
  programs.install(w, { gyp: s.gyp, make: s.make, msbuild: s.make })
  const m = w.m
  if (w.win) require('../vsworld').install(w)
  const versions = s.world.releases.map((r) => r.version)
  m.disk.put(m.j(m.cwd, 'binding.gyp'), '{}')
  if (s.placed) w.place(w.releases[0], { arch: [m.arch] })
  if (s.built) {
    const b = m.j(m.cwd, 'build')
    m.disk.put(m.j(b, 'config.gypi'), '# old\n' + JSON.stringify({ target_defaults: { default_configuration: 'Release' }, variables: { target_arch: 'x64', nodedir: w.dir(w.releases[0]), python: w.win ? 'C:\\Python311\\python.exe' : '/usr/bin/python3', msbuild_path: w.win ? 'C:\\VS\\2022\\Community\\MSBuild\\Current\\Bin\\MSBuild.exe' : undefined } }))
    m.disk.put(m.j(b, w.win ? 'binding.sln' : 'Makefile'), 'old')
  }
  // observation from outside: what happened, in order
  const tokens = []
  const cwdNode = m.disk.node(m.cwd)
  const prog = m.program
  m.program = (rec, proc) => {
    const r = prog(rec, proc)
    if (!r || !['gyp', 'make', 'msbuild'].includes(rec.tool)) return r
    const name = rec.tool === 'gyp' ? 'gyp' : 'make'
    tokens.push(name + '>')
    return async (ctx) => { const v = typeof r === 'function' ? await r(ctx) : r; tokens.push(name + (v && (v.code || v.signal) ? '!' : '<')); return v }
  }
  m.disk.onUnlink = (dir, name) => {
    if (dir === cwdNode && name === 'build') tokens.push('clean')
    const dev = m.disk.node(w.devDir)
    if (dev && dir === dev && versions.includes(name)) tokens.push('removed ' + name)
  }
  m.net.onRequest = (q) => { const x = /\/v([\d.]+)\/SHASUMS256\.txt$/.exec(q.url); if (x) tokens.push('net ' + x[1]) }
  return { w, m, tokens, versions }
}

async function run (s) {
  if (s.family === 'logger') return runLogger(s)
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const e = execute(s)
  const { w, m, tokens, versions } = e
  const ph = JSON.parse(JSON.stringify(s.phases[0]))
  if (s.levels) ph.procs[0].env = { npm_config_loglevel: 'silly' }
  m.onLaunch = (p) => {
    p.onWrite = (stream, text) => {
      if (stream !== 'stdout') return
      const t = text.split('\n').map((x) => x.trim()).filter(Boolean)
      for (const l of t) {
        if (/^\d+\.\d+\.\d+$/.test(l)) { const last = tokens[tokens.length - 1]; if (last && last.startsWith('list ') && p.lastList === tokens.length - 1) tokens[tokens.length - 1] = 'list ' + last.slice(5).split(',').concat(l).sort().join(','); else { tokens.push('list ' + l); p.lastList = tokens.length - 1 } } else if (/^No node development files installed/.test(l)) tokens.push('list none')
        else { const x = /already uninstalled: (\S+)/.exec(l); if (x) tokens.push('absent ' + x[1]) }
      }
    }
  }
  const r = await w.phase(ph)
  const p = r.procs.p1
  const words = s.phases[0].procs[0].args
  const what = 'node-gyp ' + words.join(' ')
  const exp = expectTokens(s, words, m, versions)
  const eff = r.applied.filter((f) => !G.harmless(f)).concat(s.family === 'signal' ? [{ kind: 'signal' }] : [])
  const errText = p.stderrText
  const level = (/(?:--loglevel=|--)(silly|verbose|info|http|notice|warn|error|silent)\b/.exec(words.join(' ')) || ['', s.levels ? 'silly' : 'info'])[1]
  const showsInfo = ['silly', 'verbose', 'info'].includes(level)
  const lines = errText.split('\n').filter(Boolean)
  const okLines = lines.filter((l) => l.trim() === 'gyp info ok')
  if (r.overrun) { bad('hang', what + ' never finished'); return { violations, w, ops: w.ops } }
  const norm = (t) => { const o = []; for (const x of t) if (!(x.startsWith('list ') && o[o.length - 1] === x && false)) o.push(x); return o }
  const seen = norm(tokens)
  // two lists in a row are one token when seen from outside
  const merge = (t) => { const o = []; for (const x of t) { const last = o[o.length - 1]; if (x.startsWith('list ') && last && last.startsWith('list ') && x !== 'list none') { o[o.length - 1] = 'list ' + last.slice(5).split(',').concat(x.slice(5).split(',')).sort().join(',') } else o.push(x) } return o }
  const A = merge(seen); const B = merge(exp.out)
  const badChild = w.children.find((c) => c.tool && ['gyp', 'make', 'msbuild'].includes(c.tool) && (c.code || c.signal || c.spawnError))
  const spawnFault = eff.find((f) => f.kind === 'spawn')
  if (p.signal) {
    // killed: what was done must still be a beginning of the sequence
    const C = A.filter((t, k) => !(t.startsWith('removed') || t === 'clean' || t.startsWith('list')))
    const D = B.filter((t) => !(t.startsWith('removed') || t === 'clean' || t.startsWith('list')))
    if (JSON.stringify(C) !== JSON.stringify(D.slice(0, C.length))) bad('order', `${what} (killed) did [${A}], expected a beginning of [${B}]`)
    if (okLines.length) { if (A.length < B.length - 1) bad('false-ok', `${what} printed ok before it was done`) }
  } else if (p.exitCode === 0) {
    if (badChild || spawnFault) bad('false-success', `${what} exited 0 although ${badChild ? `${badChild.tool} ended with ${badChild.spawnError || badChild.signal || badChild.code}` : 'a child could not be started'}`)
    if (!exp.ok) bad('false-success', `${what} exited 0 but a command cannot have succeeded`)
    if (JSON.stringify(A) !== JSON.stringify(B)) bad('order', `${what} exited 0 and did [${A}], expected [${B}]`)
    if (showsInfo && okLines.length !== 1) bad('no-ok', `${what} exited 0 with ${okLines.length} ok lines`)
    if (showsInfo && okLines.length === 1 && lines[lines.length - 1].trim() !== 'gyp info ok') bad('not-final', `${what}: after ok came ${lines[lines.length - 1]}`)
    if (/ERR! (not ok|UNCAUGHT|stack)/.test(errText)) bad('false-success', `${what} exited 0 after reporting an error`)
  } else {
    if (okLines.length) bad('false-ok', `${what} exited ${p.exitCode} but printed ok`)
    if (exp.ok && !eff.length) bad('refused', `${what} failed although nothing went wrong: ${(/ERR! stack .*/.exec(errText) || [''])[0]}`)
    if (level !== 'silent' && !/ERR! /.test(errText)) bad('no-diagnostic', `${what} exited ${p.exitCode} without an error message`)
    const C = [...A]
    while (eff.length && C.length && C[C.length - 1].startsWith('removed') && C[C.length - 1] !== B[C.length - 1]) C.pop()
    if (JSON.stringify(C) !== JSON.stringify(B.slice(0, C.length))) { if (!(eff.length && C.every((t, k) => t === B[k] || (k === C.length - 1 && (t.startsWith('list') || t.startsWith('clean')))))) bad('order', `${what} failed having done [${A}], expected a beginning of [${B}]`) }
    if (!eff.length && JSON.stringify(C) !== JSON.stringify(B)) bad('order', `${what} failed having done [${A}], expected [${B}]`)
  }
  // configure's and build's own arguments reach their tool
  if (p.exitCode === 0) {
    const want = exp.flat.filter((c) => c[0] === 'configure' || c[0] === 'build')
    const tools = w.children.filter((c) => ['gyp', 'make', 'msbuild'].includes(c.tool))
    for (let k = 0; k < Math.min(want.length, tools.length); k++) for (const a of want[k].slice(1)) if (!tools[k].args.some((x) => x === a || x === '/t:' + a)) bad('lost-argument', `${what}: ${a} did not reach ${tools[k].tool} ${tools[k].args.join(' ')}`)
  }
  let events = 0
  // the visible lines at a quieter level are exactly the louder run's lines of those levels
  if (s.levels && !violations.length) {
    const parse = (t) => t.split('\n').filter(Boolean).map((l) => { const x = /^gyp (sill|verb|info|http|notice|WARN|ERR!)/.exec(l); return [x ? { sill: 'silly', verb: 'verbose', WARN: 'warn', 'ERR!': 'error' }[x[1]] || x[1] : 'other', l] })
    const drop = (l) => / spawn args /.test(l) || /cli|clp/.test(l) || /ERR! command/.test(l)
    const full = parse(errText).filter((x) => !drop(x[1]))
    for (const lv of s.levels) {
      const e2 = execute(s)
      const p2 = JSON.parse(JSON.stringify(s.phases[0]))
      p2.procs[0].env = { npm_config_loglevel: lv }
      const r2 = await e2.w.phase(p2)
      events += e2.m.kernel.events
      const q = r2.procs.p1
      if (q.exitCode !== p.exitCode) { bad('log-changes-result', `${what}: exit ${p.exitCode} at silly, ${q.exitCode} at ${lv}`); continue }
      const at = LEVELS.indexOf(lv)
      const want = full.filter((x) => LEVELS.indexOf(x[0]) >= at).map((x) => x[1])
      const got = parse(q.stderrText).filter((x) => !drop(x[1])).map((x) => x[1])
      if (JSON.stringify(want) !== JSON.stringify(got)) { const k = want.findIndex((x, n) => x !== got[n]); bad('log-lost', `${what} at loglevel ${lv}: line ${k} is ${JSON.stringify(got[k])}, at silly it was ${JSON.stringify(want[k])} (${got.length} lines instead of ${want.length})`) }
    }
  }
  return { violations, w, ops: w.ops, ended: p.endedAt || 0, nontrivial: true }
}

// ---- the logger itself: histories of pause, resume, level changes and messages ----
function loggerScenario (rng) {
  const ops = []
  const n = rng.range(5, 40)
  for (let i = 0; i < n; i++) {
    const k = rng.int(10)
    if (k === 0) ops.push(['pause']); else if (k === 1) ops.push(['resume']); else if (k === 2) ops.push(['level', rng.pick(LEVELS.concat('bogus'))])
    else ops.push(['log', rng.pick(LEVELS.slice(0, 7)), rng.pick(['', 'pfx', 'http']), 'm' + i + rng.pick(['', ' two words', '\nsecond line', ' %s']), ...(rng.bool(0.3) ? ['arg' + i] : [])])
  }
  return { family: 'logger', seed: rng.u32(), sched: { mode: 'fifo' }, world: { platform: 'linux', arch: 'x64', hostVersion: '20.11.1', releases: [] }, steps: ops, tty: rng.bool(0.3) }
}
async function runLogger (s) {
  const w = new World(s)
  const violations = []
  const m = w.m
  const p = m.gyp('p1', [], { tty: s.tty })
  const util = require('util')
  const log = p.requireFile(REPO + '/lib/log.js')
  const order = LEVELS.slice(0, 7)
  let paused = true
  let level = 'info'
  const buf = []
  const want = []
  const emit = (o) => { if (level !== null && order.indexOf(o[1]) >= order.indexOf(level)) for (const l of util.format(...o.slice(3)).split(/\r?\n/)) want.push([o[1], o[2], l.trim()]) }
  for (const o of [...s.steps, ['resume']]) {
    if (o[0] === 'pause') { log.pause(); paused = true } else if (o[0] === 'resume') { log.resume(); paused = false; for (const b of buf.splice(0)) emit(b) } else if (o[0] === 'level') { log.logger.level = o[1]; level = order.includes(o[1]) ? o[1] : null } else { log[o[1]](o[2], ...o.slice(3)); if (paused) buf.push(o); else emit(o) }
  }
  // eslint-disable-next-line no-control-regex
  const got = p.stderrText.replace(/\x1b\[[\d;]*m/g, '').split('\n').slice(0, -1)
  const disp = { silly: 'sill', verbose: 'verb', warn: 'WARN', error: 'ERR!' }
  const text = want.map(([lv, pre, l]) => `gyp ${disp[lv] || lv}${pre ? ' ' + pre : ''} ${l}`)
  if (JSON.stringify(got) !== JSON.stringify(text)) { const k = text.findIndex((x, n) => x !== got[n]); violations.push({ kind: 'log-lost', text: `logger history: line ${k} is ${JSON.stringify(got[k])} instead of ${JSON.stringify(text[k])} (${got.length} lines instead of ${text.length})` }) }
  for (const l of got) m.kernel.log(p, l)
  return { violations, w, ops: [], order: require('crypto').createHash('sha256').update(JSON.stringify(s.steps)).digest('hex') }
}

module.exports = { id: 'C07', families: FAMILIES, generate, run }
