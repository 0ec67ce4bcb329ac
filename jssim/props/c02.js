'use strict'
// C02: a failed or interrupted install is never trusted later.
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { compareInstall } = require('../world')

const NEEDED = 11
const FAMILIES = ['crash', 'crash-reinstall', 'fail', 'crash-corrupt', 'many', 'state', 'crash-lib', 'fail-rollback']
const COMMANDS = [['install'], ['install', '--ensure'], ['configure']]

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const platform = family === 'crash-lib' ? 'win32' : rng.pick(['linux', 'linux', 'win32', 'darwin'])
  const { w } = G.world(rng, { platform })
  const version = rng.bool(0.2) ? rng.pick(['3.3.1', '1.8.4', '0.12.18', '0.10.40']) : rng.pick(G.VERSIONS)
  w.hostVersion = version
  if (G.iojs(version)) w.hostRelease = { name: 'io.js' }
  const win = platform === 'win32'
  if (w.arch === 'arm64' && Number(version.split('.')[0]) < 8) w.arch = 'x64'
  w.releases.push(G.releaseSpec(rng, version, { base: G.DEFAULT_BASE, size: rng.pick(['tiny', 'small', 'small', 'large']) }))
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, state: 'none', pick: rng.u32(), frac: rng.float(), phases: [] }
  if (family === 'crash-reinstall' || family === 'crash-lib') s.state = family === 'crash-lib' ? 'nolib' : rng.pick(['complete', 'outdated'])
  else if (family === 'state') s.state = rng.pick(['complete', 'outdated', 'nomarker', 'garbagemarker', 'torn-nomarker', win ? 'nolib' : 'complete', 'emptydir', 'none'])
  else s.state = rng.pick(['none', 'none', 'none', 'complete', 'outdated', 'torn-nomarker', 'complete'])
  s.oldMarker = rng.pick([1, 8, 9, 10])
  const add = async (args, n, mode) => {
    const ph = { procs: [{ name: 'p' + (s.phases.length + 1), args: [...args] }], faults: [] }
    s.phases.push(ph)
    if (!n) return
    const probe = await run(s)
    const name = ph.procs[0].name
    const ops = probe.ops.filter((o) => o[0] === name)
    const mods = ops.filter((o) => /^fs\.(open|write|mkdir|close|rename|unlink|rmdir|futimes|rm|symlink)$/.test(o[1]))
    for (let k = 0; k < n; k++) {
      let f
      if (mode === 'corrupt') { const op = rng.pick(ops.filter((o) => o[1] === 'net').concat([null])); if (op) f = { proc: name, kind: 'net', nk: op[2], ...rng.pick([{ corrupt: rng.float(), mask: 1 << rng.int(8) }, { corrupt: 9 / 1000, mask: 1 }, { replace: '' }, { truncate: rng.float() }]) } } else if (mode === 'crash') {
        const op = mods.length && rng.bool(0.75) ? (rng.bool(0.5) ? mods[mods.length - 1 - rng.int(Math.min(14, mods.length))] : rng.pick(mods)) : ops.length ? rng.pick(ops) : null
        if (op) f = G.crashAt(rng, op)
      } else { const op = G.pickOp(rng, ops, (o) => o[1] !== 'spawn'); if (op) { f = G.faultAt(rng, op); if (f.error === 'EACCES') f.error = 'EIO' } }
      if (f) ph.faults.push(f)
    }
  }
  const ensureCmd = () => rng.pick([['install', '--ensure'], ['install', '--ensure'], ['configure']])
  if (family === 'crash') await add(rng.pick(COMMANDS), 1, 'crash')
  if (family === 'crash-reinstall') await add(rng.pick([['install'], ['install'], ['install', '--ensure']]), 1, 'crash')
  if (family === 'crash-lib') await add(ensureCmd(), 1, 'crash')
  if (family === 'fail') await add(rng.pick(COMMANDS), 1, 'fault')
  if (family === 'crash-corrupt') { await add(rng.pick(COMMANDS), 1, 'corrupt'); const ph = s.phases[0]; const keep = ph.faults; const probe = await run(s); const ops = probe.ops.filter((o) => o[0] === 'p1' && o[1].startsWith('fs.')); if (ops.length) { const op = ops[ops.length - 1 - rng.int(Math.min(30, ops.length))]; keep.push(G.crashAt(rng, op)) } }
  if (family === 'many') { const n = rng.range(2, 3); for (let k = 0; k < n; k++) await add(rng.pick(COMMANDS), 1, rng.pick(['crash', 'crash', 'fault', 'corrupt'])) }
  if (family === 'fail-rollback') {
    await add(rng.pick(COMMANDS), 1, rng.pick(['corrupt', 'fault']))
    const probe = await run(s)
    const ops = probe.ops.filter((o) => o[0] === 'p1')
    const fs = ops.filter((o) => /^fs\.(rmdir|unlink|lstat|readdir)$/.test(o[1]))
    const op = fs.length ? rng.pick(fs.slice(-20)) : null
    if (op) s.phases[0].faults.push(rng.bool() ? G.crashAt(rng, op) : { proc: 'p1', kind: op[1], nk: op[2], error: 'EIO' })
  }
  // afterwards: someone asks for the version again
  const again = rng.int(4)
  if (again === 0) await add(ensureCmd(), 1, rng.pick(['fault', 'corrupt']))
  await add(ensureCmd(), 0)
  if (rng.bool(0.5)) await add(ensureCmd(), 0)
  return s
}

async function run (s) {
  const w = new World(s)
  programs.install(w)
  const rel = w.releases[0]
  const m = w.m
  const win = w.win
  m.disk.put(m.j(m.cwd, 'binding.gyp'), '{}')
  if (win) require('../vsworld').install(w)
  const dir = w.dir(rel)
  const damage = { pick: s.pick, frac: s.frac * 0.9, how: s.pick % 3 === 0 ? 'missing' : 'torn' }
  const arch = [m.arch]
  switch (s.state) {
    case 'complete': w.place(rel, { arch }); break
    case 'outdated': w.place(rel, { arch, marker: s.oldMarker, damage }); break
    case 'nomarker': w.place(rel, { arch, marker: null }); break
    case 'torn-nomarker': w.place(rel, { arch: [], marker: null, damage }); break
    case 'garbagemarker': w.place(rel, { arch, marker: s.pick % 2 ? 'oops' : '', damage }); break
    case 'nolib': w.place(rel, { arch: win ? [m.arch === 'x64' ? 'ia32' : 'x64'] : [] }); break
    case 'emptydir': m.disk.mkdirp(dir); break
  }
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const complete = () => compareInstall(m.disk, dir, rel, { win, arch: m.arch, otherArchs: true })
  let evaluations = 0
  for (let k = 0; k < s.phases.length; k++) {
    const ph = s.phases[k]
    const before = w.snapshot(dir)
    const wasComplete = complete().length === 0 && w.marker(rel) >= NEEDED
    const r = await w.phase(ph)
    const p = r.list[0]
    const ensures = ph.procs[0].args.includes('--ensure') || ph.procs[0].args[0] === 'configure'
    const eff = r.applied.filter((f) => !G.harmless(f))
    const what = `run ${k + 1} (${ph.procs[0].args.join(' ')})`
    evaluations++
    if (r.overrun) { bad('hang', what + ' never finished'); break }
    if (p.signal) continue
    const after = complete()
    const state = `after ${w.phases.slice(0, -1).map((x) => x.list[0].signal ? 'a killed run' : 'exit ' + x.list[0].exitCode).join(', ') || 'state ' + s.state}`
    if (p.exitCode === 0) {
      for (const q of after.slice(0, 1)) bad('trusted-incomplete', `${what} reported success ${state}, but ${q}`)
      if (w.successProblems(p, rel, { arch: m.arch }).some((q) => q.kind === 'unverified')) bad('unverified', `${what} reported success with unverified content`)
      if (!(w.marker(rel) >= NEEDED)) bad('no-marker', `${what} succeeded but left no valid installVersion, so the install is not accepted later`)
      if (ensures && wasComplete) {
        if (r.requests.length) bad('redone', `${what}: a complete install was downloaded again (${r.requests[0].url})`)
        if (w.snapshot(dir) !== before) bad('changed', `${what}: a complete install was modified`)
      }
    } else {
      if (!eff.length) bad('refused', `${what} failed ${state} although nothing went wrong: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
      // a failed install leaves nothing, unless it never touched the directory, or the removal itself met a fault
      const removalFault = eff.some((f) => /^fs\.(rmdir|unlink|lstat|readdir|stat)$/.test(f.kind))
      const now = w.snapshot(dir)
      if (now !== null && now !== before && !removalFault && !(after.length === 0 && w.marker(rel) >= NEEDED)) bad('left-behind', `${what} failed and left ${Object.keys(m.disk.tree(dir)).length} entries in ${dir}`)
    }
    if (violations.length) break
  }
  return { violations, w, ops: w.ops, evaluations, nontrivial: w.applied.length > 0 || s.family === 'state' }
}

module.exports = { id: 'C02', families: FAMILIES, generate, run }
