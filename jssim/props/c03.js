'use strict'
// C03: concurrent installs of the same version all succeed.
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { compareInstall } = require('../world')

const FAMILIES = ['same', 'same', 'mixed', 'many', 'archs', 'busy', 'state', 'late', 'neighbours']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const platform = family === 'archs' || family === 'busy' ? 'win32' : rng.pick(['linux', 'linux', 'win32', 'win32', 'darwin'])
  const { w } = G.world(rng, { platform })
  const win = platform === 'win32'
  const version = rng.pick(G.VERSIONS)
  w.hostVersion = version
  const oldNode = Number(version.split('.')[0]) < 8
  if (w.arch === 'arm64' && oldNode) w.arch = 'x64'
  w.releases.push(G.releaseSpec(rng, version, { base: G.DEFAULT_BASE, size: rng.pick(['tiny', 'small', 'small', 'large']) }))
  const others = rng.sample(G.VERSIONS.filter((v) => v !== version), family === 'neighbours' ? 2 : rng.int(3))
  for (const o of others) w.releases.push(G.releaseSpec(rng, o, { base: G.DEFAULT_BASE, size: 'tiny' }))
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, pick: rng.u32(), frac: rng.float() }
  s.state = family === 'busy' && rng.bool() ? 'rotten' : family === 'state' ? rng.pick(['complete', 'outdated', 'nomarker', 'torn-nomarker', 'nolib', 'emptydir']) : rng.pick(['none', 'none', 'none', 'none', 'complete', 'torn-nomarker', 'outdated'])
  const n = family === 'many' ? rng.range(4, 6) : rng.range(2, 4)
  const style = rng.pick(['ensure', 'plain', 'configure', 'mixed', 'mixed'])
  const spread = family === 'late' ? rng.pick([400, 1500, 4000]) : rng.pick([0, 0, 10, 60, 300])
  const procs = []
  for (let k = 0; k < n; k++) {
    const kind = family === 'mixed' || style === 'mixed' ? rng.pick(['ensure', 'plain', 'configure']) : style
    const args = kind === 'configure' ? ['configure'] : kind === 'ensure' ? ['install', '--ensure'] : ['install']
    const p = { name: 'p' + (k + 1), args, env: {}, delay: spread ? rng.int(spread) : 0, mod: k }
    if (win && (family === 'archs' || rng.bool(0.25))) {
      const t = rng.pick(oldNode ? ['ia32', 'x64'] : ['ia32', 'x64', 'arm64'])
      p.target = t
      args.push((rng.bool() ? '--arch=' : '--target_arch=') + t)
    }
    if (rng.bool(0.1)) args.push('--loglevel=silly')
    procs.push(p)
  }
  if (family === 'neighbours') {
    procs.push({ name: 'n1', args: ['install', others[0]], env: {}, delay: rng.int(200), mod: 7, neighbour: 'install' })
    if (rng.bool()) procs.push({ name: 'n2', args: ['list'], env: {}, delay: rng.int(200), mod: 8, neighbour: 'list' })
    if (rng.bool() && others[1]) procs.push({ name: 'n3', args: ['remove', others[1]], env: {}, delay: rng.int(200), mod: 9, neighbour: 'remove' })
  }
  s.phases = [{ procs, faults: [] }]
  if (family === 'busy') {
    const probe = await run(s)
    const dev = probe.w.dir(probe.w.releases[0])
    const ops = probe.ops.filter((o) => o[1] === 'fs.open' && o[3].startsWith(dev) && !/installVersion/.test(o[3]))
    const rotten = ops.filter((o) => o[3] === probe.w.damaged)
    for (let k = rng.range(1, 4); k > 0 && ops.length; k--) { const op = rng.pick(rotten.length && rng.bool(0.7) ? rotten : ops); s.phases[0].faults.push({ proc: op[0], kind: op[1], nk: op[2], error: 'EBUSY', under: dev }) }
  }
  return s
}

async function run (s) {
  const w = new World(s)
  programs.install(w)
  const rel = w.releases[0]
  const m = w.m
  const win = w.win
  if (win) require('../vsworld').install(w)
  const ph = JSON.parse(JSON.stringify(s.phases[0]))
  for (const p of ph.procs) {
    p.cwd = m.j(win ? 'C:\\work' : '/work', 'mod' + p.mod)
    m.disk.put(m.j(p.cwd, 'binding.gyp'), '{}')
  }
  const arch = [m.arch]
  const damage = { pick: s.pick, frac: s.frac * 0.9, how: s.pick % 3 === 0 ? 'missing' : 'torn' }
  switch (s.state) {
    case 'complete': w.place(rel, { arch }); break
    case 'outdated': w.place(rel, { arch, marker: 9, damage }); break
    // every file is there, one is not what was published
    case 'rotten': w.place(rel, { arch, marker: s.pick % 2 ? null : 9, damage: { ...damage, how: 'flip' } }); break
    case 'nomarker': w.place(rel, { arch, marker: null }); break
    case 'torn-nomarker': w.place(rel, { arch: [], marker: null, damage }); break
    case 'nolib': w.place(rel, { arch: [] }); break
    case 'emptydir': m.disk.mkdirp(w.dir(rel)); break
  }
  const before = {}
  const moving = new Set(ph.procs.filter((p) => p.neighbour && p.args[1]).map((p) => p.args[1]))
  for (const o of w.releases.slice(1)) { if (!moving.has(o.version) || ph.procs.some((p) => p.neighbour === 'remove' && p.args[1] === o.version)) w.place(o, { arch }); if (!moving.has(o.version)) before[o.version] = w.snapshot(w.dir(o)) }
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const r = await w.phase(ph)
  if (r.overrun) bad('hang', 'the processes never finished')
  else {
    const mine = ph.procs.filter((p) => !p.neighbour)
    for (const p of r.list) if (p.exitCode !== 0) bad('failed', `${p.name} (${p.argv.slice(2).join(' ')}) failed next to ${r.list.length - 1} others: exit ${p.exitCode} ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
    const targets = win ? [...new Set(mine.map((p) => p.target || m.arch))] : [m.arch]
    for (const t of targets) for (const q of compareInstall(m.disk, w.dir(rel), rel, { win, arch: t, otherArchs: true }).slice(0, 1)) bad('incomplete', `all processes ended, but ${q}`)
    if (!(w.marker(rel) >= 11)) bad('no-marker', 'all processes ended, but the version is not marked as installed')
    for (const p of r.list) {
      const spec = ph.procs.find((x) => x.name === p.name)
      if (spec.neighbour && spec.neighbour !== 'install') continue
      const target = spec.neighbour ? w.releases.find((x) => x.version === spec.args[1]) : rel
      for (const q of w.successProblems(p, target, { arch: spec.target || m.arch })) if (q.kind === 'unverified') bad('unverified', q.text)
    }
    for (const v of Object.keys(before)) if (w.snapshot(w.dir(w.rel(v))) !== before[v]) bad('disturbed', `the directory of ${v} changed`)
    for (const p of ph.procs) {
      if (p.neighbour === 'install') for (const q of compareInstall(m.disk, w.dir(w.rel(p.args[1])), w.rel(p.args[1]), { win, arch: m.arch, otherArchs: true }).slice(0, 1)) bad('disturbed', `${p.args[1]} was installed at the same time, but ${q}`)
      if (p.neighbour === 'remove' && m.disk.exists(w.dir(w.rel(p.args[1])))) bad('disturbed', `${p.args[1]} was removed at the same time but is there`)
    }
  }
  return { violations, w, ops: w.ops, nontrivial: true }
}

module.exports = { id: 'C03', families: FAMILIES, generate, run }
