'use strict'
// C06: install, list and remove keep an exact store of versions (histories against a reference model).
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { compareInstall } = require('../world')

const FAMILIES = ['history', 'history', 'faults', 'odd', 'chains', 'crash', 'iojs', 'devdir', 'pre']
const PRE = ['21.0.0-rc.1', '21.0.0-rc.2', '21.0.0', '21.0.1', '21.0.0-nightly20240101abcdef', '21.0.0-v8-canary-current']
const ODD = ['.', '..', '../..', '../addon', '', '/', './', 'a/../..', '../node-gyp-other', 'include/node', 'nonsense', '1.2', 'latest', '*', 'v']
const REFUSED = ['0.7.12', '0.6.21', '99.0.0', '0.13.0-pre', '22.9.0-pre', '20.11.99']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const platform = rng.pick(['linux', 'linux', 'win32', 'darwin'])
  const { w } = G.world(rng, { platform })
  if (w.arch === 'arm64') w.arch = 'x64'
  const versions = rng.sample(family === 'iojs' ? ['3.3.1', '1.8.4', '2.5.0', '20.11.1'] : family === 'pre' ? PRE : G.VERSIONS, rng.range(2, 4))
  w.hostVersion = rng.bool(0.5) ? versions.find((v) => v !== '3.3.1' && v !== '1.8.4' && v !== '2.5.0') || '20.11.1' : '21.7.3'
  for (const v of versions) w.releases.push(G.releaseSpec(rng, v, { base: G.DEFAULT_BASE, size: rng.pick(['tiny', 'tiny', 'small']), full: v.includes('-') }))
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, phases: [], initial: rng.sample(versions, rng.int(versions.length + 1)), odd: [] }
  if (family === 'devdir') s.devdir = rng.pick(['abs', 'rel', 'tilde', 'env', 'trailing'])
  const n = rng.range(3, 7)
  for (let k = 0; k < n; k++) {
    const v = rng.pick(versions)
    const rel = w.releases.find((r) => r.version === v)
    const dirName = rel.name === 'iojs' ? 'iojs-' + v : v
    const pre = rng.pick(['', 'v'])
    const op = rng.pick(['install', 'ensure', 'remove', 'remove', 'list', 'list'])
    let args
    if (family === 'odd' && rng.bool(0.6)) args = [rng.pick(['remove', 'rm']), rng.pick(platform === 'win32' ? ODD.concat(['..\\..', 'C:\\work', '..\\x']) : ODD)]
    // not published, too old, or not a version: refused, and nothing is left of the attempt
    else if (family === 'odd' && rng.bool(0.3)) args = rng.pick([['install', pre + rng.pick(REFUSED)], ['install', pre + rng.pick(REFUSED), '--ensure'], ['install', '--target=' + pre + rng.pick(REFUSED)], ['install', '--target=' + rng.pick(['nonsense', '1.2', 'latest', 'x', '20'])], ['install', pre + rng.pick(REFUSED), 'list']])
    else if (op === 'install') args = ['install', pre + v]
    else if (op === 'ensure') args = ['install', pre + v, '--ensure']
    else if (op === 'remove') args = rng.bool(0.75) || rel.name === 'iojs' ? [rng.pick(['remove', 'remove', 'rm']), rel.name === 'iojs' && rng.bool(0.7) ? dirName : pre + v] : ['remove', '--target=' + pre + v]
    else args = [rng.pick(['list', 'ls'])]
    if (family === 'chains') { const u = rng.pick(versions); const ud = (w.releases.find((r) => r.version === u).name === 'iojs' ? 'iojs-' : '') + u; args = rng.pick([['install', v, 'list'], ['remove', dirName, 'list'], ['list', 'remove', dirName], ['remove', dirName, 'install', u, 'list'], ['remove', dirName, 'remove', ud, 'list'], ['install', v, 'remove', ud, 'list'], ['install', v, 'remove', dirName, 'list']]) }
    const ph = { procs: [{ name: 'p' + (k + 1), args, env: {} }], faults: [] }
    // a version named by the command counts, whatever --target says
    if (rng.bool(0.25) && !args.some((a) => a.startsWith('--target'))) {
      const t = rng.pick(['', 'v']) + rng.pick(versions)
      if (rng.bool(0.5)) args.push('--target=' + t)
      else ph.procs[0].env.npm_config_target = t
    }
    s.phases.push(ph)
    const wantFault = family === 'faults' ? rng.bool(0.55) : family === 'crash' ? rng.bool(0.5) : false
    if (wantFault) {
      const probe = await run(s)
      const ops = probe.ops.filter((o) => o[0] === 'p' + (k + 1))
      const op = G.pickOp(rng, ops, (o) => o[1] === 'net' || o[1].startsWith('fs.'))
      if (op) {
        const f = family === 'crash' ? G.crashAt(rng, op) : G.faultAt(rng, op)
        // permission problems have their own fallback and property (C04)
        if (f.error === 'EACCES') f.error = 'EIO'
        ph.faults.push(f)
      }
    }
  }
  return s
}

async function run (s) {
  const w = new World(s)
  programs.install(w)
  const m = w.m
  const win = w.win
  const j = (...a) => m.path.join(...a)
  if (win) require('../vsworld').install(w)
  let dev = m.cacheDir
  let optArgs = []
  let optEnv = {}
  if (s.devdir === 'abs') { dev = win ? 'C:\\my dir\\gyp' : '/opt/my dir/gyp'; optArgs = ['--devdir=' + dev] }
  if (s.devdir === 'rel') { dev = j(m.cwd, 'dd'); optArgs = ['--devdir', 'dd'] }
  if (s.devdir === 'tilde') { dev = j(m.homedir, '.ngyp'); optArgs = ['--devdir=~' + (win ? '\\' : '/') + '.ngyp'] }
  if (s.devdir === 'env') { dev = win ? 'C:\\dd' : '/opt/dd'; optEnv = { npm_config_devdir: dev } }
  if (s.devdir === 'trailing') { dev = win ? 'C:\\dd' : '/opt/dd'; optArgs = ['--devdir=' + dev + (win ? '\\' : '/')] }
  w.devDir = dev
  m.disk.put(j(m.cwd, 'precious.txt'), 'precious')
  m.disk.put(j(m.homedir, 'precious.txt'), 'precious')
  m.disk.put(j(m.path.dirname(dev), 'node-gyp-other', 'x'), 'precious')
  const store = new Map() // version directory -> 'complete' or 'broken'
  for (const v of s.initial) { const rel = w.rel(v); if (rel) { w.place(rel, { arch: [m.arch], devDir: dev }); store.set(rel.versionDir, 'complete') } }
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const root = win ? 'C:\\' : '/'
  const outside = () => { const t = m.disk.tree(root) || {}; const out = {}; for (const k of Object.keys(t)) { const a = win ? k : '/' + k.replace(/^\//, ''); const full = win ? (a.startsWith('C:') ? a : 'C:\\' + a) : a; const f = full.replace(/\\/g, '/'); const d = dev.replace(/\\/g, '/'); const tmp = m.tmpdir.replace(/\\/g, '/'); if (f === d || f.startsWith(d + '/') || d.startsWith(f + '/') || f === tmp || f.startsWith(tmp + '/')) continue; out[f] = t[k].type === 'file' ? t[k].data.length : t[k].type } return JSON.stringify(out) }
  const dirs = () => { const n = m.disk.node(dev); return n ? [...n.entries.values()].map((e) => e.name).sort() : [] }
  const complete = (rel) => compareInstall(m.disk, w.dir(rel, dev), rel, { win, arch: m.arch, otherArchs: true }).length === 0 && w.marker(rel, dev) >= 11
  let evaluations = 0
  for (let k = 0; k < s.phases.length && !violations.length; k++) {
    const ph = JSON.parse(JSON.stringify(s.phases[k]))
    const spec = ph.procs[0]
    const words = spec.args.filter((a) => !a.startsWith('--'))
    spec.args = [...spec.args, ...optArgs]
    Object.assign(spec.env = spec.env || {}, optEnv)
    const before = {}
    for (const d of dirs()) before[d] = w.snapshot(j(dev, d))
    const outsideBefore = outside()
    const r = await w.phase(ph)
    const p = r.list[0]
    const eff = r.applied.filter((f) => !G.harmless(f))
    const what = `step ${k + 1} (${spec.args.map((a) => JSON.stringify(a)).join(' ')})`
    evaluations++
    if (r.overrun) { bad('hang', what + ' never finished'); break }
    if (outside() !== outsideBefore) bad('escaped', `${what} changed something outside the devdir`)
    // the model runs the same commands
    const touched = new Set()
    let ok = true
    const target = (spec.env.npm_config_target || (spec.args.find((a) => a.startsWith('--target=')) || '').slice(9)).replace(/^v/, '')
    const expectList = []
    let unknown = false
    const cmds = []
    for (const a of words) { if (['install', 'remove', 'rm', 'list', 'ls'].includes(a)) cmds.push([a]); else cmds[cmds.length - 1].push(a) }
    const model = new Map(store)
    let absent = null
    for (const c of cmds) {
      if (!ok) break
      const raw = c[1] === undefined || c[1] === '' ? target : c[1]
      const plain = /^v?\d+\.\d+\.\d+(-.*)?$/.test(raw) ? raw.replace(/^v/, '') : raw
      if (c[0] === 'install') {
        const rel = w.rel(plain)
        if (!rel) { ok = false; break } // (shrunk scenario without that release)
        touched.add(rel.versionDir)
        model.set(rel.versionDir, 'complete')
      } else if (c[0] === 'remove' || c[0] === 'rm') {
        if (!raw) { ok = false; break }
        const inside = m.path.resolve(dev, plain) === j(dev, m.path.basename(m.path.resolve(dev, plain))) && m.path.resolve(dev, plain) !== dev
        if (!inside) { ok = false; unknown = !raw.match(/\.\.|^[/.]|:/) ; break }
        const name = m.path.basename(m.path.resolve(dev, plain))
        touched.add(name)
        if (!model.has(name)) absent = name
        model.delete(name)
      } else expectList.push([...model.keys()].sort())
    }
    const after = dirs()
    for (const d of new Set([...Object.keys(before), ...after])) {
      if (touched.has(d)) continue
      const now = after.includes(d) ? w.snapshot(j(dev, d)) : undefined
      if (now !== before[d]) bad('disturbed', `${what} ${before[d] === undefined ? 'created' : now === undefined ? 'deleted' : 'changed'} ${d}`)
    }
    if (p.signal) {
      for (const d of touched) { if (after.includes(d)) { const rel = w.rel(d) || w.releases.find((x) => x.versionDir === d); store.set(d, rel && complete(rel) ? 'complete' : 'broken') } else store.delete(d) }
      continue
    }
    if (p.exitCode === 0) {
      if (!ok && !unknown) bad('false-success', `${what} reported success`)
      if (eff.length === 0 || true) {
        for (const d of touched) {
          const rel = w.releases.find((x) => x.versionDir === d)
          if (model.has(d) && !(rel && complete(rel))) bad('incomplete', `${what} reported success but ${d} is not completely installed`)
          if (!model.has(d) && after.includes(d)) bad('not-removed', `${what} reported success but ${d} is still there`)
        }
        const printed = p.stdoutText.split('\n').map((x) => x.trim()).filter((x) => /^(iojs-)?\d+\.\d+\.\d+(-[\w.-]+)?$/.test(x)).sort()
        if (expectList.length) {
          const want = [].concat(...expectList).sort()
          if (JSON.stringify(printed) !== JSON.stringify(want)) bad('wrong-list', `${what} printed ${JSON.stringify(p.stdoutText)} while the store held ${JSON.stringify(want)}`)
        }
        if (absent && !p.stdoutText.includes(absent)) bad('not-reported', `${what} did not say that ${absent} was absent: ${JSON.stringify(p.stdoutText)}`)
      }
      store.clear()
      for (const [d, v] of model) store.set(d, v)
    } else {
      if (ok && !eff.length) bad('refused', `${what} failed although nothing went wrong: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
      for (const d of touched) { if (after.includes(d)) { const rel = w.releases.find((x) => x.versionDir === d); store.set(d, rel && complete(rel) ? 'complete' : 'broken') } else store.delete(d) }
      // what failed half way must not pass for an installation
      for (const d of touched) { const rel = w.releases.find((x) => x.versionDir === d); if (rel && after.includes(d) && !complete(rel) && w.marker(rel, dev) >= 11 && compareInstall(m.disk, w.dir(rel, dev), rel, { win, arch: m.arch, otherArchs: true }).some((q) => !/\.lib$/.test(q.split(' ').pop()) )) bad('trusted-remainder', `${what} failed and left an incomplete ${d} marked as installed`) }
    }
  }
  return { violations, w, ops: w.ops, evaluations, nontrivial: true }
}

module.exports = { id: 'C06', families: FAMILIES, generate, run }
