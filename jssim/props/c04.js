'use strict'
// C04: an unwritable devdir falls back once to a temporary devdir.
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { compareInstall } = require('../world')

const FAMILIES = ['plain', 'version', 'configure', 'tmpcwd', 'both', 'sequence', 'tmpstate', 'fault', 'iojs', 'arch']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const platform = family === 'arch' ? 'win32' : rng.pick(['linux', 'linux', 'linux', 'darwin', 'win32'])
  const { w } = G.world(rng, { platform })
  const win = platform === 'win32'
  let version = family === 'iojs' ? rng.pick(['3.3.1', '1.8.4', '2.5.0']) : rng.pick(G.VERSIONS)
  const explicit = family === 'version' || family === 'iojs' || (family !== 'configure' && rng.bool(0.4))
  if (!explicit) w.hostVersion = version
  else do { w.hostVersion = rng.pick(G.VERSIONS) } while (w.hostVersion === version)
  if (family === 'fault' && rng.bool(0.2)) version = w.hostVersion
  if (w.arch === 'arm64' && Number(version.split('.')[0]) < 8) w.arch = 'x64'
  w.releases.push(G.releaseSpec(rng, version, { base: G.DEFAULT_BASE, size: rng.pick(['tiny', 'small', 'large']) }))
  // the host's own headers are on the server too: installing those instead must not go unnoticed
  if (w.hostVersion !== version) w.releases.push(G.releaseSpec(rng, w.hostVersion, { base: G.DEFAULT_BASE, size: 'tiny' }))
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, version, pick: rng.u32(), tmpcwd: family === 'tmpcwd' || rng.bool(0.1), below: rng.bool(0.15) }
  s.where = family === 'arch' ? 'arch-noaccess' : rng.pick(['devdir-noaccess', 'devdir-nowrite', 'devdir-nowrite', 'parent-nowrite', 'parent-noaccess'])
  s.tmp = family === 'both' ? rng.pick(['nowrite', 'noaccess', 'tmp-nowrite', 'tmp-noaccess']) : family === 'tmpstate' ? rng.pick(['complete', 'outdated', 'nomarker', 'otherversion']) : 'none'
  s.devdir = rng.pick(['', '', '', 'arg', 'env', 'tilde'])
  const how = explicit ? (rng.bool(0.6) && family !== 'configure' ? 'arg' : 'target') : 'host'
  const v = rng.pick(['', 'v']) + version
  let args
  const inst = how === 'arg' ? ['install', v] : ['install']
  if (family === 'sequence') args = rng.pick([[...inst, 'list'], [...inst, 'list', 'remove', version], ['configure', 'build'], ['configure', 'list'], ['rebuild'], [...inst, 'remove', version, 'list']])
  else if (family === 'configure' || (family === 'arch' && rng.bool())) args = rng.pick([['configure'], ['configure'], ['configure', 'build']])
  else if (family === 'tmpcwd') args = rng.pick([inst, ['configure'], ['configure', 'build'], ['rebuild'], inst])
  else if (family === 'tmpstate') args = rng.pick([[...inst, '--ensure'], ['configure'], inst])
  else args = rng.pick([inst, inst, [...inst, '--ensure'], ['configure']])
  if ((how === 'arg' && args[0] !== 'install') || how === 'target') args = [...args, '--target=' + version]
  if (family === 'arch' && args[0] === 'install' && !args.includes('--ensure')) args.push('--ensure')
  s.phases = [{ procs: [{ name: 'p1', args, env: {}, noUser: rng.bool(0.2) }], faults: [] }]
  if (family === 'fault') {
    const probe = await run(s)
    const dev = probe.w.m.j(probe.w.m.tmpdir, '.node-gyp')
    const op = G.pickOp(rng, probe.ops, (o) => o[1] === 'net' || (o[1].startsWith('fs.') && o[3].includes(dev)))
    if (op) { const f = G.faultAt(rng, op); if (f.error === 'EACCES') f.error = 'EIO'; s.phases[0].faults.push(f) }
  }
  return s
}

async function run (s) {
  const w = new World(s)
  programs.install(w)
  const m = w.m
  const win = w.win
  if (win) require('../vsworld').install(w)
  const rel = w.releases[0]
  const tmpDev = m.j(m.tmpdir, '.node-gyp')
  const ph = JSON.parse(JSON.stringify(s.phases[0]))
  const spec = ph.procs[0]
  if (s.tmpcwd) spec.cwd = m.tmpdir
  // a project that only lies below the temporary directory, or beside it
  else if (s.below) spec.cwd = s.pick % 3 ? m.j(m.tmpdir, 'npm-123', 'addon') : m.tmpdir + '-addon'
  const cwd = spec.cwd || m.cwd
  m.disk.put(m.j(cwd, 'binding.gyp'), '{}')
  const dev = s.devdir ? m.j(m.homedir, 'dd', 'gyp') : m.cacheDir
  w.devDir = dev
  if (s.devdir === 'env') spec.env.npm_config_devdir = dev
  else if (s.devdir) spec.args = [...spec.args, '--devdir=' + (s.devdir === 'tilde' ? '~' + m.path.sep + m.path.relative(m.homedir, dev) : dev)]
  const parent = m.path.dirname(dev)
  m.disk.mkdirp(parent)
  switch (s.where) {
    case 'devdir-noaccess': m.disk.mkdirp(dev); m.disk.node(dev).noAccess = true; break
    case 'devdir-nowrite': m.disk.mkdirp(dev); m.disk.node(dev).noWrite = true; break
    case 'parent-nowrite': m.disk.node(parent).noWrite = true; break
    case 'parent-noaccess': m.disk.node(parent).noAccess = true; break
    case 'arch-noaccess': w.place(rel, { arch: [m.arch] }); m.disk.node(m.j(w.dir(rel), m.arch)).noAccess = true; break
  }
  switch (s.tmp) {
    case 'complete': w.place(rel, { arch: [m.arch], devDir: tmpDev }); break
    case 'outdated': w.place(rel, { arch: [m.arch], devDir: tmpDev, marker: 9, damage: { pick: s.pick, frac: 0.4, how: 'torn' } }); break
    case 'nomarker': w.place(rel, { arch: [], devDir: tmpDev, marker: null }); break
    case 'otherversion': m.disk.put(m.j(tmpDev, '99.0.0', 'include', 'node', 'a.h'), 'x'); break
    case 'nowrite': m.disk.mkdirp(tmpDev); m.disk.node(tmpDev).noWrite = true; break
    case 'noaccess': m.disk.mkdirp(tmpDev); m.disk.node(tmpDev).noAccess = true; break
    case 'tmp-nowrite': m.disk.node(m.tmpdir).noWrite = true; break
    case 'tmp-noaccess': m.disk.node(m.tmpdir).noAccess = true; break
  }
  const devBefore = w.snapshot(dev)
  const tmpBefore = w.snapshot(w.dir(rel, tmpDev))
  const otherBefore = w.snapshot(m.j(tmpDev, '99.0.0'))
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const r = await w.phase(ph)
  const p = r.procs.p1
  const eff = r.applied.filter((f) => !G.harmless(f))
  const cmds = spec.args
  const what = `node-gyp ${cmds.join(' ')} with ${s.where}${s.tmp !== 'none' ? ', temporary devdir ' + s.tmp : ''}`
  const removed = (s.tmpcwd && !(s.tmp === 'complete')) || cmds.includes('remove')
  const ensures = cmds.includes('--ensure') || /configure|rebuild/.test(cmds[0])
  const both = ['nowrite', 'noaccess', 'tmp-nowrite', 'tmp-noaccess'].includes(s.tmp)
  const retries = (p.stderrText.match(/attempting to reinstall using temporary dev dir/g) || []).length
  if (r.overrun) bad('hang', what + ' never finished')
  else {
    if (w.snapshot(dev) !== devBefore) bad('devdir-changed', `${what} changed the original devdir`)
    if (w.snapshot(m.j(tmpDev, '99.0.0')) !== otherBefore) bad('disturbed', `${what} changed another version in the temporary devdir`)
    if (retries > 1) bad('loop', `${what} retried ${retries} times`)
    if (both) {
      if (p.exitCode === 0) bad('false-success', `${what} reported success`)
      else if (!/EACCES/.test(p.stderrText)) bad('no-error', `${what} failed without the error: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
    } else if (p.exitCode === 0) {
      if (retries !== 1) bad('no-fallback', `${what} succeeded with ${retries} fallbacks`)
      if (s.tmpcwd || cmds.includes('remove')) {
        if (m.disk.exists(w.dir(rel, tmpDev))) bad('not-removed', `${what} (in ${cwd}) left ${w.dir(rel, tmpDev)}`)
      } else {
        for (const q of compareInstall(m.disk, w.dir(rel, tmpDev), rel, { win, arch: m.arch, otherArchs: true }).slice(0, 1)) bad('incomplete', `${what} reported success but ${q} in ${tmpDev}`)
        if (!(w.marker(rel, tmpDev) >= 11)) bad('no-marker', `${what} succeeded without an installVersion`)
      }
      for (const q of w.successProblems(p, rel, { arch: m.arch, devDir: tmpDev })) if (q.kind === 'unverified') bad('unverified', `${what}: ${q.text}`)
      for (const q of r.requests) if (!q.url.includes('/v' + rel.version + '/')) bad('wrong-version', `${what} downloaded ${q.url}`)
      for (const c of w.children) if (c.tool === 'gyp' && !c.args.includes('-Dnode_root_dir=' + w.dir(rel, tmpDev))) bad('wrong-dir', `${what}: gyp was not given the temporary devdir (${c.args.find((a) => a.startsWith('-Dnode_root_dir'))})`)
      if (cmds.includes('list')) {
        const gone = cmds.indexOf('remove') >= 0 && cmds.indexOf('remove') < cmds.indexOf('list')
        const lines = p.stdoutText.split('\n').map((x) => x.trim())
        if (lines.includes(rel.versionDir) === gone) bad('wrong-list', `${what}: list printed ${JSON.stringify(p.stdoutText)}`)
      }
      if (s.tmp === 'complete' && ensures && r.requests.length) bad('redone', `${what} downloaded although the temporary devdir holds the version`)
    } else {
      if (!eff.length) bad('refused', `${what} failed: ${(/ERR! stack .*/.exec(p.stderrText) || [''])[0]}`)
      const now = w.snapshot(w.dir(rel, tmpDev))
      const removalFault = eff.some((f) => /^fs\.(rmdir|unlink|lstat|readdir|stat|rm)$/.test(f.kind))
      const installed = now !== null && compareInstall(m.disk, w.dir(rel, tmpDev), rel, { win, arch: m.arch, otherArchs: true }).length === 0 && w.marker(rel, tmpDev) >= 11
      if (now !== null && now !== tmpBefore && !installed && !removalFault) bad('left-behind', `${what} failed and left files in ${w.dir(rel, tmpDev)}`)
    }
  }
  return { violations, w, ops: w.ops, nontrivial: true }
}

module.exports = { id: 'C04', families: FAMILIES, generate, run }
