'use strict'
// C01: a successful header install is complete and verified.
const { World } = require('../scn')
const programs = require('../programs')
const G = require('../gen')
const { winArch, damageTar } = require('../world')

const FAMILIES = ['clean', 'net', 'net', 'disk', 'disk', 'sha', 'mixed', 'sha-benign', 'tarball', 'badtar']

async function generate (rng, i) {
  const family = FAMILIES[i % FAMILIES.length]
  const { w, version } = G.world(rng)
  if (family === 'tarball' || rng.bool(0.3)) w.platform = i % 2 ? 'linux' : 'win32'
  const s = { family, seed: rng.u32(), sched: G.sched(rng), world: w, setup: [], version, command: rng.pick(['install', 'install', 'configure']) }
  const win = w.platform === 'win32'
  let base = rng.pick([undefined, undefined, 'https://mirror.test/node/', 'http://10.0.0.1:8080/dl', 'https://mirror.test/x/y//'])
  const r = G.releaseSpec(rng, version, { base: base || G.DEFAULT_BASE })
  if (['clean', 'net', 'sha', 'mixed', 'tarball'].includes(family) && rng.bool(0.07)) { r.size = 'big'; w.netChunk = 65536; w.writeChunk = 65536 }
  const args = []
  const env = {}
  let target = w.arch
  if (win && rng.bool(0.4)) {
    target = rng.pick(['ia32', 'x64', 'arm64'])
    if (rng.bool()) args.push('--arch=' + target); else args.push('--target_arch=' + target)
  }
  // old releases have no arm64 library layout worth publishing, the generator keeps to what existed
  if (target === 'arm64' && Number(version.split('.')[0]) < 8) { target = 'x64'; args.length = 0; w.arch = 'x64' }
  s.target = target
  const pre = version.includes('-')
  const how = pre ? 3 : G.OLD.includes(version) ? rng.int(3) : rng.int(4)
  if (how === 0 && s.command !== 'install') { args.unshift(s.command, '--target=' + version) } else if (how === 0) args.unshift(s.command, rng.pick(['', 'v']) + version)
  else if (how === 1) args.unshift(s.command, '--target=' + version)
  else if (how === 2) { args.unshift(s.command); env.npm_config_target = 'v' + version } else { args.unshift(s.command); w.hostVersion = version; }
  if (pre) { r.base = base = G.DEFAULT_BASE }
  if (base && !pre) {
    const k = rng.int(3)
    if (k === 0) args.push('--dist-url=' + base); else if (k === 1) env.npm_config_disturl = base; else env.NODEJS_ORG_MIRROR = base
  } else if ((pre || rng.bool(0.15)) && w.hostVersion === version) {
    w.hostRelease = { name: r.name === 'iojs' ? 'io.js' : 'node', headersUrl: `${G.DEFAULT_BASE}/v${version}/${r.name}-v${version}-headers.tar.gz`, libUrl: `${G.DEFAULT_BASE}/v${version}/win-x64/${r.name}.lib` }
    if (Number(version.split('.')[0]) < 3) delete w.hostRelease.headersUrl
    if (Number(version.split('.')[0]) < 4) delete w.hostRelease.libUrl
  }
  if (rng.bool(0.15)) r.redirect = 'https://cdn.test/files/'
  if (rng.bool(0.2)) args.push('--loglevel=' + rng.pick(['silly', 'verbose', 'error', 'silent']))
  if (s.command === 'install' && rng.bool(0.3)) args.push('--ensure')
  if (family === 'sha') r.sha = [rng.pick(['drop:', 'wrong:', 'prefix:', 'nohash:', 'othername:', 'drop:', 'wrong:']) + (win && rng.bool() ? winArch[target] : 'tar')]
  if (family === 'sha' && rng.bool(0.15)) r.sha = [rng.pick(['empty', 'html', 'swap:tar'])]
  if (family === 'badtar') r.tar = { how: rng.pick(['cut', 'header', 'none']), frac: rng.float() }
  if (family === 'sha-benign') r.sha = rng.sample(['dotslash', 'crlf', 'notail', 'tabs'], rng.range(1, 2))
  if (family === 'tarball') { args.push(win ? '--tarball=C:\\dl\\n.tgz' : '--tarball=/dl/n.tgz'); s.tarball = rng.pick(['good', 'good', 'truncated', 'garbage', 'missing', 'empty', 'tar:cut', 'tar:header', 'tar:none']); s.frac = rng.float() }
  w.releases.push(r)
  // what an earlier install left: other content under the same names. It is installed over when that is asked for
  s.prior = !args.includes('--ensure') && (s.command === 'install' || s.tarball) && rng.bool(family === 'tarball' ? 0.5 : 0.15)
  s.phases = [{ procs: [{ name: 'p1', args, env }], faults: [] }]
  const nf = family === 'net' || family === 'disk' ? 1 : family === 'mixed' ? rng.range(2, 3) : family === 'tarball' && rng.bool(0.4) ? 1 : 0
  if (nf) {
    const probe = await run(s, { record: true })
    for (let k = 0; k < nf; k++) {
      const kind = family === 'net' ? 'net' : family === 'disk' ? 'disk' : rng.pick(['net', 'disk', 'disk'])
      const op = G.pickOp(rng, probe.ops, (o) => kind === 'net' ? o[1] === 'net' : o[1].startsWith('fs.'))
      if (op) s.phases[0].faults.push(G.faultAt(rng, op))
    }
  }
  return s
}

async function run (s) {
  const w = new World(s)
  programs.install(w)
  const rel = w.releases[0]
  const win = w.win
  if (s.tarball) {
    let data = rel.tgz
    if (s.tarball === 'truncated') data = data.subarray(0, Math.floor(data.length * (0.05 + 0.9 * s.frac)))
    if (s.tarball.startsWith('tar:')) data = damageTar(rel.tgz, s.tarball.slice(4), s.frac)
    if (s.tarball === 'garbage') { data = Buffer.from(data); for (let i = 0; i < data.length; i += 3) data[i] ^= 0x55 }
    if (s.tarball === 'empty') data = Buffer.alloc(0)
    if (s.tarball !== 'missing') w.m.disk.put(win ? 'C:\\dl\\n.tgz' : '/dl/n.tgz', data)
  }
  if (s.prior) {
    w.place(rel, { arch: [s.target] })
    for (const f of Object.keys(rel.files)) w.m.disk.put(w.m.j(w.dir(rel), f), rel.files[f] + '/* old */')
  }
  w.m.disk.put(w.m.j(w.m.cwd, 'binding.gyp'), '{}')
  if (win) require('../vsworld').install(w)
  const violations = []
  const bad = (kind, text) => violations.push({ kind, text })
  const r = await w.phase(s.phases[0])
  const p = r.procs.p1
  const effective = r.applied.filter((f) => !G.harmless(f))
  const badSha = (rel.spec.sha || []).some((e) => !['dotslash', 'crlf', 'notail', 'tabs'].includes(e))
  const badTar = (s.tarball && s.tarball !== 'good') || rel.spec.tar
  if (p) {
    if (r.overrun || p.exitCode === null) bad('hang', 'the command never finished')
    else if (p.exitCode === 0) {
      const tmpDev = w.m.j(w.m.tmpdir, '.node-gyp')
      const fellBack = r.applied.some((f) => f.error === 'EACCES') && w.m.disk.exists(w.dir(rel, tmpDev))
      for (const q of w.successProblems(p, rel, { arch: s.target, devDir: fellBack ? tmpDev : undefined })) bad(q.kind, `install reported success but ${q.text}`)
    } else if (!effective.length && !badSha && !badTar) bad('refused', `install failed (exit ${p.exitCode}) although nothing went wrong: ${p.stderrText.split('\n').filter((l) => /ERR! stack/.test(l)).slice(0, 2).join(' ')}`)
  }
  return { violations, w, ops: w.ops, nontrivial: r.applied.length > 0 || badSha || badTar || s.family === 'clean' }
}

module.exports = { id: 'C01', families: FAMILIES, generate, run }
