'use strict'
// The simulated machine(s): releases on a server, disk layout, programs that can be spawned.
const zlib = require('zlib')
const crypto = require('crypto')
const realPath = require('path')
const { Disk } = require('./simfs')
const { SimProcess, REPO } = require('./simproc')
const { Kernel, setActive } = require('./kernel')
const { Net } = require('./simnet')

// ---------- tarballs ----------
function tarHeader (name, size, type, mode) {
  const h = Buffer.alloc(512)
  let prefix = ''
  if (Buffer.byteLength(name) > 100) {
    const i = name.lastIndexOf('/', 100 + (name.length - 101 > 155 ? 0 : 0))
    const cut = name.slice(0, name.length - 1).lastIndexOf('/', 154)
    prefix = name.slice(0, cut)
    name = name.slice(cut + 1)
    if (i < 0 || Buffer.byteLength(name) > 100) throw new Error('name too long')
  }
  h.write(name, 0, 100)
  h.write(mode.toString(8).padStart(7, '0') + '\0', 100)
  h.write('0000000\0', 108); h.write('0000000\0', 116)
  h.write(size.toString(8).padStart(11, '0') + '\0', 124)
  h.write('00000000000\0', 136)
  h.write('        ', 148)
  h.write(type, 156)
  h.write('ustar\0' + '00', 257)
  h.write(prefix, 345, 155)
  let sum = 0
  for (const b of h) sum += b
  h.write(sum.toString(8).padStart(6, '0') + '\0 ', 148)
  return h
}
function makeTar (entries) {
  const parts = []
  for (const e of entries) {
    if (e.dir) { parts.push(tarHeader(e.name + '/', 0, '5', 0o755)); continue }
    const data = Buffer.from(e.data)
    parts.push(tarHeader(e.name, data.length, '0', e.mode || 0o644), data)
    if (data.length % 512) parts.push(Buffer.alloc(512 - data.length % 512))
  }
  parts.push(Buffer.alloc(1024))
  return Buffer.concat(parts)
}
// a well-formed gzip of a tar that is cut short, has a damaged entry header, or holds no header file
function damageTar (tgz, how, frac) {
  let t = zlib.gunzipSync(tgz)
  const at = []
  for (let o = 0; o < t.length && t[o]; ) { const size = parseInt(t.toString('latin1', o + 124, o + 135), 8); at.push([o, 512 + Math.ceil(size / 512) * 512, t.toString('latin1', o, o + 100).replace(/\0.*/s, '')]); o += at[at.length - 1][1] }
  if (how === 'none') t = Buffer.concat([...at.filter((e) => !/\.(h|gypi)$/.test(e[2])).map((e) => t.subarray(e[0], e[0] + e[1])), Buffer.alloc(1024)])
  else {
    // cut inside the data of a file: an archive that ends between two entries is one that holds less, not a broken one
    const files = at.filter((e) => /\.(h|gypi)$/.test(e[2]) && (how !== 'cut' || e[1] > 512))
    const e = files[Math.floor(frac * files.length)]
    if (how === 'cut') t = t.subarray(0, e[0] + 512 + Math.floor(frac * (e[1] - 512)))
    else { t = Buffer.from(t); t[e[0] + 148] ^= 1 }
  }
  return gzip(t)
}
const gzip = (b) => zlib.gzipSync(b, { level: 1 })
const sha256 = (b) => crypto.createHash('sha256').update(b).digest('hex')

function text (rng, n) {
  const words = ['#define', 'V8_EXPORT', 'namespace', 'node', 'class', 'inline', 'template', 'static', 'const', 'int', 'uv_loop_t', 'napi_env', '\n']
  let s = ''
  while (s.length < n) s += words[rng.int(words.length)] + ' ' + rng.int(1e6) + (rng.bool(0.2) ? '\n' : ' ')
  return s.slice(0, n)
}

function noise (rng, n) {
  const c = crypto.createCipheriv('aes-128-ctr', sha256(String(rng.u32())).slice(0, 16), Buffer.alloc(16))
  return c.update(Buffer.alloc(Math.floor(n * 3 / 4))).toString('base64')
}

// content of one release's headers: entries of the tarball, the expected installed files
function makeRelease (rng, { version, name = 'node', size = 'small', dirs = true, content, tar }) {
  const root = `${name}-v${version}`
  const inc = 'include/node'
  const [ma, mi, pa] = version.split('-')[0].split('.')
  const files = {}
  files[`${inc}/node_version.h`] = `#define NODE_MAJOR_VERSION ${ma}\n#define NODE_MINOR_VERSION ${mi}\n#define NODE_PATCH_VERSION ${pa}\n`
  files[`${inc}/common.gypi`] = `{ 'target_defaults': { 'default_configuration': 'Release' } } # ${text(rng, 40).replace(/\n/g, ' ')}\n`
  files[`${inc}/config.gypi`] = `# Do not edit.\n{ 'target_defaults': { 'cflags': [ '-Wrong' ], 'default_configuration': 'Release', 'defines': [], 'include_dirs': [], 'libraries': [] },\n  'variables': { 'host_arch': 'x64', 'from_headers': '${version}', 'v8_enable_i18n_support': 1 } }\n`
  const n = size === 'tiny' ? 1 : size === 'small' ? 3 + rng.int(4) : 8 + rng.int(12)
  for (let i = 0; i < n; i++) {
    const sub = rng.pick(['', 'uv/', 'openssl/archs/linux-x86_64/asm/', 'v8/cppgc/', 'cppgc/internal/'])
    const len = rng.bool(0.15) ? 0 : size === 'tiny' ? 50 : rng.bool(0.2) ? 20000 + rng.int(60000) : 100 + rng.int(3000)
    files[`${inc}/${sub}h${i}.${rng.bool(0.85) ? 'h' : 'gypi'}`] = text(rng, len)
  }
  if (rng.bool(0.2)) files[`${inc}/.hidden.h`] = text(rng, 60)
  if (rng.bool(0.3)) files[`${inc}/` + 'deep/'.repeat(4) + 'very-long-directory-name-for-a-header/'.repeat(2) + 'x.h'] = text(rng, 300)
  // a release of real size: what is checked, buffered or counted only up to some size shows
  if (size === 'big') files[`${inc}/big.h`] = noise(rng, (1500 + rng.int(1000)) * 1024)
  const junk = { 'README.md': text(rng, 500), LICENSE: text(rng, 800), 'CHANGELOG.md': text(rng, 300), 'include/node/notaheader.txt': 'x', 'share/doc/h.hpp': '//', 'bin/node': text(rng, 200), 'include/node/foo.h.in': 'in' }
  const entries = [{ dir: true, name: root }]
  const seen = new Set()
  const all = Object.keys(files).concat(rng.sample(Object.keys(junk), rng.int(5)))
  for (const f of rng.bool() ? all.sort() : rng.shuffle(all)) {
    if (dirs) {
      const ps = f.split('/').slice(0, -1)
      for (let i = 1; i <= ps.length; i++) {
        const d = ps.slice(0, i).join('/')
        if (!seen.has(d)) { seen.add(d); entries.push({ dir: true, name: root + '/' + d }) }
      }
    }
    entries.push({ name: root + '/' + f, data: files[f] !== undefined ? files[f] : junk[f], mode: f.startsWith('bin/') ? 0o755 : 0o644 })
  }
  // an archive that was published broken: its checksum is right, what it holds is not
  const tgz = tar ? damageTar(gzip(makeTar(entries)), tar.how, tar.frac) : gzip(makeTar(entries))
  const libs = {}
  for (const a of ['x86', 'x64', 'arm64']) libs[a] = Buffer.from(`LIB ${name} ${version} ${a} ` + (size === 'big' ? noise(rng, (1200 + rng.int(600)) * 1024) : text(rng, 200 + rng.int(3000))))
  return { version, name, files, tgz, libs, headersSemver: headersTar(version), versionDir: (name !== 'node' ? name + '-' : '') + version }
}
function headersTar (v) {
  const [a, b, c] = v.split('-')[0].split('.').map(Number)
  return a >= 3 || (a === 0 && b === 12 && c >= 10) || (a === 0 && b === 10 && c >= 42)
}

// publish a release on the simulated network under a dist base url (independent of the code's URL logic)
function publish (net, rel, base, opts = {}) {
  base = base.replace(/\/+$/, '')
  const dir = `${base}/v${rel.version}/`
  // named on the command line, a prerelease is taken from the archive of its sources
  const tarName = `${rel.name}-v${rel.version}${headersTar(rel.version) && !opts.full ? '-headers' : ''}.tar.gz`
  const major = Number(rel.version.split('.')[0])
  const libPath = { x86: major >= 1 ? `win-x86/${rel.name}.lib` : `${rel.name}.lib`, x64: major >= 1 ? `win-x64/${rel.name}.lib` : `x64/${rel.name}.lib`, arm64: major >= 1 ? `win-arm64/${rel.name}.lib` : `arm64/${rel.name}.lib` }
  const put = (n, b) => {
    if (opts.redirect && n !== 'SHASUMS256.txt') { net.put(opts.redirect + n, b); net.put(dir + n, '', { status: 302, redirect: opts.redirect + n }) } else net.put(dir + n, b)
  }
  put(tarName, rel.tgz)
  for (const a of ['x86', 'x64', 'arm64']) put(libPath[a], rel.libs[a])
  const lines = [`${sha256(rel.tgz)}  ${tarName}`, `${sha256(Buffer.from('full'))}  ${rel.name}-v${rel.version}.tar.xz`]
  if (!headersTar(rel.version)) lines[1] = `${sha256(Buffer.from('full'))}  ${rel.name}-v${rel.version}.msi`
  for (const a of ['x86', 'x64', 'arm64']) lines.push(`${sha256(rel.libs[a])}  ${libPath[a]}`)
  for (let i = 0; i < 5; i++) lines.push(`${sha256(Buffer.from('other' + i))}  other-${i}.pkg`)
  lines.sort((a, b) => a.split('  ')[1] < b.split('  ')[1] ? -1 : 1)
  // variations of the published checksum file; benign ones must not matter, the others must fail the install
  let nl = '\n'
  let tail = '\n'
  for (const e of opts.sha || []) {
    const [what, arg] = e.split(':')
    const file = arg === 'tar' ? tarName : arg ? libPath[arg] : null
    const at = lines.findIndex((l) => l.split('  ')[1] === file)
    if (what === 'dotslash') for (let i = 0; i < lines.length; i++) lines[i] = lines[i].replace('  ', '  ./')
    else if (what === 'crlf') nl = '\r\n'
    else if (what === 'notail') tail = ''
    else if (what === 'tabs') for (let i = 0; i < lines.length; i++) lines[i] = lines[i].replace('  ', ' \t')
    else if (what === 'drop') lines.splice(at, 1)
    else if (what === 'wrong') lines[at] = sha256(Buffer.from('evil')) + '  ' + file
    else if (what === 'swap') lines[at] = sha256(rel.libs.x64) + '  ' + file
    else if (what === 'prefix') lines[at] = lines[at].slice(0, 32) + '  ' + file
    else if (what === 'nohash') lines[at] = 'undefined  ' + file
    else if (what === 'empty') lines.length = 0
    else if (what === 'html') { lines.length = 0; lines.push('<html> not a checksum file', '</html>') }
    else if (what === 'othername') lines[at] = lines[at].split('  ')[0] + '  x-' + file
  }
  net.put(dir + 'SHASUMS256.txt', lines.join(nl) + tail)
  return { dir, tarName, tarUrl: dir + tarName, shaUrl: dir + 'SHASUMS256.txt', libUrl: Object.fromEntries(Object.keys(libPath).map((a) => [a, dir + libPath[a]])), libPath }
}

const winArch = { ia32: 'x86', x64: 'x64', arm64: 'arm64' }

// expected content of <devdir>/<versionDir> after success (without the installVersion marker)
function expectedFiles (rel, { win, arch }) {
  const out = {}
  for (const f of Object.keys(rel.files)) out[f] = Buffer.from(rel.files[f])
  if (win) out[`${arch}/${rel.name}.lib`] = rel.libs[winArch[arch]]
  return out
}

function compareInstall (disk, dir, rel, opts) {
  const have = disk.files(dir)
  if (!have) return ['missing directory ' + dir]
  const exp = expectedFiles(rel, opts)
  const problems = []
  const seen = new Set()
  for (const f of Object.keys(exp)) {
    const h = have[f]
    seen.add(f)
    if (h === undefined) problems.push(`missing ${f}`)
    else if (typeof h === 'string') problems.push(`${f} is a link`)
    else if (!h.equals(exp[f])) problems.push(`wrong content in ${f} (${h.length} bytes instead of ${exp[f].length})`)
  }
  for (const f of Object.keys(have)) {
    if (seen.has(f) || f === 'installVersion') continue
    if (opts.win && /^(ia32|x64|arm64)\//.test(f) && opts.otherArchs) {
      const [a, n] = f.split('/')
      if (n === rel.name + '.lib' && rel.libs[winArch[a]].equals(have[f])) continue
    }
    problems.push(`unexpected file ${f}`)
  }
  return problems
}

// ---------- machine ----------
class Machine {
  constructor ({ seed, platform = 'linux', arch = 'x64', sched, topology, hostVersion = '20.11.1', hostRelease, cpus, maxEvents, netChunk, writeChunk, tty }) {
    this.kernel = new Kernel({ seed, sched, maxEvents })
    this.kernel.netChunk = netChunk || 8192
    this.kernel.writeChunk = writeChunk || 16384
    this.platform = platform
    this.arch = arch
    this.win = platform === 'win32'
    this.disk = new Disk({ platform, now: () => 1700000000000 + this.kernel.now })
    this.net = new Net(this.kernel, topology)
    this.hostVersion = hostVersion
    this.hostRelease = hostRelease
    this.path = this.win ? realPath.win32 : realPath.posix
    this.tmpdir = this.win ? 'C:\\Users\\u\\AppData\\Local\\Temp' : '/tmp'
    this.homedir = this.win ? 'C:\\Users\\u' : '/home/u'
    this.cacheDir = this.win ? 'C:\\Users\\u\\AppData\\Local\\node-gyp\\Cache' : platform === 'darwin' ? '/home/u/Library/Caches/node-gyp' : '/home/u/.cache/node-gyp'
    this.cwd = this.win ? 'C:\\work\\addon' : '/work/addon'
    this.cpus = cpus
    this.tty = tty
    for (const d of [this.tmpdir, this.homedir, this.cwd]) this.disk.mkdirp(d)
    this.programs = {}
    this.plan = null
    this.spawned = []
  }

  j (...a) { return this.path.join(...a) }

  // node-gyp process
  gyp (name, args, opts = {}) {
    const env = this.win
      ? { Path: 'C:\\Windows\\System32;C:\\tools', SystemRoot: 'C:\\Windows', USERPROFILE: this.homedir, LOCALAPPDATA: 'C:\\Users\\u\\AppData\\Local', PATHEXT: '.COM;.EXE;.BAT;.CMD', SystemDrive: 'C:', USERNAME: 'u', ProgramFiles: 'C:\\Program Files', 'ProgramFiles(x86)': 'C:\\Program Files (x86)', ...opts.env }
      : { PATH: '/usr/local/bin:/usr/bin:/bin', HOME: this.homedir, USER: 'u', ...opts.env }
    for (const k of Object.keys(env)) if (env[k] === undefined) delete env[k]
    const p = new SimProcess({
      name, kernel: this.kernel, disk: this.disk, net: this.net, platform: this.platform, arch: opts.arch || this.arch,
      argv: [this.win ? 'C:\\Program Files\\nodejs\\node.exe' : '/usr/local/bin/node', this.win ? 'C:' + REPO.replace(/\//g, '\\') + '\\bin\\node-gyp.js' : REPO + '/bin/node-gyp.js', ...args],
      env, cwd: opts.cwd || this.cwd, tmpdir: opts.tmpdir || this.tmpdir, homedir: this.homedir, user: 'u', noUser: opts.noUser,
      plan: (proc, op) => this.plan ? this.plan(proc, op) : null,
      version: 'v' + (opts.hostVersion || this.hostVersion), release: opts.hostRelease || this.hostRelease || { name: 'node' },
      config: opts.config || { target_defaults: { cflags: ['-from-process-config'], default_configuration: 'Release', defines: [], include_dirs: [], libraries: [] }, variables: { host_arch: 'x64', from_process: 1, node_prefix: '/usr/local', napi_build_version: '9', clang: 0, node_shared: false, node_use_openssl: true } },
      cpus: this.cpus, tty: opts.tty || this.tty, execPath: opts.execPath, startDelay: opts.startDelay,
      programs: (rec, proc) => { this.spawned.push(rec); return this.program(rec, proc) }
    })
    return p
  }

  launch (name, args, opts) {
    const p = this.gyp(name, args, opts)
    if (this.onLaunch) this.onLaunch(p)
    p.start(REPO + '/bin/node-gyp.js')
    return p
  }

  program (rec, proc) {
    const base = this.path.basename(rec.command).toLowerCase()
    const h = this.programs[rec.command] || this.programs[base] || this.programs['*']
    return h ? h(rec, proc) : null
  }

  async run () {
    setActive(this.kernel)
    try { await this.kernel.run() } finally { setActive(null) }
  }
}

module.exports = { makeTar, damageTar, gzip, sha256, makeRelease, publish, expectedFiles, compareInstall, Machine, winArch, headersTar, text }
