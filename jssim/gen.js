'use strict'
// Pieces shared by the scenario generators.
const { DEFAULT_BASE } = require('./scn')

const VERSIONS = ['20.11.1', '18.19.0', '22.3.0', '16.20.2', '14.0.0', '10.24.1', '8.17.0', '6.17.1', '4.9.1', '24.0.0']
const OLD = ['0.10.48', '0.12.18', '0.10.40', '0.12.7', '0.8.28', '3.3.1', '1.8.4', '2.5.0']
const PRE = ['21.0.0-rc.1', '22.0.0-nightly20240101abcdef', '23.0.0-v8-canary2024']

function iojs (v) { const major = Number(v.split('.')[0]); return major >= 1 && major < 4 }
function releaseSpec (rng, version, extra) {
  return { seed: rng.u32(), version, name: iojs(version) ? 'iojs' : 'node', size: rng.pick(['tiny', 'small', 'small', 'large']), dirs: rng.bool(0.8), ...extra }
}

function sched (rng) {
  return rng.pick([{ mode: 'random', spread: 20, heavy: 0 }, { mode: 'random', spread: 60, heavy: 0.02 }, { mode: 'random', spread: 5, heavy: 0.1 }, { mode: 'fifo' }])
}

function world (rng, { platform, versions } = {}) {
  platform = platform || rng.pick(['linux', 'linux', 'win32', 'win32', 'darwin', 'freebsd'])
  const arch = platform === 'win32' ? rng.pick(['x64', 'x64', 'ia32', 'arm64']) : rng.pick(['x64', 'arm64'])
  const version = rng.bool(0.75) ? rng.pick(VERSIONS) : rng.bool(0.7) ? rng.pick(OLD) : rng.pick(PRE)
  const w = { platform, arch, hostVersion: rng.pick(VERSIONS), netChunk: rng.pick([512, 4096, 8192, 65536, -2048]), writeChunk: rng.pick([1000, 16384, 65536]), releases: [] }
  return { w, version }
}

const FS_ERRORS = {
  'fs.open': ['ENOSPC', 'EIO', 'EMFILE', 'EACCES', 'EROFS'], 'fs.write': ['ENOSPC', 'EIO', 'EDQUOT'], 'fs.close': ['EIO', 'EDQUOT'], 'fs.mkdir': ['ENOSPC', 'EIO', 'EACCES', 'EROFS', 'EPERM'],
  'fs.futimes': ['EPERM', 'EIO'], 'fs.utimes': ['EPERM'], 'fs.fchmod': ['EPERM'], 'fs.chmod': ['EPERM'], 'fs.rename': ['EIO', 'EACCES', 'ENOSPC'], 'fs.unlink': ['EIO', 'EACCES', 'EBUSY'],
  'fs.stat': ['EIO', 'EACCES'], 'fs.lstat': ['EIO', 'EACCES'], 'fs.fstat': ['EIO'], 'fs.read': ['EIO'], 'fs.readdir': ['EIO', 'EACCES', 'EMFILE'], 'fs.rmdir': ['EIO', 'EBUSY', 'EACCES'], 'fs.symlink': ['EIO', 'EACCES', 'ENOSPC'],
  'fs.access': ['EIO'], 'fs.realpath': ['EIO'], 'fs.readlink': ['EIO']
}
const NET_ERRORS = ['ENOTFOUND', 'ECONNREFUSED', 'ECONNRESET', 'ETIMEDOUT', 'EAI_AGAIN', 'CERT_HAS_EXPIRED', 'EPIPE']

function netEffect (rng) {
  return rng.pick([
    () => ({ error: rng.pick(NET_ERRORS) }), () => ({ status: rng.pick([404, 403, 500, 502, 503, 301, 204, 206]) }), () => ({ corrupt: rng.float(), mask: 1 << rng.int(8) }),
    () => ({ truncate: rng.float() }), () => ({ reset: rng.float() }), () => ({ replace: rng.pick(['', '<html>captive portal</html>', 'x'.repeat(600)]) }), () => ({ stall: rng.float() }),
    () => ({ status: 200, body: '<html>captive portal</html>' })
  ])()
}
const benignNet = (f) => f.stall !== undefined

// choose a fault aimed at an operation seen in a recorded fault-free run: op = [proc, kind, nk, target, n]
function faultAt (rng, op) {
  const base = { proc: op[0], kind: op[1], nk: op[2] }
  if (op[1] === 'net') return { ...base, ...netEffect(rng) }
  // short writes: not while tar extracts (known finding: the fs-minipass dependency drops the rest), everywhere else
  if (op[1] === 'fs.write' && !/[\\/]include[\\/]/.test(op[3]) && rng.bool(0.3)) return { ...base, short: 0.2 + rng.float() * 0.7 }
  if (rng.bool(0.05)) return { ...base, delay: 5000 }
  const errs = FS_ERRORS[op[1]] || ['EIO']
  const error = rng.pick(errs)
  return rng.bool(0.2) ? { ...base, error, sticky: String(op[3]) } : { ...base, error }
}
function crashAt (rng, op) {
  const base = { proc: op[0], kind: op[1], nk: op[2] }
  if (op[1] === 'fs.write' && rng.bool(0.6)) return { ...base, crash: 'torn', frac: rng.float() }
  return { ...base, crash: rng.bool() ? 'before' : 'after' }
}
// spread picks over the kinds of operation rather than over the (write-dominated) list
function pickOp (rng, ops, filter) {
  const c = filter ? ops.filter(filter) : ops
  if (!c.length) return null
  if (rng.bool(0.4)) return rng.pick(c)
  const kinds = [...new Set(c.map((o) => o[1]))]
  const k = rng.pick(kinds)
  return rng.pick(c.filter((o) => o[1] === k))
}
const harmless = (f) => f.delay !== undefined || f.short !== undefined || benignNet(f)

module.exports = { VERSIONS, OLD, PRE, iojs, releaseSpec, sched, world, FS_ERRORS, NET_ERRORS, netEffect, faultAt, crashAt, pickOp, harmless, DEFAULT_BASE }
