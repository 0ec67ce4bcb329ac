'use strict'
// A scenario is plain JSON: world, setup, phases of processes, and the faults to inject.
// execute() runs it; the same JSON always gives the same execution.
const crypto = require('crypto')
const { Machine, makeRelease, publish, compareInstall, expectedFiles, sha256, headersTar } = require('./world')
const { Rng } = require('./kernel')

const DEFAULT_BASE = 'https://nodejs.org/dist'

// faults: {proc, kind, nk, ...effect}: the nk-th operation of that kind by that process
function makePlan (faults, applied) {
  const by = new Map()
  // sticky: the file stays bad for the rest of the phase
  const sticky = (faults || []).filter((f) => f.sticky)
  for (const f of faults || []) by.set(`${f.proc}|${f.kind}|${f.nk}`, f)
  return (proc, op) => {
    // an operation counter per kind, or per "any" operation for crash points given as absolute numbers
    let f = by.get(`${proc.name}|${op.kind}|${op.nk}`)
    if (!f) f = by.get(`${proc.name}|*|${op.n}`)
    if (!f) f = sticky.find((x) => x.proc === proc.name && x.kind === op.kind && op.nk > x.nk && String(op.target) === x.sticky)
    if (!f) return null
    // a fault may be limited to files being opened for writing under a directory
    if (f.under && !(op.extra && op.extra.writing && String(op.target).startsWith(f.under) && !/installVersion$/.test(op.target))) return null
    applied.push({ ...f, target: op.target, kindHit: op.kind })
    return { ...f }
  }
}

class World {
  constructor (s, hooks = {}) {
    this.s = s
    const w = s.world
    this.m = new Machine({
      seed: s.seed, platform: w.platform || 'linux', arch: w.arch || 'x64', sched: s.sched, topology: this.topology(w.topology),
      hostVersion: w.hostVersion, hostRelease: w.hostRelease, cpus: w.cpus, netChunk: w.netChunk, writeChunk: w.writeChunk, maxEvents: w.maxEvents || 120000
    })
    this.win = this.m.win
    this.releases = []
    for (const r of w.releases || []) this.addRelease(r)
    this.devDir = w.devDir || this.m.cacheDir
    this.phases = []
    this.ops = []
    this.applied = []
    this.snap = new Map()
    this.hooks = hooks
  }

  topology (t) {
    if (!t) return {}
    const out = { ...t }
    if (t.directHosts) out.direct = (h) => t.directHosts.includes(h)
    if (t.proxyHosts) out.proxyReaches = (p, h) => !t.proxyHosts[p] || t.proxyHosts[p].includes(h)
    return out
  }

  addRelease (r) {
    const rel = makeRelease(new Rng('release:' + r.seed), r)
    rel.base = r.base || DEFAULT_BASE
    rel.urls = publish(this.m.net, rel, rel.base, { redirect: r.redirect, sha: r.sha, full: r.full })
    rel.spec = r
    this.releases.push(rel)
    return rel
  }

  rel (version) { return this.releases.find((r) => r.version === version || r.versionDir === version) }
  dir (rel, devDir) { return this.m.j(devDir || this.devDir, rel.versionDir) }

  // put an installation in place: what a past run left behind
  place (rel, { marker = 11, arch = [], damage, devDir } = {}) {
    const d = this.dir(rel, devDir)
    const files = expectedFiles(rel, { win: false })
    for (const f of Object.keys(files)) this.m.disk.put(this.m.j(d, f), files[f])
    if (this.win) for (const a of arch) this.m.disk.put(this.m.j(d, a, rel.name + '.lib'), expectedFiles(rel, { win: true, arch: a })[`${a}/${rel.name}.lib`])
    if (marker !== null) this.m.disk.put(this.m.j(d, 'installVersion'), marker + '\n')
    if (damage) {
      const names = Object.keys(files).sort()
      const f = names[damage.pick % names.length]
      if (damage.how === 'missing') this.m.disk.remove(this.m.j(d, f))
      else if (damage.how === 'flip') { const b = Buffer.from(files[f]); if (b.length) b[Math.floor(b.length * damage.frac)] ^= 1; this.m.disk.put(this.m.j(d, f), b); this.damaged = this.m.j(d, f) }
      else this.m.disk.put(this.m.j(d, f), files[f].subarray(0, Math.floor(files[f].length * damage.frac)))
    }
  }

  snapshot (path) {
    const t = this.m.disk.tree(path)
    if (t === null) return null
    const out = {}
    for (const k of Object.keys(t)) out[k] = t[k].type === 'file' ? sha256(t[k].data) : t[k].type === 'symlink' ? '->' + t[k].target : 'dir'
    return JSON.stringify(out)
  }

  // run one phase: launch its processes, run until nothing is left to do
  async phase (ph) {
    const applied = []
    const plan = makePlan(ph.faults, applied)
    this.m.plan = (proc, op) => { this.ops.push([proc.name, op.kind, op.nk, op.target, op.n]); return plan(proc, op) }
    const procs = {}
    const start = { requests: this.m.net.requests.length, now: this.m.kernel.now, trace: this.m.kernel.trace.length }
    for (const p of ph.procs) {
      const proc = procs[p.name] = this.m.launch(p.name, p.args, { env: p.env, cwd: p.cwd, startDelay: p.delay, tmpdir: p.tmpdir, noUser: p.noUser, arch: p.arch, hostVersion: p.hostVersion, hostRelease: p.hostRelease, config: p.config, tty: p.tty })
      for (const g of p.signals || []) this.m.kernel.schedule(null, 'signal', () => proc.interrupt(g.sig, g), g.at)
    }
    await this.m.run()
    const r = { procs, applied, requests: this.m.net.requests.slice(start.requests), startedAt: start.now, list: ph.procs.map((p) => procs[p.name]) }
    this.applied.push(...applied)
    this.phases.push(r)
    if (this.m.kernel.overrun) r.overrun = true
    return r
  }

  // ---- oracle helpers ----
  marker (rel, devDir) { const t = this.m.disk.readText(this.m.j(this.dir(rel, devDir), 'installVersion')); return t === null ? null : parseInt(t, 10) || 0 }

  // the install of rel reported as successful by proc: complete, exact, verified
  successProblems (proc, rel, { devDir, arch, tarball, otherArchs = true } = {}) {
    const out = []
    for (const p of compareInstall(this.m.disk, this.dir(rel, devDir), rel, { win: this.win, arch: arch || this.m.arch, otherArchs })) out.push({ kind: 'incomplete', text: p })
    // every body this process was served had the published checksum
    const shaReq = proc.requests.filter((q) => q.url === rel.urls.shaUrl && q.served).pop()
    const published = {}
    if (shaReq) {
      for (const l of shaReq.served.toString().split('\n')) {
        const it = l.trim().split(/\s+/)
        if (it.length === 2) published[it[1].replace(/^\.\//, '')] = it[0]
      }
    }
    const check = (name, url) => {
      for (const q of proc.requests) {
        if (q.finalOf !== url || !q.served) continue
        if (published[name] !== sha256(q.served)) out.push({ kind: 'unverified', text: `${name}: received content does not have the checksum published in the SHASUMS256.txt that was served (${published[name] ? 'differs' : 'no entry'})` })
      }
    }
    check(rel.urls.tarName, rel.urls.tarUrl)
    for (const a of Object.keys(rel.urls.libUrl)) check(rel.urls.libPath[a], rel.urls.libUrl[a])
    return out
  }
}

const digestOf = (w) => w.m.kernel.digest()

module.exports = { World, makePlan, DEFAULT_BASE, digestOf, headersTar, crypto }
