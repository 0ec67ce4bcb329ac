'use strict'
// Discrete-event kernel: one seed decides every delay, order, fault and crash.
// Nothing here reads a real clock; the only host facility used is setImmediate, to let
// microtasks and nextTicks drain between two events.
const crypto = require('crypto')

class Rng {
  constructor (seed) { this.s = [0, 0, 0, 0]; this.reseed(String(seed)) }
  reseed (str) {
    const h = crypto.createHash('sha256').update(str).digest()
    for (let i = 0; i < 4; i++) this.s[i] = h.readUInt32LE(i * 4) | 1
  }

  u32 () { // xoshiro128**
    const s = this.s
    const rotl = (x, k) => ((x << k) | (x >>> (32 - k))) >>> 0
    const r = Math.imul(rotl(Math.imul(s[1], 5) >>> 0, 7), 9) >>> 0
    const t = (s[1] << 9) >>> 0
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t
    s[3] = rotl(s[3] >>> 0, 11)
    return r
  }

  float () { return this.u32() / 4294967296 }
  int (n) { return n <= 1 ? 0 : Math.floor(this.float() * n) }
  range (a, b) { return a + this.int(b - a + 1) }
  bool (p = 0.5) { return this.float() < p }
  pick (a) { return a[this.int(a.length)] }
  shuffle (a) { a = a.slice(); for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); const t = a[i]; a[i] = a[j]; a[j] = t } return a }
  sample (a, k) { return this.shuffle(a).slice(0, k) }
}

class HarnessError extends Error {}

class Kernel {
  // sched: {mode: 'fifo'|'random', spread, heavy}  fifo = every operation takes the same time
  constructor ({ seed, sched, maxEvents = 60000 }) {
    this.rng = new Rng('kernel:' + seed)
    this.sched = sched || { mode: 'random', spread: 20, heavy: 0 }
    this.now = 0
    this.seq = 0
    this.heap = []
    this.events = 0
    this.maxEvents = maxEvents
    this.current = null
    this.trace = []
    this.hash = crypto.createHash('sha256')
    this.faultCounts = {}
    this.probes = {}
    this.procs = []
    this.orderHash = crypto.createHash('sha256')
    this.harnessError = null
  }

  probe (name, n = 1) { this.probes[name] = (this.probes[name] || 0) + n }
  fault (name) { this.faultCounts[name] = (this.faultCounts[name] || 0) + 1 }

  log (proc, what) {
    const line = `${this.now} ${proc ? proc.name : '-'} ${what}`
    this.hash.update(line + '\n')
    this.trace.push(line)
  }

  delay () {
    const s = this.sched
    if (s.mode === 'fifo') return 1
    let d = 1 + this.rng.int(s.spread || 20)
    if (s.heavy && this.rng.bool(s.heavy)) d *= 50
    return d
  }

  push (ev) {
    const h = this.heap
    ev.seq = ++this.seq
    h.push(ev)
    let i = h.length - 1
    while (i > 0) {
      const p = (i - 1) >> 1
      if (this.less(h[i], h[p])) { const t = h[i]; h[i] = h[p]; h[p] = t; i = p } else break
    }
    return ev
  }

  less (a, b) { return a.at < b.at || (a.at === b.at && a.seq < b.seq) }

  pop () {
    const h = this.heap
    const top = h[0]
    const last = h.pop()
    if (h.length) {
      h[0] = last
      let i = 0
      for (;;) {
        const l = 2 * i + 1; const r = l + 1
        let m = i
        if (l < h.length && this.less(h[l], h[m])) m = l
        if (r < h.length && this.less(h[r], h[m])) m = r
        if (m === i) break
        const t = h[i]; h[i] = h[m]; h[m] = t; i = m
      }
    }
    return top
  }

  // schedule fn for process proc after `after` ms of simulated time (random if undefined)
  schedule (proc, label, fn, after) {
    const ev = { at: this.now + (after === undefined || after === null ? this.delay() : after), proc, label, fn, cancelled: false, unref: false }
    if (proc) proc.pending++
    return this.push(ev)
  }

  cancel (ev) {
    if (ev && !ev.cancelled && !ev.done) {
      ev.cancelled = true
      if (ev.proc && !ev.unref) ev.proc.pending--
    }
  }

  drain () { return new Promise((resolve) => setImmediate(resolve)) }

  async run () {
    await this.drain()
    this.checkExits()
    await this.drain()
    while (this.heap.length) {
      if (this.harnessError) throw this.harnessError
      const ev = this.pop()
      if (ev.cancelled) continue
      ev.done = true
      if (ev.proc) {
        if (!ev.unref) ev.proc.pending--
        if (ev.proc.dead) continue
      }
      if (ev.at > this.now) this.now = ev.at
      if (++this.events > this.maxEvents) { this.overrun = true; break }
      this.current = ev.proc
      this.orderHash.update((ev.proc ? ev.proc.name : '-') + ev.label + ';')
      try {
        ev.fn()
      } catch (err) {
        if (ev.proc) ev.proc.uncaught(err)
        else throw err
      }
      await this.drain()
      this.checkExits()
      if (this.afterEvent) this.afterEvent(ev)
    }
    if (this.harnessError) throw this.harnessError
    this.current = null
  }

  // a process with nothing pending ends by itself
  checkExits () {
    for (const p of this.procs) {
      while (!p.dead && p.started && p.pending === 0) {
        this.current = p
        p.naturalExit()
      }
    }
  }

  digest () { return this.hash.copy().digest('hex').slice(0, 16) }
  orderDigest () { return this.orderHash.copy().digest('hex').slice(0, 16) }
}

// attribution of stray exceptions to the simulated process that was running
let active = null
function setActive (k) { active = k }
process.on('unhandledRejection', (err) => {
  const k = active
  if (k && k.current) k.current.uncaught(err, 'unhandledRejection')
  else if (k) k.harnessError = k.harnessError || err
  else { console.error('host unhandledRejection', err); process.exit(3) }
})
process.on('uncaughtException', (err) => {
  const k = active
  if (k && k.current && !(err instanceof HarnessError)) k.current.uncaught(err)
  else { console.error('host uncaughtException', err); process.exit(3) }
})

module.exports = { Rng, Kernel, HarnessError, setActive }
