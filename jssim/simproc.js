'use strict'
// A simulated process: its own module instances of the real code over simulated built-ins.
const vm = require('vm')
const realFs = require('fs')
const realPath = require('path')
const Module = require('module')
const EventEmitter = require('events')
const util = require('util')
const realCrypto = require('crypto')
const { PassThrough, Readable, Writable } = require('stream')
const { makeFs, mkerr } = require('./simfs')
const { HarnessError } = require('./kernel')

const REPO = process.env.NODE_GYP_REPO || '/repo'
const NPM = process.env.SIM_NPM_MODULES || '/usr/lib/node_modules/npm/node_modules'
const depRequire = Module.createRequire(realPath.join(realPath.dirname(NPM), 'sim-entry.js'))
const builtins = new Set(Module.builtinModules)

class SimExit extends Error { constructor () { super('simulated process ended'); this.simExit = true } }

// ---- compiled code cache (shared: compiling is pure) ----
const GLOBALS = ['process', 'global', 'globalThis', 'console', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval',
  'setImmediate', 'clearImmediate', 'Date', 'Math', 'performance', 'fetch', 'navigator']
const codeCache = new Map()
function compile (file) {
  let fn = codeCache.get(file)
  if (!fn) {
    let src = realFs.readFileSync(file, 'utf8')
    if (src.startsWith('#!')) src = '//' + src
    // outer function: the simulated globals; inner function: node's module wrapper (which may shadow them)
    fn = new vm.Script(`(function(${GLOBALS}){return function(exports,require,module,__filename,__dirname){${src}\n}})`, { filename: file }).runInThisContext()
    codeCache.set(file, fn)
  }
  return fn
}
const resolveCache = new Map()
function resolveFile (req, from) {
  const k = from + '\0' + req
  let r = resolveCache.get(k)
  if (r === undefined) {
    if (req.startsWith('.') || req.startsWith('/')) r = Module.createRequire(from).resolve(req)
    else if (from.startsWith(REPO + '/')) {
      // the repository has no node_modules here: its dependencies are the installed npm's
      r = depRequire.resolve(req)
    } else r = Module.createRequire(from).resolve(req)
    resolveCache.set(k, r)
  }
  return r
}
const jsonCache = new Map()

function simPath (proc, base) {
  const p = { ...base }
  p.resolve = (...a) => base.resolve(base === realPath.win32 ? proc.winCwd() : proc.cwd(), ...a)
  p.relative = (a, b) => base.relative(p.resolve(a), p.resolve(b))
  return p
}

class SimProcess {
  // spec: {name, argv, env, cwd, disk, net, platform, arch, kernel, programs, tmpdir, homedir, user, plan, version, release, config, cpus}
  constructor (spec) {
    Object.assign(this, spec, { cwd: undefined })
    delete this.cwd
    this.win = this.platform === 'win32'
    this.pending = 0
    this.dead = false
    this.started = false
    this.exitCode = null
    this.signal = null
    this.umaskValue = this.win ? 0 : 0o22
    this._cwd = spec.cwd
    this.out = []
    this.stdoutText = ''
    this.stderrText = ''
    this.opCount = 0
    this.opKinds = {}
    this.deathHooks = []
    this.children = []
    this.requests = []
    this.unhandled = []
    this.kernel.procs.push(this)
    const wp = realPath.win32; const pp = realPath.posix
    this.path = simPath(this, this.win ? wp : pp)
    this.path.win32 = this.win ? this.path : simPath(this, wp)
    this.path.posix = this.win ? simPath(this, pp) : this.path
    this.fs = makeFs(this)
    this.process = this.makeProcess()
    this.cache = new Map()
    this.fakes = this.makeFakes()
  }

  cwd () { return this._cwd }
  winCwd () { return this.win ? this._cwd : 'C:\\' }
  randomName (n) {
    const A = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    let s = ''
    for (let i = 0; i < n; i++) s += A[this.kernel.rng.int(A.length)]
    return s
  }

  onDeath (fn) { this.deathHooks.push(fn) }

  // ---------- the seam every outside effect goes through ----------
  // returns {error} or {short:n} or null
  consult (kind, target, extra) {
    const n = ++this.opCount
    this.opKinds[kind] = (this.opKinds[kind] || 0) + 1
    const f = this.plan && this.plan(this, { n, kind, target, nk: this.opKinds[kind], extra })
    return f || null
  }

  step (kind, target, fn, extra) {
    if (this.dead) return new Promise(() => {})
    return new Promise((resolve, reject) => {
      const f = this.consult(kind, target, extra)
      this.kernel.schedule(this, kind, () => {
        if (f && f.crash === 'before') { this.kernel.fault('crash'); this.kernel.log(this, `CRASH before ${kind} ${target}`); this.kill('SIGKILL'); return }
        let v, err
        if (f && f.error) {
          this.kernel.fault(`${kind}:${f.error}`)
          err = typeof f.error === 'string' ? mkerr(f.error, kind.replace(/^fs\./, ''), /^fd/.test(target) ? undefined : target) : f.error
          this.kernel.log(this, `${kind} ${target} -> FAULT ${f.error}`)
        } else {
          try {
            if (f && f.crash === 'torn' && extra && extra.bytes) {
              const a = extra.bytes
              const len = Math.floor(a[3] * (f.frac || 0.5))
              if (len) extra.prim.write(a[0], a[1], a[2], len, a[4])
              this.kernel.fault('crash-torn-write')
              this.kernel.log(this, `CRASH within ${kind} ${target} (${len} of ${a[3]} bytes)`)
              this.kill('SIGKILL')
              return
            }
            if (f && f.short && extra && extra.bytes) {
              const a = extra.bytes
              this.kernel.fault('short-write')
              const len = Math.max(1, Math.floor(a[3] * f.short))
              v = extra.prim.write(a[0], a[1], a[2], len, a[4])
            } else v = fn()
            this.kernel.log(this, `${kind} ${target}`)
          } catch (e) { err = e; this.kernel.log(this, `${kind} ${target} -> ${e.code || e}`) }
        }
        if (f && (f.crash === 'after' || f.crash === 'torn')) { this.kernel.fault('crash'); this.kernel.log(this, `CRASH after ${kind} ${target}`); this.kill('SIGKILL'); return }
        if (err) reject(err); else resolve(v)
      }, f && f.delay)
    })
  }

  stepSync (kind, target, fn) {
    if (this.dead) throw new SimExit()
    const f = this.consult(kind, target)
    if (f && f.crash) { this.kernel.fault('crash'); this.kernel.log(this, `CRASH at ${kind}Sync ${target}`); this.kill('SIGKILL'); throw new SimExit() }
    if (f && f.error) {
      this.kernel.fault(`${kind}:${f.error}`)
      this.kernel.log(this, `${kind}Sync ${target} -> FAULT ${f.error}`)
      throw (typeof f.error === 'string' ? mkerr(f.error, kind.replace(/^fs\./, ''), target) : f.error)
    }
    this.kernel.log(this, `${kind}Sync ${target}`)
    return fn()
  }

  // deliver a callback belonging to this process
  callback (fn) {
    if (this.dead) return
    try { fn() } catch (err) { this.uncaught(err) }
  }

  hold () { this.pending++; let done = false; return () => { if (!done) { done = true; this.pending-- } } }

  // ---------- life cycle ----------
  uncaught (err, origin) {
    if (this.dead || (err && err.simExit)) return
    if (err instanceof HarnessError) { this.kernel.harnessError = this.kernel.harnessError || err; return }
    this.unhandled.push(err)
    this.kernel.log(this, `uncaught ${origin || ''} ${err && err.message}`.split('\n')[0])
    if (!(err instanceof Error)) err = Object.assign(new Error(String(err)), { code: 'ERR_UNHANDLED_REJECTION' })
    if (this.process.listenerCount('uncaughtException') > 0) {
      try { this.process.emit('uncaughtException', err, origin || 'uncaughtException') } catch (e) { if (!(e && e.simExit)) this.finish(7, null) }
    } else {
      this.stderrText += (err && err.stack) + '\n'
      this.exit(1)
    }
  }

  exit (code) {
    if (this.dead) throw new SimExit()
    if (code !== undefined) this.process.exitCode = code
    if (!this.exiting) {
      this.exiting = true
      try { this.process.emit('exit', this.process.exitCode || 0) } catch (e) { if (!(e && e.simExit)) { this.process.exitCode = 7 } }
    }
    if (!this.dead) this.finish(this.process.exitCode || 0, null)
    throw new SimExit()
  }

  naturalExit () {
    try { this.process.emit('beforeExit', this.process.exitCode || 0) } catch (e) { this.uncaught(e) }
    if (this.dead || this.pending > 0) return
    try { this.exit() } catch (e) { if (!e.simExit) throw e }
  }

  kill (signal) {
    if (this.dead) return
    this.finish(null, signal)
  }

  // a signal that can be caught; `group`: as from the terminal, the children get it too
  interrupt (sig, { group } = {}) {
    if (this.dead) return
    this.kernel.fault('signal:' + sig)
    this.kernel.log(this, `SIGNAL ${sig}${group ? ' to the process group' : ''}`)
    if (group) for (const c of this.children) c.interrupt(sig)
    if (this.process.listenerCount(sig) === 0) return this.kill(sig)
    this.callback(() => this.process.emit(sig, sig, require('os').constants.signals[sig]))
  }

  finish (code, signal) {
    this.dead = true
    this.exitCode = code
    this.signal = signal
    this.endedAt = this.kernel.now
    this.kernel.log(this, `exit code=${code} signal=${signal}`)
    for (const h of this.deathHooks.splice(0)) h()
    // children of a killed process are killed with it (same terminal / process group)
    for (const c of this.children) c.parentDied()
    if (this.onExit) this.onExit(this)
  }

  start (file) {
    this.started = true
    this.startedAt = this.kernel.now
    this.kernel.schedule(this, 'start', () => {
      this.kernel.log(this, 'start ' + JSON.stringify(this.argv))
      try { this.requireFile(file) } catch (err) { this.uncaught(err) }
    }, this.startDelay || 0)
  }

  // ---------- modules ----------
  mapName (file) {
    if (!this.win) return file
    return 'C:' + file.replace(/\//g, '\\')
  }

  requireFile (file) {
    const c = this.cache.get(file)
    if (c) return c.exports
    const m = { exports: {}, id: file, filename: this.mapName(file), loaded: false, children: [], paths: [] }
    this.cache.set(file, m)
    if (file.endsWith('.json')) {
      if (!jsonCache.has(file)) jsonCache.set(file, realFs.readFileSync(file, 'utf8'))
      m.exports = JSON.parse(jsonCache.get(file))
      return m.exports
    }
    const req = (name) => this.requireFrom(name, file)
    req.resolve = (name) => resolveFile(name, file)
    req.main = this.mainModule = this.mainModule || m
    req.cache = {}
    const g = this.global
    const fname = this.mapName(file)
    try {
      compile(file)(...GLOBALS.map((n) => g[n]))
        .call(m.exports, m.exports, req, m, fname, (this.win ? realPath.win32 : realPath.posix).dirname(fname))
    } catch (e) { this.cache.delete(file); throw e }
    m.loaded = true
    return m.exports
  }

  requireFrom (name, from) {
    const bare = name.startsWith('node:') ? name.slice(5) : name
    if (builtins.has(bare) && !(name !== bare ? false : false)) {
      if (Object.prototype.hasOwnProperty.call(this.fakes, bare)) return this.fakes[bare]
      throw new HarnessError(`module ${name} required by ${from} is not simulated`)
    }
    if (name === 'make-fetch-happen') return this.net.client(this)
    return this.requireFile(resolveFile(name, from))
  }

  makeFakes () {
    const self = this
    const k = this.kernel
    // timers
    const timer = (repeat) => (fn, ms, ...args) => {
      ms = Math.max(1, Number(ms) || 1)
      const t = {
        ref () { return t }, unref () { if (t.ev && !t.ev.unref && !t.ev.done) { t.ev.unref = true; self.pending-- } return t }, hasRef: () => !(t.ev && t.ev.unref), refresh () { k.cancel(t.ev); arm(); return t }, [Symbol.toPrimitive]: () => 1
      }
      const arm = () => {
        if (self.dead) return
        t.ev = k.schedule(self, 'timer', () => {
          if (repeat) arm()
          self.callback(() => fn(...args))
        }, ms)
      }
      arm()
      return t
    }
    const clear = (t) => { if (t && t.ev) k.cancel(t.ev) }
    const immediate = (fn, ...args) => { const t = {}; if (!self.dead) t.ev = k.schedule(self, 'immediate', () => self.callback(() => fn(...args)), 0); return t }
    const T = { setTimeout: timer(false), clearTimeout: clear, setInterval: timer(true), clearInterval: clear, setImmediate: immediate, clearImmediate: clear }
    T.setTimeout[util.promisify.custom] = (ms, v) => new Promise((resolve) => T.setTimeout(() => resolve(v), ms))
    class SimDate extends Date { constructor (...a) { if (a.length) super(...a); else super(1700000000000 + k.now) } static now () { return 1700000000000 + k.now } }
    const simMath = Object.create(Math)
    for (const n of Object.getOwnPropertyNames(Math)) Object.defineProperty(simMath, n, Object.getOwnPropertyDescriptor(Math, n))
    Object.defineProperty(simMath, 'random', { value: () => k.rng.float() })
    const fmt = (...a) => util.format(...a)
    const con = {
      log: (...a) => this.process.stdout.write(fmt(...a) + '\n'), info: (...a) => this.process.stdout.write(fmt(...a) + '\n'),
      error: (...a) => this.process.stderr.write(fmt(...a) + '\n'), warn: (...a) => this.process.stderr.write(fmt(...a) + '\n'),
      debug: (...a) => this.process.stdout.write(fmt(...a) + '\n'), trace: () => {}, dir: () => {}, time: () => {}, timeEnd: () => {}
    }
    const g = Object.create(globalThis)
    for (const [n, v] of Object.entries({ ...T,  console: con, Date: SimDate, Math: simMath, performance: { now: () => k.now, timeOrigin: 1700000000000 }, fetch: undefined, navigator: undefined, process: this.process, global: g, globalThis: g })) Object.defineProperty(g, n, { value: v, writable: true, configurable: true })
    this.global = g

    const childProcess = this.makeChildProcess()
    const crypto = new Proxy(realCrypto, {
      get (t, p) {
        if (p === 'randomBytes') return (n, cb) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = k.rng.int(256); if (cb) { T.setImmediate(() => cb(null, b)); return } return b }
        if (p === 'randomUUID') return () => '00000000-0000-4000-8000-' + ('000000000000' + k.rng.u32().toString(16)).slice(-12)
        if (p === 'randomInt') return (a, b) => b === undefined ? k.rng.int(a) : a + k.rng.int(b - a)
        return t[p]
      }
    })
    const os = {
      tmpdir: () => this.tmpdir, homedir: () => this.homedir, platform: () => this.platform, arch: () => this.arch,
      type: () => this.win ? 'Windows_NT' : this.platform === 'darwin' ? 'Darwin' : 'Linux', release: () => '6.0.0-sim', cpus: () => new Array(this.cpus || 4).fill({ model: 'sim' }),
      availableParallelism: () => this.cpus || 4, hostname: () => 'sim', totalmem: () => 1 << 30, freemem: () => 1 << 29, endianness: () => 'LE', EOL: this.win ? '\r\n' : '\n', version: () => 'sim', machine: () => 'sim',
      userInfo: () => { if (this.noUser) { const e = new Error('uv_os_get_passwd returned ENOENT'); e.code = 'ERR_SYSTEM_ERROR'; throw e } return { username: this.user || 'user', uid: 1000, gid: 1000, homedir: this.homedir, shell: '/bin/sh' } },
      constants: require('os').constants, loadavg: () => [0, 0, 0], uptime: () => 1, networkInterfaces: () => ({}), devNull: this.win ? '\\\\.\\nul' : '/dev/null'
    }
    const f = {
      get punycode () { return require('punycode') },
      fs: this.fs, 'fs/promises': this.fs.promises, path: this.path, 'path/posix': this.path.posix, 'path/win32': this.path.win32,
      os, child_process: childProcess, process: this.process, crypto, timers: { ...T }, console: con,
      'timers/promises': { setTimeout: (ms, v) => new Promise((resolve) => T.setTimeout(() => resolve(v), ms)), setImmediate: (v) => new Promise((resolve) => T.setImmediate(() => resolve(v))) }
    }
    for (const real of ['util', 'events', 'stream', 'stream/promises', 'buffer', 'string_decoder', 'assert', 'url', 'zlib', 'querystring', 'constants', 'util/types', 'async_hooks', 'diagnostics_channel', 'assert/strict']) f[real] = require(real)
    f.module = { builtinModules: Module.builtinModules, createRequire: (from) => (name) => this.requireFrom(name, String(from)) }
    f.v8 = { serialize: require('v8').serialize, deserialize: require('v8').deserialize }
    f.perf_hooks = { performance: g.performance }
    for (const n of ['http', 'https', 'net', 'tls', 'dns', 'http2', 'dgram']) {
      f[n] = new Proxy({}, { get (t, p) { if (typeof p === 'symbol' || p === 'then') return undefined; return function () { throw new HarnessError(`${n}.${String(p)} is not simulated`) } } })
    }
    return f
  }

  makeProcess () {
    const self = this
    const p = new EventEmitter()
    p.setMaxListeners(100)
    const mkOut = (name) => {
      const w = new EventEmitter()
      w.isTTY = !!self.tty
      w.columns = 80
      w.fd = name === 'stdout' ? 1 : 2
      w.writable = true
      w.write = (s, enc, cb) => {
        if (self.dead) return true
        s = String(s)
        self[name + 'Text'] += s
        self.out.push([name, s])
        if (self.onWrite) self.onWrite(name, s)
        if (typeof enc === 'function') cb = enc
        if (cb) process.nextTick(cb)
        return true
      }
      w.end = () => {}
      return w
    }
    const env = self.win
      ? new Proxy({ ...self.env }, { // case-insensitive like on Windows
        get (t, k) { if (typeof k !== 'string') return t[k]; const f = Object.keys(t).find((x) => x.toUpperCase() === k.toUpperCase()); return f === undefined ? undefined : t[f] },
        set (t, k, v) { const f = Object.keys(t).find((x) => x.toUpperCase() === String(k).toUpperCase()); t[f === undefined ? k : f] = String(v); return true },
        has (t, k) { return Object.keys(t).some((x) => x.toUpperCase() === String(k).toUpperCase()) },
        deleteProperty (t, k) { const f = Object.keys(t).find((x) => x.toUpperCase() === String(k).toUpperCase()); if (f !== undefined) delete t[f]; return true }
      })
      : new Proxy({ ...self.env }, { set (t, k, v) { t[k] = String(v); return true } })
    Object.assign(p, {
      argv: self.argv, argv0: 'node', execArgv: [], execPath: self.execPath || (self.win ? 'C:\\Program Files\\nodejs\\node.exe' : '/usr/local/bin/node'),
      env, platform: self.platform, arch: self.arch, pid: 1000 + self.kernel.procs.length, ppid: 1, title: 'node',
      version: self.version, versions: { ...process.versions, node: self.version.replace(/^v/, '') }, release: self.release, config: self.config,
      cwd: () => self._cwd,
      chdir: (d) => {
        const a = self.path.resolve(self._cwd, d)
        const n = self.disk.node(a)
        if (!n || n.type !== 'dir') throw mkerr(n ? 'ENOTDIR' : 'ENOENT', 'chdir', self._cwd, d)
        self._cwd = a
      },
      exit: (c) => self.exit(c), reallyExit: (c) => self.exit(c), abort: () => { self.kill('SIGABRT'); throw new SimExit() },
      kill: (pid, sig) => { if (sig !== 0 && pid === p.pid) { const g = typeof sig === 'number' ? Object.entries(require('os').constants.signals).find((x) => x[1] === sig)[0] : sig || 'SIGTERM'; self.kernel.schedule(self, 'signal', () => self.interrupt(g), 0) } return true }, umask: (v) => { const o = self.umaskValue; if (v !== undefined) self.umaskValue = v; return o },
      nextTick: process.nextTick, hrtime: Object.assign(() => [Math.floor(self.kernel.now / 1000), (self.kernel.now % 1000) * 1e6], { bigint: () => BigInt(self.kernel.now) * 1000000n }),
      uptime: () => self.kernel.now / 1000, memoryUsage: () => ({ rss: 1, heapTotal: 1, heapUsed: 1, external: 0 }), cpuUsage: () => ({ user: 0, system: 0 }),
      emitWarning: () => {}, binding: () => { throw new Error('no binding') }, stdout: mkOut('stdout'), stderr: mkOut('stderr'), features: {}, report: {}, allowedNodeEnvironmentFlags: new Set()
    })
    const si = new Readable({ read () {} })
    p.stdin = si
    if (!self.win) Object.assign(p, { getuid: () => 1000, getgid: () => 1000, geteuid: () => 1000, getegid: () => 1000, getgroups: () => [1000] })
    p.exitCode = undefined
    return p
  }

  // ---------- child processes ----------
  makeChildProcess () {
    const self = this
    const k = this.kernel
    function launch (command, args, opts, kind) {
      opts = opts || {}
      args = args || []
      if (self.dead) throw new SimExit()
      if (typeof command !== 'string') { const e = new TypeError('The "file" argument must be of type string. Received ' + util.inspect(command)); e.code = 'ERR_INVALID_ARG_TYPE'; throw e }
      if (command.length === 0) { const e = new TypeError("The argument 'file' cannot be empty. Received ''"); e.code = 'ERR_INVALID_ARG_VALUE'; throw e }
      if (command.includes('\0')) { const e = new TypeError("The argument 'file' must be a string without null bytes. Received " + util.inspect(command)); e.code = 'ERR_INVALID_ARG_VALUE'; throw e }
      const env = {}
      for (const n of Object.keys(opts.env || self.process.env)) env[n] = String((opts.env || self.process.env)[n])
      const rec = { by: self.name, command, args: args.map(String), rawArgs: args.slice(), cwd: self.path.resolve(self._cwd, opts.cwd || '.'), env, shell: opts.shell || false, stdio: opts.stdio, kind, startedAt: k.now, seq: self.children.length }
      const cp = new EventEmitter()
      cp.pid = undefined
      cp.exitCode = null; cp.signalCode = null; cp.killed = false
      cp.stdin = new Writable({ write (c, e, cb) { cb() } })
      const piped = !(opts.stdio && (opts.stdio === 'inherit' || (Array.isArray(opts.stdio) && opts.stdio[1] !== 'pipe')))
      cp.stdout = piped ? new PassThrough() : null
      cp.stderr = piped ? new PassThrough() : null
      cp.spawnfile = command; cp.spawnargs = [command, ...args]
      cp.unref = cp.ref = () => {}
      cp.rec = rec
      rec.out = ''
      const release = self.hold()
      let ended = false
      const child = {
        rec,
        interrupt (sig) { if (!ended) { child.killSignal = sig; end(null, sig) } },
        parentDied () { if (!ended) { ended = true; rec.killedWithParent = true; rec.endedAt = k.now; if (child.onKill) child.onKill() } }
      }
      self.children.push(child)
      const fault = self.consult('spawn', command + ' ' + args.join(' ').slice(0, 60), rec)
      cp.kill = (sig) => { cp.killed = true; if (!ended) { child.killSignal = sig || 'SIGTERM'; end(null, child.killSignal) } return true }
      function end (code, signal, stdout, stderr) {
        if (ended) return
        ended = true
        rec.endedAt = k.now
        rec.code = code; rec.signal = signal
        k.log(self, `child ${command} exit code=${code} signal=${signal}`)
        k.schedule(self, 'child-exit', () => {
          release()
          cp.exitCode = code; cp.signalCode = signal
          rec.deliveredAt = k.now
          self.callback(() => cp.emit('exit', code, signal))
          if (cp.stdout) { cp.stdout.end(stdout || ''); cp.stderr.end(stderr || '') }
          const closeHold = self.hold()
          k.schedule(self, 'child-close', () => { closeHold(); self.callback(() => cp.emit('close', code, signal)) }, 1)
        }, 1)
        if (child.onKill && signal) child.onKill()
      }
      k.log(self, `spawn ${command} ${JSON.stringify(rec.args).slice(0, 200)}`)
      const failSpawn = (code) => {
        ended = true
        rec.spawnError = code
        if (fault && fault.error) k.fault('spawn:' + code)
        k.schedule(self, 'spawn-error', () => {
          release()
          const e = new Error(`spawn ${command} ${code}`)
          Object.assign(e, { code, errno: -2, syscall: 'spawn ' + command, path: command, spawnargs: args })
          rec.deliveredAt = k.now
          self.callback(() => {
            if (!cp.emit('error', e)) throw e
          })
          if (cp.stdout) { cp.stdout.end(); cp.stderr.end() }
        }, 1)
      }
      if (fault && fault.crash) { k.schedule(self, 'crash', () => { k.fault('crash'); self.kill('SIGKILL') }, 0); return cp }
      if (fault && fault.error) {
        // like node: only these are reported by an event, any other error is thrown by spawn itself
        if (['EACCES', 'EAGAIN', 'EMFILE', 'ENFILE', 'ENOENT'].includes(fault.error)) { failSpawn(fault.error); return cp }
        ended = true
        rec.spawnError = fault.error
        k.fault('spawn:' + fault.error)
        release()
        const e = new Error(`spawn ${fault.error}`)
        Object.assign(e, { code: fault.error, errno: -7, syscall: 'spawn' })
        throw e
      }
      const prog = self.programs(rec, self)
      if (!prog) { failSpawn('ENOENT'); return cp }
      cp.pid = 5000 + self.children.length
      rec.started = true
      if (opts.timeout > 0) { const t = self.global.setTimeout(() => { cp.kill(opts.killSignal) }, opts.timeout); cp.once('exit', () => self.global.clearTimeout(t)) }
      process.nextTick(() => self.callback(() => cp.emit('spawn')))
      // run the program: an async function with its own steps, or a plain outcome
      const ctx = {
        rec, self, k,
        step: (label, fn, after) => new Promise((resolve) => {
          k.schedule(self, 'child:' + label, () => { if (!ended) { const v = fn && fn(); resolve(v) } }, after)
        }),
        get dead () { return ended || self.dead },
        set onKill (f) { child.onKill = f }
      }
      Promise.resolve().then(() => typeof prog === 'function' ? prog(ctx) : prog).then((r) => {
        r = r || {}
        if (fault && fault.result) { k.fault('child:' + fault.label); r = fault.result }
        const delay = r.delay
        k.schedule(self, 'child-run', () => end(r.signal ? null : (r.code || 0), r.signal || null, r.stdout, r.stderr), delay)
      }, (err) => { k.harnessError = k.harnessError || new HarnessError('program failed: ' + (err && err.stack)) })
      return cp
    }
    function execFile (file, args, opts, cb) {
      if (typeof args === 'function') { cb = args; args = []; opts = {} } else if (!Array.isArray(args)) { cb = opts; opts = args; args = [] }
      if (typeof opts === 'function') { cb = opts; opts = {} }
      opts = opts || {}
      const cp = launch(file, args, { ...opts, stdio: undefined }, 'execFile')
      let out = ''; let errOut = ''
      cp.stdout.setEncoding(opts.encoding && opts.encoding !== 'buffer' ? opts.encoding : 'utf8')
      cp.stderr.setEncoding('utf8')
      // like node: more output than maxBuffer ends the child, and the call fails
      const max = opts.maxBuffer === undefined ? 1024 * 1024 : opts.maxBuffer
      let tooMuch = null
      const over = (which) => { if (!tooMuch) { tooMuch = new RangeError(which + ' maxBuffer length exceeded'); tooMuch.code = 'ERR_CHILD_PROCESS_STDIO_MAXBUFFER'; k.probe('maxBuffer'); cp.kill(opts.killSignal) } }
      cp.stdout.on('data', (d) => { out += d; if (out.length > max) { out = out.slice(0, max); over('stdout') } })
      cp.stderr.on('data', (d) => { errOut += d; if (errOut.length > max) { errOut = errOut.slice(0, max); over('stderr') } })
      let called = false
      const done = (e) => { if (called) return; called = true; if (cb) self.callback(() => cb(e, out, errOut)) }
      cp.on('error', (e) => { e.cmd = [file, ...args].join(' '); done(e) })
      cp.on('close', (code, signal) => {
        if (tooMuch) { tooMuch.cmd = [file, ...args].join(' '); return done(tooMuch) }
        if (code === 0 && !signal) return done(null)
        const e = new Error('Command failed: ' + [file, ...args].join(' ') + '\n' + errOut)
        e.code = code === null ? null : code; e.killed = cp.killed; e.signal = signal; e.cmd = [file, ...args].join(' ')
        done(e)
      })
      return cp
    }
    const api = {
      spawn: (c, a, o) => { if (!Array.isArray(a)) { o = a; a = [] } return launch(c, a, o, 'spawn') },
      execFile,
      exec: (cmd, o, cb) => { if (typeof o === 'function') { cb = o; o = {} } return execFile(cmd, [], { ...o, shell: true }, cb) },
      spawnSync: () => { throw new HarnessError('spawnSync is not simulated') },
      execFileSync: () => { throw new HarnessError('execFileSync is not simulated') },
      execSync: () => { throw new HarnessError('execSync is not simulated') },
      fork: () => { throw new HarnessError('fork is not simulated') }
    }
    const promised = (fn) => (...a) => {
      let child
      const p = new Promise((resolve, reject) => { child = fn(...a, (e, stdout, stderr) => e ? reject(Object.assign(e, { stdout, stderr })) : resolve({ stdout, stderr })) })
      p.child = child
      return p
    }
    for (const n of ['execFile', 'exec']) api[n][util.promisify.custom] = promised(api[n])
    return api
  }
}

module.exports = { SimProcess, SimExit, REPO, NPM, compile, resolveFile, mkerr }
