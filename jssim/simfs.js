'use strict'
// Simulated disk (shared, survives crashes) and the per-process `fs` module over it.
// Every asynchronous call is a sequence of primitive steps; each step is one kernel event,
// applied atomically, and each may be made to fail or be the point where the process is killed.
const realFs = require('fs')
const realPath = require('path')
const constants = realFs.constants
const O = constants

const MESSAGES = {
  ENOENT: 'no such file or directory', EEXIST: 'file already exists', ENOTDIR: 'not a directory',
  EISDIR: 'illegal operation on a directory', ENOTEMPTY: 'directory not empty', EACCES: 'permission denied',
  EPERM: 'operation not permitted', EIO: 'i/o error', ENOSPC: 'no space left on device', EMFILE: 'too many open files',
  EBUSY: 'resource busy or locked', EBADF: 'bad file descriptor', EINVAL: 'invalid argument', ELOOP: 'too many symbolic links encountered',
  EXDEV: 'cross-device link not permitted', EROFS: 'read-only file system', EDQUOT: 'disk quota exceeded'
}
const ERRNO = { ENOENT: -2, EIO: -5, EBADF: -9, EACCES: -13, EBUSY: -16, EEXIST: -17, EXDEV: -18, ENOTDIR: -20, EISDIR: -21, EINVAL: -22, EMFILE: -24, ENOSPC: -28, EROFS: -30, EPERM: -1, ENOTEMPTY: -39, ELOOP: -40, EDQUOT: -122 }

function mkerr (code, syscall, path, dest) {
  let m = `${code}: ${MESSAGES[code] || 'error'}, ${syscall}`
  if (path !== undefined) m += ` '${path}'`
  if (dest !== undefined) m += ` -> '${dest}'`
  const e = new Error(m)
  e.code = code
  e.errno = ERRNO[code] || -5
  e.syscall = syscall
  if (path !== undefined) e.path = path
  if (dest !== undefined) e.dest = dest
  return e
}

class Inode {
  constructor (disk, type, mode) {
    this.ino = ++disk.inoSeq
    this.type = type
    this.mode = mode
    this.nlink = 1
    this.mtimeMs = disk.now()
    this.entries = type === 'dir' ? new Map() : null
    this.data = type === 'file' ? Buffer.alloc(0) : null
    this.target = null
    this.busy = 0 // win32 exclusive copy in progress
    this.noWrite = false // directory: entries cannot be added or removed
    this.noAccess = false // directory: cannot be listed or traversed
    this.noRead = false
  }
}

class Disk {
  constructor ({ platform, now }) {
    this.win = platform === 'win32'
    this.path = this.win ? realPath.win32 : realPath.posix
    this.now = now || (() => 0)
    this.inoSeq = 0
    this.root = new Inode(this, 'dir', 0o755)
    this.version = 0
  }

  key (name) { return this.win ? name.toLowerCase() : name }

  split (p) {
    if (this.win) {
      p = p.replace(/\//g, '\\').replace(/^\\\\\?\\/, '')
      return p.split('\\').filter(Boolean)
    }
    return p.split('/').filter(Boolean)
  }

  // returns {parent, name, node, path}; node null if the last component is missing
  lookup (p, { follow = true, syscall = 'open', depth = 0, orig } = {}) {
    orig = orig === undefined ? p : orig
    if (depth > 20) throw mkerr('ELOOP', syscall, orig)
    const parts = this.split(p)
    let node = this.root
    let parent = null
    let name = ''
    const walked = []
    for (let i = 0; i < parts.length; i++) {
      if (node.type !== 'dir') throw mkerr('ENOTDIR', syscall, orig)
      if (node.noAccess) throw mkerr('EACCES', syscall, orig)
      name = parts[i]
      if (name === '.') continue
      if (name === '..') throw new Error('simfs: unresolved .. in ' + p)
      const next = node.entries.get(this.key(name))
      const last = i === parts.length - 1
      if (!next) {
        if (last) return { parent: node, name, node: null }
        throw mkerr('ENOENT', syscall, orig)
      }
      if (next.node.type === 'symlink' && (!last || follow)) {
        const base = (this.win ? '' : '/') + walked.join(this.path.sep)
        const t = this.path.resolve(base || this.path.sep, next.node.target, ...parts.slice(i + 1))
        return this.lookup(t, { follow, syscall, depth: depth + 1, orig })
      }
      walked.push(name)
      parent = node
      node = next.node
    }
    return { parent, name, node }
  }

  get (p, opts) {
    const r = this.lookup(p, opts)
    if (!r.node) throw mkerr('ENOENT', (opts && opts.syscall) || 'open', (opts && opts.orig) || p)
    return r.node
  }

  checkWritable (dir, syscall, p) {
    if (dir.noAccess || dir.noWrite) throw mkerr('EACCES', syscall, p)
  }

  link (dir, name, node) { dir.entries.set(this.key(name), { name, node }); dir.mtimeMs = this.now(); this.version++ }
  unlinkEntry (dir, name) {
    const e = dir.entries.get(this.key(name))
    if (this.onUnlink) this.onUnlink(dir, name, e)
    dir.entries.delete(this.key(name)); if (e) e.node.nlink--
    dir.mtimeMs = this.now(); this.version++
  }

  // --- world-side helpers (no faults) ---
  mkdirp (p) {
    const parts = this.split(p)
    let node = this.root
    for (const part of parts) {
      let e = node.entries.get(this.key(part))
      if (!e) { e = { name: part, node: new Inode(this, 'dir', 0o755) }; node.entries.set(this.key(part), e); this.version++ }
      node = e.node
      if (node.type === 'symlink') node = this.get(this.path.resolve(this.path.sep, node.target))
    }
    return node
  }

  put (p, data, mode = 0o644) {
    const dir = this.mkdirp(this.path.dirname(p))
    const n = new Inode(this, 'file', mode)
    n.data = Buffer.from(data)
    this.link(dir, this.path.basename(p), n)
    return n
  }

  putLink (p, target) {
    const dir = this.mkdirp(this.path.dirname(p))
    const n = new Inode(this, 'symlink', 0o777)
    n.target = target
    this.link(dir, this.path.basename(p), n)
  }

  read (p) { try { const n = this.get(p); return n.type === 'file' ? n.data : null } catch { return null } }
  readText (p) { const d = this.read(p); return d === null ? null : d.toString() }
  exists (p) { try { return !!this.lookup(p).node } catch { return false } }
  node (p, follow = true) { try { return this.lookup(p, { follow }).node } catch { return null } }
  remove (p) { try { const r = this.lookup(p, { follow: false }); if (r.node) this.unlinkEntry(r.parent, r.name) } catch {} }

  // flat listing {relative path: type:content-or-target}
  tree (p, prefix = '', out = {}) {
    const n = typeof p === 'string' ? this.node(p, false) : p
    if (!n) return null
    if (n.type !== 'dir') { out[prefix || '.'] = n; return out }
    for (const k of [...n.entries.keys()].sort()) {
      const e = n.entries.get(k)
      const rel = prefix ? prefix + '/' + e.name : e.name
      if (e.node.type === 'dir') { out[rel + '/'] = e.node; this.tree(e.node, rel, out) } else out[rel] = e.node
    }
    return out
  }

  files (p) {
    const t = this.tree(p)
    if (!t) return null
    const out = {}
    for (const k of Object.keys(t)) if (!k.endsWith('/')) out[k] = t[k].type === 'symlink' ? '-> ' + t[k].target : t[k].data
    return out
  }
}

function toDate (v) { return typeof v === 'number' ? v * (v < 1e11 ? 1000 : 1) : +v }

class Stats {
  constructor (n) {
    this.dev = 1; this.ino = n.ino; this.nlink = n.nlink; this.uid = 1000; this.gid = 1000; this.rdev = 0; this.blksize = 4096
    this.mode = n.mode | (n.type === 'dir' ? 0o40000 : n.type === 'file' ? 0o100000 : 0o120000)
    this.size = n.type === 'file' ? n.data.length : n.type === 'symlink' ? n.target.length : 4096
    this.blocks = Math.ceil(this.size / 512)
    this.atimeMs = this.mtimeMs = this.ctimeMs = this.birthtimeMs = n.mtimeMs
    this.atime = this.mtime = this.ctime = this.birthtime = new Date(n.mtimeMs)
    Object.defineProperty(this, '_type', { value: n.type, enumerable: false })
  }

  isFile () { return this._type === 'file' }
  isDirectory () { return this._type === 'dir' }
  isSymbolicLink () { return this._type === 'symlink' }
  isFIFO () { return false }
  isSocket () { return false }
  isBlockDevice () { return false }
  isCharacterDevice () { return false }
}

class Dirent {
  constructor (name, type, parent) { this.name = name; this.parentPath = parent; this.path = parent; Object.defineProperty(this, '_type', { value: type }) }
  isFile () { return this._type === 'file' }
  isDirectory () { return this._type === 'dir' }
  isSymbolicLink () { return this._type === 'symlink' }
  isFIFO () { return false }
  isSocket () { return false }
  isBlockDevice () { return false }
  isCharacterDevice () { return false }
}

function flagsOf (f) {
  if (typeof f === 'number') return f
  switch (f === undefined || f === null ? 'r' : f) {
    case 'r': return O.O_RDONLY
    case 'rs': case 'sr': return O.O_RDONLY | O.O_SYNC
    case 'r+': return O.O_RDWR
    case 'w': return O.O_TRUNC | O.O_CREAT | O.O_WRONLY
    case 'wx': case 'xw': return O.O_TRUNC | O.O_CREAT | O.O_WRONLY | O.O_EXCL
    case 'w+': return O.O_TRUNC | O.O_CREAT | O.O_RDWR
    case 'wx+': return O.O_TRUNC | O.O_CREAT | O.O_RDWR | O.O_EXCL
    case 'a': return O.O_APPEND | O.O_CREAT | O.O_WRONLY
    case 'ax': return O.O_APPEND | O.O_CREAT | O.O_WRONLY | O.O_EXCL
    case 'a+': return O.O_APPEND | O.O_CREAT | O.O_RDWR
  }
  throw new Error('simfs: unknown flags ' + f)
}

// proc: simulated process: {disk, cwd(), step(kind, path, fn) -> Promise, stepSync(kind, path, fn), kernel, umask}
function makeFs (proc) {
  const disk = proc.disk
  const fds = new Map()
  let fdSeq = 10
  const P = disk.path
  const abs = (p) => {
    if (p instanceof URL) p = require('url').fileURLToPath(p)
    if (Buffer.isBuffer(p)) p = p.toString()
    if (typeof p !== 'string') {
      const e = new TypeError('The "path" argument must be of type string or an instance of Buffer or URL. Received ' + require('util').inspect(p))
      e.code = 'ERR_INVALID_ARG_TYPE'
      throw e
    }
    return proc.path.resolve(proc.cwd(), p)
  }
  const getFd = (fd, syscall) => { const f = fds.get(fd); if (!f) throw mkerr('EBADF', syscall); return f }

  // ---------- primitive operations, applied atomically ----------
  const prim = {
    stat (p) { return new Stats(disk.get(abs(p), { syscall: 'stat', orig: p })) },
    lstat (p) { return new Stats(disk.get(abs(p), { follow: false, syscall: 'lstat', orig: p })) },
    fstat (fd) { return new Stats(getFd(fd, 'fstat').node) },
    access (p, mode) {
      const n = disk.get(abs(p), { syscall: 'access', orig: p })
      if ((mode & O.X_OK) && n.type === 'file' && !(n.mode & 0o111) && !disk.win) throw mkerr('EACCES', 'access', p)
      if ((mode & O.W_OK) && n.noWrite) throw mkerr('EACCES', 'access', p)
      if ((mode & O.R_OK) && (n.noRead || n.noAccess)) throw mkerr('EACCES', 'access', p)
    },
    open (p, flags, mode) {
      flags = flagsOf(flags)
      const a = abs(p)
      const r = disk.lookup(a, { syscall: 'open', orig: p, follow: !(flags & (O.O_NOFOLLOW || 0)) })
      let n = r.node
      const wants = flags & (O.O_WRONLY | O.O_RDWR)
      if (n) {
        if (n.type === 'symlink') throw mkerr('ELOOP', 'open', p)
        if ((flags & O.O_CREAT) && (flags & O.O_EXCL)) throw mkerr('EEXIST', 'open', p)
        if (n.type === 'dir' && wants) throw mkerr('EISDIR', 'open', p)
        if (wants && n.noWrite) throw mkerr('EACCES', 'open', p)
        if (!wants && (n.noRead || n.noAccess)) throw mkerr('EACCES', 'open', p)
        if (wants && n.busy) throw mkerr('EBUSY', 'open', p)
        if ((flags & O.O_TRUNC) && n.type === 'file') { n.data = Buffer.alloc(0); n.mtimeMs = disk.now(); disk.version++ }
      } else {
        if (!(flags & O.O_CREAT)) throw mkerr('ENOENT', 'open', p)
        disk.checkWritable(r.parent, 'open', p)
        n = new Inode(disk, 'file', (mode === undefined || mode === null ? 0o666 : typeof mode === 'string' ? parseInt(mode, 8) : mode) & ~proc.umaskValue)
        disk.link(r.parent, r.name, n)
      }
      const fd = ++fdSeq
      fds.set(fd, { node: n, pos: 0, append: !!(flags & O.O_APPEND), path: a })
      return fd
    },
    close (fd) { getFd(fd, 'close'); fds.delete(fd) },
    read (fd, buf, off, len, pos) {
      const f = getFd(fd, 'read')
      if (f.node.type === 'dir') throw mkerr('EISDIR', 'read')
      const usePos = Number.isSafeInteger(Number(pos)) && pos !== null && Number(pos) >= 0
      const at = usePos ? Number(pos) : f.pos
      const n = Math.max(0, Math.min(len, f.node.data.length - at))
      if (n) f.node.data.copy(buf, off, at, at + n)
      if (!usePos) f.pos += n
      return n
    },
    write (fd, buf, off, len, pos) {
      const f = getFd(fd, 'write')
      const usePos = Number.isSafeInteger(Number(pos)) && pos !== null && Number(pos) >= 0
      const at = f.append ? f.node.data.length : usePos ? Number(pos) : f.pos
      const chunk = buf.subarray(off, off + len)
      const need = at + chunk.length
      if (need > f.node.data.length) {
        const nb = Buffer.alloc(need)
        f.node.data.copy(nb)
        f.node.data = nb
      } else f.node.data = Buffer.from(f.node.data)
      chunk.copy(f.node.data, at)
      if (!usePos) f.pos = at + chunk.length
      f.node.mtimeMs = disk.now()
      disk.version++
      return chunk.length
    },
    mkdir1 (p, mode) {
      const r = disk.lookup(abs(p), { syscall: 'mkdir', orig: p })
      if (r.node) throw mkerr('EEXIST', 'mkdir', p)
      disk.checkWritable(r.parent, 'mkdir', p)
      disk.link(r.parent, r.name, new Inode(disk, 'dir', (mode === undefined ? 0o777 : mode) & ~proc.umaskValue))
    },
    readdir (p) {
      const n = disk.get(abs(p), { syscall: 'scandir', orig: p })
      if (n.type !== 'dir') throw mkerr('ENOTDIR', 'scandir', p)
      if (n.noAccess || n.noRead) throw mkerr('EACCES', 'scandir', p)
      // listing order is the disk's business: a permutation drawn by the scheduler
      const names = [...n.entries.values()]
      return proc.kernel.sched.mode === 'fifo' ? names : proc.kernel.rng.shuffle(names)
    },
    rmdir (p) {
      const r = disk.lookup(abs(p), { follow: false, syscall: 'rmdir', orig: p })
      if (!r.node) throw mkerr('ENOENT', 'rmdir', p)
      if (r.node.type !== 'dir') throw mkerr('ENOTDIR', 'rmdir', p)
      if (r.node.entries.size) throw mkerr('ENOTEMPTY', 'rmdir', p)
      disk.checkWritable(r.parent, 'rmdir', p)
      disk.unlinkEntry(r.parent, r.name)
    },
    unlink (p) {
      const r = disk.lookup(abs(p), { follow: false, syscall: 'unlink', orig: p })
      if (!r.node) throw mkerr('ENOENT', 'unlink', p)
      if (r.node.type === 'dir') throw mkerr(disk.win ? 'EPERM' : 'EISDIR', 'unlink', p)
      disk.checkWritable(r.parent, 'unlink', p)
      if (disk.win && r.node.busy) throw mkerr('EBUSY', 'unlink', p)
      disk.unlinkEntry(r.parent, r.name)
    },
    rename (a, b) {
      const ra = disk.lookup(abs(a), { follow: false, syscall: 'rename', orig: a })
      if (!ra.node) throw mkerr('ENOENT', 'rename', a, b)
      const rb = disk.lookup(abs(b), { follow: false, syscall: 'rename', orig: b })
      disk.checkWritable(ra.parent, 'rename', a)
      disk.checkWritable(rb.parent, 'rename', b)
      if (rb.node === ra.node && rb.node) return
      for (let d = rb.parent; d; d = null) if (d === ra.node) throw mkerr('EINVAL', 'rename', a, b)
      if (rb.node) {
        if (rb.node.type === 'dir') {
          if (ra.node.type !== 'dir') throw mkerr(disk.win ? 'EPERM' : 'EISDIR', 'rename', a, b)
          if (disk.win) throw mkerr('EPERM', 'rename', a, b)
          if (rb.node.entries.size) throw mkerr('ENOTEMPTY', 'rename', a, b)
        } else if (ra.node.type === 'dir') throw mkerr(disk.win ? 'EPERM' : 'ENOTDIR', 'rename', a, b)
        if (disk.win && rb.node.busy) throw mkerr('EBUSY', 'rename', a, b)
        disk.unlinkEntry(rb.parent, rb.name)
      }
      ra.parent.entries.delete(disk.key(ra.name))
      disk.link(rb.parent, rb.name, ra.node)
    },
    symlink (target, p) {
      const r = disk.lookup(abs(p), { follow: false, syscall: 'symlink', orig: p })
      if (r.node) throw mkerr('EEXIST', 'symlink', target, p)
      disk.checkWritable(r.parent, 'symlink', p)
      const n = new Inode(disk, 'symlink', 0o777)
      n.target = String(target)
      disk.link(r.parent, r.name, n)
    },
    link (a, b) {
      const n = disk.get(abs(a), { follow: false, syscall: 'link', orig: a })
      if (n.type === 'dir') throw mkerr('EPERM', 'link', a, b)
      const r = disk.lookup(abs(b), { follow: false, syscall: 'link', orig: b })
      if (r.node) throw mkerr('EEXIST', 'link', a, b)
      disk.checkWritable(r.parent, 'link', b)
      n.nlink++
      disk.link(r.parent, r.name, n)
    },
    readlink (p) {
      const n = disk.get(abs(p), { follow: false, syscall: 'readlink', orig: p })
      if (n.type !== 'symlink') throw mkerr('EINVAL', 'readlink', p)
      return n.target
    },
    realpath (p) {
      let a = abs(p)
      for (let i = 0; i < 20; i++) {
        const n = disk.get(a, { follow: false, syscall: 'realpath', orig: p })
        if (n.type !== 'symlink') break
        a = P.resolve(P.dirname(a), n.target)
      }
      return a
    },
    chmod (p, mode) { const n = disk.get(abs(p), { syscall: 'chmod', orig: p }); n.mode = mode },
    fchmod (fd, mode) { getFd(fd, 'fchmod').node.mode = mode },
    utimes (p, a, m) { disk.get(abs(p), { syscall: 'utime', orig: p }).mtimeMs = toDate(m) },
    lutimes (p, a, m) { disk.get(abs(p), { follow: false, syscall: 'lutime', orig: p }).mtimeMs = toDate(m) },
    futimes (fd, a, m) { getFd(fd, 'futime').node.mtimeMs = toDate(m) },
    chown (p) { disk.get(abs(p), { syscall: 'chown', orig: p }) },
    lchown (p) { disk.get(abs(p), { follow: false, syscall: 'lchown', orig: p }) },
    fchown (fd) { getFd(fd, 'fchown') },
    truncate (p, len) { const n = disk.get(abs(p), { syscall: 'truncate', orig: p }); n.data = Buffer.concat([n.data.subarray(0, len || 0), Buffer.alloc(Math.max(0, (len || 0) - n.data.length))]); disk.version++ },
    ftruncate (fd, len) { const n = getFd(fd, 'ftruncate').node; n.data = Buffer.concat([n.data.subarray(0, len || 0), Buffer.alloc(Math.max(0, (len || 0) - n.data.length))]); disk.version++ },
    fsync (fd) { getFd(fd, 'fsync') },
    fdatasync (fd) { getFd(fd, 'fdatasync') }
  }
  const lbl = (x) => (typeof x === 'number' ? 'fd' + (fds.get(x) ? ':' + fds.get(x).path : '') : String(x))
  const step = (kind, args) => proc.step('fs.' + (kind === 'mkdir1' ? 'mkdir' : kind), lbl(args[0]), () => prim[kind](...args),
    { bytes: kind === 'write' ? args : null, prim, kind, writing: kind === 'open' && !!(flagsOf(args[1]) & (O.O_WRONLY | O.O_RDWR)) })
  const stepSync = (kind, args) => proc.stepSync('fs.' + (kind === 'mkdir1' ? 'mkdir' : kind), lbl(args[0]), () => prim[kind](...args))

  // ---------- compound operations as generators over primitive steps ----------
  function enc (o) { return typeof o === 'string' ? o : o && o.encoding ? o.encoding : null }
  const compound = {
    * readFile (p, opts) {
      const own = typeof p !== 'number'
      const fd = own ? yield ['open', p, (opts && opts.flag) || 'r'] : p
      const chunks = []
      try {
        const buf = Buffer.alloc(64 * 1024)
        for (;;) {
          const n = yield ['read', fd, buf, 0, buf.length, null]
          if (!n) break
          chunks.push(Buffer.from(buf.subarray(0, n)))
        }
      } finally { if (own) yield ['close', fd] }
      const data = Buffer.concat(chunks)
      const e = enc(opts)
      return e && e !== 'buffer' ? data.toString(e) : data
    },
    * writeFile (p, data, opts) {
      const own = typeof p !== 'number'
      const flag = (opts && opts.flag) || 'w'
      const fd = own ? yield ['open', p, flag, (opts && opts.mode)] : p
      try {
        const buf = typeof data === 'string' ? Buffer.from(data, enc(opts) || 'utf8') : Buffer.from(data)
        let off = 0
        const chunk = Math.max(1, proc.kernel.writeChunk || 16384)
        while (off < buf.length) off += yield ['write', fd, buf, off, Math.min(chunk, buf.length - off), null]
      } finally { if (own) yield ['close', fd] }
    },
    * appendFile (p, data, opts) { return yield * compound.writeFile(p, data, { ...(typeof opts === 'string' ? { encoding: opts } : opts), flag: 'a' }) },
    * mkdir (p, opts) {
      const recursive = opts && typeof opts === 'object' && opts.recursive
      let mode = typeof opts === 'number' ? opts : opts && typeof opts === 'object' ? opts.mode : undefined
      if (typeof mode === 'string') mode = parseInt(mode, 8)
      if (!recursive) { yield ['mkdir1', p, mode]; return undefined }
      const a = abs(p)
      const missing = []
      let cur = a
      let first
      // libuv/node style: try to make the deepest, walk up on ENOENT
      for (;;) {
        try {
          yield ['mkdir1', cur, mode]
          first = cur
          break
        } catch (err) {
          if (err.code === 'ENOENT') {
            const up = P.dirname(cur)
            if (up === cur) throw err
            missing.push(cur)
            cur = up
            continue
          }
          if (err.code === 'EEXIST' || err.code === 'EISDIR' || (err.code === 'EACCES' && false)) {
            const st = yield ['stat', cur]
            if (!st.isDirectory()) {
              if (missing.length) throw mkerr('ENOTDIR', 'mkdir', a)
              throw mkerr('EEXIST', 'mkdir', a)
            }
            break
          }
          throw err
        }
      }
      while (missing.length) {
        const d = missing.pop()
        try {
          yield ['mkdir1', d, mode]
          if (!first) first = d
        } catch (err) {
          if (err.code === 'EEXIST') {
            const st = yield ['stat', d]
            if (st.isDirectory()) continue
          }
          throw err
        }
      }
      return first
    },
    * mkdtemp (prefix) {
      for (let i = 0; ; i++) {
        const name = prefix + proc.randomName(6)
        try {
          yield ['mkdir1', name, 0o700]
          return name
        } catch (err) { if (err.code !== 'EEXIST' || i > 5) throw err }
      }
    },
    * readdir (p, opts) {
      const list = yield ['readdir', p]
      const withTypes = opts && typeof opts === 'object' && opts.withFileTypes
      if (opts && typeof opts === 'object' && opts.recursive) {
        const out = []
        for (const e of list) {
          out.push(withTypes ? new Dirent(e.name, e.node.type, String(p)) : e.name)
          if (e.node.type === 'dir') {
            const sub = yield * compound.readdir(P.join(String(p), e.name), opts)
            for (const s of sub) out.push(withTypes ? s : P.join(e.name, s))
          }
        }
        return out
      }
      return list.map((e) => withTypes ? new Dirent(e.name, e.node.type, String(p)) : e.name)
    },
    * rm (p, opts) {
      opts = opts || {}
      let st
      try {
        st = yield ['lstat', p]
      } catch (err) {
        if (err.code === 'ENOENT' && opts.force) return
        throw err
      }
      if (st.isDirectory() && !opts.recursive) {
        const e = new Error(`Path is a directory: rm returned EISDIR (is a directory) ${abs(p)}`)
        e.name = 'SystemError'; e.code = 'ERR_FS_EISDIR'
        throw e
      }
      yield * compound._rimraf(String(p), st)
    },
    * _rimraf (p, st) {
      if (!st.isDirectory()) {
        try { yield ['unlink', p] } catch (err) { if (err.code !== 'ENOENT') throw err }
        return
      }
      let list
      try { list = yield ['readdir', p] } catch (err) { if (err.code === 'ENOENT') return; throw err }
      for (const e of list) {
        const c = P.join(p, e.name)
        let cst
        try { cst = yield ['lstat', c] } catch (err) { if (err.code === 'ENOENT') continue; throw err }
        yield * compound._rimraf(c, cst)
      }
      try { yield ['rmdir', p] } catch (err) { if (err.code !== 'ENOENT') throw err }
    },
    * copyFile (src, dest, mode) {
      const sfd = yield ['open', src, 'r']
      let dfd
      let dnode
      try {
        const st = yield ['fstat', sfd]
        dfd = yield ['open', dest, mode & O.COPYFILE_EXCL ? 'wx' : 'w', st.mode & 0o777]
        dnode = fds.get(dfd).node
        if (disk.win) { dnode.busy++; proc.onDeath(() => { if (dnode) dnode.busy-- }) }
        const buf = Buffer.alloc(proc.kernel.writeChunk || 65536)
        for (;;) {
          const n = yield ['read', sfd, buf, 0, buf.length, null]
          if (!n) break
          const b = Buffer.from(buf.subarray(0, n))
          for (let o = 0; o < n;) o += yield ['write', dfd, b, o, n - o, null]
        }
      } finally {
        if (dnode && disk.win) { dnode.busy--; dnode = null }
        if (dfd !== undefined) yield ['close', dfd]
        yield ['close', sfd]
      }
    },
    * cp (src, dest, opts) {
      const st = yield ['lstat', src]
      if (st.isDirectory()) {
        if (!(opts && opts.recursive)) { const e = new Error('cp: is a directory'); e.code = 'ERR_FS_EISDIR'; throw e }
        yield * compound.mkdir(dest, { recursive: true })
        for (const e of yield ['readdir', src]) yield * compound.cp(P.join(String(src), e.name), P.join(String(dest), e.name), opts)
      } else if (st.isSymbolicLink()) {
        yield ['symlink', yield ['readlink', src], dest]
      } else yield * compound.copyFile(src, dest, 0)
    },
    * opendir (p) {
      const list = yield * compound.readdir(p, { withFileTypes: true })
      const dir = {
        path: String(p),
        read: async () => list.shift() || null,
        readSync: () => list.shift() || null,
        close: async () => {},
        closeSync: () => {},
        async * [Symbol.asyncIterator] () { while (list.length) yield list.shift() }
      }
      return dir
    },
    * exists (p) { try { yield ['access', p, 0]; return true } catch { return false } }
  }
  const simple = ['stat', 'lstat', 'fstat', 'access', 'open', 'close', 'rmdir', 'unlink', 'rename', 'symlink', 'link', 'readlink',
    'realpath', 'chmod', 'fchmod', 'utimes', 'lutimes', 'futimes', 'chown', 'lchown', 'fchown', 'truncate', 'ftruncate', 'fsync', 'fdatasync']

  async function drive (gen) {
    let r = gen.next()
    for (;;) {
      if (r.done) return r.value
      let v
      try {
        v = await step(r.value[0], r.value.slice(1))
      } catch (err) { r = gen.throw(err); continue }
      r = gen.next(v)
    }
  }
  function driveSync (gen) {
    let r = gen.next()
    for (;;) {
      if (r.done) return r.value
      let v
      try { v = stepSync(r.value[0], r.value.slice(1)) } catch (err) { r = gen.throw(err); continue }
      r = gen.next(v)
    }
  }
  function one (kind) { return function * (...args) { return yield [kind, ...args] } }

  const ops = {}
  for (const k of simple) ops[k] = one(k)
  for (const k of Object.keys(compound)) if (k[0] !== '_') ops[k] = compound[k]
  ops.rm = compound.rm

  // argument normalisation shared by the three API styles
  function call (name, args) {
    if (name === 'stat' || name === 'lstat' || name === 'fstat') args = [args[0]]
    if (name === 'realpath' || name === 'readlink') args = [args[0]]
    if (name === 'access') args = [args[0], typeof args[1] === 'number' ? args[1] : 0]
    if (name === 'symlink') args = [args[0], args[1]]
    if (typeof args[0] !== 'number' && name !== 'fstat') abs(args[0]) // type check
    return ops[name](...args)
  }

  const fs = {}
  const promises = {}
  for (const name of Object.keys(ops)) {
    promises[name] = async (...args) => drive(call(name, args))
    fs[name] = (...args) => {
      const cb = args.pop()
      if (typeof cb !== 'function') {
        const e = new TypeError('The "cb" argument must be of type function. Received ' + typeof cb); e.code = 'ERR_INVALID_ARG_TYPE'; throw e
      }
      const gen = call(name, args)
      drive(gen).then((v) => proc.callback(() => name === 'exists' ? cb(v) : v === undefined ? cb(null) : cb(null, v)),
        (err) => proc.callback(() => cb(err)))
    }
    fs[name + 'Sync'] = (...args) => driveSync(call(name, args))
  }
  delete promises.exists
  fs.existsSync = (p) => { try { return driveSync(compound.exists(p)) } catch { return false } }
  fs.statSync = (p, o) => { try { return driveSync(one('stat')(p)) } catch (e) { if (o && o.throwIfNoEntry === false && e.code === 'ENOENT') return undefined; throw e } }
  fs.lstatSync = (p, o) => { try { return driveSync(one('lstat')(p)) } catch (e) { if (o && o.throwIfNoEntry === false && e.code === 'ENOENT') return undefined; throw e } }
  // fd based read/write with their flexible signatures
  function rwArgs (args, write) {
    let [fd, buf, off, len, pos] = args
    if (write && typeof buf === 'string') { buf = Buffer.from(buf, typeof len === 'string' ? len : 'utf8'); pos = off; off = 0; len = buf.length }
    if (off && typeof off === 'object') { pos = off.position; len = off.length; off = off.offset }
    if (buf && !ArrayBuffer.isView(buf) && buf.buffer) { ({ offset: off, length: len, position: pos, buffer: buf } = buf) }
    off = off || 0
    if (len === undefined || len === null) len = buf.length - off
    return [fd, buf, off, len, pos === undefined ? null : pos]
  }
  for (const kind of ['read', 'write']) {
    fs[kind] = (...args) => {
      const cb = args.pop()
      const a = rwArgs(args, kind === 'write')
      step(kind, a).then((n) => proc.callback(() => cb(null, n, a[1])), (err) => proc.callback(() => cb(err)))
    }
    fs[kind + 'Sync'] = (...args) => stepSync(kind, rwArgs(args, kind === 'write'))
    fs[kind][require('util').promisify.custom] = (...args) => { const a = rwArgs(args, kind === 'write'); return step(kind, a).then((n) => ({ [kind === 'read' ? 'bytesRead' : 'bytesWritten']: n, buffer: a[1] })) }
  }
  fs.writev = (fd, bufs, pos, cb) => {
    if (typeof pos === 'function') { cb = pos; pos = null }
    const b = Buffer.concat(bufs.map((x) => Buffer.from(x.buffer, x.byteOffset, x.byteLength)))
    fs.write(fd, b, 0, b.length, pos, (err, n) => err ? cb(err) : cb(null, n, bufs))
  }
  // rm: node's rimraf (lib/internal/fs/rimraf.js), which removes the children of a directory concurrently
  const RETRY = new Set(['EBUSY', 'EMFILE', 'ENFILE', 'ENOTEMPTY', 'EPERM'])
  function rimraf (p, o, callback) {
    let retries = 0
    _rimraf(p, o, function CB (err) {
      if (err) {
        if (RETRY.has(err.code) && retries < o.maxRetries) {
          retries++
          proc.kernel.probe && proc.kernel.probe('rm-retry')
          return proc.global.setTimeout(_rimraf, retries * o.retryDelay, p, o, CB)
        }
        if (err.code === 'ENOENT') err = null
      }
      callback(err)
    })
  }
  function _rimraf (p, o, callback) {
    fs.lstat(p, (err, st) => {
      if (err) {
        if (err.code === 'ENOENT') return callback(null)
        if (disk.win && err.code === 'EPERM') return fixWinEPERM(p, o, err, callback)
      } else if (st.isDirectory()) return _rmdir(p, o, err, callback)
      fs.unlink(p, (err) => {
        if (err) {
          if (err.code === 'ENOENT') return callback(null)
          if (err.code === 'EISDIR') return _rmdir(p, o, err, callback)
          if (err.code === 'EPERM') return (disk.win ? fixWinEPERM : _rmdir)(p, o, err, callback)
        }
        return callback(err)
      })
    })
  }
  function fixWinEPERM (p, o, orig, callback) {
    fs.chmod(p, 0o666, (err) => {
      if (err) return callback(err.code === 'ENOENT' ? null : orig)
      fs.stat(p, (err, st) => {
        if (err) return callback(err.code === 'ENOENT' ? null : orig)
        if (st.isDirectory()) _rmdir(p, o, orig, callback)
        else fs.unlink(p, callback)
      })
    })
  }
  function _rmdir (p, o, orig, callback) {
    prims.rmdir(p, (err) => {
      if (err) {
        if (['ENOTEMPTY', 'EEXIST', 'EPERM'].includes(err.code)) return _rmchildren(p, o, callback)
        if (err.code === 'ENOTDIR') return callback(orig)
      }
      callback(err)
    })
  }
  function _rmchildren (p, o, callback) {
    fs.readdir(p, (err, files) => {
      if (err) return callback(err)
      let n = files.length
      if (!n) return prims.rmdir(p, callback)
      let done = false
      for (const f of files) {
        rimraf(P.join(String(p), f), o, (err) => {
          if (done) return
          if (err) { done = true; return callback(err) }
          if (--n === 0) prims.rmdir(p, callback)
        })
      }
    })
  }
  const prims = { rmdir: fs.rmdir }
  function rmAsync (p, opts, callback) {
    const o = { maxRetries: 0, retryDelay: 100, recursive: false, force: false, ...(opts || {}) }
    abs(p)
    fs.lstat(p, (err, st) => {
      if (err) return callback(o.force && err.code === 'ENOENT' ? null : err)
      if (st.isDirectory() && !o.recursive) {
        const e = new Error(`Path is a directory: rm returned EISDIR (is a directory) ${abs(p)}`)
        e.name = 'SystemError'; e.code = 'ERR_FS_EISDIR'
        return callback(e)
      }
      rimraf(p, o, callback)
    })
  }
  fs.rm = (p, opts, cb) => { if (typeof opts === 'function') { cb = opts; opts = {} } rmAsync(p, opts, (err) => cb(err || null)) }
  promises.rm = (p, opts) => new Promise((resolve, reject) => { try { rmAsync(p, opts, (err) => err ? reject(err) : resolve()) } catch (err) { reject(err) } })
  promises.rmdir = ((orig) => (p, o) => o && o.recursive ? promises.rm(p, { recursive: true }) : orig(p))(promises.rmdir)
  fs.mkdtempSync = (prefix) => driveSync(compound.mkdtemp(prefix))
  fs.realpath.native = fs.realpath
  fs.realpathSync.native = fs.realpathSync
  fs.rmdir = ((orig) => (p, o, cb) => { if (typeof o === 'function') { cb = o; o = {} } return o && o.recursive ? fs.rm(p, { recursive: true }, cb) : orig(p, cb) })(fs.rmdir)
  // file handles
  promises.open = async (p, flags, mode) => {
    const fd = await drive(one('open')(p, flags, mode))
    const EventEmitter = require('events')
    const h = new EventEmitter()
    Object.assign(h, {
      fd,
      close: () => step('close', [fd]),
      sync: () => step('fsync', [fd]),
      datasync: () => step('fdatasync', [fd]),
      stat: () => step('fstat', [fd]),
      truncate: (n) => step('ftruncate', [fd, n]),
      chmod: (m) => step('fchmod', [fd, m]),
      utimes: (a, m) => step('futimes', [fd, a, m]),
      readFile: (o) => drive(compound.readFile(fd, o)),
      writeFile: (d, o) => drive(compound.writeFile(fd, d, o)),
      appendFile: (d, o) => drive(compound.writeFile(fd, d, o)),
      read: (...a) => { const x = rwArgs([fd, ...a], false); return step('read', x).then((n) => ({ bytesRead: n, buffer: x[1] })) },
      write: (...a) => { const x = rwArgs([fd, ...a], true); return step('write', x).then((n) => ({ bytesWritten: n, buffer: x[1] })) },
      createWriteStream: (o) => fs.createWriteStream('', { ...o, fd }),
      createReadStream: (o) => fs.createReadStream('', { ...o, fd })
    })
    return h
  }
  promises.constants = constants

  // streams: the host's stream classes over this fs
  const streamFs = { open: (...a) => fs.open(...a), close: (...a) => fs.close(...a), read: (...a) => fs.read(...a), write: (...a) => fs.write(...a), writev: undefined }
  function streamOpts (o) { return typeof o === 'string' ? { encoding: o, fs: streamFs } : { ...(o || {}), fs: (o && o.fs) || streamFs } }
  function ReadStream (p, o) {
    if (!(this instanceof ReadStream)) return new ReadStream(p, o)
    realFs.ReadStream.call(this, typeof p === 'string' ? abs(p) : p, streamOpts(o))
  }
  ReadStream.prototype = Object.create(realFs.ReadStream.prototype, { constructor: { value: ReadStream, configurable: true, writable: true } })
  function WriteStream (p, o) {
    if (!(this instanceof WriteStream)) return new WriteStream(p, o)
    realFs.WriteStream.call(this, typeof p === 'string' ? abs(p) : p, streamOpts(o))
  }
  WriteStream.prototype = Object.create(realFs.WriteStream.prototype, { constructor: { value: WriteStream, configurable: true, writable: true } })
  fs.ReadStream = ReadStream
  fs.WriteStream = WriteStream
  fs.FileReadStream = ReadStream
  fs.FileWriteStream = WriteStream
  fs.createReadStream = (p, o) => new ReadStream(p, o)
  fs.createWriteStream = (p, o) => new WriteStream(p, o)
  fs.constants = constants
  for (const c of ['F_OK', 'R_OK', 'W_OK', 'X_OK']) fs[c] = constants[c]
  fs.Stats = Stats
  fs.Dirent = Dirent
  fs.promises = promises
  fs.watch = fs.watchFile = () => { throw new Error('simfs: watch not simulated') }
  return fs
}

module.exports = { Disk, makeFs, mkerr, Inode }
