'use strict'
// Simulated network behind make-fetch-happen: origins, proxies, certificate authorities,
// redirects, and per-request faults. Semantics of proxy/noProxy/ca follow make-fetch-happen 14.
const realPath = require('path')
const Module = require('module')
const NPM = process.env.SIM_NPM_MODULES || '/usr/lib/node_modules/npm/node_modules'
const { Minipass } = Module.createRequire(realPath.join(NPM, 'x.js'))('minipass')

function neterr (code, msg) { const e = new Error(msg || code); e.code = code; e.errno = code; e.type = 'system'; return e }

function splitNoProxy (noProxy) {
  if (typeof noProxy === 'string') return noProxy.split(',').map((s) => s.trim()).filter(Boolean)
  return Array.isArray(noProxy) ? noProxy : []
}
function isNoProxy (hostname, noProxy) {
  const host = hostname.split('.').filter(Boolean).reverse()
  return splitNoProxy(noProxy).some((no) => {
    const seg = no.split('.').filter(Boolean).reverse()
    if (!seg.length) return false
    return seg.every((s, i) => host[i] === s)
  })
}

class Net {
  // topology: {direct: bool|(host)=>bool, proxies: {url: true}, hosts: {host: {ca}}}
  constructor (kernel, topology = {}) {
    this.kernel = kernel
    this.resources = new Map()
    this.topology = topology
    this.requests = []
  }

  put (url, body, opts = {}) { this.resources.set(url, { status: 200, body: Buffer.from(body), ...opts }) }

  client (proc) {
    const self = this
    const make = (defaults) => {
      const f = (url, opts) => self.fetch(proc, url, { ...defaults, ...(opts || {}) })
      f.defaults = (u, o) => make({ ...defaults, ...(typeof u === 'string' ? o : u) })
      f.delete = async () => {}
      f.default = f
      f.FetchError = class FetchError extends Error {}
      f.Headers = Map
      f.Request = class Request {}
      f.Response = class Response {}
      return f
    }
    return make({})
  }

  async fetch (proc, url, opts) {
    const k = this.kernel
    if (url && typeof url === 'object' && url.href) url = url.href
    if (typeof url !== 'string' || !/^https?:\/\//.test(url)) { const e = new TypeError('Invalid URL'); e.code = 'ERR_INVALID_URL'; throw e }
    let hops = 0
    const first = url
    for (;;) {
      const u = new URL(url)
      const env = {}
      for (const n of Object.keys(proc.process.env)) env[n.toLowerCase()] = proc.process.env[n]
      let proxy = opts.proxy
      if (!proxy) proxy = u.protocol === 'https:' ? env.https_proxy : env.https_proxy || env.http_proxy || env.proxy
      let noProxy = opts.noProxy
      if (!noProxy) noProxy = env.no_proxy
      if (proxy && isNoProxy(u.hostname, noProxy)) proxy = null
      const req = {
        by: proc.name, url: u.href, proxy: proxy ? new URL(String(proxy)).href : null, ca: opts.ca === undefined || opts.ca === null ? null : [].concat(opts.ca),
        insecure: opts.strictSSL === false || opts.rejectUnauthorized === false, headers: opts.headers || {}, method: opts.method || 'GET', at: k.now, hop: hops, first
      }
      this.requests.push(req)
      if (this.onRequest) this.onRequest(req)
      proc.requests.push(req)
      const f = proc.consult('net', u.href, req)
      await this.wait(proc, 'net:' + u.href, f)
      if (f && f.error) { k.fault('net:' + f.error); k.log(proc, `net ${u.href} -> FAULT ${f.error}`); throw neterr(f.error, `request to ${u.href} failed, reason: ${f.error}`) }
      const T = this.topology
      // path to the host
      if (req.proxy) {
        const ok = T.proxies && T.proxies[req.proxy]
        if (!ok) { k.log(proc, `net ${u.href} proxy ${req.proxy} dead`); throw neterr('ECONNREFUSED', `request to ${u.href} failed, reason: connect ECONNREFUSED ${req.proxy}`) }
        if (T.proxyReaches && !T.proxyReaches(req.proxy, u.hostname)) { throw neterr('ECONNRESET', `proxy ${req.proxy} cannot reach ${u.hostname}`) }
      } else if (T.direct !== undefined && !(typeof T.direct === 'function' ? T.direct(u.hostname) : T.direct)) {
        k.log(proc, `net ${u.href} unreachable directly`)
        throw neterr('ENOTFOUND', `request to ${u.href} failed, reason: getaddrinfo ENOTFOUND ${u.hostname}`)
      }
      const host = T.hosts && T.hosts[u.hostname]
      if (u.protocol === 'https:' && !req.insecure) {
        const issuer = (host && host.ca) || 'PUBLIC'
        const trusted = req.ca ? req.ca.some((c) => String(c).replace(/\r/g, '').trim() === issuer) : issuer === 'PUBLIC'
        if (!trusted) { k.log(proc, `net ${u.href} untrusted`); throw neterr('SELF_SIGNED_CERT_IN_CHAIN', `request to ${u.href} failed, reason: self signed certificate in certificate chain`) }
      }
      let r = this.resources.get(u.href) || { status: 404, body: Buffer.from('not found') }
      if (f && f.status) { k.fault('net:status'); r = { status: f.status, body: f.body !== undefined ? Buffer.from(f.body) : Buffer.from('error page') } }
      if (r.redirect && opts.redirect !== 'manual') {
        if (++hops > 20) throw neterr('EMAXREDIRECT', 'maximum redirect reached')
        k.log(proc, `net ${u.href} redirect ${r.redirect}`)
        url = new URL(r.redirect, u).href
        continue
      }
      req.status = r.status
      k.log(proc, `net ${u.href} status ${r.status}`)
      return this.response(proc, u.href, r, f, req)
    }
  }

  wait (proc, label, f) {
    return new Promise((resolve) => this.kernel.schedule(proc, label, resolve, f && f.delay))
  }

  response (proc, url, r, f, req) {
    const k = this.kernel
    const body = new Minipass()
    body.on('error', () => {}) // minipass-fetch keeps its own error listener on the body
    let data = r.body
    if (f && f.corrupt !== undefined && data.length) {
      k.fault('net:corrupt')
      data = Buffer.from(data)
      const at = Math.min(data.length - 1, Math.floor(f.corrupt * data.length))
      data[at] ^= (f.mask || 0x01)
    }
    if (f && f.replace !== undefined) { k.fault('net:replace'); data = Buffer.from(f.replace) }
    let stop = data.length
    let end = 'end'
    if (f && f.truncate !== undefined) { k.fault('net:truncate'); stop = Math.min(data.length - 1, Math.floor(f.truncate * data.length)); end = 'end' }
    if (f && f.reset !== undefined) { k.fault('net:reset'); stop = Math.min(data.length, Math.floor(f.reset * data.length)); end = 'reset' }
    const release = proc.hold()
    let off = 0
    // a negative size: every other chunk is a single byte
    const chunk = Math.max(1, Math.abs(k.netChunk || 8192))
    let single = k.netChunk < 0
    const pump = () => {
      let delay
      if (f && f.stall !== undefined && off >= Math.floor(f.stall * data.length) && !f.stalled) { f.stalled = true; k.fault('net:stall'); delay = 60000 }
      k.schedule(proc, 'net-data', () => {
        if (f && f.vanish !== undefined && off >= Math.floor(f.vanish * data.length)) { k.fault('net:vanish'); release(); return }
        if (off < stop) {
          const n = Math.min(single ? 1 : chunk, stop - off)
          if (k.netChunk < 0) single = !single
          const c = data.subarray(off, off + n)
          off += n
          body.write(c)
          pump()
        } else {
          release()
          if (end === 'end') { req.served = data.subarray(0, stop); req.finalOf = req.first; body.end() }
          else {
            const e = neterr('ECONNRESET', `Invalid response body while trying to fetch ${url}: aborted`)
            body.emit('error', e)
          }
        }
      }, delay)
    }
    // make-fetch-happen starts reading when the response arrives
    pump()
    const collect = async () => {
      const c = []
      return await new Promise((resolve, reject) => {
        body.on('data', (d) => c.push(d)); body.on('end', () => resolve(Buffer.concat(c))); body.on('error', reject)
      })
    }
    const headers = new Map([['content-length', String(r.body.length)], ...Object.entries(r.headers || {})])
    return {
      status: r.status, ok: r.status >= 200 && r.status < 300, statusText: '', url, redirected: false, headers, body, bodyUsed: false,
      text: async () => (await collect()).toString(), buffer: collect, json: async () => JSON.parse((await collect()).toString()),
      arrayBuffer: async () => { const b = await collect(); return b.buffer.slice(b.byteOffset, b.byteOffset + b.length) }
    }
  }
}

module.exports = { Net, isNoProxy }
