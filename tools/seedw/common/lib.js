'use strict'
// Helpers for the demonstrations: a dist server on loopback and runs of node-gyp that
// keep everything they write inside a scratch directory.
const fs = require('fs')
const os = require('os')
const path = require('path')
const http = require('http')
const crypto = require('crypto')
const { spawn } = require('child_process')
const REPO = process.cwd()
const NPM = '/usr/lib/node_modules/npm/node_modules'
const tar = require(path.join(NPM, 'tar'))

const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-'))
process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }))
const dir = (n) => { const d = path.join(scratch, n); fs.mkdirSync(d, { recursive: true }); return d }

/** a headers tarball of a version, with the files given */
function tarball (version, files) {
  const src = dir('src-' + version)
  const top = `node-v${version}`
  for (const [f, data] of Object.entries(files)) {
    const p = path.join(src, top, f)
    fs.mkdirSync(path.dirname(p), { recursive: true })
    fs.writeFileSync(p, data)
  }
  const out = path.join(scratch, `node-v${version}-headers.tar.gz`)
  tar.create({ file: out, gzip: true, cwd: src, sync: true, portable: true }, [top])
  return fs.readFileSync(out)
}
const HEADERS = { 'include/node/node.h': '#define A 1\n', 'include/node/v8.h': '#define B 2\n', 'include/node/common.gypi': '{}\n' }
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex')

/** a server whose answers are { '/path': body or function(req, res) } */
function serve (routes) {
  const log = []
  return new Promise((resolve) => {
    const s = http.createServer((req, res) => {
      log.push(req.url)
      const r = routes[req.url]
      if (typeof r === 'function') return r(req, res)
      if (r === undefined) { res.statusCode = 404; return res.end('no') }
      res.end(r)
    })
    s.listen(0, '127.0.0.1', () => resolve({ url: 'http://127.0.0.1:' + s.address().port, log, close: () => s.close() }))
  })
}
/** routes of a whole distribution of the version */
function dist (version, body = tarball(version, HEADERS), shasums) {
  const t = `/v${version}/node-v${version}-headers.tar.gz`
  return { [t]: body, [`/v${version}/SHASUMS256.txt`]: shasums ?? `${sha(body)}  node-v${version}-headers.tar.gz\n` }
}
/** run node-gyp; never rejects */
function gyp (args, { env = {}, cwd = dir('cwd'), pre = [], shell } = {}) {
  const home = dir('home')
  const e = { PATH: process.env.PATH, HOME: home, TMPDIR: dir('tmp'), NODE_PATH: NPM, ...env }
  const argv = [...pre, path.join(REPO, 'bin', 'node-gyp.js'), ...args]
  return new Promise((resolve) => {
    const p = shell ? spawn('sh', ['-c', shell + '; exec "$0" "$@"', process.execPath, ...argv], { cwd, env: e }) : spawn(process.execPath, argv, { cwd, env: e })
    let out = ''
    p.stdout.on('data', (d) => { out += d })
    p.stderr.on('data', (d) => { out += d })
    p.on('close', (code, signal) => resolve({ code, signal, out }))
  })
}
function check (ok, what) {
  if (!ok) { console.log('FAIL: ' + what); process.exitCode = 1 } else console.log('ok: ' + what)
}
module.exports = { REPO, NPM, scratch, dir, tarball, HEADERS, sha, serve, dist, gyp, check, fs, path }
