import sys; sys.path.insert(0,'/tmp/seedw')
from new import make
PRE = "'use strict'\nconst { serve, dist, gyp, check, dir, tarball, HEADERS, sha, fs, path, scratch, NPM, REPO } = require('./lib.js')\nconst V = '18.5.0'\n;(async () => {\n"
POST = "})()\n"
want = sys.argv[1:]
SH = '#!/bin/bash\n# the demonstration itself is demo.js; lib/ needs its dependencies\nNODE_PATH=/usr/lib/node_modules/npm/node_modules exec timeout 120 node "$(dirname "$0")/demo.js"\n'
def M(id, *a, **k):
    if not want or id in want: make(id, *a, **k)
VS = """'use strict'
const path = require('path')
const F = require(path.join(process.cwd(), 'lib/find-visualstudio.js'))

const S = (o) => JSON.stringify(o)
const P = 'Microsoft.VisualStudio.'
const FULL = ['VC.MSBuild.Base', 'Component.VC.Tools.x86.x64', 'Component.Windows10SDK.19041'].map((x) => P + x)
// the answers of PowerShell: no setup module, and the installations from the helper assembly
async function find (instances, config) {
  process.env.SystemRoot = 'C:\\\\Windows'
  delete process.env.VCINSTALLDIR
  const f = new F({ major: 18, minor: 0, patch: 0 }, config)
  f.msBuildPathExists = () => true
  f.execFile = async (cmd, args) => /Add-Type/.test(args.join(' ')) ? [null, S(instances), ''] : [new Error('no'), '', '']
  return f.findVisualStudio().catch((e) => ({ error: e.message }))
}
function check (ok, what) { if (!ok) { console.log('FAIL: ' + what); process.exitCode = 1 } else console.log('ok: ' + what) }
;(async () => {
"""
M("configured-second", "C10", "msvs_version names an installation (by path) that is not the first of the newest year, e.g. BuildTools beside Community",
 "an installation that matches msvs_version is not found when another one that does not match is looked at before it",
 [("lib/find-visualstudio.js", "      if (!this.checkConfigVersion(info.versionYear, info.path)) {\n        continue", "      if (!this.checkConfigVersion(info.versionYear, info.path)) {\n        break")],
 {"demo.sh": SH, "demo.js": VS + """
  const all = ['Community', 'BuildTools'].map((n) => ({ path: 'C:\\\\VS\\\\2022\\\\' + n, version: '17.6.1.2', packages: FULL }))
  for (const i of all) check((await find(structuredClone(all), i.path)).path === i.path, i.path + ' is found when it is asked for')
})()
"""})
M("newest-sdk", "C10", "an installation with several Windows SDKs whose newest is not listed last",
 "the Windows SDK of the installation that is recorded is the last one listed, not the newest",
 [("lib/find-visualstudio.js", "      Win10or11SDKVer = Math.max(Win10or11SDKVer, foundSdkVer)", "      Win10or11SDKVer = foundSdkVer")],
 {"demo.sh": SH, "demo.js": VS + """
  for (const order of [['18362', '22621', '19041'], ['22621', '18362', '19041'], ['18362', '19041', '22621']]) {
    const packages = [...FULL.slice(0, 2), ...order.map((v) => P + 'Component.Windows' + (v > '22000' ? '11' : '10') + 'SDK.' + v)]
    const r = await find([{ path: 'C:\\\\VS', version: '17.6.1.2', packages }])
    check(r.sdk === '10.0.22621.0', 'the newest SDK of ' + order + ' is used, ' + r.sdk)
  }
})()
"""})
M("cafile-chain", "C05", "a cafile that holds more than one certificate and a server whose certificate is signed by one that is not the first",
 "only the first certificate of a cafile is trusted",
 [("lib/download.js", "  const re = /(-----BEGIN CERTIFICATE-----[\\S\\s]*?-----END CERTIFICATE-----)/g", "  const re = /(-----BEGIN CERTIFICATE-----[\\S\\s]*-----END CERTIFICATE-----)/g")],
 {"demo.sh": SH, "demo.js": """'use strict'
const path = require('path')
const fs = require('fs')
const { scratch } = require('./lib.js')
const { readCAFile } = require(path.join(process.cwd(), 'lib/download.js'))
const pem = (x) => `-----BEGIN CERTIFICATE-----\\n${x}\\n-----END CERTIFICATE-----\\n`
;(async () => {
  const f = path.join(scratch, 'ca.pem')
  const certs = ['QUFB', 'QkJC', 'Q0ND'].map(pem)
  fs.writeFileSync(f, 'first\\n' + certs.join('another\\n'))
  const got = (await readCAFile(f)).map((c) => c.trim())
  const ok = got.length === 3 && certs.every((c, i) => got[i] === c.trim())
  console.log(ok ? 'ok: every certificate is read' : 'FAIL: certificates of the cafile: ' + JSON.stringify(got))
  process.exitCode = ok ? 0 : 1
})()
"""})
M("config-override", "C08", "an option of configure whose name is a variable that node's own config.gypi already has",
 "the value given for the option is not recorded: the one node was built with stays",
 [("lib/create-config-gypi.js", "    variables[opt.replace(/-/g, '_')] = gyp.opts[opt]", "    variables[opt.replace(/-/g, '_')] ??= gyp.opts[opt]")],
 {"demo.js": PRE + """
  const s = await serve(dist(V))
  const cwd = dir('mod')
  fs.writeFileSync(path.join(cwd, 'binding.gyp'), '{"targets": [{"target_name": "a", "type": "none"}]}')
  const r = await gyp(['configure', '--target=' + V, '--devdir', dir('dev'), '--dist-url', s.url, '--node-shared-zlib=mine', '--not-in-node=1'], { cwd })
  check(r.code === 0, 'configure succeeds')
  const config = JSON.parse(fs.readFileSync(path.join(cwd, 'build/config.gypi'), 'utf8').replace(/^#.*\\n/, ''))
  check(config.variables.node_shared_zlib === 'mine', 'the value given is recorded: ' + config.variables.node_shared_zlib)
  s.close()
""" + POST})
M("cwd-in-tmp", "C04", "an install that falls back to the temporary devdir and runs from a directory below (or named like) the temporary directory, as a module unpacked there",
 "the install gives up instead of using the temporary devdir",
 [("lib/install.js", "    if (process.cwd() === tmpdir) {", "    if (process.cwd().startsWith(tmpdir)) {")],
 {"deny.js": open('/verif/seeded/fallback-configure/deny.js').read(),
  "demo.js": PRE + """
  const s = await serve(dist(V))
  const dev = path.join(scratch, 'dev')
  for (const cwd of [dir('mod'), dir('tmp/mod'), dir('tmp-mod')]) {
    fs.rmSync(path.join(scratch, 'tmp/.node-gyp'), { recursive: true, force: true })
    const r = await gyp(['install', V, '--devdir', dev, '--dist-url', s.url], { cwd, env: { DENY: dev }, pre: ['-r', path.join(__dirname, 'deny.js')] })
    check(r.code === 0 && fs.existsSync(path.join(scratch, 'tmp/.node-gyp', V, 'include/node/node.h')), 'the temporary devdir is used from ' + path.relative(scratch, cwd))
  }
  s.close()
""" + POST})
M("pipe-closed", "C07", "a build tool that is ended by SIGPIPE, as when the reader of its output goes away",
 "build reports success although make did not finish",
 [("lib/build.js", "          if (signal) {", "          if (signal && signal !== 'SIGPIPE') {"), ("lib/build.js", "          if (code !== 0) {", "          if (code) {")],
 {"demo.js": PRE + """
  const cwd = dir('mod')
  const build = dir('mod/build')
  fs.writeFileSync(path.join(build, 'config.gypi'), JSON.stringify({ target_defaults: { default_configuration: 'Release' }, variables: { target_arch: 'x64', nodedir: '/x', python: '/usr/bin/python3' } }))
  for (const sig of ['PIPE', 'TERM', 'KILL']) {
    const make = path.join(scratch, 'make-' + sig)
    fs.writeFileSync(make, '#!/bin/sh\\nkill -' + sig + ' $$\\n', { mode: 0o755 })
    const r = await gyp(['build', '--make=' + make], { cwd })
    if (process.env.SHOW) console.log(r.out)
    check(r.code > 0, 'a make that SIG' + sig + ' ends is a failure')
  }
""" + POST})
