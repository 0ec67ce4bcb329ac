import sys; sys.path.insert(0,'/tmp/seedw')
from new import make
PRE = "'use strict'\nconst { serve, dist, gyp, check, dir, tarball, HEADERS, sha, fs, path, scratch, NPM, REPO } = require('./lib.js')\nconst V = '18.5.0'\n;(async () => {\n"
POST = "})()\n"
want = sys.argv[1:]
def M(id, *a, **k):
    if not want or id in want: make(id, *a, **k)
M("mkdir-race", "C03", "two installs that both find the version's directory missing before either has created it",
 "the second of two concurrent installs fails with EEXIST",
 [("lib/install.js", "      const created = await fs.mkdir(devDir, { recursive: true })\n", """      await fs.mkdir(gyp.devDir, { recursive: true })
      const known = await fs.readdir(gyp.devDir)
      let created
      if (!known.includes(release.versionDir)) {
        await fs.mkdir(devDir)
        created = devDir
      }
""")],
 {"slow.js": "// every listing and creation of a directory takes a while, so that the two installs are side by side\nconst { promises } = require('fs')\nfor (const n of ['readdir', 'mkdir']) {\n  const real = promises[n]\n  promises[n] = async (...a) => { const r = real(...a).then((v) => ({ v }), (e) => ({ e })); if (n === 'readdir') await new Promise((resolve) => setTimeout(resolve, 1500)); const { v, e } = await r; if (e) throw e; return v }\n}\n",
 "demo.js": PRE + """
  const s = await serve(dist(V))
  const dev = dir('dev')
  const both = await Promise.all([1, 2].map((i) => gyp(['install', V, '--devdir', dev, '--dist-url', s.url], { pre: ['-r', path.join(__dirname, 'slow.js')] })))
  for (const r of both) check(r.code === 0, 'both installs succeed')
  check(fs.readFileSync(path.join(dev, V, 'include/node/node.h'), 'utf8') === HEADERS['include/node/node.h'], 'the headers are complete')
  s.close()
""" + POST})
M("fallback-configure", "C04", "configure with a devdir that is not permitted, so that its install falls back to the temporary devdir",
 "configure points gyp at the version's directory in the unusable devdir instead of the fallback",
 [("lib/configure.js", "      await gyp.commands.install([release.version])\n", "      const versionDir = path.resolve(gyp.devDir, release.versionDir)\n      await gyp.commands.install([release.version])\n"),
  ("lib/configure.js", "      nodeDir = path.resolve(gyp.devDir, release.versionDir)\n", "      nodeDir = versionDir\n")],
 {"deny.js": "// the devdir belongs to somebody else: EACCES for everything in it\nconst { promises } = require('fs')\nfor (const n of ['stat', 'mkdir', 'readFile', 'writeFile', 'rm']) {\n  const real = promises[n]\n  promises[n] = async (p, ...a) => {\n    if (String(p).startsWith(process.env.DENY)) throw Object.assign(new Error(`EACCES: permission denied, ${n} '${p}'`), { code: 'EACCES' })\n    return real(p, ...a)\n  }\n}\n",
 "demo.js": PRE + """
  const s = await serve(dist(V))
  const dev = path.join(scratch, 'dev')
  const cwd = dir('mod')
  fs.writeFileSync(path.join(cwd, 'binding.gyp'), '{"targets": [{"target_name": "a", "type": "none"}]}')
  const r = await gyp(['configure', '--target=' + V, '--devdir', dev, '--dist-url', s.url], { cwd, env: { DENY: dev }, pre: ['-r', path.join(__dirname, 'deny.js')] })
  check(fs.existsSync(path.join(scratch, 'tmp/.node-gyp', V, 'include/node/node.h')), 'the headers are in the temporary devdir')
  if (r.code) console.log(r.out)
  const config = r.code === 0 ? JSON.parse(fs.readFileSync(path.join(cwd, 'build/config.gypi'), 'utf8').replace(/#.+\\n/, '')) : null
  check(config && config.variables.nodedir === path.join(scratch, 'tmp/.node-gyp', V), 'configure uses that directory')
  s.close()
""" + POST})
M("noproxy-env", "C05", "noproxy given by --noproxy or npm_config_noproxy, for a host behind the configured proxy",
 "requests to hosts that noproxy exempts go through the proxy when the exemption is a later entry of the list",
 [("lib/download.js", "    noProxy: gyp.opts.noproxy\n", "    noProxy: gyp.opts.noproxy && gyp.opts.noproxy.split(/[,\\s]+/, 1)[0]\n")],
 {"demo.js": PRE + """
  const s = await serve(dist(V))
  const proxy = await serve({})
  const r = await gyp(['install', V, '--devdir', dir('dev'), '--dist-url', s.url, '--proxy', proxy.url, '--noproxy', 'example.org,127.0.0.1'])
  check(r.code === 0, 'the install succeeds')
  check(proxy.log.length === 0 && s.log.length === 2, 'the proxy is not asked')
  s.close(); proxy.close()
""" + POST})
M("gyp-killed", "C07", "a gyp process that is ended by a signal (out of memory, a stray kill) during configure",
 "configure and the run report success although gyp was killed",
 [("lib/configure.js", "        if (code !== 0) {\n", "        if (code > 0) {\n")],
 {"demo.js": PRE + """
  const cwd = dir('mod')
  fs.writeFileSync(path.join(cwd, 'binding.gyp'), '{"targets": [{"target_name": "a", "type": "none"}]}')
  fs.mkdirSync(path.join(scratch, 'nd/include/node'), { recursive: true })
  fs.writeFileSync(path.join(scratch, 'nd/include/node/common.gypi'), '{}')
  const py = path.join(dir('bin'), 'python3')
  fs.writeFileSync(py, '#!/bin/sh\\ncase "$1" in *gyp_main.py) kill -KILL $$;; esac\\nexec python3 "$@"\\n', { mode: 0o755 })
  const find = path.join(scratch, 'find.js')
  // (the search for Python is not the matter here)
  fs.writeFileSync(find, `require(${JSON.stringify(path.join(REPO, 'lib/find-python'))}).findPython = async () => ${JSON.stringify(py)}`)
  const r = await gyp(['configure', '--nodedir', path.join(scratch, 'nd')], { cwd, pre: ['-r', find] })
  check(r.out.includes('spawn args'), 'gyp was started')
  check(r.code !== 0, 'configure fails')
""" + POST})
M("stale-nodedir", "C08", "a configure with --nodedir in a project whose environment names another directory (npm_config_nodedir)",
 "gyp is given the headers of a --nodedir without its symbolic home expanded",
 [("lib/create-config-gypi.js", "variables.nodedir = nodeDir", "variables.nodedir = gyp.opts.nodedir || nodeDir")],
 {"demo.js": PRE + """
  const cwd = dir('mod')
  fs.writeFileSync(path.join(cwd, 'binding.gyp'), '{"targets": [{"target_name": "a", "type": "none"}]}')
  const nd = path.join(dir('home'), 'headers')
  fs.mkdirSync(path.join(nd, 'include/node'), { recursive: true })
  fs.writeFileSync(path.join(nd, 'include/node/common.gypi'), '{}')
  fs.writeFileSync(path.join(nd, 'include/node/config.gypi'), "{'variables': {'v8_x': 1}}")
  const r = await gyp(['configure', '--nodedir=~/headers'], { cwd })
  check(r.code === 0, 'configure succeeds')
  const config = JSON.parse(fs.readFileSync(path.join(cwd, 'build/config.gypi'), 'utf8').replace(/#.+\\n/, ''))
  check(config.variables.nodedir === nd, 'the directory recorded is the one that was used')
""" + POST})
