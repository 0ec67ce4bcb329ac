'use strict'
// Programs a simulated node-gyp can spawn. They stand in for python, gyp, make and MSBuild:
// each takes several simulated steps, touches the simulated disk, and ends as the scenario says.

// spec: {table: {command: behaviour}, gyp: outcome, make: outcome, msbuild: outcome}
// behaviour of a python: {exe, version, code, signal, stdout, versionStdout, delay}
function install (world, spec = {}) {
  const m = world.m
  const log = world.children = []
  const std = m.win ? 'C:\\Python311\\python.exe' : '/usr/bin/python3'
  const table = spec.table || { python3: { exe: std, version: '3.11.2' }, [std]: { exe: std, version: '3.11.2' } }
  const norm = (c) => { c = c.replace(/^"|"$/g, ''); return m.win ? c.toLowerCase() : c }
  const find = (c) => { const k = Object.keys(table).find((x) => norm(x) === norm(c)); return k ? table[k] : null }
  if (!m.win && spec.tools !== false) for (const t of ['make', 'gmake']) m.disk.put('/usr/bin/' + t, '#!', 0o755)
  m.program = (rec, proc) => {
    log.push(rec)
    const base = m.path.basename(rec.command.replace(/^"|"$/g, '')).toLowerCase()
    const gypArg = rec.args.findIndex((a) => /gyp_main\.py$/.test(a))
    if (gypArg >= 0) {
      const b = find(rec.command)
      if (!b) return null
      return gyp(world, spec.gyp || {}, rec, proc)
    }
    const b = find(rec.command)
    if (b) return python(b, rec, proc, m)
    if (spec.extra) { const r = spec.extra(rec, proc, base); if (r !== undefined) return r }
    if (base === 'msbuild.exe') return tool(world, spec.msbuild || {}, rec, proc, 'msbuild')
    if (/make$/.test(base) || /make(\.exe)?$/.test(base)) return tool(world, spec.make || {}, rec, proc, 'make')
    // a command processor reports an unknown command itself, with exit status 1
    if (rec.shell) return { code: 1, stderr: `'${rec.command}' is not recognized as an internal or external command` }
    return null
  }
}

function python (b, rec, proc, m) {
  if (b.spawnError) return null
  if (b.missing) return rec.shell ? { code: 9009, stderr: 'not recognized' } : null
  const args = rec.args.map((a) => a.replace(/^"|"$/g, ''))
  const code = args.join(' ')
  let out
  if (/sys\.executable/.test(code) && b.exe2 && !args.includes('-3')) out = b.exe2
  else if (/sys\.executable/.test(code)) out = b.exeStdout !== undefined ? b.exeStdout : b.exe
  else if (/version/.test(code)) out = b.versionStdout !== undefined ? b.versionStdout : b.version + '\n'
  else return { code: 2, stderr: 'unknown program' }
  const which = /sys\.executable/.test(code) ? 'exe' : 'version'
  const fail = b.failOn === undefined || b.failOn === which ? b : {}
  return { stdout: fail.signal && fail.quiet ? '' : out, stderr: fail.stderr || '', code: fail.code || 0, signal: fail.signal, delay: b.delay }
}

// gyp: reads its inputs, writes the build files, then exits
function gyp (world, o, rec, proc) {
  const m = world.m
  rec.tool = 'gyp'
  return async (ctx) => {
    rec.aliveAt = m.kernel.now
    const d = m.disk
    const out = rec.args[rec.args.indexOf('--generator-output') + 1]
    const outDir = m.path.resolve(rec.cwd, out || '.')
    rec.saw = {
      binding: d.readText(m.path.resolve(rec.cwd, rec.args[1] || '')),
      includes: rec.args.map((a, i) => rec.args[i - 1] === '-I' ? a : null).filter(Boolean).map((f) => [f, d.readText(m.path.resolve(rec.cwd, f))])
    }
    await ctx.step('gyp-read', undefined, o.slow)
    if (rec.saw.binding === null || (o.strict && rec.saw.includes.some((x) => x[1] === null && !/extra\.gypi|addon\.gypi$/.test(x[0])))) return { code: 1, stderr: 'gyp: input file not found' }
    if (o.code || o.signal) { if (!o.late) return { code: o.code, signal: o.signal } }
    const make = rec.args.some((a, i) => (rec.args[i - 1] === '-f' && a.startsWith('make')) || a.startsWith('--format=make'))
    // the file the build starts from comes last, so an unfinished run of gyp leaves nothing to build from
    const files = make ? ['binding.Makefile', 'addon.target.mk', 'Makefile'] : ['binding.vcxproj', 'binding.sln']
    if (o.late) files.pop()
    rec.id = ++world.gypRuns || (world.gypRuns = 1)
    for (const f of files) await ctx.step('gyp-write', () => { if (!(o.noFiles)) d.put(m.j(outDir, f), `generated ${f} by ${rec.id}\n`) })
    if (o.code || o.signal) return { code: o.code, signal: o.signal }
    return { code: 0 }
  }
}

function tool (world, o, rec, proc, name) {
  const m = world.m
  rec.tool = name
  return async (ctx) => {
    rec.aliveAt = m.kernel.now
    const link = m.path.resolve(rec.cwd, 'build', 'node_gyp_bins', 'python3')
    const look = () => { const n = m.disk.node(link, false); return n && n.type === 'symlink' ? n.target : n ? 'not a link' : null }
    rec.linkDuring = [look()]
    const ci = rec.args.indexOf('-C')
    const dir = m.path.resolve(rec.cwd, ci >= 0 ? rec.args[ci + 1] : '.')
    const file = name === 'make' ? m.j(dir, 'Makefile') : m.path.resolve(rec.cwd, rec.args.find((a) => /\.sln$/.test(a)) || 'none.sln')
    rec.projectFile = file
    rec.project = m.disk.readText(file)
    if (rec.project === null) return { code: 2, stderr: 'no project file' }
    const steps = o.steps === undefined ? 3 : o.steps
    for (let i = 0; i < steps; i++) { await ctx.step(name + '-run', undefined, o.slow); rec.linkDuring.push(look()) }
    if (!o.code && !o.signal) m.disk.put(m.path.resolve(rec.cwd, 'build', 'Release', 'addon.node'), 'built by ' + rec.seq)
    return { code: o.code || 0, signal: o.signal }
  }
}

module.exports = { install }
