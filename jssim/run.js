'use strict'
// Driver of the simulated node-gyp checks (C01-C10).
//   node run.js --property C01 [--tier quick|thorough]      seeded search, exit 0 or 1
//   node run.js --replay FILE                                re-execute one recorded scenario
const { fork, spawnSync } = require('child_process')
const fs = require('fs')
const os = require('os')
const path = require('path')
const crypto = require('crypto')
const VERIF = path.resolve(__dirname, '..')

const argv = process.argv.slice(2)
const opt = (n, d) => { const i = argv.indexOf('--' + n); return i >= 0 ? argv[i + 1] : d }

const BUDGET = require('./budget')

async function replay (file) {
  const rec = JSON.parse(fs.readFileSync(file, 'utf8'))
  const prop = require('./props/' + rec.property.toLowerCase() + '.js')
  const { measure } = require('./worker')
  const r = await prop.run(rec.scenario)
  const m = measure(r)
  const v = r.violations.find((x) => x.kind === rec.kind)
  for (const x of r.violations) console.log(`  ${x.kind}: ${x.text}`)
  console.log(`digest ${m.digest} recorded ${rec.digest} ${m.digest === rec.digest ? 'identical execution' : 'DIFFERENT execution'}`)
  if (argv.includes('--trace')) console.log((m.trace || []).join('\n'))
  if (v) { console.log(`VIOLATION property=${rec.property} replay=${file}`); process.exit(1) }
  console.log('no violation')
  process.exit(0)
}

async function main () {
  if (opt('replay')) return replay(path.resolve(opt('replay')))
  const id = opt('property')
  const tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
  const base = opt('seed', process.env.VERIF_SEED || '1')
  const b = BUDGET[id][tier]
  const runs = Number(opt('runs', b.runs))
  const W = Number(opt('workers', Math.min(8, os.cpus().length)))
  const started = Date.now()
  const deadline = started + (b.maxSeconds || 800) * 1000
  const findings = JSON.parse(fs.readFileSync(path.join(VERIF, 'known-findings.json'), 'utf8')).findings.filter((f) => f.property === id)
  const prop = require('./props/' + id.toLowerCase() + '.js')

  // listed findings first: each is one exact scenario, reported when it still fails
  for (const f of findings) {
    if (!f.scenario) continue
    const r = await prop.run(f.scenario)
    if (r.violations.some((v) => v.kind === f.kind)) console.log(`KNOWN-FINDING: property=${id} ${f.what}`)
  }

  const total = { runs: 0, evaluations: 0, families: {}, faults: {}, probes: {}, simMs: 0, events: 0, samples: [], rechecked: 0, knownHits: {} }
  const orders = new Set()
  let violation = null
  let error = null
  await Promise.all(Array.from({ length: W }, (_, offset) => new Promise((resolve) => {
    const c = fork(path.join(__dirname, 'worker.js'), [], { execArgv: ['--no-deprecation', '--max-old-space-size=2500'] })
    let finished = false
    workers.push(c)
    c.on('message', (msg) => {
      if (msg.violation && !violation) { violation = msg.violation; for (const o of workers) if (o !== c && o.connected) try { o.send('stop') } catch {} }
      if (msg.error) error = error || msg.error
      if (msg.agg) {
        finished = true
        const a = msg.agg
        for (const k of ['runs', 'evaluations', 'simMs', 'events', 'rechecked']) total[k] += a[k]
        for (const k of ['families', 'faults', 'probes', 'knownHits']) for (const n of Object.keys(a[k])) total[k][n] = (total[k][n] || 0) + a[k][n]
        for (const o of a.orders) orders.add(o)
        if (total.samples.length < 3) total.samples.push(...a.samples)
      }
    })
    c.on('exit', (code, sig) => { if (!finished && !violation && !error) error = `worker ended with ${code} ${sig}`; resolve() })
    c.send({ prop: id, base, from: 0, to: runs, stride: W, offset, known: findings, recheck: b.recheck || 40, deadline })
  })))
  const wall = (Date.now() - started) / 1000
  if (error && !violation) { console.error('HARNESS ERROR: ' + error); process.exit(2) }
  const evidence = {
    property: id, tier, seed: Number(base) || 0, level: 'exploration',
    coverage: {
      evaluations: total.runs, distinct_nontrivial: orders.size,
      rule: prop.rule || 'each case is one seeded simulated execution; distinct = different order of simulated events (process and operation at every scheduling step); trivial executions (no fault, crash, second process or variation) are not counted',
      samples: total.samples.slice(0, 3), oracle_evaluations: total.evaluations, scenario_families: total.families, faults_injected: total.faults, probes: total.probes,
      simulated_events: total.events, simulated_hours: +(total.simMs / 3.6e6).toFixed(3), runs_per_hour: Math.round(total.runs / wall * 3600), determinism_rechecks: total.rechecked, states_digest: crypto.createHash('sha256').update([...orders].sort().join(' ')).digest('hex').slice(0, 16), known_finding_hits: total.knownHits,
      requested_runs: runs, workers: W, real_components: prop.real || REAL, stubs: prop.stubs || STUBS
    },
    assumptions: prop.assumptions || ASSUMPTIONS, wall_s: wall, violations: violation ? 1 : 0
  }
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(evidence, null, 1) + '\n')
  if (violation) {
    const dir = path.join(VERIF, 'replays')
    fs.mkdirSync(dir, { recursive: true })
    const file = path.join(dir, `${id}-${crypto.createHash('sha256').update(JSON.stringify(violation.scenario)).digest('hex').slice(0, 10)}.json`)
    fs.writeFileSync(file, JSON.stringify({ property: id, kind: violation.kind, text: violation.text, signature: violation.signature, seed: `${base}:${id}:${violation.index}`, digest: violation.digest, scenario: violation.scenario, trace: violation.trace }, null, 1) + '\n')
    const again = spawnSync(process.execPath, ['--no-deprecation', __filename, '--replay', file], { encoding: 'utf8' })
    console.log(`${violation.kind}: ${violation.text}`)
    console.log(`seed ${base}:${id}:${violation.index}, minimised in ${violation.shrinkRuns} runs; replay ${/identical execution/.test(again.stdout) && again.status === 1 ? 'reproduces it exactly' : 'DID NOT REPRODUCE: ' + again.stdout.slice(-300) + again.stderr.slice(-300)}`)
    console.log(`VIOLATION property=${id} replay=${file}`)
    process.exit(1)
  }
  console.log(`${id}: ${total.runs} simulated runs, ${orders.size} distinct interleavings, no violation (${wall.toFixed(1)} s)`)
  process.exit(0)
}

const workers = []
const REAL = ['bin/node-gyp.js and every module of lib/ involved', 'nopt, semver, tar, minipass, minizlib, graceful-fs, exponential-backoff, which, proc-log, env-paths, tinyglobby (from the installed npm)', "node's stream, zlib, url, path, crypto hashes"]
const STUBS = ['fs (in-memory disk with faults and crashes)', 'child_process (simulated programs)', 'make-fetch-happen (simulated network, proxies, certificates)', 'timers, clock, Math.random, crypto.randomBytes, os, process']
const ASSUMPTIONS = ['a killed process loses nothing it already wrote (process crash, not power loss)', 'the dependencies are the versions bundled with the installed npm', 'sampling, not enumeration: a clean batch is evidence, not proof']
main().catch((err) => { console.error(err); process.exit(2) })
