'use strict'
const { Rng } = require('./kernel')
const { shrink } = require('./shrink')

const signature = (prop, s, v) => prop.signature ? prop.signature(s, v) : v.kind + '|' + [].concat(...(s.phases || []).map((p) => p.faults || [])).map((f) => f.kind + ':' + (f.error || (f.short && 'short') || (f.crash && 'crash') || (f.status && 'status') || 'other')).sort().join(',')

// what one execution amounted to, from the simulator's own records
function measure (r) {
  const k = r.w && r.w.m && r.w.m.kernel
  const m = r.measure || {}
  return {
    digest: r.digest || (k && k.digest()), order: r.order || (k && k.orderDigest()), now: m.now !== undefined ? m.now : k ? k.now : 0, events: m.events !== undefined ? m.events : k ? k.events : 0,
    faults: m.faults || (k && k.faultCounts) || {}, probes: m.probes || (k && k.probes) || {}, trace: r.trace || (k && k.trace)
  }
}

async function main () {
  const { prop: id, base, from, to, stride, offset, known, recheck, deadline } = await new Promise((resolve) => process.once('message', resolve))
  const prop = require('./props/' + id.toLowerCase() + '.js')
  const agg = { runs: 0, evaluations: 0, families: {}, faults: {}, probes: {}, orders: [], nontrivial: 0, simMs: 0, events: 0, samples: [], rechecked: 0, knownHits: {} }
  const orders = new Set()
  process.on('message', (msg) => { if (msg === 'stop') process.exit(0) })
  for (let i = from + offset; i < to; i += stride) {
    if (deadline && Date.now() > deadline) break
    const s = await prop.generate(new Rng(`${base}:${id}:${i}`), i)
    const r = await prop.run(s)
    const m = measure(r)
    agg.runs++
    agg.evaluations += r.evaluations || 1
    agg.families[s.family] = (agg.families[s.family] || 0) + 1
    for (const f of Object.keys(m.faults)) agg.faults[f] = (agg.faults[f] || 0) + m.faults[f]
    for (const f of Object.keys(m.probes)) agg.probes[f] = (agg.probes[f] || 0) + m.probes[f]
    agg.simMs += m.now; agg.events += m.events
    if (r.nontrivial !== false) orders.add(m.order)
    if (agg.samples.length < 2 && agg.runs % 7 === 3) agg.samples.push({ index: i, scenario: s, digest: m.digest })
    if (agg.runs % recheck === 1) {
      const again = measure(await prop.run(JSON.parse(JSON.stringify(s))))
      agg.rechecked++
      if (again.digest !== m.digest) throw new Error(`not deterministic: run ${i} of ${id} gave ${m.digest} then ${again.digest}`)
    }
    if (r.violations.length) {
      const v = r.violations[0]
      const { scenario, tried } = await shrink(prop, s, v)
      const rr = await prop.run(scenario)
      const vv = rr.violations.find((x) => x.kind === v.kind) || v
      const sig = signature(prop, scenario, vv)
      const hit = known.find((k) => k.signature === sig)
      if (hit) { agg.knownHits[hit.id] = (agg.knownHits[hit.id] || 0) + 1; continue }
      const mm = measure(rr)
      process.send({ violation: { index: i, kind: v.kind, text: vv.text, all: rr.violations.slice(0, 5), signature: sig, scenario, digest: mm.digest, trace: mm.trace, shrinkRuns: tried } })
      break
    }
  }
  agg.orders = [...orders]
  process.send({ agg }, () => process.exit(0))
}

if (require.main === module) main().catch((err) => { process.send({ error: err.stack || String(err) }, () => process.exit(2)) })
module.exports = { signature, measure }
