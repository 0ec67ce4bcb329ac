// debugging aid: node one.js C01 <index> [--trace]
const { Rng } = require('./kernel')
const prop = require('./props/' + process.argv[2].toLowerCase() + '.js')
;(async () => {
  const [from, to] = process.argv[3].split('-').map(Number)
  const base = process.env.VERIF_SEED || '1'
  const seen = {}
  for (let i = from; i <= (to === undefined ? from : to); i++) {
    const s = await prop.generate(new Rng(`${base}:${prop.id}:${i}`), i)
    const r = await prop.run(s)
    if (process.argv.includes('--trace')) { console.log(JSON.stringify(s, null, 1)); console.log(r.w.m.kernel.trace.join('\n')); for (const p of r.w.m.kernel.procs) console.log(p.name, p.exitCode, p.stderrText, p.stdoutText) }
    for (const v of r.violations) { const k = s.family + ' ' + v.kind; seen[k] = (seen[k] || 0) + 1; if (seen[k] <= 2) console.log(i, s.family, v.kind, v.text.slice(0, 300)) }
  }
  console.log(JSON.stringify(seen))
})()
