'use strict'
// what of lib/ the runs of the checks C01..C10 reach: node tools/cov/js.js [runs per property]
const path = require('path'); const fs = require('fs'); const inspector = require('inspector')
const V = path.join(__dirname, '..', '..', 'jssim')
const REPO = process.env.NODE_GYP_REPO || '/repo'
const s = new inspector.Session(); s.connect()
const post = (m, p) => new Promise((resolve, reject) => s.post(m, p, (e, r) => e ? reject(e) : resolve(r)))
;(async () => {
  await post('Profiler.enable'); await post('Profiler.startPreciseCoverage', { callCount: true, detailed: true })
  const { Rng } = require(path.join(V, 'kernel.js'))
  const n = Number(process.argv[2] || 300)
  for (let k = 1; k <= 10; k++) {
    const id = 'C' + String(k).padStart(2, '0'); const prop = require(path.join(V, 'props', id.toLowerCase() + '.js'))
    for (let i = 0; i < n; i++) await prop.run(await prop.generate(new Rng(`7:${id}:${i}`), i))
    console.error(id)
  }
  const { result } = await post('Profiler.takePreciseCoverage')
  const files = {}
  for (const f of result) {
    f.url = f.url.replace('file://', '')
    if (!f.url.startsWith(REPO + '/lib') && !f.url.startsWith(REPO + '/bin')) continue
    ;(files[f.url] = files[f.url] || []).push(f)
  }
  for (const [url, fsx] of Object.entries(files)) {
    const src = fs.readFileSync(url, 'utf8')
    const total = src.length
    const hit = new Uint8Array(total + 4000)
    let off = null
    for (const f of fsx) {
      // the wrapper is one line in front
      const whole = f.functions[0].ranges[0].endOffset
      const head = whole - total - 3
      off = head
      const cov = new Int32Array(whole).fill(-1)
      const rs = f.functions.flatMap((x) => x.ranges).sort((a, b) => (b.endOffset - b.startOffset) - (a.endOffset - a.startOffset))
      for (const r of rs) cov.fill(r.count, r.startOffset, r.endOffset)
      for (let i = 0; i < total; i++) if (cov[i + head] > 0) hit[i] = 1
    }
    const out = []
    let pos = 0
    src.split('\n').forEach((l, i) => {
      let un = false
      for (let j = 0; j < l.length; j++) if (l[j].trim() && !hit[pos + j]) un = true
      if (un && !/^\s*([})\]]+[;,]?|\/\/.*|\*.*)?$/.test(l)) out.push(`${String(i + 1).padStart(4)} ${l}`)
      pos += l.length + 1
    })
    console.log(`== ${url} (${fsx.length} copies, head ${off}): ${out.length} lines not reached`)
    console.log(out.join('\n'))
  }
})()
