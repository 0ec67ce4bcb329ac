'use strict'
// Generic minimisation of a scenario (plain JSON): keep a smaller one as long as the same kind of violation remains.
const clone = (x) => JSON.parse(JSON.stringify(x))

function * candidates (s) {
  // whole phases, processes, faults
  if (s.phases) {
    for (let i = s.phases.length - 1; i >= 0; i--) if (s.phases.length > 1 && !s.phases[i].keep) { const c = clone(s); c.phases.splice(i, 1); yield c }
    for (let i = 0; i < s.phases.length; i++) {
      const ph = s.phases[i]
      for (let j = (ph.faults || []).length - 1; j >= 0; j--) { const c = clone(s); c.phases[i].faults.splice(j, 1); yield c }
      for (let j = (ph.procs || []).length - 1; j >= 0; j--) if (ph.procs.length > 1) { const c = clone(s); c.phases[i].procs.splice(j, 1); yield c }
    }
  }
  for (const list of ['setup', 'faults', 'steps', 'commands', 'projects', 'edits']) {
    if (Array.isArray(s[list])) for (let j = s[list].length - 1; j >= 0; j--) { const c = clone(s); c[list].splice(j, 1); yield c }
  }
  if (s.sched && s.sched.mode !== 'fifo') { const c = clone(s); c.sched = { mode: 'fifo' }; yield c }
  const w = s.world
  if (w) {
    if (w.releases) {
      for (let j = w.releases.length - 1; j >= 0; j--) {
        if (w.releases.length > 1) { const c = clone(s); c.world.releases.splice(j, 1); yield c }
        const r = w.releases[j]
        if (r.size !== 'tiny') { const c = clone(s); c.world.releases[j].size = 'tiny'; yield c }
        if (r.redirect) { const c = clone(s); delete c.world.releases[j].redirect; yield c }
        if (r.sha) { const c = clone(s); delete c.world.releases[j].sha; yield c }
      }
    }
    if (w.netChunk !== 65536) { const c = clone(s); c.world.netChunk = 65536; yield c }
    if (w.writeChunk !== 65536) { const c = clone(s); c.world.writeChunk = 65536; yield c }
    if (w.topology) { const c = clone(s); delete c.world.topology; yield c }
  }
  if (s.phases) {
    for (let i = 0; i < s.phases.length; i++) {
      for (let j = 0; j < (s.phases[i].procs || []).length; j++) {
        const p = s.phases[i].procs[j]
        for (let a = p.args.length - 1; a >= 0; a--) if (p.args[a].startsWith('--')) { const c = clone(s); c.phases[i].procs[j].args.splice(a, 1); yield c }
        for (const e of Object.keys(p.env || {})) { const c = clone(s); delete c.phases[i].procs[j].env[e]; yield c }
        if (p.delay) { const c = clone(s); c.phases[i].procs[j].delay = 0; yield c }
      }
    }
  }
}

// A command that fails could fail for any reason (of a scenario made smaller, for that of not being a sensible one any more): the
// message has to stay, but for numbers and names
const reason = (text) => text.replace(/^.*?ERR! stack /s, '').split('\n')[0].replace(/https?:\S+|\S*[/\\]\S*|\d[\w.]*|"[^"]*"/g, '#').slice(0, 80)

async function shrink (prop, s, first, { budget = 250, ms = 25000 } = {}) {
  const deadline = Date.now() + ms
  const same = (v) => v.kind === first.kind && (v.kind !== 'refused' || reason(v.text) === reason(first.text))
  let best = s
  let tried = 0
  for (let again = true; again;) {
    again = false
    for (const c of (prop.candidates || candidates)(best)) {
      if (++tried > budget || Date.now() > deadline) return { scenario: best, tried }
      let r
      try { r = await prop.run(c) } catch { continue }
      if (r.violations.some(same)) { best = c; again = true; break }
    }
  }
  return { scenario: best, tried }
}

module.exports = { shrink, candidates, clone }
