'use strict'
// runs per tier; quick is the check for every change
const D = { quick: { runs: 6000, maxSeconds: 600 }, thorough: { runs: 400000, maxSeconds: 780 } }
const q = (runs) => ({ ...D, quick: { runs, maxSeconds: 600 } })
module.exports = { C01: D, C02: q(4000), C03: q(4000), C04: q(6000), C05: q(6000), C06: q(5000), C07: q(8000), C08: q(6000), C09: q(8000), C10: q(8000) }
