'use strict';
// The quick tier explores, for the checks listed here, a fixed part of the slices of its space (the same in every run, chosen by a
// hash of the slice's description); everything at the layer of the runtime library and of the front end stays whole.
const PART = { C03: 2, C04: 2, C05: 2, C07: 2, C12: 2, C16: 2, C17: 2, C18: 2, C19: 2, C20: 2, C21: 2, C22: 2, C24: 2 };
const whole = j => j.lib || /^(debug|release)-/.test(j.kind || '') || j.reject !== undefined || j.data !== undefined;
const hash = s => { let h = 2166136261; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619) >>> 0; h ^= h >>> 15; h = Math.imul(h, 0x2c1b3c6d) >>> 0; return (h ^ h >>> 13) >>> 0; };
const thin = (id, tier, jobs) => (tier !== 'quick' || !PART[id] ? jobs : jobs.filter(j => whole(j) || hash(JSON.stringify(j)) % PART[id] === 0));
const note = (id, tier) => (tier === 'quick' && PART[id] ? `; of the slices of this space above the runtime library, a fixed 1/${PART[id]} (the same in every run; the thorough tier takes all)` : '');
module.exports = { thin, note };
