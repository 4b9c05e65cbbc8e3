'use strict';
// C04 and C05: builtins on words in compiled contracts.
const A = require('./arith');
const W = require('./words');
const OPTIONS = ['O0', 'O1', 'O2', 'O3', 'bytes32', 'bytes32,O0', 'le', 'allopt,le', 'minify', 'disopt', 'noinline', 'debug'];
const QUICK = ['O0', 'O3', 'bytes32', 'allopt,le'];
const FL = Object.keys(A.FORMS), SL = Object.keys(A.SINKS).filter(s => s !== 'ret');
const SEL2 = [['C', 'C'], ['V', 'V'], ['P', 'P'], ['I', 'L'], ['B', 'I'], ['M', 'S'], ['l', 'b']];
const hexOrDec = i => (i % 2 ? 'd' : 'h');
// words worth pairing with everything for one builtin, besides the corner words
const EXTRA = {
  exp: [4n, 6n, 8n, 9n, 15n, 16n, 17n, 64n, 254n, 255n, 256n],
  signextend: [...Array(34).keys()].map(BigInt).concat(0x7fn, 0x80n, 0x7fffn, 0x8000n, 0x800000n, 1n << 247n, 1n << 239n),
  byte: [...Array(34).keys()].map(BigInt),
  shl: [4n, 8n, 63n, 64n, 65n, 127n, 128n, 129n, 191n, 192n, 193n, 224n, 248n, 254n, 255n, 256n, 257n], shr: null, sar: null,
};
EXTRA.shr = EXTRA.sar = EXTRA.shl;
function groups(op, tier) {
  const n = A.ARITY[op], T = tier === 'thorough';
  const g = [];
  const add = (name, opts, snippets, words) => g.push({ name, opts, snippets, words });
  const core = T ? W.corner : W.core, tiny = T ? W.core : W.tiny;
  const x = EXTRA[op] || [];
  if (n === 1) {
    const all = FL.flatMap(f => SL.map(s => [[f], s]));
    add('forms', '', all, W.core.concat(T ? W.corner : []).map(v => [v]));
    add('wide', '', [[['C'], 'mem'], [['V'], 'var'], [['P'], 'mem'], [['C'], 'if']], W.uniq([...W.wide, ...W.bitwise, ...W.bytewise(0n, [1, 0x80, 0xff]), ...W.bytewise(W.M, [0, 0x7f])]).map(v => [v]));
    add('lit', '', W.corner.flatMap((v, i) => SL.filter((_, k) => k < 4).map(s => [[{ v, f: hexOrDec(i) }], s])), [[0n]]);
    for (const o of T ? OPTIONS : QUICK) add('opt', o, all, (T ? W.core : W.tiny).map(v => [v]));
    return g;
  }
  if (n === 2) {
    const P = A.pairs(tiny);
    // all form pairs, in slices so that the work spreads
    for (let k = 0; k < FL.length; k += 4) add('forms' + k, '', FL.slice(k, k + 4).flatMap((f, i) => FL.filter((_, j) => T || (i + j) % 3 === 0 || j < 3).map(h => [[f, h], 'mem'])), P);
    add('sinks', '', SEL2.flatMap(f => SL.map(s => [f, s])), P);
    add('wide', '', [[['C', 'C'], 'mem'], [['V', 'V'], 'var']], A.pairs(W.uniq([...x, ...(T ? W.wide : W.corner)])));
    add('near', '', [[['C', 'C'], 'mem'], [['P', 'P'], 'mem']], W.uniq([...W.bytewise(W.INC, [0, 0x80]), ...W.bitwise.filter((_, i) => i % 8 === 7)]).flatMap(a => W.tiny.flatMap(b => [[a, b], [b, a], [a, a ^ 1n]])));
    const lits = W.uniq([...W.core, ...x]);
    add('litvar', '', lits.flatMap((v, i) => [[[{ v, f: hexOrDec(i) }, 'C'], 'mem'], [['C', { v, f: hexOrDec(i + 1) }], 'mem'], [[{ v, f: hexOrDec(i + 1) }, 'I'], 'mem'], [['P', { v, f: hexOrDec(i) }], 'mem']]), core.map(a => [a, a]));
    const L2 = T ? lits : W.uniq([...W.core.filter((_, i) => i % 2 === 0), ...x.filter((_, i) => i % 2 === 0)]);
    add('litlit', '', L2.flatMap((v, i) => L2.flatMap((u, k) => [[[{ v, f: hexOrDec(i) }, { v: u, f: hexOrDec(k + i) }], SL[(i + k) % 5]]])), [[0n, 0n]]);
    for (const o of T ? OPTIONS : QUICK) add('opt', o, (T ? FL.flatMap(f => FL.map(h => [f, h])) : [...SEL2, ['P', 'C'], ['F', 'V'], ['f', 'P'], ['U', 'T'], ['A', 'm']]).map(f => [f, 'mem']).concat(SL.map(s => [['C', 'V'], s]), W.tiny.map((v, i) => [[{ v, f: hexOrDec(i) }, 'C'], 'mem']), W.tiny.map((v, i) => [['P', { v, f: hexOrDec(i) }], 'mem'])), A.pairs(W.tiny));
    return g;
  }
  const w3 = T ? W.tiny : W.tiny.filter((_, i) => i % 2 === 0), P3 = A.triples(w3);
  for (let k = 0; k < FL.length; k += 4) add('forms' + k, '', FL.slice(k, k + 4).flatMap((f, i) => FL.filter((_, j) => T || (i + j) % 2 === 0).flatMap(h => [[[f, h, 'C'], 'mem'], [[f, 'V', h], 'mem']])), P3);
  add('sinks', '', [['C', 'V', 'M'], ['P', 'I', 'C']].flatMap(f => SL.map(s => [f, s])), P3);
  add('wide', '', [[['C', 'C', 'C'], 'mem']], A.triples(T ? W.core : W.uniq([...W.tiny, 2n, 7n, W.M - 1n, 1n << 64n])));
  add('lit', '', W.core.flatMap((v, i) => [[[{ v, f: hexOrDec(i) }, 'C', 'C'], 'mem'], [['C', { v, f: hexOrDec(i) }, 'P'], 'mem'], [['C', 'V', { v, f: hexOrDec(i + 1) }], 'mem']]), P3);
  for (const o of T ? OPTIONS : QUICK) add('opt', o, (T ? FL.flatMap(f => FL.map(h => [f, h, 'C'])) : [['C', 'C', 'C'], ['V', 'P', 'C'], ['P', 'C', 'V'], ['C', 'I', 'P'], ['F', 'f', 'S']]).map(f => [f, 'mem']), P3);
  return g;
}
// every builtin in every place the code generator may treat by its name
const { PLACES } = require('./contract');
const composed = require('./compose');
const MASK = { v: (1n << 160n) - 1n, f: 'h' };
function placed(ops, opts, T) {
  const P2 = [['C', 'C'], ['V', 'V'], ['P', 'P'], ['p', 'P'], ['K', 'V'], ['p', 'C'], ['V', 'P'], ['C', 'p'], ['S', 'M'], ['B', 'I'], ['f', 'L'], ['V', MASK], ['p', MASK], [MASK, 'V'], [{ v: 1n, f: 'd' }, 'V'], ['V', { v: 0n, f: 'd' }]];
  const P1 = (T ? FL : ['C', 'V', 'K', 'P', 'p', 'I', 'b', 'S', 'f']).map(f => [f]), P3 = [['C', 'C', 'C'], ['V', 'P', 'p'], ['K', 'I', 'V'], ['p', 'V', 'C']];
  const all = ops.flatMap(op => [P1, P2, P3][A.ARITY[op] - 1].flatMap((f, i) => (T ? [...new Set(['mem', SL[(2 * i) % SL.length], SL[(2 * i + 7) % SL.length]])] : [i % 2 ? 'mem' : SL[(i + op.length) % SL.length]]).map(s => A.snippet(op, f, s))));
  // that option takes addresses as clean in the address decoders
  return opts.includes('allopt') ? all.filter(s => !/^and|^iszero/.test(s.key) && !s.code.includes('iszero(')) : all;
}
const wordsFor = s => { const n = s.parts.length; return n === 1 ? W.uniq([...W.tiny, 1n << 160n, 1n << 255n, 1n << 96n]).map(v => [v]) : n === 2 ? A.pairs([0n, 1n, W.M, W.INC, (7n << 160n) + 5n, 1n << 255n, 3n]) : A.triples(W.tiny.filter((_, i) => i % 3 === 0)); };
const PLACE_OPTS = { quick: ['', 'bytes32', 'allopt,le'], thorough: ['', ...OPTIONS] };
function make(ops, extra = {}) {
  return {
    technique: 'exhaustive product of builtins, operand forms, uses of the result, literals and corner words over compiled contracts, each run compared in lockstep with a reference interpreter of the Yul specification',
    needs: ['std', 'drv'],
    bounds: t => `builtins ${ops.join(', ')}; ${FL.length} operand forms (call data, variables of every initializer, storage, memory, builtin results, function results, narrow values, byte-array words, literals): ${t === 'thorough' ? 'all' : 'a third of all'} pairs over ${t === 'thorough' ? 23 : 9} words each; ${SL.length} uses of the result; every builtin in ${t === 'thorough' ? PLACES.length : 10} places (top level, functions named as the ones solc generates); ${composed.bounds(t === 'thorough')}; literal with operand and literal with literal; about ${t === 'thorough' ? 90 : 50} corner words squared; ${t === 'thorough' ? OPTIONS.length : QUICK.length} option sets${t === 'thorough' ? ' over all form pairs' : ' over the main forms'}`,
    assumptions: ['the reference interpreter (lib/yulref.js, lib/u256.js) states the EVM semantics'],
    conformance: 'every explored case is run on the wasm that the real frontend, code generator, runtime library and LLVM emit',
    jobs: tier => [...(extra.jobs ? extra.jobs(tier) : []), ...composed.jobs(ops, tier), ...PLACE_OPTS[tier].flatMap(opts => PLACES.filter((_, i) => tier === 'thorough' || i < 6 || !opts && i % 4 === 0).map(place => ({ place, opts, tier }))), ...ops.flatMap(op => groups(op, tier).map((g, i) => ({ op, i, tier, name: g.name, opts: g.opts })))],
    async exec(job, rep) {
      if (job.lib) return extra.exec(job, rep);
      if (job.compose) return composed.exec(job, rep);
      if (job.place) {
        const sn = placed(ops, job.opts, job.tier === 'thorough').filter(s => !job.only || s.key === job.only);
        const B = /^(top|deploy)$/.test(job.place) ? 60 : 150; // one large function overflows the half page stack of all optimizers
        for (let i = 0; i < sn.length; i += B) { const part = sn.slice(i, i + B); for (const n of [1, 2, 3]) { const of = part.filter(s => s.parts.length === n); if (of.length) await A.explore(of, job.opts, wordsFor, rep, job, job.place); } }
        return;
      }
      const g = groups(job.op, job.tier)[job.i];
      let sn = g.snippets.map(([f, s]) => A.snippet(job.op, f, s));
      if (job.only) sn = sn.filter(s => s.key === job.only);
      for (let i = 0; i < sn.length; i += 250) await A.explore(sn.slice(i, i + 250), job.opts, () => g.words, rep, job);
    },
    done: () => A.stop(),
  };
}
module.exports = { make, OPTIONS };
