'use strict';
// C17: control flow. All small statement trees, with a mark logged at every place between statements; all condition
// forms and case literals; deep nests and long loops; the same trees as the body of runtime and deploy code.
const { explore, product, inputs, stop } = require('../lib/clayer');
const C = require('../lib/contract');
const A = require('../lib/arith');
const { World, runWasm } = require('../lib/host');
const { parse, Ref } = require('../lib/yulref');
const W = require('../lib/words');
const { hex } = require('../lib/u256');
const B = (a, n = 0n) => (1n << BigInt(a)) + n;
const QUICK = ['O0', 'bytes32', 'allopt,le'];
const CW = [0n, 1n, B(32), B(64), B(255)];
const OPTIONS = ['O0', 'O1', 'O3', 'bytes32', 'bytes32,O0', 'disopt', 'minify', 'allopt,le', 'noinline', 'debug'];
// ---- statement trees: [kind, block...], block = [tree...] -----------------------------------------------------
// number of blocks each kind has; L = allowed only in loops
const KINDS = { if: 1, sd: 1, s1: 1, s2: 2, s2d: 3, for: 1, forn: 1, fe: 1, fb: 1, fc: 1, blk: 1, brk: 0, cnt: 0, lv: 0, stop: 0, rev: 0 };
function forests(n, kinds, inLoop, memo) { // all sequences of trees with exactly n nodes
  const k = n + (inLoop ? 'L' : '');
  if (memo[k]) return memo[k];
  if (n === 0) return (memo[k] = [[]]);
  const r = [];
  for (let m = 1; m <= n; m++) for (const t of trees(m, kinds, inLoop, memo)) for (const rest of forests(n - m, kinds, inLoop, memo)) r.push([t, ...rest]);
  return (memo[k] = r);
}
function split(n, parts) { if (parts === 1) return [[n]]; const r = []; for (let i = 0; i <= n; i++) for (const s of split(n - i, parts - 1)) r.push([i, ...s]); return r; }
function trees(n, kinds, inLoop, memo) {
  const r = [];
  for (const k of kinds) {
    const a = KINDS[k];
    if ((k === 'brk' || k === 'cnt') && !inLoop) continue;
    if (a === 0) { if (n === 1) r.push([k]); continue; }
    const loop = inLoop || k[0] === 'f';
    for (const sizes of split(n - 1, a)) for (const bs of product(...sizes.map(s => forests(s, kinds, loop, memo)))) r.push([k, ...bs]);
  }
  return r;
}
// text of a block; marks: 'all' log between all statements, 'pre' only before each, 'none' only inside leaf positions
function text(f, marks) {
  let id = 0, cond = 0, loop = 0;
  const mark = () => `log1(0, 0, ${++id})`;
  const cd = () => `calldataload(${32 + 32 * (cond++ % 3)})`;
  const blk = b => { const r = []; if (marks === 'all' || !b.length) r.push(mark()); for (const t of b) { if (marks === 'pre') r.push(mark()); r.push(stmt(t)); if (marks === 'all') r.push(mark()); } return r.join(' '); };
  const stmt = ([k, ...bs]) => {
    switch (k) {
      case 'if': return `if ${cd()} { ${blk(bs[0])} }`;
      case 'sd': return `switch ${cd()} default { ${blk(bs[0])} }`;
      case 's1': return `switch ${cd()} case 0x100000000 { ${blk(bs[0])} }`;
      case 's2': return `switch ${cd()} case 0 { ${blk(bs[0])} } case 18446744073709551616 { ${blk(bs[1])} }`;
      case 's2d': return `switch ${cd()} case 1 { ${blk(bs[0])} } case 0x8000000000000000000000000000000000000000000000000000000000000000 { ${blk(bs[1])} } default { ${blk(bs[2])} }`;
      case 'for': { const i = `i${loop++}`; return `for { let ${i} := 0 ${mark()} } lt(${i}, 2) { ${mark()} ${i} := add(${i}, 1) } { ${blk(bs[0])} }`; }
      case 'forn': { const i = `j${loop++}`; return `for { let ${i} := ${cd()} } ${i} { ${i} := shr(128, ${i}) } { ${blk(bs[0])} }`; }
      // no post block; a constant condition and only break; a condition that leaves a trace, and init block with an effect
      case 'fe': { const i = `e${loop++}`; return `for { let ${i} := 0 } lt(${i}, 2) { } { ${i} := add(${i}, 1) ${blk(bs[0])} }`; }
      case 'fb': { const i = `b${loop++}`; return `let ${i} := 0 for { } 1 { } { ${i} := add(${i}, 1) if gt(${i}, 2) { break } ${blk(bs[0])} }`; }
      case 'fc': { const i = `c${loop++}`; return `let ${i} := 0 for { ${i} := ${cd()} log1(0, 0, ${i}) } below(${i}) { } { ${i} := add(${i}, 1) ${blk(bs[0])} }`; }
      case 'blk': return `{ ${blk(bs[0])} }`;
      case 'brk': return 'break'; case 'cnt': return 'continue'; case 'lv': return 'leave';
      case 'stop': return 'return(0, 0)'; case 'rev': return 'revert(0, 32)';
    }
  };
  return { code: blk(f), conds: Math.min(cond, 3) };
}
const BELOW = 'function below(i) -> r { log1(0, 0, 1000) r := lt(i, 2) }';
const show = f => f.map(([k, ...bs]) => k + (bs.length ? '(' + bs.map(show).join('; ') + ')' : '')).join(' ');
function condInputs(n, words = CW) { return n === 0 ? [{ words: [] }] : inputs(...Array(n).fill(words)); }
// ---- other groups ---------------------------------------------------------------------------------------------
const lit = A.lit;
function caseSets() {
  const g = [0n, 1n, 2n, 255n, 256n, B(31), B(32), B(32, 1n), B(63), B(64), B(64, 1n), B(128), B(128, 1n), B(160), B(255), W.M - 1n, W.M];
  const sets = [];
  for (const a of g) { sets.push([[a, 'h']], [[a, 'd']]); for (const b of g) if (a !== b) sets.push([[a, 'h'], [b, 'd']]); }
  sets.push(g.map((v, i) => [v, i % 2 ? 'h' : 'd']), g.slice().reverse().map(v => [v, 'h']));
  return sets;
}
function groups(tier) {
  const T = tier === 'thorough', g = [], OPTS = T ? OPTIONS : QUICK;
  // slices of the case-literal space
  const sets = caseSets(), sw = [];
  const strs = [['"a"'], ['"a"', '"b"'], ['""', '"abcd"'], ['true', 'false'], ['"' + 'x'.repeat(32) + '"', '1'], ['"' + 'x'.repeat(31) + '"', '"' + 'x'.repeat(32) + '"', '0']];
  const body = (ls, d, e) => `switch ${e} ${ls.map((l, i) => `case ${l} { log1(0, 0, ${i + 10}) }`).join(' ')} ${d ? 'default { log1(0, 0, 99) }' : ''} log1(0, 0, 5)`;
  const ws = W.uniq([0n, 1n, 2n, 3n, 255n, 256n, B(31), B(32), B(32, 1n), B(33), B(63), B(64), B(64, 1n), B(96), B(128), B(128, 1n), B(160), B(192), B(255), W.M - 1n, W.M, B(32, -1n), B(64, -1n)]);
  const strWords = ['61', '62', '61626364', '78'.repeat(31), '78'.repeat(32)].flatMap(h => [BigInt('0x' + h), BigInt('0x' + h.padEnd(64, '0'))]);
  for (const s of sets) for (const d of [0, 1]) sw.push({ key: `switch cases ${s.map(([v, f]) => lit(v, f)).join(',')}${d ? ' default' : ''}`, code: body(s.map(([v, f]) => lit(v, f)), d, 'calldataload(32)'), inputs: ws.map(w => ({ words: [w] })) });
  for (const s of strs) for (const d of [0, 1]) sw.push({ key: `switch cases ${s.join(',')}${d ? ' default' : ''}`, code: body(s, d, 'calldataload(32)'), inputs: [...ws, ...strWords].map(w => ({ words: [w] })) });
  g.push({ name: 'cases', sn: () => sw });
  // every operand form as a condition of every construct
  const forms = Object.keys(A.FORMS), conds = [];
  const use = {
    if: e => `if ${e} { log1(0, 0, 1) } log1(0, 0, 2)`,
    ifnot: e => `if iszero(${e}) { log1(0, 0, 1) } log1(0, 0, 2)`,
    for: e => `let n := 0 for { } ${e} { n := add(n, 1) } { log1(0, 0, 1) if n { break } } log1(0, 0, n)`,
    fort: e => `let n := 0 for { } and(lt(n, 2), iszero(iszero(${e}))) { n := add(n, 1) } { log1(0, 0, 1) } log1(0, 0, n)`,
    sw: e => `switch ${e} case 0 { log1(0, 0, 1) } case 1 { log1(0, 0, 2) } case 0x100000000 { log1(0, 0, 3) } case 0x10000000000000000 { log1(0, 0, 4) } case 0x8000000000000000000000000000000000000000000000000000000000000000 { log1(0, 0, 5) } case ${W.M} { log1(0, 0, 6) } default { log1(0, 0, 7) } log1(0, 0, 8)`,
    swd: e => `switch ${e} default { log1(0, 0, 1) } log1(0, 0, 2)`,
  };
  for (const f of forms) for (const [u, mk] of Object.entries(use)) { const p = A.FORMS[f](0); conds.push({ key: `${u} on ${f}`, code: `${p.p || ''} ${mk(p.e)}`, funs: ['function idf(x) -> r { r := x }'], parts: [p], p }); }
  const litc = W.corner.flatMap(v => Object.entries(use).flatMap(([u, mk]) => ['h', 'd'].map(f => ({ key: `${u} on ${lit(v, f)}`, code: mk(lit(v, f)), inputs: [{ words: [] }] })))).concat(['true', 'false', '""', '"a"', '"\\x00"'].flatMap(l => Object.entries(use).map(([u, mk]) => ({ key: `${u} on ${l}`, code: mk(l), inputs: [{ words: [] }] }))));
  g.push({ name: 'literal conditions', sn: () => litc });
  const condIn = s => W.corner.map(w => { const o = {}; const p = s.p; if (p.w === 'rand') o.prevrandao = require('../lib/u256').toBE(w); if (p.w === 'time') o.timestamp = w & (B(64) - 1n); return { words: [w], o }; });
  g.push({ name: 'conditions', sn: () => conds, inputs: condIn });
  for (const o of OPTS) { g.push({ name: 'conditions', opts: o, sn: () => conds, inputs: condIn }); g.push({ name: 'cases', opts: o, sn: () => (T ? sw : sw.filter((_, i) => i % 5 === 0 || i > sw.length - 16)) }); }
  // deep nests, wide switches
  const deep = [];
  for (const n of [1, 2, 3, 8, 16, 33, 64]) {
    const nest = (open, close, inner) => open(0) + [...Array(n - 1).keys()].map(i => ' ' + open(i + 1)).join('') + inner + ' }'.repeat(n) + close;
    deep.push({ key: `${n} nested ifs`, code: nest(i => `log1(0, 0, ${i}) if lt(${i}, calldataload(32)) {`, ' log1(0, 0, 1000)', ' log1(0, 0, 999)'), inputs: [0n, 1n, 2n, BigInt(n), BigInt(n - 1), W.M].map(w => ({ words: [w] })) });
    deep.push({ key: `${n} nested blocks`, code: nest(() => '{', ' log1(0, 0, x)', ' x := add(x, calldataload(32))').replace(/^/, 'let x := 1 '), inputs: [{ words: [5n] }] });
    deep.push({ key: `switch of ${n} cases`, code: `switch calldataload(32) ${[...Array(n).keys()].map(i => `case ${i * 3} { log1(0, 0, ${i}) }`).join(' ')} default { log1(0, 0, 777) } log1(0, 0, 1)`, inputs: [...Array(3 * n + 2).keys()].map(i => ({ words: [BigInt(i)] })) });
    if (n <= 8) deep.push({ key: `${n} nested loops`, code: (() => { let s = 'log1(0, 0, add(c, 100)) c := add(c, 1)'; for (let i = n - 1; i >= 0; i--) s = `for { let v${i} := 0 } lt(v${i}, ${n > 4 ? 2 : 3}) { v${i} := add(v${i}, 1) } { if eq(v${i}, calldataload(32)) { continue } ${s} if eq(v${i}, calldataload(64)) { break } }`; return 'let c := 0 ' + s + ' log1(0, 0, c)'; })(), inputs: inputs([0n, 1n, 9n], [0n, 1n, 2n, 9n]) });
    deep.push({ key: `${n} switches in sequence`, code: [...Array(n).keys()].map(i => `switch shr(${i}, calldataload(32)) case 1 { log1(0, 0, ${i}) } default { if and(1, shr(${i}, calldataload(32))) { log1(0, 0, ${i + 200}) } }`).join(' '), inputs: [0n, 1n, 5n, W.M, B(63)].map(w => ({ words: [w] })) });
    deep.push({ key: `${n} leaves`, code: `x${'()'} log1(0, 0, 3)`, funs: [`function x() { ${[...Array(n).keys()].map(i => `if eq(calldataload(32), ${i}) { log1(0, 0, ${i}) leave }`).join(' ')} log1(0, 0, 500) }`.replace('function x', `function x${n}`)], inputs: [...Array(n + 1).keys()].map(i => ({ words: [BigInt(i)] })) });
    deep[deep.length - 1].code = `x${n}() log1(0, 0, 3)`;
  }
  g.push({ name: 'deep', sn: () => deep }, ...OPTS.map(o => ({ name: 'deep', opts: o, sn: () => deep })));
  // long loops around every construct and builtin: what one iteration takes must be given back
  const N = T ? 20000 : 6000, acc = {
    empty: '', if: 'if and(i, 1) { s := add(s, i) }', switch: 'switch and(i, 3) case 0 { s := add(s, 1) } case 1 { s := mul(s, 3) } default { s := xor(s, i) }',
    block: '{ let t := add(i, s) s := t }', let3: 'let a, b, c := t3(i) s := add(s, xor(a, add(b, c)))', call: 's := add(s, one(i))', inner: 'for { let j := 0 } lt(j, 2) { j := add(j, 1) } { s := add(s, j) }',
    cont: 'if and(i, 1) { continue } s := add(s, i)', brk: 'for { } 1 { } { s := add(s, 1) break }', mem: 'mstore(and(i, 0xffe0), s) s := add(mload(and(mul(i, 7), 0xffe0)), i)', m8: 'mstore8(and(i, 0xff), i) s := add(s, mload(0))',
    sto: 'sstore2(and(i, 3), s) s := add(tload(and(i, 3)), i)', cdl: 's := add(s, calldataload(and(i, 0xff)))', cdc: 'calldatacopy(0, i, 32) s := add(s, mload(0))', kec: 'if iszero(and(i, 7)) { mstore(0, i) s := xor(s, keccak256(0, 32)) }',
    exp: 's := add(s, exp(i, 3))', div: 's := add(s, div(not(i), add(i, 1)))', mm: 's := addmod(s, i, 1000003) s := mulmod(s, i, not(5))', sgn: 's := add(s, sdiv(sub(0, i), 7)) s := add(s, signextend(0, i))', cmp: 's := add(s, slt(sub(i, 500), calldataload(32)))',
    shl: 's := xor(s, shl(i, 1)) s := xor(s, byte(and(i, 31), not(i)))', rand: 's := xor(s, add(prevrandao(), i))', env: 's := add(s, add(caller(), add(timestamp(), callvalue())))', mcp: 'mcopy(32, 0, 64) s := add(s, 1)', rev: 's := add(s, xor(address(), origin()))', fn2: 's := rec(and(i, 7), s)', str: 'mstore(0, "abc") s := add(s, mload(0))', eb: 's := add(s, balance(i))',
  };
  const FUNS = ['function t3(x) -> a, b, c { a := x b := add(x, 1) c := mul(x, x) }', 'function one(x) -> r { r := add(x, 1) }', 'function sstore2(k, v) { tstore(k, v) }', 'function rec(n, s) -> r { if iszero(n) { r := s leave } r := rec(sub(n, 1), add(s, n)) }'];
  const longs = N => Object.entries(acc).map(([k, b]) => ({ key: `long loop ${k}`, code: `let s := 1 for { let i := 0 } lt(i, ${k === 'sto' ? 300 : N}) { i := add(i, 1) } { ${b} } mstore(0, s) return(0, 32)`, funs: FUNS, inputs: [{ words: [B(200, 77n), 5n, W.M] }] }));
  if (tier === 'parts') return longs;
  const long = longs(N);
  for (const o of T ? ['', 'O0', 'O3', 'bytes32', 'bytes32,O0', 'disopt', 'minify,O1'] : ['', 'bytes32,O0', 'minify,O1']) g.push({ name: 'long', opts: o, sn: () => long, batch: 50 });
  // trees
  const all = Object.keys(KINDS).filter(k => !/^f[ebc]$/.test(k)), loops = ['if', 'fe', 'fb', 'fc', 'brk', 'cnt', 'lv'], small = ['if', 's2d', 'for', 'blk', 'brk', 'cnt', 'lv'];
  const tree = (n, kinds, marks, opts, of = 1, at = 0) => ({ name: `trees of ${n} (${kinds === all ? 'all' : kinds === loops ? 'loop' : 'main'} kinds, marks ${marks}) part ${at}/${of}`, opts, sn: () => { const memo = {}; return forests(n, kinds, false, memo).filter((_, i) => i % of === at).map(f => { const t = text(f, marks); return { key: `${show(f)} (marks ${marks})`, code: t.code, funs: /below/.test(t.code) ? [BELOW] : [], inputs: condInputs(t.conds, n >= 4 ? [0n, 1n, B(32), B(255)].slice(0, t.conds > 2 ? 3 : 4) : CW) }; }); } });
  const sliced = (n, kinds, marks, opts, k) => [...Array(k).keys()].map(i => tree(n, kinds, marks, opts, k, i));
  for (let n = 0; n <= 2; n++) for (const m of ['all', 'pre', 'none']) for (const o of ['', ...OPTS]) g.push(tree(n, all, m, o));
  g.push(...sliced(3, all, 'all', '', 8), ...(T ? sliced(3, all, 'none', '', 8) : sliced(3, [...small, 's1', 'stop'], 'none', '', 8)));
  for (let n = 1; n <= 3; n++) for (const m of ['all', 'none']) for (const o of n < 3 ? ['', ...OPTS] : ['']) g.push(...sliced(n, loops, m, o, n < 3 ? 1 : 2));
  g.push(...sliced(4, loops, 'all', '', 8));
  g.push(...sliced(4, small, 'all', '', 16));
  if (T) { for (const o of ['O0', 'O3', 'bytes32', 'minify']) g.push(...sliced(3, all, 'all', o, 8)); g.push(...sliced(4, all, 'all', '', 64), ...sliced(5, ['if', 's2', 'for', 'brk', 'cnt', 'lv'], 'none', '', 64), ...sliced(4, small, 'none', 'O0', 16)); }
  return g;
}
// ---- programs as the whole body of runtime or deploy code --------------------------------------------------------
function mainPrograms(tier) {
  const all = ['if', 's2d', 's1', 'for', 'blk', 'brk', 'cnt', 'stop', 'rev'], some = ['if', 'for', 'brk', 'cnt', 'rev'];
  if (tier === 'thorough') return [0, 1, 2].flatMap(n => forests(n, all, false, {}));
  return [...[0, 1].flatMap(n => forests(n, all, false, {})), ...forests(2, some, false, {})];
}
async function mainExec(job, rep) { // the program is the deploy code and, with other marks, the runtime code
  const ps = mainPrograms(job.tier).filter((_, i) => i % job.of === job.at);
  for (const f of ps) for (const single of f.length < 2 ? [0, 1] : [0]) {
    const key = `${single ? 'single object' : 'deploy and runtime'} code ${show(f)}`, tag = job.opts ? ` [${job.opts}]` : '';
    if (job.only && job.only !== key) continue;
    const t = [text(f, 'all'), text(f, 'none')];
    const r = await C.compiler().compile(single ? `object "M" { code { ${t[0].code} } }` : `object "M" { code { ${t[0].code} } object "M_deployed" { code { ${t[1].code} } } }`, job.opts);
    rep.state(); rep.trace();
    if (!r.ok) { rep.viol(key + tag + ' compile', `does not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, { ...job, only: key }); continue; }
    const m = new WebAssembly.Module(r.ok);
    for (let e = 0; e < (single ? 1 : 2); e++) {
      const ast = parse(t[e].code);
      for (const inp of condInputs(t[e].conds, [0n, 1n, B(255)])) {
        rep.state(); rep.step(); rep.trace();
        const cd = C.calldata(0, [0n, 0n, 0n].map((_, i) => inp.words[i] || 0n)), w1 = new World({ calldata: cd }), w2 = new World({ calldata: cd });
        const got = C.norm(runWasm(m, e ? 'call' : 'deploy', w1)), want = new Ref(w2).run(ast);
        if (want.kind === 'trap' && got.kind === 'trap') continue;
        const a = C.show(got, w1), b = C.show(want, w2);
        if (a !== b) rep.viol(`${key} in ${e ? 'call' : 'deploy'}${tag}`, `call data words ${inp.words.map(hex)}: expected ${b}, got ${a}`, { ...job, only: key });
        else rep.cls('agrees');
      }
    }
  }
}
module.exports = {
  parts: { trees: (n, marks) => forests(n, Object.keys(KINDS), false, {}).map(f => { const t = text(f, marks); return { key: show(f), code: t.code, funs: /below/.test(t.code) ? [BELOW] : [], inputs: condInputs(t.conds) }; }), long: n => groups('parts')(n) },
  technique: 'exhaustive enumeration of all small statement trees, condition forms, case literal sets and condition words; every program compiled and its trace of marks compared with a reference interpreter of the Yul specification',
  needs: ['std', 'drv'],
  bounds: t => `all sequences of up to 3 statements of 13 kinds and up to 4 of 7 kinds${t === 'thorough' ? ' (thorough: 4 of all kinds, 5 of 6 kinds)' : ''} with a mark at every place, conditions over words {0, 1, 2^32, 2^64, 2^255}; all case literal pairs of 17 values, 23 condition forms x 6 constructs x ~50 words; nests to 64; loops of ${t === 'thorough' ? 20000 : 6000} iterations around 28 bodies; whole runtime and deploy bodies of up to 2 statements; ${(t === 'thorough' ? OPTIONS : QUICK).length + 1} option sets`,
  assumptions: ['the reference interpreter (lib/yulref.js) states the Yul semantics'],
  conformance: 'every explored program is run on the wasm that the real frontend, code generator, runtime library and LLVM emit',
  jobs(tier) {
    const r = groups(tier).map((g, i) => ({ i, tier, name: g.name, opts: g.opts || '' }));
    for (const opts of tier === 'thorough' ? ['', 'O0', 'bytes32', 'disopt'] : ['']) for (let at = 0; at < 16; at++) r.push({ main: true, opts, at, of: 16, tier });
    return r;
  },
  async exec(job, rep) {
    if (job.main) return mainExec(job, rep);
    const g = groups(job.tier)[job.i];
    await explore(g.sn(), job.opts, g.inputs || (() => [{ words: [] }]), rep, job, { batch: g.batch });
  },
  done: () => stop(),
};
