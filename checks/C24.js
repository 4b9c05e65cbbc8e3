'use strict';
// C24: determinism of the compiler, by enumerating what may differ between two compilations of one source:
//  orders     the compiler is built once more with every iteration over a hash container turned into an explicit choice
//             (shims/ndet); all deviations of the bounds from the fixed order are explored and must give the same bytes
//  histories  all ordered pairs (thorough: triples) of compilations, failing ones included, in one process
//  places     the command line tool in all combinations of directories, path forms, temporary directories and environments
const fs = require('fs'), path = require('path'), cp = require('child_process');
const { Compiler } = require('../lib/drv');
const { programs } = require('../lib/corpus');
const { product } = require('../lib/clayer');
const keccak = require('../lib/keccak');
const { H } = require('../lib/u256');
const C = require('../lib/contract');
const ROOT = path.resolve(__dirname, '..'), ND = path.join(ROOT, '.build/target-nd/debug/ydrv'), CLI = path.join(ROOT, '.build/target/debug/yul2wasm');
const SYM = ['lib/A.sol:A', 'lib/B.sol:B', 'C', 'lib/A.sol:D', 'E'];

function sources() {
  const ps = programs(), g = {};
  const obj = (name, list, extra = '') => {
    const fs = new Set(list.flatMap(p => p.funs || []));
    return `object "${name}" { code { ${list[0].code} ${[...new Set(list[0].funs || [])].join(' ')} } object "${name}_deployed" { code { switch calldataload(0) ${list.map((p, i) => `case ${i} { ${p.code} }`).join(' ')} default { revert(0, 0) } ${[...fs].join(' ')} } ${extra} } }`;
  };
  for (let i = 0; i < ps.length; i += 4) g['corpus ' + ps.slice(i, i + 4).map(p => p.key).join('+')] = obj('T', ps.slice(i, i + 4));
  g.funs = obj('Funs', [{ code: Array.from({ length: 12 }, (_, i) => `sstore(${i}, f${i}(calldataload(${i})))`).join(' '), funs: Array.from({ length: 12 }, (_, i) => `function f${i}(a) -> r { let t := add(a, ${i % 4}) let u := mul(t, t) r := ${i % 3 ? `f${i - 1}(u)` : 'u'} }`) }]);
  g.reverts = obj('Rev', [{ code: Array.from({ length: 8 }, (_, i) => `if eq(calldataload(0), ${i}) { r${i}() }`).join(' '), funs: Array.from({ length: 8 }, (_, i) => `function r${i}() { revert(0, ${i % 2 ? 0 : 32 * i}) }`) }]);
  g.vars = obj('Vars', [{ code: Array.from({ length: 10 }, (_, i) => `let v${i} := calldataload(${i * 32}) { let w${i} := add(v${i}, 1) if w${i} { v${i} := byte(3, w${i}) } }`).join(' ') + ' log4(0, 0, add(v0, v1), v2, v3, add(v4, v9))' }]);
  g.data = obj('Data', [{ code: Array.from({ length: 5 }, (_, i) => `datacopy(${128 + i * 32}, dataoffset("d${i}"), datasize("d${i}"))`).join(' ') + ' return(128, 160)' }], '').replace(/code \{ datacopy/, 'code { return(0, 0) } object "x" { code { datacopy').replace('object "x"', 'object "x"');
  g.data = `object "Data" { code { return(0, 0) } object "Data_deployed" { code { ${Array.from({ length: 5 }, (_, i) => `codecopy(${128 + i * 32}, dataoffset("d${i}"), datasize("d${i}"))`).join(' ')} return(128, 160) } ${Array.from({ length: 5 }, (_, i) => `data "d${i}" hex"${'0' + i}${'ab'.repeat(i)}"`).join(' ')} } }`;
  g.links = `object "Links" { code { } object "Links_deployed" { code { ${SYM.map((s, i) => `sstore(${i}, linkersymbol("${s}"))`).join(' ')} ${Array.from({ length: 5 }, (_, i) => `sstore(${9 + i}, loadimmutable("im${i}"))`).join(' ')} } } }`;
  g.factory = `object "Fac" { code { return(0, 0) } object "Fac_deployed" { code { let n := datasize("Kid") codecopy(256, dataoffset("Kid"), n) sstore(0, create(0, 256, n)) n := datasize("Toy") codecopy(256, dataoffset("Toy"), n) sstore(1, create2(0, 256, n, 7)) } object "Kid" { code { sstore(0, 1) return(0, 0) } object "Kid_deployed" { code { mstore(0, f(calldataload(0))) return(0, 32) function f(a) -> r { r := add(a, 5) } } } } object "Toy" { code { return(0, 0) } object "Toy_deployed" { code { revert(0, 0) } } } } }`;
  g.strings = obj('Str', [{ code: Array.from({ length: 8 }, (_, i) => `mstore(${128 + 32 * i}, "text ${i % 5}")`).join(' ') + ' ' + Array.from({ length: 8 }, (_, i) => `sstore(${i}, 0x${'9'.repeat(20 + i % 4)})`).join(' ') }]);
  return g;
}
const SRC = sources();
const BAD = { 'undefined variable': 'object "T" { code { sstore(0, x) } object "T_deployed" { code { } } }', 'syntax': 'object "T" { code { ', 'undefined function': 'object "T" { code { } object "T_deployed" { code { let x := g(1) } } }' };
const syms = SYM.map((s, i) => `sym=${Buffer.from(s).toString('hex')}:${Buffer.from('0x' + String(i + 1).repeat(40)).toString('hex')}`).join(',');
const OPTS = ['', 'O0', 'O3', 'debug,noinline', 'allopt', 'disopt', 'minify', 'le', 'bytes32', 'allopt,minify,le'];
let seq = 0;
const scratch = () => { const d = path.join(ROOT, '.build', 'c24', `${process.pid}-${seq++}`); fs.mkdirSync(d, { recursive: true }); return d; };
const digest = r => r.ok ? H(keccak(Buffer.from(r.ok))) : 'refused: ' + r.err;
const same = (a, b) => a.ok && b.ok ? Buffer.compare(Buffer.from(a.ok), Buffer.from(b.ok)) === 0 : !a.ok === !b.ok;
function diff(a, b) {
  if (!a.ok || !b.ok) return `${digest(a)} against ${digest(b)} ${a.msg || b.msg || ''}`.slice(0, 300);
  let i = 0; while (i < a.ok.length && a.ok[i] === b.ok[i]) i++;
  return `${a.ok.length} and ${b.ok.length} bytes, different from byte ${i}`;
}
let nd = null, fresh = null;
const alternatives = n => n < 2 ? 1 : n <= 4 ? [1, 1, 2, 6, 24][n] : 2 + 2 * (n - 1);
async function orders(job, rep) {
  nd ||= new Compiler(1, ND);
  const key0 = `${job.src} [${job.opts}]`, dir = scratch(), o = x => [job.opts, syms, 'dir=' + dir, x].filter(Boolean).join(',');
  try {
    const base = await nd.compile(SRC[job.src], o('')), pts = (base.extra || '').split(';').filter(Boolean).map(Number);
    rep.state(); rep.step(); rep.trace(); rep.cls(base.ok ? 'compiled' : 'refused'); rep.cls('choice points', pts.length);
    const T = job.tier === 'thorough', plans = ['rev'];
    // every single deviation (bounded: the whole job stays within its budget), then pairs of them
    const single = pts.flatMap((n, p) => Array.from({ length: alternatives(n) - 1 }, (_, a) => `${p}:${a + 1}`));
    const cap = T ? 1500 : 60, stepBy = Math.max(1, Math.ceil(single.length / cap));
    plans.push(...single.filter((_, i) => i % stepBy === 0));
    if (single.length <= (T ? 60 : 12)) for (let i = 0; i < single.length; i++) for (let j = i + 1; j < single.length; j++) if (single[i].split(':')[0] !== single[j].split(':')[0]) plans.push(single[i] + ';' + single[j]);
    if (stepBy > 1) rep.cls('deviations beyond the bound', single.length - Math.ceil(single.length / stepBy));
    for (const p of plans) {
      const key = `${key0} orders ${p}`;
      if (job.only && job.only !== key) continue;
      const r = await nd.compile(SRC[job.src], o('nd=' + p));
      rep.state(); rep.step(); rep.trace();
      if (!same(base, r)) rep.viol(key, `other iteration orders of hash containers give other output: ${diff(base, r)}`, { ...job, only: key }); else rep.cls('same bytes');
    }
    // the ordinary build (own hash seeds) agrees with the instrumented one, in several processes
    const procs = T ? 4 : 2;
    for (let k = 0; k < procs; k++) {
      const key = `${key0} process ${k}`, d = new Compiler(1);
      if (job.only && job.only !== key) { d.stop(); continue; }
      const r = await d.compile(SRC[job.src], o('')); d.stop();
      rep.state(); rep.step(); rep.trace();
      if (!same(base, r)) rep.viol(key, `another process gives other output: ${diff(base, r)}`, { ...job, only: key }); else rep.cls('same bytes');
    }
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
// ---- histories --------------------------------------------------------------------------------------------------------------
function steps(tier) {
  const k = Object.keys(SRC), g = [];
  for (const [s, o] of [[k[0], ''], [k[1], 'allopt'], ['funs', ''], ['reverts', 'O0'], ['links', ''], ['factory', ''], ['strings', 'bytes32'], ['vars', 'debug,noinline'], ['funs', 'minify'], ['data', 'le']]) g.push({ n: `${s} [${o}]`, src: SRC[s], o });
  for (const [n, s] of Object.entries(BAD)) g.push({ n, src: s, o: '' });
  return tier === 'thorough' ? g : g.filter((_, i) => ![1, 6, 8, 12].includes(i));
}
async function histories(job, rep) {
  const st = steps(job.tier), dir = scratch(), base = new Map();
  const o = s => [s.o, syms, 'dir=' + dir].filter(Boolean).join(',');
  const alone = async s => { if (!base.has(s.n)) { const d = new Compiler(1); base.set(s.n, await d.compile(s.src, o(s))); d.stop(); } return base.get(s.n); };
  try {
    for (const [i, a] of st.entries()) {
      if (i % job.of !== job.at) continue;
      const seqs = job.tier === 'thorough' ? product([a], st, st) : product([a], st);
      // one process per first step and second step block: the walk a, x, a, y, ... covers all pairs (a, x) and (x, a)
      const d = new Compiler(1);
      let prev = [];
      for (const s of seqs) {
        for (const x of s) {
          const key = `history ${[...prev.slice(-2).map(p => p.n), x.n].join(' > ')}`;
          const r = await d.compile(x.src, o(x)), w = await alone(x);
          rep.state(); rep.step(); rep.trace();
          if (!same(r, w)) rep.viol(key, `after other compilations in the process the output differs: ${diff(w, r)}`, { ...job, only: key }); else rep.cls(w.ok ? 'same bytes' : 'refused as alone');
          prev.push(x);
        }
      }
      d.stop();
    }
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
// ---- places -------------------------------------------------------------------------------------------------------------------
const PLACES = {
  cwd: ['w', 'w/deep/er', 'x y'], input: ['rel', 'abs', 'other name', 'link'], output: ['o.wasm', 'longer_name.wasm', 'sub/o.wasm'], tmp: ['t', 'tmp with blanks and a long name ' + 'z'.repeat(60)],
  env: [{}, { LANG: 'de_DE.UTF-8', LC_ALL: 'C', USER: 'someone', HOME: '/nonexistent', TZ: 'Asia/Tokyo', SOURCE_DATE_EPOCH: '1' }, { MALLOC_PERTURB_: '165', PADDING: 'p'.repeat(3000) }],
};
function places(job, rep) {
  const all = product(PLACES.cwd, PLACES.input, PLACES.output, PLACES.tmp, PLACES.env.map((_, i) => i));
  const g = job.tier === 'thorough' ? all : all.filter((_, i) => i * 2654435761 % 4294967296 < 4294967296 / 4);
  const src = SRC[job.src], args = [...SYM.flatMap((s, i) => ['--symbol', `${s}=0x${String(i + 1).repeat(40)}`]), ...job.args];
  let first = null;
  const one = (c, inp, out, tmp, env) => {
    const d = scratch();
    try {
      for (const x of ['w/deep/er', 'x y', 'in', 't', PLACES.tmp[1]]) fs.mkdirSync(path.join(d, x), { recursive: true });
      const cwd = path.join(d, c), fin = path.join(cwd, 'in.yul');
      fs.writeFileSync(fin, src); fs.writeFileSync(d + '/in/quite another.name', src); fs.mkdirSync(cwd + '/sub', { recursive: true }); fs.symlinkSync(fin, cwd + '/l');
      const r = cp.spawnSync(CLI, ['--input', { rel: 'in.yul', abs: fin, 'other name': d + '/in/quite another.name', link: 'l' }[inp], '--output', out, ...args], { timeout: 90e3, killSignal: 'SIGKILL', cwd, stdio: ['ignore', 'ignore', 'pipe'], env: { PATH: '/usr/local/bin:/usr/bin:/bin', CHAIN_IR_CLANG_RT_LIB_DIR: ROOT + '/.build/rt', TMPDIR: path.join(d, tmp), RUST_BACKTRACE: '0', ...PLACES.env[env] } });
      if (r.status !== 0) return { err: 'exit ' + r.status, msg: r.stderr.toString().slice(0, 200) };
      const o = path.join(cwd, out), stem = o.replace(/\.wasm$/, ''), left = fs.readdirSync(path.join(d, tmp));
      return { ok: Buffer.concat([o, stem + '.cbin', stem + '.cbin.hex'].map(f => fs.readFileSync(f))), left };
    } finally { fs.rmSync(d, { recursive: true, force: true }); }
  };
  first = one('w', 'rel', 'o.wasm', 't', 0);
  g.forEach((x, i) => {
    const key = `${job.src} ${job.args.join(' ')} in ${x.slice(0, 3).join(', ')}, ${x[3].slice(0, 8)}, environment ${x[4]}`;
    if (i % job.of !== job.at || job.only && job.only !== key) return;
    const r = one(...x);
    rep.state(); rep.step(); rep.trace();
    if (!same(first, r)) rep.viol(key, `the output depends on the place: ${diff(first, r)}`, { ...job, only: key });
    else if (!r.ok) rep.viol(key, `the tool fails: ${r.err} ${r.msg}`, { ...job, only: key });
    else if (r.left.length) rep.viol(key, `leaves ${r.left} in the temporary directory`, { ...job, only: key });
    else rep.cls('same bytes');
  });
}
module.exports = {
  technique: 'exhaustive exploration of hash container iteration orders (explicit choices in an instrumented build), compilation histories in one process, and places and environments of the command line tool; outputs compared byte for byte',
  needs: ['std', 'drv', 'cli', 'nd'],
  bounds: t => `${Object.keys(SRC).length} sources x ${t === 'thorough' ? OPTS.length : 3} option sets: all single deviations of iteration order (all orders up to 4 elements; reverse, rotations and swaps beyond) and pairs while few; all ${t === 'thorough' ? 'triples' : 'pairs'} of ${steps(t).length} compilations in one process; ${t === 'thorough' ? 'all' : 'a quarter of the'} combinations of directories, path forms, temporary directories and environments`,
  assumptions: ['hash containers are reached through std::collections; other sources of nondeterminism (addresses, clocks, process ids) only vary as the runs vary', 'the LLVM binding is the shim over the real LLVM 16 C API'],
  conformance: 'every state is a compilation by the real sources; the instrumented build is compared with the ordinary one on every source',
  jobs(tier) {
    const T = tier === 'thorough', g = [];
    Object.keys(SRC).forEach((src, i) => (T ? OPTS : [OPTS[0], OPTS[4], OPTS[1 + i % (OPTS.length - 1)]]).forEach(opts => g.push({ kind: 'orders', src, opts, tier })));
    const n = steps(tier).length;
    for (let at = 0; at < n; at++) g.push({ kind: 'histories', at, of: n, tier });
    for (const [src, args] of T ? [['funs', []], ['links', ['--debug']], ['factory', []], [Object.keys(SRC)[0], ['--enable-all-optimizers']]] : [['links', []], ['factory', []]]) for (let at = 0; at < 8; at++) g.push({ kind: 'places', src, args, at, of: 8, tier });
    return g;
  },
  exec(job, rep) { return { orders, histories, places }[job.kind](job, rep); },
  done: () => { if (nd) nd.stop(); },
};
