'use strict';
// Literals in compiled contracts: every way to write a value, in every place a value can stand, means the same as the
// plain hexadecimal number; what no word can hold does not compile.
const C = require('./contract');
const { explore, product } = require('./clayer');
const A = require('./arith');
const { H, toBE } = require('./u256');
const M = (1n << 256n) - 1n, IDF = 'function idf(x) -> r { r := x }';
const plain = v => '0x' + v.toString(16);
// ---- what can be written: [text, value] ---------------------------------------------------------------------------------
const W = [8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 159, 160, 192, 224, 255, 256];
const VALUES = [...new Set([0n, 1n, 2n, 9n, 10n, 15n, 16n, 99n, ...W.flatMap(w => { const b = 1n << BigInt(w); return [b - 1n, b, b + 1n]; }), M - 1n, BigInt('0x0123456789abcdeffedcba98765432100f1e2d3c4b5a69788796a5b4c3d2e1f0'), BigInt('0xabcdef' + '0'.repeat(58)), BigInt('0x' + 'f0'.repeat(32)), 10n ** 77n, 10n ** 76n - 1n, 12345678901234567890123456789012345678901234567890n].filter(v => v <= M))];
const mixed = t => [...t].map((c, i) => (i % 2 ? c.toUpperCase() : c)).join('');
const NUM = { dec: v => String(v), '0dec': v => '00' + v, hex: plain, HEX: v => '0x' + v.toString(16).toUpperCase(), hExmixed: v => '0x' + mixed(v.toString(16)), hex0: v => '0x' + v.toString(16).padStart(64, '0'), hex00: v => '0x0' + v.toString(16) };
function numbers(tier) {
  const r = [];
  for (const v of VALUES) for (const [k, f] of Object.entries(NUM)) { if (k === 'hex00' && v >> 252n) continue; r.push([f(v), v]); }
  r.push(['true', 1n], ['false', 0n]);
  return r;
}
const word = b => { const w = new Uint8Array(32); w.set(b); return BigInt('0x' + H(w)); };
const utf8 = s => new Uint8Array(Buffer.from(s, 'utf8'));
function strings(tier) {
  const r = [], put = (text, s) => { const b = utf8(s); if (b.length <= 32) r.push([`"${text}"`, word(b)]); };
  for (let n = 0; n <= 32; n++) { put('a'.repeat(n), 'a'.repeat(n)); put(Array.from({ length: n }, (_, i) => '0Zz~ .'[i % 6]).join(''), Array.from({ length: n }, (_, i) => '0Zz~ .'[i % 6]).join('')); put('\\x00'.repeat(n), '\0'.repeat(n)); put('\\x7f'.repeat(n), '\x7f'.repeat(n)); }
  for (let c = 0; c < 128; c++) { const x = c.toString(16).padStart(2, '0'), ch = String.fromCharCode(c); put('\\x' + x, ch); put('k\\x' + x.toUpperCase() + 'm', 'k' + ch + 'm'); if (c >= 32 && c < 127 && ch !== '"' && ch !== '\\') put(ch + 'q', ch + 'q'); put(`\\u{00${x}}`, ch); }
  const esc = [['\\n', '\n'], ['\\t', '\t'], ['\\"', '"'], ['\\\\', '\\'], ['x', 'x'], ['\\x41', 'A'], ['\\u{20ac}', '\u20ac'], ["'", "'"], ['/*', '/*'], ['//', '//'], ['*/', '*/']];
  for (const [a, b] of product(esc, esc)) put(a[0] + b[0], a[1] + b[1]);
  for (const [a, b, c] of product(esc.slice(0, 6), esc.slice(0, 6), esc.slice(0, 6))) put(a[0] + b[0] + c[0], a[1] + b[1] + c[1]);
  for (const u of [0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x20ac, 0x3b1]) { const h = u.toString(16).padStart(4, '0'), ch = String.fromCharCode(u); put(`\\u{${h}}`, ch); put(`\\u{${h.toUpperCase()}}z`, ch + 'z'); put(ch, ch); }
  put('\u{1f600}', '\u{1f600}'); put('hex', 'hex'); put('0x12', '0x12'); put('12', '12'); put('true', 'true'); put('{ let x := 1 }', '{ let x := 1 }');
  for (const gap of ['\\ \\', '\\\n\\', '\\ \n\t \\']) for (const [a, b] of [['', ''], ['a', ''], ['', 'b'], ['a', 'b']]) put(a + gap + b, a + b);
  const seen = new Set(); return r.filter(([t]) => !seen.has(t) && seen.add(t));
}
// ---- where they can stand: name -> (text -> code), input words ------------------------------------------------------------
const cd = i => `calldataload(${32 + 32 * i})`;
const PLACES = {};
for (const [k, f] of Object.entries(A.SINKS)) if (f) PLACES[k] = [f];
Object.assign(PLACES, {
  result: [e => 'mstore(0, g()) return(0, 32)', e => [`function g() -> r { r := ${e} }`]],
  early: [e => `mstore(0, g(${cd(0)})) return(0, 32)`, e => [`function g(x) -> r { r := ${e} if x { leave } r := 5 }`]],
  case: [e => `switch ${cd(0)} case ${e} { mstore8(0, 1) } default { mstore8(0, 2) } return(0, 1)`],
  'case of itself': [e => `switch ${e} case ${e} { mstore8(0, 1) } default { mstore8(0, 2) } return(0, 1)`],
  'several variables': [e => `let a, b := two() a := ${e} let c := a b := c log3(0, 0, a, b, c)`, e => ['function two() -> p, q { p := 3 q := 4 }']],
  'loop start': [e => `for { let i := ${e} let n := 0 } lt(n, 2) { i := add(i, 1) n := add(n, 1) } { log1(0, 0, i) }`],
  'loop step': [e => `for { let i := 0 let n := 0 } lt(n, 3) { i := add(i, ${e}) n := add(n, 1) } { log1(0, 0, i) }`],
  'loop condition': [e => `for { let i := ${e} let n := 0 } and(gt(n, 5), i) { } { } for { let n := 0 } lt(n, 3) { n := add(n, 1) } { if gt(n, ${e}) { log1(0, 0, n) } }`],
  block: [e => `let a { a := ${e} } { let b := ${e} log1(0, 0, b) } log1(0, 0, a)`],
  twice: [e => `log2(0, 0, ${e}, ${e}) mstore(0, eq(${e}, ${e})) return(0, 32)`],
  transient: [e => `tstore(${e}, 7) log1(0, 0, tload(${e}))`],
  value: [e => `log1(0, 0, call(5, 7, ${e}, 0, 0, 0, 0))`],
  address: [e => `log1(0, 0, balance(${e}))`],
  topics: [e => `log4(0, 0, 1, ${e}, 2, ${e})`],
  memory: [e => `mstore(128, ${e}) log1(128, 32, mload(128)) mstore(65536, ${e}) log0(65530, 40)`],
});
for (const op of ['add', 'sub', 'mul', 'div', 'sdiv', 'mod', 'smod', 'exp', 'lt', 'gt', 'slt', 'sgt', 'eq', 'and', 'or', 'xor', 'byte', 'shl', 'shr', 'sar', 'signextend']) {
  PLACES[op + ' left'] = [e => `mstore(0, ${op}(${e}, ${cd(0)})) return(0, 32)`]; PLACES[op + ' right'] = [e => `mstore(0, ${op}(${cd(0)}, ${e})) return(0, 32)`];
}
for (const op of ['addmod', 'mulmod']) for (let i = 0; i < 3; i++) PLACES[`${op} ${i}`] = [e => `mstore(0, ${op}(${[cd(0), cd(1), cd(2)].map((c, j) => (j === i ? e : c)).join(', ')})) return(0, 32)`];
PLACES['iszero of it'] = [e => `mstore(0, iszero(${e})) mstore(32, not(${e})) return(0, 64)`];
const MAIN = ['mem', 'var', 'case', 'add right', 'fun', 'result'];
const near = v => [...new Set([v, 0n, 1n, (v + 1n) & M, v & ((1n << 32n) - 1n), v & ((1n << 64n) - 1n), v & ((1n << 128n) - 1n), v ^ (1n << 255n), M])];
function snippet(place, [text, v]) {
  const [code, funs] = PLACES[place], other = plain(v);
  const s = { key: `${text} as ${place}`, code: code(text), funs: [IDF, ...(funs ? funs(text) : [])], inputs: near(v).map(x => ({ words: [x, v, 7n] })) };
  const f2 = [IDF, ...(funs ? funs(other) : [])];
  s.ast = require('./yulref').parse([...f2, code(other)].join('\n'));
  // helper functions differ from snippet to snippet: give them their own names
  return s;
}
let serial = 0;
const own = s => { const n = s.funs.length; if (n > 1) { const id = serial++; for (const g of ['g', 'two']) { const re = new RegExp(`\\b${g}\\(`, 'g'); s.code = s.code.replace(re, `${g}_${id}(`); s.funs = s.funs.map(f => (f === IDF ? f : f.replace(new RegExp(`function ${g}\\(`), `function ${g}_${id}(`))); } } return s; };
const OPTS = { quick: ['O0', 'bytes32', 'minify,le'], thorough: ['O0', 'O1', 'O2', 'O3', 'bytes32', 'le', 'minify', 'disopt', 'noinline', 'debug', 'allopt', 'allopt,le', 'bytes32,O0'] };
const FEW = [['0', 0n], ['1', 1n], ['255', 255n], ['4294967295', (1n << 32n) - 1n], ['0x100000000', 1n << 32n], ['0xffffffffffffffff', (1n << 64n) - 1n], ['18446744073709551616', 1n << 64n], ['0xFFffFFffFFffFFffFFffFFffFFffFFff', (1n << 128n) - 1n], ['340282366920938463463374607431768211456', 1n << 128n], ['0xffffffffffffffffffffffffffffffffffffffff', (1n << 160n) - 1n], ['57896044618658097711785492504343953926634992332820282019728792003956564819968', 1n << 255n], ['0x' + 'f'.repeat(64), M], ['true', 1n], ['false', 0n], ['"abc"', word(utf8('abc'))], ['"\\x01\\n\\""', word(utf8('\x01\n"'))], [`"${'z'.repeat(32)}"`, word(utf8('z'.repeat(32)))], ['""', 0n], ['00017', 17n], ['0x00000000000000000000000000000000000000000000000000000000000000aB', 0xabn]];
function groups(tier) { // name -> snippets
  const all = [...numbers(tier), ...strings(tier)], th = tier === 'thorough', g = {};
  for (const p of Object.keys(PLACES)) g['place ' + p] = () => (th || MAIN.includes(p) ? [...FEW, ...all] : [...FEW, ...all.filter((_, i) => i % 5 === 0)]).map(l => snippet(p, l));
  return g;
}
// ---- what must not compile -----------------------------------------------------------------------------------------------
const BADNUM = [1n << 256n, (1n << 256n) + 1n, (1n << 257n) - 1n, 1n << 260n, 10n ** 78n, 1n << 512n, 1n << 1024n];
function rejects() {
  const r = [];
  const bad = [...BADNUM.flatMap(v => [String(v), '0x' + v.toString(16)]), `"${'a'.repeat(33)}"`, `"${'a'.repeat(64)}"`, `"${'a'.repeat(31)}\\u{20ac}"`, `"${'\\x00'.repeat(33)}"`, `"${'a'.repeat(100)}"`];
  const places = ['mem', 'var', 'asg', 'case', 'if', 'fun', 'result', 'add right', 'add left', 'shl left', 'and right', 'sto', 'key', 'log', 'loop start', 'memory', 'iszero of it', 'block', 'value', 'address', 'div right'];
  bad.forEach((b, i) => places.forEach((p, j) => { if (i < 2 || i > BADNUM.length * 2 - 1 || j % 4 === i % 4) r.push({ key: `${b.length > 90 ? b.slice(0, 90) + '..' : b} as ${p}`, code: PLACES[p][0](b), funs: [IDF, ...(PLACES[p][1] ? PLACES[p][1](b) : [])] }); }));
  for (const d of ['hex"1"', 'hex"123"', 'hex"0g"', 'hex"12 34"', 'hex"12" hex"3"', 'hex"abcde"', 'hex"0x12"']) r.push({ key: `data ${d}`, code: 'datacopy(0, dataoffset("d"), datasize("d")) return(0, 64)', data: `data "d" ${d}` });
  for (const l of ['0x', '0xg', '1a', '"\\q"', '"\\x1"', '"\\xg0"', '"\\u{12}"', '"\\u{d800}"', '"\\u0041', '"abc', "'abc'", '0X12', '1_000', '1e3', '-1', '"a\nb"', '0b1', '1.5']) r.push({ key: `${JSON.stringify(l)} as a value`, code: `mstore(0, ${l}) return(0, 32)`, funs: [] });
  return r;
}
async function refuse(s, opts, rep, job) {
  const r = await C.compiler().compile(`object "T" { code { } object "T_deployed" { code { ${s.code} ${(s.funs || []).join(' ')} } ${s.data || ''} } }`, opts);
  rep.state(); rep.step(); rep.trace();
  if (r.ok) { rep.cls('accepted'); rep.viol(`${s.key}${opts ? ' [' + opts + ']' : ''} accepted`, 'no word holds this literal, or it is not one, but the program compiles', job); } else rep.cls('rejected');
}
// ---- data segments: hexadecimal digits in any case, in several literals --------------------------------------------------
function datas() {
  const r = [], up = t => t.toUpperCase(), B = n => H(new Uint8Array(n).map((_, i) => (i * 171 + n * 13 + 10) & 255));
  for (let n = 1; n <= 40; n++) r.push([`hex"${B(n)}"`, B(n)], [`hex"${up(B(n))}"`, B(n)], [`hex"${mixed(B(n))}"`, B(n)]);
  for (let n = 2; n <= 40; n += 3) for (const k of [1, 2, n >> 1]) if (k && k < n) r.push([`hex"${B(n).slice(0, 2 * k)}" hex"${up(B(n).slice(2 * k))}"`, B(n)]);
  r.push(['hex"00"', '00'], ['hex"0000"', '0000'], ['hex"ff" hex"00" hex"ff"', 'ff00ff']);
  return r;
}
async function data(list, rep, job) { // every segment in one object
  const objs = list.map(([t], i) => `data "d${i}" ${t}`).join(' ');
  const code = list.map((_, i) => `datacopy(128, dataoffset("d${i}"), datasize("d${i}")) log1(128, datasize("d${i}"), datasize("d${i}"))`).join(' ');
  const r = await C.compiler().compile(`object "T" { code { } object "T_deployed" { code { ${code} } ${objs} } }`, '');
  rep.state();
  if (!r.ok) { rep.viol('data segments compile', `do not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, job); return; }
  const { World, runWasm } = require('./host'), w = new World({});
  runWasm(new WebAssembly.Module(r.ok), 'call', w);
  const want = list.map(([, h]) => `L ${h} ${H(toBE(BigInt(h.length / 2)))}`);
  list.forEach(([t, h], i) => { rep.state(); rep.step(); rep.trace(); rep.cls('data'); if (w.trace[i] !== want[i]) rep.viol(`data ${t}`, `expected ${want[i]}, got ${w.trace[i]}`, job); });
}
module.exports = { groups, rejects, refuse, datas, data, snippet, own, explore, OPTS };
