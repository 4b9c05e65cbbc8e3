'use strict';
// Contracts that hold a fun_transfer: the standard one in each of its forms, and every function that differs from it in
// one place. Whatever the compiler recognizes, the contract behaves as its source says.
const C = require('./contract');
const { World, runWasm } = require('./host');
const { parse, Ref } = require('./yulref');
const keccak = require('./keccak');
const { toBE, fromBE, H } = require('./u256');
const A160 = (1n << 160n) - 1n, TOPIC = '0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef';
const slotOf = (a, s = 0n) => fromBE(keccak(new Uint8Array([...toBE(a), ...toBE(s)])));
// error data at the free memory pointer, or at 0
const err = (form, p, sel, words) => form
  ? `let ${p} := mload(64) mstore(${p}, ${sel}) ${words.map((w, i) => `mstore(add(${p}, ${4 + 32 * i}), ${w})`).join(' ')} revert(${p}, ${4 + 32 * words.length})`
  : `mstore(0, ${sel}) ${words.map((w, i) => `mstore(${4 + 32 * i}, ${w})`).join(' ')} revert(0, ${4 + 32 * words.length})`;
// the body as a list of statements
const body = (f, second = true) => [
  'let _1 := sub(shl(160, 1), 1)', 'let _2 := and(from, _1)', `if iszero(_2) { ${err(f & 1, '_3', 'shl(225, 0x4b637e8f)', ['0'])} }`,
  'let _4 := and(to, _1)', `if iszero(_4) { ${err(f & 2, '_5', 'shl(224, 0xec442f05)', ['0'])} }`,
  'mstore(0, _2)', 'mstore(0x20, 0)', 'let _6 := sload(keccak256(0, 0x40))', `if lt(_6, value) { ${err(f & 4, '_7', 'shl(226, 0x391434e3)', ['_2', '_6', 'value'])} }`,
  'mstore(0, _2)', 'mstore(0x20, 0)', 'sstore(keccak256(0, 0x40), sub(_6, value))', 'mstore(0, _4)', ...(second ? ['mstore(0x20, 0)'] : []),
  'let dataSlot := keccak256(0, 0x40)', 'sstore(dataSlot, add(sload(dataSlot), value))', 'let _8 := mload(64)', 'mstore(_8, value)', `log3(_8, 0x20, ${TOPIC}, _2, _4)`];
// every list of statements that differs from b in one place
const SWAP = { add: ['sub', 'xor', 'or'], sub: ['add', 'xor'], lt: ['gt', 'slt', 'eq'], and: ['or', 'xor'], iszero: ['not'], sload: ['mload', 'tload'], sstore: ['tstore'], mstore: ['mstore8'], shl: ['shr'], revert: ['return'] };
function mutants(b) {
  const r = [], put = (key, m) => r.push([key, m]);
  b.forEach((s, i) => {
    const one = t => b.map((x, j) => (j === i ? t : x));
    for (const m of s.matchAll(/(?<![\w$.])(0x[0-9a-f]+|\d+)(?![\w$.])/g)) {
      const v = BigInt(m[1]), at = t => one(s.slice(0, m.index) + t + s.slice(m.index + m[1].length));
      for (const w of new Set([v + 1n, v ? v - 1n : 2n, v ^ 32n, v << 1n])) if (w !== v && w < 1n << 256n) put(`${i} ${m[1]}@${m.index} is ${w}`, at('0x' + w.toString(16)));
    }
    for (const m of s.matchAll(/(?<![\w$.])(from|to|value|_[1-8]|dataSlot)(?![\w$.])/g)) {
      if (s.slice(0, m.index).endsWith('let ')) continue;
      const scope = ['from', 'to', 'value', ...b.slice(0, i).map(x => (x.match(/^let (\S+)/) || [])[1]).filter(Boolean)];
      for (const n of scope) if (n !== m[1]) put(`${i} ${m[1]}@${m.index} is ${n}`, one(s.slice(0, m.index) + n + s.slice(m.index + m[1].length)));
    }
    for (const m of s.matchAll(/[a-z]+8?(?=\()/g)) for (const n of SWAP[m[0]] || []) put(`${i} ${m[0]}@${m.index} is ${n}`, one(s.slice(0, m.index) + n + s.slice(m.index + m[0].length)));
    if (!/^let/.test(s)) put(`${i} is missing`, b.filter((_, j) => j !== i));
    if (!/^let/.test(s)) put(`${i} is twice`, [...b.slice(0, i), s, ...b.slice(i)]);
    if (i && !/^let/.test(b[i - 1])) put(`${i} comes earlier`, [...b.slice(0, i - 1), s, b[i - 1], ...b.slice(i + 1)]);
    const c = s.match(/^if (.*?\)) \{/); if (c) { put(`${i} negated`, one(s.replace(c[1], `iszero(${c[1]})`))); put(`${i} unconditional`, one(s.replace(c[1], '1'))); put(`${i} empty`, one(`if ${c[1]} { }`)); put(`${i} reverts with nothing`, one(`if ${c[1]} { revert(0, 0) }`)); put(`${i} as switch`, one(s.replace(/^if/, 'switch').replace(/\{/, 'case 0 { } default {'))); }
    for (const x of ['sstore(5, value)', 'if eq(from, to) { leave }', 'value := sub(value, 1)', '{ sstore(6, from) }', 'log0(0, 0)']) put(`${x} before ${i}`, [...b.slice(0, i), x, ...b.slice(i)]);
  });
  for (const x of ['sstore(5, value)', 'log1(0, 0, 7)', 'if gt(value, 4) { sstore(5, 1) }', 'leave', 'sstore(keccak256(0, 0x40), 7)', 'stop()', 'mstore(0, 9) return(0, 32)']) put(`${x} at the end`, [...b, x]);
  return r;
}
const NAMES = ['fun_transfer', 'fun__transfer', 'fun_transferFrom', 'fun_transfer_12', 'my_fun_transfer', 'transfer', 'fun_transferX'];
const OBJECTS = ['MyToken', 'ERC20', 'T', 'Token_12', 'MyERC20Thing'];
// program: { key, name, fn, params, returns, body, use }
function programs(tier) {
  const r = [], std = { name: 'MyToken', fn: 'fun_transfer', params: 'from, to, value', returns: '', use: f => `${f}(a, b, v)` };
  for (let f = 0; f < 8; f++) for (const second of [true, false]) r.push({ ...std, key: `form ${f}${second ? '' : ' short'}`, body: body(f, second) });
  for (const fn of NAMES) for (const name of OBJECTS) for (const f of [0, 7]) r.push({ ...std, fn, name, key: `${fn} in ${name} form ${f}`, body: body(f) });
  for (const params of ['to, from, value', 'value, to, from', 'from, value, to', 'to, value, from']) r.push({ ...std, params, key: 'parameters ' + params, body: body(7) });
  for (const [returns, use] of [['-> r', f => `mstore(512, ${f}(a, b, v)) log0(512, 32)`], ['-> r, s', f => `let x, y := ${f}(a, b, v) log2(0, 0, x, y)`]]) for (const more of ['', 'r := value', 'r := add(_6, 1)']) r.push({ ...std, returns, use, key: `returns ${returns} ${more}`, body: [...body(7), more] });
  r.push({ ...std, params: 'from, to, value, extra', use: f => `${f}(a, b, v, 7)`, key: 'four parameters', body: [...body(7), 'sstore(9, extra)'] });
  r.push({ ...std, params: 'from, to', use: f => `${f}(a, b)`, key: 'two parameters', body: body(7).map(s => s.replace(/\bvalue\b/g, '5')) });
  const uses = { twice: f => `${f}(a, b, v) ${f}(b, a, 1)`, nested: f => `${f}(a, b, add(v, w(1))) function w(x) -> y { y := add(x, 1) log1(0, 0, x) }`, order: f => `${f}(w(1, a), w(2, b), w(3, v)) function w(x, r) -> y { y := r log1(0, 0, x) }`, literals: f => `${f}(0x11, 0x22, 3)`, loop: f => `for { let i := 0 } lt(i, 3) { i := add(i, 1) } { ${f}(a, b, i) }`, masked: f => `${f}(and(a, sub(shl(160, 1), 1)), and(b, sub(shl(160, 1), 1)), v)`, variables: f => `let x := a let y := b let z := v ${f}(x, y, z) log3(0, 0, x, y, z)`, 'in a function': f => `g(a, b, v) function g(x, y, z) { ${f}(x, y, z) ${f}(y, x, z) }`, hash: f => `mstore(0, a) ${f}(a, b, and(keccak256(0, 32), 3))` };
  for (const [k, use] of Object.entries(uses)) for (const fn of ['fun_transfer', 'fun__transfer']) for (const f of [0, 7]) r.push({ ...std, fn, use, key: `used ${k} ${fn} form ${f}`, body: body(f) });
  for (const f of tier === 'thorough' ? [0, 7] : [7]) for (const second of tier === 'thorough' ? [true, false] : [true]) mutants(body(f, second)).forEach(([key, b], i) => r.push({ ...std, fn: NAMES[i % 2], key: `form ${f}${second ? '' : ' short'}: ${key}`, body: b }));
  if (tier !== 'thorough') mutants(body(0)).forEach(([key, b], i) => { if (/^(2|4|8) /.test(key)) r.push({ ...std, fn: NAMES[i % 2], key: `form 0: ${key}`, body: b }); });
  return r;
}
const ACC = [0x1111111111111111111111111111111111111111n, A160, 2n];
function worlds() {
  const r = [];
  for (const [a, b] of [[ACC[0], ACC[1]], [ACC[1], ACC[2]], [ACC[2], ACC[2]], [0n, ACC[0]], [ACC[0], 0n], [0n, 0n]]) for (const [v, x, y] of [[5n, 9n, 3n], [0n, 0n, 0n], [10n, 9n, 3n], [9n, 9n, (1n << 256n) - 1n], [1n << 70n, 1n << 71n, 1n]]) r.push({ a, b, v, storage: [[slotOf(b), y], [slotOf(a), x], [slotOf(a, 1n), 1000n], [slotOf(b, 1n), 2000n], [0n, 77n], [1n, 78n]] });
  return r;
}
// with all optimizers the free memory pointer lives outside memory: a program that reads it in another way is not for them
class PointerApart extends Ref { builtin(n, a) { if (n === 'mload' && a[0] === 64n) return this.ptr || 0n; if (n === 'mstore' && a[0] === 64n) { this.ptr = a[1]; return; } return super.builtin(n, a); } }
const show = (r, w) => `${r.kind} ${r.data} {${w.trace.join(' | ')}} ${w.storageView()}`;
async function explore(p, opts, rep, job) {
  const key = p.key + ` [${opts}]`;
  const use = p.use(p.fn), cut = use.search(/ function /), [main, funs] = cut < 0 ? [use, ''] : [use.slice(0, cut), use.slice(cut)];
  const fn = `function ${p.fn}(${p.params}) ${p.returns} { ${p.body.join(' ')} } ${funs} function arg(at) -> value { value := calldataload(at) }`;
  const run = `mstore(64, 640) let a := arg(4) let b := arg(36) let v := arg(68) ${main} mstore(0, 1) return(0, 32)`;
  const r = await C.compiler().compile(`object "${p.name}" { code { } object "${p.name}_deployed" { code { ${run} ${fn} } } }`, opts);
  rep.state(); rep.trace();
  if (!r.ok) { rep.viol(key + ' compile', `does not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, job); return; }
  const mod = new WebAssembly.Module(r.ok), ast = parse(fn + ' ' + run);
  for (const w of worlds()) {
    const calldata = new Uint8Array(100); calldata.set(toBE(w.a), 4); calldata.set(toBE(w.b), 36); calldata.set(toBE(w.v), 68);
    const mk = () => new World({ calldata, storage: new Map(w.storage) }), w1 = mk(), w2 = mk();
    rep.state(); rep.step(); rep.trace();
    const got = C.norm(runWasm(mod, 'call', w1)), want = new Ref(w2, {}).run(ast);
    if (want.kind === 'trap' && got.kind === 'trap') { rep.cls('trap'); continue; }
    const g = show(got, w1), e = show(want, w2);
    if (/allopt/.test(opts)) { const w3 = mk(); if (show(new PointerApart(w3, {}).run(ast), w3) !== e) { rep.cls('reads the free memory pointer as memory'); continue; } }
    rep.cls(want.kind);
    if (g !== e) { rep.viol(key, `transfer(${w.a.toString(16)}, ${w.b.toString(16)}, ${w.v}): expected ${e.slice(0, 700)}, got ${g.slice(0, 700)}`, job); return; }
  }
}
const cache = {}, all = t => (cache[t] ||= programs(t));
module.exports = { programs: all, explore, mutants, body };
