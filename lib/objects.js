'use strict';
// Objects: data segments and contracts inside contracts. Every program is compiled alone; sub-contracts handed to the
// host are taken out of the creation code, deployed with their constructor arguments and called, and must behave as
// their own code says.
const C = require('./contract');
const { World, runWasm } = require('./host');
const { parse, Ref } = require('./yulref');
const W = require('./words');
const { H, hex, toBE } = require('./u256');
const bytes = (n, s) => new Uint8Array(n).map((_, i) => (i * 37 + s) & 255);
const hexd = b => `hex"${H(b)}"`;
// data hex"..": several literals follow each other
const literal = (b, cut) => (cut && b.length > 1 ? [b.slice(0, cut), b.slice(cut)].filter(x => x.length).map(hexd).join(' ') : hexd(b));
const show = (r, w) => `${r.kind} ${r.data} {${w.trace.join(' | ')}}`;
// tree: { name, deploy: code, run: code, funs, data: {name: bytes}, in: 'run' | 'deploy', kids: [tree], runData, cut }
function text(t) {
  const d = x => Object.entries(x || {}).map(([n, b]) => `data "${n}" ${literal(b, t.cut)}`).join(' ');
  const kids = w => (t.kids || []).filter(k => (k.in || 'run') === w).map(text).join(' ');
  return `object "${t.name}" { code { ${t.deploy || ''} ${t.deployFuns ?? t.funs ?? ''} } ${kids('deploy')} object "${t.name}_deployed" { code { ${t.run || ''} ${t.funs || ''} } ${kids('run')} ${d(t.runData)} } ${d(t.data)} }`;
}
// the bytes each part can name; contracts inside are known by their size and found again in what reaches the host
function parts(t, phase, sizes) {
  const r = { ...(phase === 'run' ? t.runData : t.data) };
  for (const k of t.kids || []) if ((k.in || 'run') === phase) r[k.name] = sizes.get(k) || new Uint8Array(0);
  return r;
}
// Run a compiled contract and its reference on one input; kid codes in the trace are replaced by their names.
async function behave(t, mod, size, rep, job, key, inputs, depth = 0) {
  const viol = (k, what) => rep.viol(`${key} ${k}`, what, job), code = bytes(size, 9);
  for (const phase of ['deploy', 'run']) for (const inp of inputs) {
    const o = { calldata: phase === 'deploy' ? inp.args || new Uint8Array(0) : inp.calldata || new Uint8Array(0), code, basefee: inp.sel || 0n };
    const w1 = new World(o), w2 = new World(o), kids = (t.kids || []).filter(k => (k.in || 'run') === phase), found = new Map();
    const create = w1.create;
    w1.create = function (kind, value, c, data, salt) { // the code of a contract inside: length and wasm
      const n = c.length >= 4 ? new DataView(c.buffer, c.byteOffset).getUint32(0) : -1;
      if (n === c.length - 4 && n > 8 && c[4] === 0 && c[5] === 0x61) {
        const k = H(c); if (!codes.has(k)) codes.set(k, c);
      }
      return create.call(this, kind, value, c, data, salt);
    };
    const codes = new Map();
    rep.state(); rep.step(); rep.trace();
    const got = C.norm(runWasm(mod, phase === 'run' ? 'call' : 'deploy', w1));
    // one code per kid, by what it does: the order in which they are created tells which is which
    const list = [...codes.values()];
    const sizes = new Map(); kids.forEach((k, i) => { const c = k.code || list[i]; if (c) { found.set(k, c); k.code = c; sizes.set(k, c); } });
    const objects = parts(t, phase, sizes);
    objects[phase === 'run' ? t.name + '_deployed' : t.name] = code;
    let want, wr;
    try { const ref = new Ref(w2, { objects, deploying: phase === 'deploy' }); wr = C.norm(ref.run(parse(`${(phase === 'deploy' ? t.deployFuns : null) ?? t.funs ?? ''} ${(phase === 'run' ? t.run : t.deploy) || ''}`))); want = show(wr, w2); } catch (e) { want = 'reference: ' + e.message; }
    const g = show(got, w1);
    if (g !== want && !(wr && wr.kind === 'trap' && got.kind === 'trap')) { rep.cls('differs'); let i = 0; while (g[i] === want[i]) i++; const c = s => (s.length > 700 ? s.slice(0, 60) + '..' + s.slice(Math.max(60, i - 60), i + 400) : s); viol(phase, `${JSON.stringify({ sel: String(inp.sel || 0), args: H(inp.args || []), calldata: H(inp.calldata || []) })}: expected ${c(want)}, got ${c(g)}`); } else rep.cls('agrees');
  }
  for (const k of t.kids || []) {
    if (!k.code) { viol(k.name, 'was never created as a length and wasm code'); continue; }
    let m; try { m = new WebAssembly.Module(k.code.slice(4)); } catch (e) { viol(k.name, 'creation code is not a contract: ' + e.message); continue; }
    await behave(k, m, k.code.length - 4, rep, job, `${key} > ${k.name}`, k.inputs || inputs, depth + 1);
  }
}
async function explore(t, opts, rep, job, key, inputs) {
  key += opts ? ` [${opts}]` : '';
  const r = await C.compiler().compile(text(t), opts);
  rep.state(); rep.trace();
  if (!r.ok) { rep.viol(key + ' compile', `does not compile (${r.err}): ${String(r.msg).slice(0, 300)}`, job); return; }
  await behave(t, new WebAssembly.Module(r.ok), 333, rep, job, key, inputs);
}
// ---- data segments ----------------------------------------------------------------------------------------------------------
const LENS = [1, 2, 3, 4, 5, 8, 31, 32, 33, 63, 64, 65, 255, 256, 300, 5000];
const COPY = ['datacopy', 'codecopy'];
// read every segment: its size, all of it, and pieces of it; at places of memory that grow and that hold other bytes
function reader(d) {
  return Object.entries(d).map(([n, b], i) => {
    const L = b.length, f = COPY[i % 2], at = 160 + i * 7;
    const pieces = [[0, L], [0, 1], [L - 1, 1], [L >> 1, L - (L >> 1)], [0, 0], [1, Math.max(0, L - 2)]].filter(([o, k]) => o + k <= L);
    return `mstore(128, not(0)) mstore(160, not(0)) mstore(192, not(0)) log1(0, 0, datasize("${n}")) ` + pieces.map(([o, k], j) => `${COPY[(i + j) % 2]}(${at + j}, ${o ? `add(dataoffset("${n}"), ${o})` : `dataoffset("${n}")`}, ${k === L ? `datasize("${n}")` : k}) log1(128, ${Math.min(200, 40 + k)}, ${j})`).join(' ') + ` { let o := dataoffset("${n}") let n := datasize("${n}") ${f}(70000, o, n) log0(70000, n) ${f}(300, add(o, ${L >> 1}), sub(n, ${L >> 1})) log0(290, add(n, 10)) }`;
  }).join(' ');
}
const D = { one: L => ({ d: bytes(L, 1) }), two: L => ({ a: bytes(L, 1), b: bytes(LENS[(LENS.indexOf(L) + 3) % LENS.length], 7) }), names: L => ({ 'd': bytes(L, 3), 'd1': bytes(L + 1, 4), 'd_1.x': bytes(L, 5), '0': bytes(2, 6), 'T': undefined }), zeros: L => ({ z: new Uint8Array(L), f: new Uint8Array(L).fill(255), z2: new Uint8Array(L) }) };
function dataTrees() {
  const r = [];
  for (const [k, f] of Object.entries(D)) for (const L of LENS) for (const where of ['run', 'deploy', 'both']) {
    if (where === 'both' && k !== 'one' && k !== 'two') continue;
    const d = Object.fromEntries(Object.entries(f(L)).filter(([, b]) => b)), t = { name: 'T', cut: LENS.indexOf(L) % 3 ? Math.ceil(L / 3) : 0 };
    if (where !== 'deploy') { t.runData = d; t.run = reader(d); }
    if (where !== 'run') { const e = where === 'both' ? Object.fromEntries(Object.entries(d).map(([n, b]) => [n, b.slice().reverse()])) : d; t.data = e; t.deploy = reader(e); }
    r.push([`data ${k} of ${L} in ${where}`, t]);
  }
  return r;
}
// ---- contracts inside ---------------------------------------------------------------------------------------------------------
const ARGS = 'let s := datasize("SELF") let n := sub(codesize(), s) mstore(128, not(0)) codecopy(128, s, n) log2(120, add(n, 20), n, gt(codesize(), s)) sstore(1, mload(128)) sstore(2, caller()) ';
const kid = (name, x, more = {}) => ({ name, deploy: ARGS.replace('SELF', name) + `sstore(3, ${x})` + (more.deploy || ''), run: `mstore(0, add(calldataload(0), ${x})) log1(0, 32, calldatasize()) ` + (more.run || '') + ' return(0, 32)', ...more.t });
const make = (n, args, kind, salt, value) => `{ let z := datasize("${n}") mstore(300, not(0)) COPY(320, dataoffset("${n}"), z) calldatacopy(add(320, z), 0, ${args}) let r := ${kind === 'create' ? `create(${value}, 320, add(z, ${args}))` : `create2(${value}, 320, add(z, ${args}), ${salt})`} log2(0, 0, r, z) }`;
function kidTrees() {
  const r = [];
  const argLens = ['0', '1', '31', '32', '33', '64', 'calldatasize()'];
  for (const kind of ['create', 'create2']) for (const a of argLens) for (const copy of COPY) r.push([`${kind} with ${a} argument bytes by ${copy}`, { name: 'T', run: make('Kid', a, kind, 'not(5)', 'callvalue()').replace(/COPY/g, copy), kids: [kid('Kid', 7)] }]);
  const names = [['Kid'], ['Kid', 'Kid2'], ['A', 'B', 'C'], ['T2'], ['Kid_12'], ['K.x'], ['deployed'], ['T_Kid', 'T_Kid_2']];
  for (const ns of names) for (const w of ['run', 'deploy']) r.push([`contracts ${ns.join(',')} in ${w}`, { name: 'T', [w]: ns.map((n, i) => make(n, 'calldatasize()', i % 2 ? 'create2' : 'create', '9', i).replace(/COPY/g, COPY[i % 2])).join(' '), kids: ns.map((n, i) => ({ ...kid(n, i * 1000 + 5), in: w })) }]);
  // created twice, in a loop, in a function, and one next to data
  r.push(['created three times', { name: 'T', run: `for { let i := 0 } lt(i, 3) { i := add(i, 1) } ${make('Kid', 'mul(i, 5)', 'create2', 'i', 'i')}`.replace(/COPY/g, 'datacopy'), kids: [kid('Kid', 1)] }]);
  r.push(['created in a function', { name: 'T', run: 'mk(calldatasize()) mk(0)', funs: `function mk(a) ${make('Kid', 'a', 'create', '', '0')}`.replace(/COPY/g, 'codecopy'), deploy: 'sstore(0, 1)' , deployFuns: '', kids: [kid('Kid', 2)] }]);
  r.push(['next to data', { name: 'T', run: make('Kid', '3', 'create', '', '0').replace(/COPY/g, 'datacopy') + ' ' + reader({ d: bytes(50, 3) }), runData: { d: bytes(50, 3) }, data: { d: bytes(33, 8) }, deploy: reader({ d: bytes(33, 8) }), kids: [kid('Kid', 3, { t: { runData: { d: bytes(20, 77) } }, run: reader({ d: bytes(20, 77) }) })] }]);
  // contracts in contracts in contracts
  const deep = n => (n ? kid('L' + n, n, { run: make('L' + (n - 1), 'calldatasize()', 'create', '', '0').replace(/COPY/g, 'datacopy'), t: { kids: [deep(n - 1)] } }) : kid('L0', 99));
  for (const n of [1, 2]) { const k = deep(n); r.push([`${n + 1} levels`, { name: 'T', run: make(k.name, '4', 'create', '', '1').replace(/COPY/g, 'codecopy'), kids: [k] }]); }
  // the same function and data names at every level
  const f = x => `function f(a) -> r { r := add(a, ${x}) }`;
  r.push(['same names', { name: 'T', run: `mstore(0, f(1)) log0(0, 32) ${make('Kid', '0', 'create', '', '0')} ${reader({ d: bytes(9, 1) })}`.replace(/COPY/g, 'datacopy'), funs: f(1000), deploy: 'mstore(0, f(2)) log0(0, 32)', runData: { d: bytes(9, 1) }, kids: [{ name: 'Kid', run: `mstore(0, f(1)) log0(0, 32) ${reader({ d: bytes(11, 2) })}`, deploy: 'sstore(0, f(3))', funs: f(5), runData: { d: bytes(11, 2) } }] }]);
  return r;
}
const INPUTS = [{ args: new Uint8Array(0), calldata: new Uint8Array(0) }, { args: bytes(1, 5), calldata: bytes(3, 2) }, { args: bytes(32, 5), calldata: bytes(32, 2) }, { args: bytes(33, 8), calldata: bytes(36, 7) }, { args: bytes(200, 8), calldata: bytes(131, 7) }];
// ---- own code and constructor arguments -----------------------------------------------------------------------------------------
function ownTrees() {
  const r = [], OFF = [0, 1, 4, 32, 332, 333, 334, 365, 400, 600], L = [0, 1, 32, 33, 333, 334, 700];
  for (const c of COPY) r.push([`own code by ${c}`, { name: 'T', deploy: `log2(0, 0, codesize(), datasize("T")) ` + OFF.flatMap(o => L.map(l => `mstore(128, not(0)) ${c}(131, ${o}, ${l}) log0(128, ${l + 10})`)).join(' ') + ' ' + L.map(l => `${c}(200, datasize("T"), ${l}) log0(190, ${l + 20}) ${c}(200, sub(codesize(), min(${l}, codesize())), ${l}) log0(190, ${l + 20})`).join(' '), funs: 'function min(a, b) -> r { r := a if lt(b, a) { r := b } }', run: `log2(0, 0, codesize(), datasize("T_deployed")) ` + OFF.flatMap(o => L.map(l => `mstore(128, not(0)) ${c}(131, ${o}, ${l}) log0(128, ${l + 10})`)).join(' ') }]);
  return r;
}
module.exports = { text, explore, dataTrees, kidTrees, ownTrees, INPUTS };
