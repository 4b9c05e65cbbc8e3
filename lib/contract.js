'use strict';
// Many small Yul snippets compiled into one contract, each reached by its number in the first call data word, and
// run on many worlds against the reference interpreter.
const { Compiler } = require('./drv');
const { World, runWasm } = require('./host');
const { parse, Ref } = require('./yulref');
const { toBE } = require('./u256');
const watch = require('./watch');

let pool = null;
const compiler = () => (pool ||= new Compiler(1));
const stop = () => { if (pool) { pool.stop(); pool = null; } };
// snippet: { key, code: statements that end the transaction or fall through, funs: function definitions (text) }
// by: the expression that tells which snippet to run; with chainid() the whole call data is free
// place: where a snippet stands: 'top' in the object's code, 'deploy' in the code of a constructor, otherwise in a function whose name starts with it (the
// code generator treats some functions by their names)
const PLACES = ['top', 'deploy', 'abi_decode_address', 'abi_decode_t_addresst_uint256', 'fun_transfer', 'fun__transfer', 'abi_encode_tuple_t_uint256', 'abi_decode_tuple_t_uint256', 'checked_add_t_uint256', 'checked_sub_t_uint256', 'checked_mul_t_uint256', 'checked_div_t_uint256', 'cleanup_t_address', 'validator_revert_t_address', 'read_from_storage', 'update_storage_value', 'mapping_index_access', 'shift_right', 'panic_error_0x11', 'allocate_memory', 'external_fun_transfer', 'constructor'];
function source(sn, name = 'T', by = 'calldataload(0)', place = 't') {
  const fns = [], cases = [];
  sn.forEach((s, i) => { if (place === 'top' || place === 'deploy') { cases.push(`case ${i} { ${s.code} }`); return; } cases.push(`case ${i} { ${place}_${i}() }`); fns.push(`function ${place}_${i}() { ${s.code} }`); });
  const shared = new Set(); for (const s of sn) for (const f of s.funs || []) shared.add(f);
  if (place === 'deploy') return `object "${name}" { code {\nswitch ${by}\n${cases.join('\n')}\ndefault { invalid() }\n${[...shared].join('\n')}\n} object "${name}_deployed" { code { sstore(1, 1) } } }`;
  return `object "${name}" { code { } object "${name}_deployed" { code {\nswitch ${by}\n${cases.join('\n')}\ndefault { invalid() }\n${[...shared].join('\n')}\n${fns.join('\n')}\n} } }`;
}
// -> [{ok: Module, index} | {err, msg}] per snippet; a batch that does not compile is split until the culprit is alone
async function compileAll(sn, opts, by, place) {
  const r = await compiler().compile(source(sn, 'T', by, place), opts);
  if (r.ok) { let m; try { m = new WebAssembly.Module(r.ok); } catch (e) { m = null; if (sn.length === 1) return [{ err: 'wasm', msg: String(e.message) }]; } if (m) return sn.map((s, i) => ({ ok: m, index: i, deploy: place === 'deploy', size: r.ok.length })); }
  if (sn.length === 1) return [{ err: r.err, msg: r.msg }];
  const h = sn.length >> 1;
  return [...await compileAll(sn.slice(0, h), opts, by, place), ...await compileAll(sn.slice(h), opts, by, place)];
}
const norm = r => (r.kind === 'fallthrough' ? { kind: 'return', data: '' } : r);
const show = (r, w) => `${r.kind} ${r.data}${w.trace.length ? ' {' + w.trace.join(' | ') + '}' : ''}`;
const calldata = (i, words) => { const b = new Uint8Array(32 * (1 + words.length)); b.set(toBE(BigInt(i))); words.forEach((x, k) => b.set(toBE(x), 32 * (k + 1))); return b; };
// Compare one snippet on one input. words null: mk() gives the call data and the number is the chain id. mk() -> world options without calldata; words: call data words after the first
function runBoth(c, s, words, mk, opt = {}) {
  const at = words ? { calldata: calldata(c.index, words) } : { chainid: BigInt(c.index) };
  const w1 = new World({ ...(mk ? mk() : {}), ...at });
  const w2 = new World({ ...(mk ? mk() : {}), ...at });
  watch.label(s.key);
  const got = norm(runWasm(c.ok, c.deploy ? 'deploy' : 'call', w1));
  s.ast ||= parse([...(s.funs || []), s.code].join('\n'));
  const ref = new Ref(w2, c.deploy ? { ...opt, deploying: true } : opt), want = ref.run(s.ast);
  const a = show(got, w1), b = show(want, w2);
  // an abnormal end undoes everything, however it shows
  if (want.kind === 'trap' && got.kind === 'trap') return null;
  return a === b ? null : { want: b, got: a + (got.why ? ' (' + got.why + ')' : '') };
}
module.exports = { PLACES, compileAll, runBoth, calldata, stop, source, compiler, norm, show };
