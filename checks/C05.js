'use strict';
// C05: comparison, bitwise and shift builtins in compiled contracts, and the runtime primitives behind them.
const lib = require('./C06');
const { explore } = require('../lib/clayer');
const { make, OPTIONS } = require('../lib/opcheck');
const { toBE } = require('../lib/u256');
const G = ['cmp', 'bit', 'un', 'shl', 'shr', 'ushl', 'ushr', 'conv'];
const rng = n => [...Array(n).keys()];
// Operators on the raw call data, as every dispatcher uses them: the whole call data is free.
function dispatch(T) {
  const lit = (n, i) => (i % 2 ? String(n) : '0x' + n.toString(16)), sn = [];
  const sinks = { mem: e => `mstore(0, ${e}) return(0, 32)`, var: e => `let s := ${e} mstore(0, s) return(0, 32)`, sw: e => `switch ${e} case 0xa9059cbb { log1(0, 0, 1) } case 0xa905 { log1(0, 0, 2) } case 0 { log1(0, 0, 3) } default { mstore(0, ${e}) log0(0, 32) }`, if: e => `if ${e} { log0(0, 0) }`, eq: e => `log3(0, 0, eq(0xa9059cbb, ${e}), lt(${e}, 0x80000000), slt(${e}, 0))`, isz: e => `mstore(0, iszero(${e})) return(0, 32)`, math: e => `log4(0, 0, add(${e}, ${e}), shl(224, ${e}), not(${e}), signextend(3, ${e}))`, key: e => `sstore(${e}, ${e})` };
  const ks = Object.keys(sinks);
  const add = (e, all) => ks.forEach((k, i) => { if (all || i < 2) sn.push({ key: `${e} to ${k}`, code: sinks[k](e) }); });
  const hot = [0, 1, 8, 31, 32, 63, 64, 96, 127, 128, 160, 192, 216, 223, 224, 225, 231, 232, 240, 248, 254, 255, 256, 257];
  for (const op of ['shr', 'sar', 'shl', 'byte', 'signextend']) for (const n of rng(260)) for (const [i, at] of ['calldataload(0)', 'calldataload(0x00)', 'calldataload(4)', 'calldataload(32)'].entries()) {
    if (i && !hot.includes(n)) continue;
    if (i || T || hot.includes(n)) { add(`${op}(${lit(n, i)}, ${at})`, hot.includes(n) && i < 2); if (i < 2) add(`${op}(${lit(n, i + 1)}, ${at})`, false); } else sn.push({ key: `${op}(${n}, ${at}) to mem`, code: sinks.mem(`${op}(${lit(n, n)}, ${at})`) });
  }
  for (const n of hot.filter(n => n < 256)) { const p = 1n << BigInt(n); for (const [i, at] of ['calldataload(0)', 'calldataload(4)'].entries()) for (const e of [`div(${at}, ${lit(p, i)})`, `sdiv(${at}, ${lit(p, i)})`, `mod(${at}, ${lit(p, i)})`, `mul(${at}, ${lit(p, i)})`, `and(${at}, ${lit(p - 1n, i)})`, `and(${lit(p - 1n, i + 1)}, ${at})`, `and(${at}, not(${lit(p - 1n, i)}))`, `and(shr(${n}, ${at}), 0xffffffff)`, `and(div(${at}, ${lit(p, i)}), 0xffffffff)`, `shr(${n}, shl(${n}, ${at}))`, `shl(${n}, shr(${n}, ${at}))`]) add(e, n % 32 === 0); }
  for (const e of ['lt(calldatasize(), 4)', 'iszero(lt(calldatasize(), 4))', 'gt(calldatasize(), 3)', 'slt(sub(calldatasize(), 4), 32)', 'slt(add(calldatasize(), not(3)), 32)', 'slt(add(calldatasize(), not(3)), 0)', 'sub(calldatasize(), 4)', 'add(calldatasize(), not(3))', 'sub(calldatasize(), 0)', 'eq(calldatasize(), 0)', 'sub(0, calldatasize())', 'not(calldatasize())', 'shr(224, calldatasize())', 'byte(31, calldatasize())', 'sar(1, sub(calldatasize(), 4))', 'shr(224, calldataload(calldatasize()))', 'shr(224, calldataload(sub(calldatasize(), 4)))', 'shr(calldatasize(), calldataload(0))', 'shr(224, mload(0))', 'shr(0xe0, prevrandao())', 'div(prevrandao(), 0x100000000000000000000000000000000000000000000000000000000)', 'shr(224, caller())', 'shr(224, calldataload(not(0)))', 'shr(224, calldataload(0x10000000000000000))', 'calldataload(0)']) add(e, true);
  return sn;
}
const bytes = s => { const b = new Uint8Array(s.length / 2); for (let i = 0; i < b.length; i++) b[i] = parseInt(s.substr(2 * i, 2), 16); return b; };
const FULL = ['a9059cbb' + '11'.repeat(32) + 'f2'.repeat(32), '7fffffff' + 'ff'.repeat(40), '80000000' + '00'.repeat(31) + '80' + '00'.repeat(32), '0000a905' + 'c3'.repeat(36), '00000000', 'ff'.repeat(64), '01020304' + [...Array(60).keys()].map(i => (i + 5).toString(16).padStart(2, '0')).join('')];
const DATA = [...FULL, '', 'a9', 'a9059c', 'a9059cbb', 'ff'.repeat(31), 'ff'.repeat(32), '80' + '00'.repeat(34)].map(s => ({ o: { calldata: bytes(s) } }));
module.exports = make(['lt', 'gt', 'slt', 'sgt', 'eq', 'iszero', 'and', 'or', 'xor', 'not', 'byte', 'shl', 'shr', 'sar'], {
  jobs: tier => [...['', ...OPTIONS.filter(o => tier === 'thorough' || ['allopt,le'].includes(o))].flatMap(opts => rng(4).map(at => ({ dispatch: true, opts, at, tier, lib: true }))), ...lib.jobs(tier).filter(j => G.includes(j.g)).map(j => ({ ...j, lib: true }))],
  exec: (job, rep) => (job.dispatch ? explore(dispatch(job.tier === 'thorough').filter((_, i) => i % 4 === job.at), job.opts, () => DATA, rep, job, { by: 'chainid()' }) : lib.exec(job, rep)),
});
