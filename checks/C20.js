'use strict';
// C20: behaviour does not depend on the compile options.
const { explore, product, stop } = require('../lib/clayer');
const K = require('../lib/corpus');
const OS = ['O0', 'O1', 'O2', 'O3'];
const FLAGS = ['debug', 'minify', 'disopt', 'noinline', 'bytes32', 'le'];
function combos(oss, flags) { return oss.flatMap(o => product(...flags.map(f => ['', f])).map(fs => [o, ...fs].filter(Boolean).join(','))); }
const mix = i => (i ^ (i >> 3) ^ (i >> 6)) & 7; // every eighth of the corpus meets every pair of options
// recursion up to and over the end of the stack: running out of it may only end the transaction, never give another result
const DEPTHS = [1, 20, 40, 60, 80, 100, 130, 160, 200, 260, 330, 390].map(n => ({ words: [BigInt(n)], mayTrap: n >= 40 }));
const deep = () => memo.deep ||= [
  ['plain', 'r := add(n, d_plain(sub(n, 1)))', ''], ['words', 'let a := mul(n, n) let b := xor(n, 5) r := d_words(sub(n, 1)) mstore(300, addmod(a, b, 7)) r := add(add(r, addmod(a, b, 0xfeeddeadbeeffeeddeadbeeffeeddeadbeef)), mload(300))', ''],
  ['storage', 'sstore(n, mul(n, 7)) r := add(d_storage(sub(n, 1)), sload(n))', ''], ['hash', 'mstore(128, n) let h := keccak256(128, 32) r := xor(h, d_hash(sub(n, 1)))', ''],
  ['call data', 'let a := calldataload(n) r := add(xor(a, n), d_call_data(sub(n, 1)))', ''], ['division', 'let a := div(not(n), n) r := mulmod(a, d_division(sub(n, 1)), not(12)) r := add(r, sdiv(sub(0, a), 3))', ''],
].map(([k, b]) => ({ key: 'deep recursion with ' + k, code: `sstore(0x1234567890abcdef1234567890abcdef, 0x99) let r := d_${k.replace(' ', '_')}(calldataload(32)) mstore(128, 0xfeeddeadbeeffeeddeadbeeffeeddeadbeef) mstore(160, r) log1(128, 64, sload(0x1234567890abcdef1234567890abcdef)) return(128, 64)`, funs: [`function d_${k.replace(' ', '_')}(n) -> r { if n { ${b} } }`], inputs: DEPTHS }));
const memo = {};
const full = () => memo.full ||= [...K.programs(), ...K.operators(), ...K.language()];
const proto = () => memo.proto ||= [...K.programs(), ...K.operators(), ...K.language().filter(s => !/fun_transfer/.test(s.code) && !/\(0, (64|96|128|160|320)\)|log0\(0, 64\)|mload\(and|mload\(0x/.test(s.code))];
module.exports = {
  technique: 'exhaustive product of the compile options over a corpus of programs that use every builtin and statement; every compiled variant run in lockstep with a reference interpreter of the Yul specification',
  needs: ['std', 'drv'],
  bounds: t => `${combos(OS, FLAGS).length} combinations of O0 to O3, debug, minify, disable-all-optimizers, no-inline, byte-array returns and little-endian storage over ${full().length} programs${t === 'thorough' ? '' : ' (the default, O0 and allopt,le over all, each other combination over an eighth of the programs, every program under 48 combinations)'}; the same with all optimizers enabled over ${proto().length} programs that use memory as Solidity does; 6 recursive functions over 12 depths to 390 under every combination`,
  assumptions: ['the reference interpreter (lib/yulref.js) states the Yul semantics', 'with all optimizers enabled memory word 64 is only accessed as the free memory pointer and address words are clean, as that option documents for Solidity contracts'],
  conformance: 'every variant is run on the wasm that the real frontend, code generator, runtime library and LLVM emit',
  jobs(tier) {
    const T = tier === 'thorough', r = [];
    combos(OS, FLAGS).forEach((opts, i) => r.push({ opts, corpus: 'full', part: T ? 1 : 8, at: mix(i) }));
    combos(T ? OS : ['O0', 'O2'], FLAGS).forEach((o, i) => r.push({ opts: 'allopt,' + o, corpus: 'proto', part: T ? 1 : 8, at: mix(i) }));
    if (!T) for (const opts of ['', 'O0', 'allopt,le']) for (const at of [0, 1, 2, 3]) r.push({ opts, corpus: opts.startsWith('allopt') ? 'proto' : 'full', part: 4, at });
    return r;
  },
  async exec(job, rep) {
    const c = (job.corpus === 'full' ? full() : proto()).filter((_, i) => job.part === 1 || i % job.part === job.at % job.part);
    await explore([...c, ...deep()], job.opts, () => [{ words: [] }], rep, job);
  },
  done: () => stop(),
};
