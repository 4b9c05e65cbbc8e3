'use strict';
// C11 at the runtime library: external calls of every kind, with every relation between output length and return
// data length, followed by reads of the return data and of memory.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
const X = (k, o) => ['xcall', k, o.gas || '5000', o.to || 'ext', o.value || '0', o.i ?? 0, o.in ?? 36, o.o ?? 64, o.on ?? 32, o.st || 0, o.rd ?? 32];
const K = ['call', 'delegatecall', 'staticcall'];
const MAXW = String((1n << 256n) - 1n);
const ops = [X('call', {}), X('call', { value: '0x123456789abcdef00fedcba9876543210', gas: '0xffffffffffffffff' }), X('call', { o: 0, on: 40, rd: 10, value: MAXW }), X('staticcall', { i: 3, in: 65, o: 20, on: 20, rd: 33 }), X('delegatecall', { o: 33, on: 64, rd: 0 }),
  X('call', { on: 0, rd: 70 }), X('staticcall', { in: 0, on: 1, rd: 1, to: 'zero' }), X('delegatecall', { i: 64, in: 32, o: 64, on: 32, rd: 31 }), X('call', { st: 1, on: 0, rd: 36 }), X('staticcall', { st: 1, on: 32, rd: 64 }), X('call', { to: 'pre1', on: 32, rd: 32 }), X('call', { to: 'pre10', st: 1, on: 32, rd: 0 }), X('staticcall', { to: 'eleven', on: 5, rd: 6 }), X('call', { i: 16380, in: 40, o: 65530, on: 40, rd: 50 }),
  ['rds'], ['rdc', 0, 0, 0], ['rdc', 5, 3, 1], ['rdc', 65535, 0, 2], ['ms', 0], ['ms', 50], ['ml', 64], ['cd', 60, 0, 50], ['ret', 0, 110]];
const lens = t => (t === 'thorough' ? [...Array(71).keys(), 95, 96, 97, 1023, 1024, 1025, 2000] : [0, 1, 2, 19, 31, 32, 33, 40, 63, 64, 65, 96, 1024, 1025]);
module.exports = require('../lib/effects').join('C11', {
  technique: 'exhaustive enumeration of call shapes and of call / return-data / memory sequences on the real runtime library, lockstep with the EVM call semantics and the host call log',
  needs: ['std'],
  bounds: t => `every kind x status 0 and 1 x every pair of output length and return data length from ${t === 'thorough' ? '0..70 and around 96, 1024 and 2000' : '14 lengths'}, 5 input ranges, 7 callee addresses, 9 gas and 6 value words; all sequences of up to 3 over ${ops.length} calls, return-data reads and memory operations; library variants`,
  assumptions: ['a failing call with less return data than its output area may revert (by design); host status 2 (call could not be made) is not specified', 'returndatacopy past the end of the return data is not specified'],
  jobs: t => KINDS.flatMap(kind => K.map(k => ({ kind, k, tier: t }))).concat(H.jobs([
    { name: 'calls', ops, depth: t === 'thorough' ? 3 : 2, kinds: KINDS }, { name: 'calls', ops, depth: 3, kinds: ['release-small', 'debug-large'] },
    ...(t === 'thorough' ? [{ name: 'calls4', ops, depth: 4, kinds: ['release-large'] }] : [])], KINDS)),
  exec(job, rep) {
    if (!job.k) return H.exec(job, rep);
    const base = { name: 'calls', ops: [], prefix: [], depth: 2, cd: 'small', kind: job.kind };
    const one = (...h) => H.exec({ ...base, only: h }, rep);
    for (const on of lens(job.tier)) for (const rd of lens(job.tier)) for (const st of [0, 1]) one(['ms', 32], X(job.k, { o: 40, on, rd, st }), ['rdc', 200, 0, 0]);
    for (const to of ['ext', 'pre1', 'pre10', 'eleven', 'high1', 'zero', 'ff']) for (const st of [0, 1]) for (const rd of [0, 31, 32, 64]) one(X(job.k, { to, st, rd }), ['rds']);
    for (const gas of ['0', '1', '0x7fffffff', '0x80000000', '0xffffffff', '0x100000000', '0x7fffffffffffffff', '0x8000000000000000', '0xffffffffffffffff']) one(X(job.k, { gas }));
    if (job.k === 'call') for (const value of ['0', '1', '0xffffffffffffffff', '0x10000000000000000', '0x' + '80'.padEnd(64, '0'), MAXW]) one(X('call', { value }));
    for (const [i, n] of [[0, 0], [0, 1], [31, 33], [100, 4], [16370, 30], [65530, 10]]) for (const [o, on] of [[0, 32], [i, n], [i + 1, 32], [131060, 40]]) one(['ms', 0], ['ms', 100], ['ms', 16365], X(job.k, { i, in: n, o, on, rd: 50 }), ['rdc', 3, 0, 0]);
  },
});
