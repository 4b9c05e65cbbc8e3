'use strict';
// C15: word slots handed out by the runtime library, interleaved with every kind of memory growth.
const { KINDS } = require('../lib/std');
const H = require('../lib/hist');
// bulk allocations that end one before, at and one behind the first static pool and the later page-sized pools
const ops = [['slots', 1], ['slots', 2], ['slots', 3, 'memory_alloca_u256'], ['slots', 299], ['slots', 300], ['slots', 2046], ['slots', 2047], ['slots', 2048],
  ['ms', 0], ['ms', 16352], ['ms', 16380], ['ms', 65504], ['ms', 65520], ['ms', 131050], ['ms', 280000], ['ml', 16384], ['ml', 70000], ['ms8', 65536, 3],
  ['mc', 16380, 100, 30], ['mc', 131060, 0, 100], ['cd', 65530, 0, 70], ['rd', 16370, 0, 40], ['cc', 131070, 0, 60], ['kk', 60000, 10000], ['call', 'call', 0, 10, 70000, 20, 30], ['ret', 0, 131073]];
const deep = [['slots', 1], ['slots', 301], ['slots', 2047], ['ms', 0], ['ms', 16380], ['ms', 65520], ['ms', 140000], ['mc', 70000, 0, 40]];
module.exports = {
  technique: 'exhaustive exploration of slot-allocation and memory-growth sequences on the real runtime library, with slot disjointness and content checked after every step',
  needs: ['std'],
  bounds: t => `all sequences of up to 3 operations over ${ops.length} allocation (1 to 2048 slots at a time) and growth operations, of up to ${t === 'thorough' ? 6 : 4} over ${deep.length} of them; four library variants`,
  assumptions: ['offsets below 2^31'],
  jobs: t => H.jobs([
    { name: 'slots', ops, depth: t === 'thorough' ? 3 : 2, kinds: KINDS },
    { name: 'slots', ops: ops.filter((_, i) => i % 2 === 0 || i < 8), depth: 3, kinds: KINDS },
    { name: 'deep', ops: deep, depth: t === 'thorough' ? 5 : 4, kinds: t === 'thorough' ? KINDS : ['debug-small', 'release-large'] },
    ...(t === 'thorough' ? [{ name: 'deepest', ops: deep.filter((_, i) => i !== 3), depth: 6, kinds: ['release-small', 'debug-large'] }] : []),
    { name: 'page', ops: [['slots', 2047], ['slots', 2048], ['ms', 65520], ['ms', 300000]], depth: 5, kinds: KINDS },
  ], KINDS),
  exec: H.exec,
};
