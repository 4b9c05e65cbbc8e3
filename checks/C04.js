'use strict';
// C04: arithmetic builtins in compiled contracts, and the runtime primitives behind them.
const lib = require('./C06');
const G = ['exp', 'sext', 'add', 'conv'];
module.exports = require('../lib/opcheck').make(['add', 'sub', 'mul', 'div', 'sdiv', 'mod', 'smod', 'exp', 'addmod', 'mulmod', 'signextend'], {
  jobs: tier => lib.jobs(tier).filter(j => G.includes(j.g)).map(j => ({ ...j, lib: true })),
  exec: lib.exec,
});
