module.exports = require('../lib/fe')('C02', {
  technique: 'exhaustive enumeration of strings over the lexically relevant alphabet, lockstep with a reference scanner automaton',
  bounds: t => `all strings over 8 symbol classes up to length ${t === 'thorough' ? 10 : 7}, and all products of lexical fragments`,
});
