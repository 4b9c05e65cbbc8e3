module.exports = require('../lib/fe')('C01', {
  technique: 'exhaustive enumeration of token-bounded Yul objects, lockstep parse against a reference grammar model',
  bounds: t => (t === 'thorough' ? 'all ASTs one statement level deeper, all one-token edits of a larger corpus' : 'all ASTs up to the quick size, all spacings, all one-token insertions, deletions and replacements of the corpus'),
});
