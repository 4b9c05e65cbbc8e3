'use strict';
// Compile Yul with the compiler of the tree and run it on the host.
const path = require('path'), fs = require('fs'), cp = require('child_process');
const { Compiler } = require('./lib/drv'), { World, runWasm } = require('./lib/host'), { toBE, fromBE } = require('./lib/u256');
const CLI = path.join(__dirname, '.build/target/debug/yul2wasm');
const c = fs.existsSync(path.join(__dirname, '.build/target/debug/ydrv')) ? new Compiler(1) : null;
const words = (...a) => { const b = new Uint8Array(32 * a.length); a.forEach((x, i) => b.set(toBE(BigInt.asUintN(256, x)), 32 * i)); return b; };
const contract = (code, inner = '') => `object "T" { code { } object "T_deployed" { code { ${code} } ${inner} } }`;
const compile = (src, opts = '') => c.compile(src, opts);
const mods = new Map();
// one transaction: {kind, data, words (of data), trace, world}
async function run(src, world = {}, opts = '', entry = 'call') {
  const k = opts + '|' + src;
  if (!mods.has(k)) { const r = await compile(src, opts); if (!r.ok) throw new Error('does not compile: ' + r.err + ' ' + r.msg); mods.set(k, new WebAssembly.Module(r.ok)); }
  const w = new World(world), r = runWasm(mods.get(k), entry, w), data = Buffer.from(r.data, 'hex');
  return { ...r, bytes: data, words: Array.from({ length: data.length >> 5 }, (_, i) => fromBE(data.subarray(32 * i, 32 * i + 32))), trace: w.trace, w };
}
const str = x => typeof x === 'bigint' ? '0x' + x.toString(16) : Array.isArray(x) ? '[' + x.map(str) + ']' : String(x);
function check(what, got, want) { if (str(got) !== str(want)) { console.log(`FAIL ${what}: got ${str(got)}, expected ${str(want)}`); process.exit(1); } console.log('ok ' + what); }
const main = f => f().then(() => process.exit(0), e => { console.log('FAIL', e.message); process.exit(1); });
// the command line tool in a scratch folder: args may use files written there
function cli(dir, args, env = {}) {
  return cp.spawnSync(CLI, args, { cwd: dir, encoding: 'utf8', env: { PATH: '/usr/local/bin:/usr/bin:/bin', CHAIN_IR_CLANG_RT_LIB_DIR: path.join(__dirname, '.build/rt'), RUST_BACKTRACE: '0', ...env } });
}
module.exports = { words, contract, compile, run, check, main, cli, toBE, fromBE, CLI };
