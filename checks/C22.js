'use strict';
// C22: the ABI encoder script. Every signature of the bounds with every combination of boundary values goes through the
// script's own main(); the reference is an independent statement of the ABI encoding (head and tail) and of the values a
// type holds. Some of the explored calls run again as real processes.
const cp = require('child_process'), path = require('path'), readline = require('readline');
const keccak = require('../lib/keccak');
const { H } = require('../lib/u256');
const { product } = require('../lib/clayer');
const ROOT = path.resolve(__dirname, '..'), SCRIPT = (process.env.REPO || '/repo') + '/examples/scripts/abi_encode.py', PY = '/opt/vp/venv/bin/python3';

// ---- the reference ----------------------------------------------------------------------------------------------------
const word = v => (v & ((1n << 256n) - 1n)).toString(16).padStart(64, '0');
// the value a text denotes for a type, or null when the type cannot hold it, or undefined when the text form is not settled
function value(t, s) {
  let m;
  if (t.endsWith('[]')) {
    if (s.trim() === '') return [];
    const l = s.split(',').map(x => value(t.slice(0, -2), x.trim()));
    return l.includes(null) ? null : l.includes(undefined) ? undefined : l;
  }
  if ((m = /^(u?)int(\d+)$/.exec(t))) {
    if (!/^[+-]?\d+$/.test(s)) return /^\s*[+-]?[\d_]+\s*$|^\s*[+-]?0[xob][\da-f_]+\s*$/i.test(s) ? undefined : null;
    const v = BigInt(s.replace('+', '')), n = +m[2];
    return m[1] ? (v >= 0n && v < 1n << BigInt(n) ? v : null) : v >= -(1n << BigInt(n - 1)) && v < 1n << BigInt(n - 1) ? v : null;
  }
  if (t === 'address') return /^0x[0-9a-f]{40}$/.test(s) ? BigInt(s) : /^(0x)?[0-9a-f]{40}$/i.test(s) ? undefined : null;
  if (t === 'bool') return s === 'true' || s === 'false' ? BigInt(s === 'true') : /^(true|false|0|1)$/i.test(s.trim()) ? undefined : null;
  if (t === 'string') return Buffer.from(s);
  if ((m = /^bytes(\d*)$/.exec(t))) { // no text form is promised: the hex digits, or a refusal
    if (!/^0x([0-9a-f]{2})*$/.test(s)) return /^(0x)?([0-9a-fA-F]{2})*$/.test(s) ? undefined : null;
    const b = Buffer.from(s.slice(2), 'hex');
    return m[1] && b.length > +m[1] ? null : b;
  }
  return null;
}
// values the script may refuse but must not encode in any other way
const mayRefuse = (t, s) => /^bytes/.test(t) || value(t, s) === undefined || t.endsWith('[]') && t.slice(0, -2).endsWith('[]');
const dynamic = t => t === 'string' || t === 'bytes' || t.endsWith('[]');
const blob = b => word(BigInt(b.length)) + Buffer.concat([b, Buffer.alloc((32 - b.length % 32) % 32)]).toString('hex');
function enc(t, v) {
  if (t.endsWith('[]')) return word(BigInt(v.length)) + tuple(v.map(() => t.slice(0, -2)), v);
  if (t === 'string' || t === 'bytes') return blob(v);
  if (/^bytes/.test(t)) return v.toString('hex').padEnd(64, '0');
  return word(v);
}
function tuple(ts, vs) {
  let head = '', tail = '';
  ts.forEach((t, i) => {
    if (dynamic(t)) { head += word(BigInt(ts.length * 32 + tail.length / 2)); tail += enc(t, vs[i]); } else head += enc(t, vs[i]);
  });
  return head + tail;
}
const sel = sig => H(keccak(Buffer.from(sig))).slice(0, 8);
// the set of right answers: calldata text, or refusal
function expected(name, ts, args) {
  if (args.length !== ts.length) return { refuse: true };
  const vs = ts.map((t, i) => value(t, args[i]));
  if (vs.includes(null)) return { refuse: true };
  if (vs.includes(undefined)) return { refuse: true, any: true }; // unsettled text: checked only for a well formed answer
  return { data: '0x' + sel(`${name}(${ts})`) + tuple(ts, vs), refuse: ts.some((t, i) => mayRefuse(t, args[i])) };
}
// Known findings (known_findings.txt): what the script does at them is predicted exactly, and only that outcome is reported as
// the finding. Returns [what, predicted data or null for a refusal], or null where the script is expected to be right.
function finding(name, ts, args) {
  if (args.length !== ts.length) return null;
  const what = new Set();
  const old = (t, s) => {
    if (/^u?int\d+\[\]/.test(t)) { what.add('integer array'); return null; }
    if (t.endsWith('[]')) { if (s.trim() === '') what.add('empty array'); const l = s.split(',').map(x => old(t.slice(0, -2), x.trim())); return l.includes(null) ? null : l.includes(undefined) ? undefined : l; }
    if (t === 'address' && /^0x0x/.test(s)) { what.add('address with two prefixes'); return value(t, s.slice(2)); }
    if (t === 'bool' && !/^(true|false)$/i.test(s)) { what.add('bool text'); return 0n; }
    return value(t, s);
  };
  const vs = ts.map((t, i) => old(t, args[i]));
  if (!what.size || vs.includes(undefined) && !vs.includes(null)) return null;
  return [[...what].sort().join(' and '), vs.includes(null) ? null : '0x' + sel(`${name}(${ts})`) + tuple(ts, vs)];
}
// ---- the script ---------------------------------------------------------------------------------------------------------
let w = null;
function script() {
  if (w) return w;
  const p = cp.spawn(PY, [path.join(ROOT, 'tools/py/abiw.py'), SCRIPT], { stdio: ['pipe', 'pipe', 'inherit'] }), q = [];
  readline.createInterface({ input: p.stdout }).on('line', l => q.shift()(JSON.parse(l)));
  p.on('exit', c => { for (const f of q) f([-1, '', 'the worker died']); w = null; });
  w = { run: argv => new Promise((f, no) => { const t = setTimeout(() => { p.kill('SIGKILL'); no(Object.assign(new Error('the script has not ended after 120 s on ' + JSON.stringify(argv).slice(0, 500)), { noEnd: true })); }, 120e3); q.push(x => { clearTimeout(t); f(x); }); p.stdin.write(JSON.stringify(argv) + '\n'); }), stop: () => p.kill() };
  return w;
}
function judge(rep, job, key, argv, e, [code, out, err]) {
  rep.state(); rep.step(); rep.trace();
  const as = e.finding && (code !== 0 ? e.finding[1] === null && !/0x[0-9a-f]{8}/.test(out) : out === e.finding[1] + '\n') ? `(${e.finding[0]}) ` : '';
  const fail = m => rep.viol(as + key, m, { ...job, only: key });
  if (code !== 0) {
    if (/0x[0-9a-f]{8}/.test(out)) return fail(`exits ${code} but prints ${out.slice(0, 80)}`);
    if (!e.refuse) return fail(`exits ${code} (${err.trim().split('\n').pop()}), expected ${e.data.slice(0, 80)}…`);
    return rep.cls('refused');
  }
  if (e.any) { if (!/^0x([0-9a-f]{8})([0-9a-f]{64})*\n$/.test(out)) return fail(`prints ${out.slice(0, 80)}`); return rep.cls('unsettled text'); }
  if (!e.data) return fail(`exits 0 and prints ${JSON.stringify(out.slice(0, 200))}, expected a refusal`);
  if (out !== e.data + '\n') return fail(`prints ${JSON.stringify(out.slice(0, 1200))}, expected ${e.data}`);
  rep.cls('encoded');
}
// ---- the space ------------------------------------------------------------------------------------------------------------
const ints = Array.from({ length: 32 }, (_, i) => (i + 1) * 8);
const A1 = '0x1122334455667788990011223344556677889900', A2 = '0xffffffffffffffffffffffffffffffffffffffff', A0 = '0x0000000000000000000000000000000000000000', A3 = '0x00000000000000000000000000000000000000ff';
function values(t) {
  let m;
  if (t.endsWith('[]')) {
    const e = values(t.slice(0, -2)).filter(v => !v.includes(',')), ok = e.filter(v => { const x = value(t.slice(0, -2), v); return x !== null && x !== undefined; }), bad = e.filter(v => value(t.slice(0, -2), v) === null);
    return ['', ...ok, ...ok.map(v => v + ',' + ok[0]), ...ok.map(v => `${ok[1] || ok[0]}, ${v},${ok[ok.length - 1]}`), Array(33).fill(ok[0]).join(','), ...bad.map(b => `${ok[0]},${b}`), ...bad.map(b => `${b},${ok[0]}`), `${ok[0]},`].filter(v => v !== ok[0] + ',' || !t.startsWith('string'));
  }
  if ((m = /^(u?)int(\d+)$/.exec(t))) {
    const n = BigInt(m[2]), hi = m[1] ? (1n << n) - 1n : (1n << n - 1n) - 1n, lo = m[1] ? 0n : -(1n << n - 1n);
    return [...new Set([0n, 1n, 9n, 10n, 100n, hi, hi - 1n, hi + 1n, lo, lo - 1n, lo + 1n, -1n, -2n, hi >> 1n, (hi >> 1n) + 1n, 1n << 256n, -(1n << 255n), -(1n << 256n), 1n << 255n, hi + (1n << 256n)].map(String)), '', 'x', '1.5', '1e3', '0x10', '1 2', '--1', 'true', '00', '007', '+1', A1, '1_0', ' 1 '];
  }
  if (t === 'address') return [A1, A2, A0, A3, '0x' + 'a'.repeat(40), '', '0x', '0x1', A1.slice(0, -1), A1 + '0', A1 + '00', A1.replace('1', 'g'), '0x' + '0'.repeat(24) + A1.slice(2), '1', 'true', '-1', 'zz', A1.slice(2), A1.toUpperCase(), '0xAbCdEfAbCdEfAbCdEfAbCdEfAbCdEfAbCdEfAbCd', ' ' + A1, '0x0x' + A1.slice(2)];
  if (t === 'bool') return ['true', 'false', 'True', 'FALSE', '1', '0', 'yes', 'no', '', 'tru', 'truee', 'null', '2', '-1', 'x', 't', ' true '];
  if (t === 'string') return ['', 'a', 'abc', 'x'.repeat(31), 'x'.repeat(32), 'x'.repeat(33), 'y'.repeat(64), 'z'.repeat(65), 'é', '日本語テキスト文字列', 'a b', '0x12', '123', 'true', '"q"', "it's", 'tab\tnl\n', '\\n', '\u{1F600}', ' lead', 'trail ', 'a,b'];
  if ((m = /^bytes(\d*)$/.exec(t))) return ['0x', '0x00', '0xff', '0x1234', '0x' + '11'.repeat(31), '0x' + '22'.repeat(32), '0x' + '33'.repeat(33), '0x1', '0xgg', 'ab', '', 'xyz', ...(m[1] ? ['0x' + 'cd'.repeat(+m[1]), '0x' + 'cd'.repeat(+m[1] + 1)] : [])];
  return ['1', '', '0x', 'x', A1];
}
const ELEM = ['address', 'bool', 'string', ...ints.map(n => 'uint' + n), ...ints.map(n => 'int' + n)];
const BYTES = ['bytes', ...ints.map(n => 'bytes' + n / 8)];
const CORE = ['uint8', 'uint256', 'int8', 'int256', 'address', 'bool', 'string', 'uint256[]', 'address[]', 'bool[]', 'int16[]', 'string[]', 'uint8[]'];
const pick = (t, n) => { // a few values that hold and one that does not
  const v = values(t), ok = v.filter(x => { const y = value(t, x); return y !== null && y !== undefined; }), bad = v.filter(x => value(t, x) === null);
  const at = i => ok[Math.min(ok.length - 1, Math.floor(i))];
  return [...new Set([at(0), at(ok.length / 2), at(ok.length - 1), at(ok.length / 4), at(ok.length * 3 / 4)])].slice(0, n).concat(n > 1 ? bad.slice(0, 1) : []);
};
function* space(kind, tier) {
  const T = tier === 'thorough';
  if (kind === 'one') for (const t of [...ELEM, ...BYTES, ...ELEM.map(t => t + '[]'), ...BYTES.slice(0, 3).map(t => t + '[]')]) for (const v of values(t)) yield ['f', [t], [v]];
  if (kind === 'names') for (const n of ['f', 'transfer', 'balanceOf', '_x', '$', 'a1', 'A', 'x'.repeat(200), 'swapExactTokensForTokens', 'owner', 'f_g$h', 'setUp']) for (const ts of [[], ['uint256'], ['address', 'uint256'], ['bool', 'string']]) yield [n, ts, ts.map(t => values(t)[1])];
  if (kind === 'two') for (const a of CORE) for (const b of CORE) for (const [x, y] of product(T ? pick(a, 5) : pick(a, 3), T ? pick(b, 5) : pick(b, 3))) yield ['pair', [a, b], [x, y]];
  if (kind === 'three') for (const ts of product(CORE, CORE, CORE)) for (const vs of T ? product(...ts.map(t => pick(t, 3))) : product(...ts.map(t => pick(t, 1)))) yield ['g', ts, vs];
  if (kind === 'four' && T) for (const ts of product(...Array(4).fill(['uint8', 'int256', 'string', 'uint256[]', 'bool']))) for (const vs of product(...ts.map(t => pick(t, 1)))) yield ['h', ts, vs];
  if (kind === 'count') for (let n = 0; n <= 5; n++) for (let k = 0; k <= 6; k++) for (const t of ['uint256', 'address', 'string', 'bool[]']) yield ['c', Array(n).fill(t), Array(k).fill(values(t)[1])];
  if (kind === 'many') for (const n of [6, 7, 8, 16, 31, 32, 33]) for (const ts of [CORE, CORE.slice().reverse()]) { const l = Array.from({ length: n }, (_, i) => ts[i % ts.length]); yield ['m', l, l.map(t => pick(t, 1)[0])]; }
  if (kind === 'lengths') for (let n = 0; n <= (T ? 300 : 130); n++) { yield ['s', ['string'], ['k'.repeat(n)]]; yield ['s', ['uint8', 'string', 'bool'], ['7', 'é'.repeat(n), 'true']]; yield ['a', ['uint256[]'], [Array.from({ length: n }, (_, i) => i * 3).join(',')]]; yield ['a', ['string[]', 'uint8'], [Array.from({ length: n }, (_, i) => 'q'.repeat(i % 70)).join(',') || 'q', '1']]; }
}
// signatures that are none
const BADSIG = ['', 'f', 'f(', 'f)', ')', 'f(uint256', 'f(uint256x', 'transfer(address,uint256x', 'f(uint256)x', 'f(uint256))', 'f((uint256)', 'f(uint256,)', 'f(,uint256)', 'f(foo)', 'f(uint7)', 'f(uint264)', 'f(uint0)', 'f(int)x', 'f(bytes33)', 'f(bytes0)', 'f[uint256]', 'f uint256', 'f(Uint256)', 'f(uint256[)', 'f(uint256])', 'f(uint256[-1])', 'f(address payable)', 'f(uint 256)', 'f(uint256;uint256)', 'f(mapping)', 'f(0)', 'f(uint256[]x)'];
const KINDS = { one: 8, names: 1, two: 4, three: 8, four: 8, count: 1, many: 1, lengths: 2, signatures: 1, process: 4 };
module.exports = {
  technique: 'exhaustive enumeration of signatures and boundary values through the script itself, compared with an independent statement of the ABI encoding',
  needs: [],
  bounds: t => `${ELEM.length} elementary types and their arrays and ${BYTES.length} byte types x all boundary and wrong values; ${CORE.length} types in pairs and triples${t === 'thorough' ? ' and fours' : ''}; argument counts 0-6 x parameter counts 0-5; lengths 0-${t === 'thorough' ? 300 : 130}; ${BADSIG.length} malformed signatures`,
  assumptions: ['byte types have no promised text form: a refusal is right', 'integers in other bases, with blanks or underscores, and addresses with other letter cases or no prefix may be refused or accepted'],
  conformance: 'every state is a run of the script\'s main(); a part is repeated as real processes',
  jobs: tier => Object.entries(KINDS).flatMap(([kind, of]) => Array.from({ length: of }, (_, at) => ({ kind, at, of, tier }))),
  async exec(job, rep) {
    const show = argv => argv.map(a => a.length > 70 ? a.slice(0, 60) + `…(${a.length})` : a).join(' ¦ ');
    const dash = (argv, e, form) => form === '--' ? e : { ...e, refuse: e.refuse || argv.slice(1).some(a => /^-/.test(a) && !/^-\d+$|^-\d*\.\d+$/.test(a)) };
    if (job.kind === 'signatures') {
      for (const s of BADSIG) for (const args of [[], ['1'], ['1', '2'], [A1, '1']]) {
        const key = show(['signature ' + s, ...args]);
        if (job.only && job.only !== key) continue;
        judge(rep, job, key, [s, ...args], { refuse: true }, await script().run([s, ...args]));
      }
      return;
    }
    if (job.kind === 'process') { // the same through the interpreter's own start
      let i = 0;
      for (const k of ['one', 'two', 'count', 'names']) for (const [n, ts, vs] of space(k, 'quick')) {
        if (i++ % 60 !== job.at * 15) continue;
        const key = show(['process', `${n}(${ts})`, ...vs]);
        if (job.only && job.only !== key || vs.some(v => /\0/.test(v))) continue;
        const argv = [`${n}(${ts})`, ...vs], r = cp.spawnSync(PY, ['-B', SCRIPT, ...argv], { timeout: 90e3, killSignal: 'SIGKILL', encoding: 'utf8' });
        judge(rep, job, key, argv, { ...dash(argv, expected(n, ts, vs)), finding: finding(n, ts, vs) }, [r.status, r.stdout, r.stderr]);
      }
      return;
    }
    let i = 0, pend = [];
    for (const [n, ts, vs] of space(job.kind, job.tier)) {
      if (i++ % job.of !== job.at) continue;
      for (const form of vs.some(v => /^-/.test(v)) ? ['', '--'] : ['']) {
        const argv = [`${n}(${ts})`, ...(form ? ['--'] : []), ...vs], key = show(argv);
        if (job.only && job.only !== key) continue;
        if (i % 3000 === 1) rep.sample(key);
        const e = { ...expected(n, ts, vs), finding: finding(n, ts, vs) };
        // without -- an argument like "-1,-2" is an option to the command line parser, which may refuse it
        pend.push(script().run(argv).then(r => judge(rep, job, key, argv, dash(argv, e, form), r)));
      }
      if (pend.length >= 500) { await Promise.all(pend); pend = []; }
    }
    await Promise.all(pend);
  },
  done: () => w && w.stop(),
};
