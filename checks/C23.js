'use strict';
// C23: the helper scripts. bin_to_hex runs on every file of the bounds; the shell helpers run in real shells on every
// combination of status, output, pattern and shell mode of the bounds, with stand-ins (scratch scripts) for the compiler
// and the chain client. Reference: what the statement says each must report.
const fs = require('fs'), cp = require('child_process'), path = require('path'), readline = require('readline');
const { product } = require('../lib/clayer');
const ROOT = path.resolve(__dirname, '..'), REPO = process.env.REPO || '/repo', PY = '/opt/vp/venv/bin/python3';
const HEXPY = REPO + '/examples/scripts/bin_to_hex.py', COMMON = REPO + '/examples/scripts/common.sh', BUILD = REPO + '/tools/build_utils.sh', FORGE = REPO + '/tools/forge_test_utils.sh';
let seq = 0;
function scratch() { const d = path.join(ROOT, '.build', 'c23', `${process.pid}-${seq++}`); fs.mkdirSync(d, { recursive: true }); return d; }
const rm = d => fs.rmSync(d, { recursive: true, force: true });

// ---- bin_to_hex ---------------------------------------------------------------------------------------------------------
let w = null;
function script() {
  if (w) return w;
  const p = cp.spawn(PY, [path.join(ROOT, 'tools/py/hexw.py'), HEXPY], { stdio: ['pipe', 'pipe', 'inherit'] }), q = [];
  readline.createInterface({ input: p.stdout }).on('line', l => q.shift()(JSON.parse(l)));
  p.on('exit', () => { for (const f of q) f([-1, 'the worker died']); w = null; });
  return w = { run: argv => new Promise((f, no) => { const t = setTimeout(() => { p.kill('SIGKILL'); no(Object.assign(new Error('the script has not ended after 120 s on ' + JSON.stringify(argv).slice(0, 500)), { noEnd: true })); }, 120e3); q.push(x => { clearTimeout(t); f(x); }); p.stdin.write(JSON.stringify(argv) + '\n'); }), stop: () => p.kill() };
}
function* contents(tier, kind) {
  if (kind === 'bytes') {
    yield ['empty', Buffer.alloc(0)];
    for (let a = 0; a < 256; a++) yield [`byte ${a}`, Buffer.from([a])];
    for (let a = 0; a < 256; a++) for (let b = 0; b < 256; b += tier === 'thorough' ? 1 : 3) yield [`bytes ${a} ${b}`, Buffer.from([a, b])];
    return;
  }
  for (let n = 0; n <= 300; n++) for (const [k, f] of [['zeros', () => 0], ['ones', () => 255], ['count', i => i & 255], ['text', i => 'line one\r\n\x1a\x00é'.charCodeAt(i % 12) & 255]]) yield [`${n} ${k}`, Buffer.from(Array.from({ length: n }, (_, i) => f(i)))];
  for (const b of [512, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20]) for (const d of [-1, 0, 1]) yield [`${b + d} mixed`, Buffer.from(Array.from({ length: b + d }, (_, i) => i * 131 + (i >> 8) & 255))];
}
async function hex(job, rep) {
  const dir = scratch(), fin = dir + '/in.bin', fout = dir + '/out.hex';
  let i = 0;
  try {
    for (const [n, b] of contents(job.tier, job.kind)) for (const old of [false, true]) {
      if (i++ % job.of !== job.at) continue;
      const key = `hex of ${n}${old ? ' over an old file' : ''}`;
      if (job.only && job.only !== key) continue;
      fs.writeFileSync(fin, b);
      if (old) fs.writeFileSync(fout, 'f'.repeat(4 * b.length + 10)); else fs.rmSync(fout, { force: true });
      const [code, out] = await script().run([fin, fout]);
      rep.state(); rep.step(); rep.trace();
      const fail = m => rep.viol(key, m, { ...job, only: key });
      if (code !== 0) { fail(`exits ${code}: ${out}`); continue; }
      const got = fs.existsSync(fout) ? fs.readFileSync(fout, 'latin1') : null;
      if (got === null) fail('writes no file');
      else if (got !== b.toString('hex')) fail(`writes ${got.length} characters ${got.slice(0, 60)}…, expected ${b.toString('hex').slice(0, 60)}…`);
      else if (!fs.readFileSync(fin).equals(b)) fail('changes its input');
      else rep.cls('written');
      if (i % 9973 === 1) rep.sample(key);
    }
  } finally { rm(dir); }
}
// paths and faults: real processes
function hexPaths(job, rep) {
  const data = Buffer.from([0, 1, 0xab, 0xff, 10]);
  const cases = [
    ['same file', ['a', 'a'], 1], ['same file by another path', ['a', './a'], 1], ['same file by a directory', ['a', 'd/../a'], 1], ['same file by a link', ['a', 'la'], 1], ['same file by a hard link', ['a', 'ha'], 1], ['input through a link', ['la', 'a'], 1], ['absolute and relative', ['ABS/a', 'a'], 1],
    ['plain', ['a', 'o'], 0], ['input link', ['la', 'o'], 0], ['output link', ['a', 'lo'], 0, 'o2'], ['into a directory', ['a', 'd/o'], 0], ['blank in the name', ['a b', 'o x'], 0], ['name like an option', ['./-x', 'o'], 0], ['missing input', ['nope', 'o'], 1], ['input is a directory', ['d', 'o'], 1], ['input below a file', ['a/x', 'o'], 1], ['output is a directory', ['a', 'd'], 1], ['output in a missing directory', ['a', 'no/o'], 1], ['empty input path', ['', 'o'], 1], ['empty output path', ['a', ''], 1], ['no output', ['a'], 1], ['nothing', [], 1], ['three', ['a', 'o', 'p'], 1], ['dangling input', ['dang', 'o'], 1], ['full device', ['a', '/dev/full'], 1],
  ];
  for (const [n, args, want, real] of cases) for (const old of [false, true]) {
    const key = `hex paths: ${n}${old ? ', old output' : ''}`;
    if (job.only && job.only !== key) continue;
    const d = scratch();
    try {
      for (const f of ['a', 'a b', '-x']) fs.writeFileSync(d + '/' + f, data);
      fs.mkdirSync(d + '/d'); fs.symlinkSync('a', d + '/la'); fs.linkSync(d + '/a', d + '/ha'); fs.symlinkSync('o2', d + '/lo'); fs.symlinkSync('gone', d + '/dang');
      if (old) fs.writeFileSync(d + '/o', 'zz'.repeat(40));
      const before = fs.existsSync(d + '/o') ? 'zz' : '';
      const r = cp.spawnSync(PY, ['-B', HEXPY, ...args.map(a => a.replace('ABS', d))], { timeout: 90e3, killSignal: 'SIGKILL', cwd: d, encoding: 'utf8' });
      rep.state(); rep.step(); rep.trace();
      // known findings, recognised by their exact outcome: the input replaced by its own hex, an error that is printed with status 0
      const one = /^(same file|input through|absolute and)/.test(n), as = r.status === 0 && one && fs.readFileSync(d + '/a').equals(Buffer.from(data.toString('hex'))) ? '(input replaced) ' : r.status === 0 && want && !one && /^(Error: |An unknown error occurred: ).*\n$/.test(r.stdout) ? '(exit 0) ' : '';
      const fail = m => rep.viol(as + key, m, { ...job, only: key });
      if (n === 'full device' && !fs.existsSync('/dev/full')) continue;
      if (!fs.readFileSync(d + '/a').equals(data)) fail('changes its input');
      else if (want && r.status === 0) fail(`exits 0 and prints ${r.stdout.trim()}`);
      else if (!want && r.status !== 0) fail(`exits ${r.status}: ${r.stdout.trim()} ${r.stderr.trim()}`);
      else if (!want && fs.readFileSync(path.join(d, real || args[1]), 'latin1') !== data.toString('hex')) fail(`writes ${fs.readFileSync(path.join(d, real || args[1]), 'latin1')}`);
      else if (want && /Successfully/.test(r.stdout)) fail(`prints ${r.stdout.trim()} and exits ${r.status}`);
      else rep.cls(want ? 'failure reported' : 'written');
    } finally { rm(d); }
  }
}
// ---- shells ---------------------------------------------------------------------------------------------------------------
const sq = s => `'${s.replace(/'/g, `'\\''`)}'`;
// run many pieces in subshells of one bash; each answers {code, out}
function shells(pieces, prelude = '', env = {}) {
  const SEP = '\x1e', src = `${prelude}\n` + pieces.map(p => `( ${p}\n) 2>&1 </dev/null; printf '${SEP}%s${SEP}' "$?"`).join('\n') + '\n';
  const r = cp.spawnSync('bash', ['--norc', '-s'], { timeout: 200e3, killSignal: 'SIGKILL', input: src, encoding: 'utf8', maxBuffer: 1 << 28, env: { PATH: '/usr/local/bin:/usr/bin:/bin', HOME: '/nonexistent', LC_ALL: 'C.UTF-8', ...env } });
  const f = r.stdout.split(SEP), out = [];
  for (let i = 0; i + 1 < f.length; i += 2) out.push({ out: f[i], code: +f[i + 1] });
  if (out.length !== pieces.length) throw new Error(`${out.length} of ${pieces.length} pieces answered: ${r.stderr.slice(0, 300)}`);
  return out;
}
const h32 = b => b.repeat(32), HX = h32('a1'), ADDR = '0'.repeat(24) + 'c0ffee'.padEnd(40, '5');
const LINES = { finish: 'evm finish with result hex: ' + HX, revert: 'evm revert with result hex: ' + ADDR, gas: 'gas used: 21000', empty: 'evm finish with result hex: ', blank: '', other: 'evm call with result hex: 77', dash: '-n', back: 'a\\tb\\n\\\\c', prefix: '[12:00] INFO evm finish with result hex: 00ff', word: 'not matched', star: '* ? [a-z] $HOME $(x) `y`', long: 'evm revert with result hex: ' + h32('7b').repeat(20) };
const isResult = l => /evm (finish|revert) with result hex:/.test(l);
function grepCases(tier) { // run_cmd_and_grep
  const PATS = ['evm finish with result hex:', HX, 'evm finish with result hex: ' + HX, 'evm revert', 'gas used', 'result hex: \ngas used', 'evm (finish|revert) with', '[0-9]+', '21000', 'nothing of this', 'hex: ' + ADDR, 'e.*d', 'zz|gas', 'matched', 'a1+\n', '-n', 'x{0}y', '', ' ', 'evm finish with result hex: b'];
  const L = Object.keys(LINES), g = [];
  const outs = [[], ...product(L), ...product(L, L), ...(tier === 'thorough' ? product(L, L, L) : product(['finish', 'empty', 'gas', 'revert'], ['gas', 'finish', 'blank'], ['gas', 'revert', 'word']))];
  for (const o of outs) for (const [pi, p] of PATS.entries()) for (const st of o.length < 2 ? [0, 1, 2, 77, 127, 255] : [0, pi % 2 ? 3 : 0]) for (const mode of o.length < 2 ? ['', 'set -e', 'set -o pipefail', 'set -eu'] : [pi % 3 ? 'set -e' : '']) if (!(st === 0 && o.length > 1 && false)) g.push([o, p, st, mode]);
  const seen = new Set();
  return g.filter(x => { const k = JSON.stringify(x); if (seen.has(k)) return false; seen.add(k); return true; });
}
function grep(job, rep) {
  const all = grepCases(job.tier).filter((_, i) => i % job.of === job.at);
  for (let at = 0; at < all.length; at += 200) {
    const part = all.slice(at, at + 200).map(x => [...x, `grep ${sq(x[1])} in [${x[0]}], status ${x[2]} ${x[3]}`]).filter(x => !job.only || job.only === x[4]);
    if (!part.length) continue;
    const res = shells(part.map(([o, p, st, mode]) => `${mode}\noutput=$(printf '%s' ${sq(o.map(l => LINES[l]).join('\n'))}; exit ${st})\nrun_cmd_and_grep "$output" ${sq(p)}\necho CONTINUED`), `source ${COMMON}`);
    part.forEach(([o, p, st, mode, key], k) => {
      rep.state(); rep.step(); rep.trace();
      const text = o.map(l => LINES[l]).join('\n').replace(/\n+$/, '') + '\n', { code, out } = res[k], cont = /CONTINUED\n$/.test(out);
      const match = new RegExp(p, 's').test(text), end = `matching pattern: ${p}\n`;
      // known findings, recognised by their exact outcome: no set -e and no match; the output "-n" alone
      const as = st === 0 && !match && !/set -e/.test(mode) && code === 0 && out.endsWith(end + 'grep pattern matched\nCONTINUED\n') ? '(no set -e) ' : st === 0 && match && text === '-n\n' && /set -e/.test(mode) && code === 1 && out.endsWith(end) ? '(output -n) ' : '';
      const fail = m => rep.viol(as + key, m + `: ${JSON.stringify(out.slice(-200))}`, { ...job, only: key });
      if (st !== 0) { // the command failed
        if (code !== st) fail(`exits ${code}`);
        else if (cont) fail('goes on after the command failed');
        else if (/^grep pattern matched$/m.test(out)) fail('reports a match of a failed command');
        else rep.cls('failed command');
      } else if (!match) {
        if (code === 0 || cont) fail(`succeeds (exit ${code}) although the output does not match`);
        else if (/^grep pattern matched$/m.test(out)) fail('reports a match');
        else rep.cls('no match');
      } else if (code !== 0 || !cont) fail(`exits ${code} although the output matches`);
      else rep.cls('match');
    });
  }
}
function lastResult(job, rep) { // grep_output_last_result_hex, _address
  const L = Object.keys(LINES), all = [];
  for (const o of [[], ...product(L), ...product(L, L), ...product(L, L, L), ...(job.tier === 'thorough' ? product(L.slice(0, 6), L.slice(0, 6), L.slice(0, 6), L.slice(0, 6)) : [])]) for (const f of ['hex', 'address']) all.push([o, f]);
  const mine = all.filter((_, i) => i % job.of === job.at).map(x => [...x, `last result ${x[1]} of [${x[0]}]`]).filter(x => !job.only || job.only === x[2]);
  for (let at = 0; at < mine.length; at += 300) {
    const part = mine.slice(at, at + 300);
    const res = shells(part.map(([o, f], k) => `${k % 2 ? 'set -e' : ''}\nv=$(grep_output_last_result_${f} ${sq(o.map(l => LINES[l]).join('\n'))})\nprintf '<%s>' "$v"`), `source ${COMMON}`);
    part.forEach(([o, f, key], k) => {
      rep.state(); rep.step(); rep.trace();
      // echo of "-n" alone is the shell's own business
      if (o.length === 1 && o[0] === 'dash') return;
      const l = o.map(x => LINES[x]).filter(isResult).pop(), x = l === undefined ? '' : l.split('hex:')[1].trim();
      const want = f === 'hex' ? x : x.slice(24);
      if (res[k].code !== 0 || res[k].out !== `<${want}>`) rep.viol((res[k].code === 0 && f === 'hex' && want === '' && l !== undefined && res[k].out === '<hex:>' ? '(empty result) ' : '') + key, `gives ${JSON.stringify(res[k].out)} (exit ${res[k].code}), expected <${want}>`, { ...job, only: key });
      else rep.cls(l === undefined ? 'no result' : 'result');
    });
  }
}
// ---- build and forge helpers, with stand-ins ------------------------------------------------------------------------------
function buildUtils(job, rep) {
  const d = scratch();
  try {
    // modes
    const modes = product([null, 'release', 'debug', 'other', ''], ['ON', 'OFF', null, '', 'on']);
    const key0 = ([m, le]) => `build mode ${m} with ENABLE_LITTLE_ENDIAN_STORAGE ${le}`;
    const pieces = modes.map(([m, le]) => `unset ENABLE_LITTLE_ENDIAN_STORAGE; ${le === null ? '' : `export ENABLE_LITTLE_ENDIAN_STORAGE=${sq(le)}`}\nsource ${BUILD}\nsetup_build_mode ${m === null ? '' : sq(m)} > /dev/null\nbash -c 'printf "%s|%s" "$YUL2WASM_PATH" "$YUL2WASM_EXTRA_ARGS"'`);
    shells(pieces).forEach(({ out, code }, k) => {
      const [m, le] = modes[k], rel = m === null || m === '' || m === 'release', key = key0(modes[k]);
      if (job.only && job.only !== key) return;
      rep.state(); rep.step(); rep.trace();
      const [p, a] = out.split('|'), got = (a || '').split(/\s+/).filter(Boolean).sort().join(' ');
      const want = ['--verbose', ...(le === 'ON' ? ['--enable-little-endian-storage-load-store'] : []), ...(rel ? [] : ['--debug'])].sort().join(' ');
      if (code !== 0 || p !== `../../target/${rel ? 'release' : 'debug'}/yul2wasm` || got !== want) rep.viol(key, `gives ${out} (exit ${code}), expected the ${rel ? 'release' : 'debug'} tool with ${want}`, { ...job, only: key }); else rep.cls('mode');
    });
    // compiling a list of contracts: outcome of each x what the translation tool does x old files or not
    const OUT = { ok: ['exit 0', true], fail: ['exit 1', false], crash: ['kill -9 $$', false], nofile: ['exit 0', false], late: ['exit 1', false], noisy: ['echo "error: [1;31m* failed" >&2; echo "Error: none"; exit 0', true] };
    const lists = [[], ...product(Object.keys(OUT)), ...product(Object.keys(OUT), Object.keys(OUT)), ...product(['ok', 'fail', 'nofile'], ['ok', 'fail', 'nofile'], ['ok', 'fail', 'nofile'])];
    const ctx = ['', 'if', '||'];
    const cases = product(lists, ['ok', 'fail'], [false, true], ['', '--verbose', '--verbose --debug']);
    cases.forEach(([l, wat, old, extra], ci) => {
      const key = `compile [${l}], wasm2wat ${wat}, ${old ? 'old files' : 'no files'}, options '${extra}'`;
      if (ci % job.of !== job.at || job.only && job.only !== key) return;
      rm(d); fs.mkdirSync(d + '/bin', { recursive: true }); fs.mkdirSync(d + '/ir');
      l.forEach((o, i) => { fs.mkdirSync(`${d}/ir/C${i}.sol`); fs.writeFileSync(`${d}/ir/C${i}.sol/C${i}.iropt`, `src ${i}`); if (old) fs.writeFileSync(`${d}/ir/C${i}.wasm`, 'old'); });
      fs.writeFileSync(d + '/bin/tool', `#!/bin/bash\necho "$@" >> ${d}/log\nwhile [ $# -gt 0 ]; do case $1 in --input) i=$2;; --output) o=$2;; esac; shift; done\ncase $i in ${l.map((o, k) => `*C${k}.iropt) ${['ok', 'late', 'noisy'].includes(o) ? 'echo "wasm of $i" > "$o";' : ''} ${OUT[o][0]};;`).join(' ')} esac\nexit 9\n`, { mode: 0o755 });
      fs.writeFileSync(d + '/bin/wasm2wat', `#!/bin/bash\n[ -f "$3" ] || exit 1\n${wat === 'ok' ? 'echo wat > "$2"' : 'exit 1'}\n`, { mode: 0o755 });
      const { out, code } = shells([`cd ${d}; source ${BUILD}\nexport YUL2WASM_PATH=${d}/bin/tool YUL2WASM_EXTRA_ARGS=${sq(extra)}\nL=(${l.map((_, i) => 'C' + i).join(' ')})\ncompile_all_contracts L[@] ir\necho CONTINUED`], '', { PATH: d + '/bin:/usr/local/bin:/usr/bin:/bin' })[0];
      rep.state(); rep.step(l.length); rep.trace();
      const fail = m => rep.viol(key, m + ': ' + out.slice(-200), { ...job, only: key });
      // a tool that exits 0 without its file, with an old one there, cannot be told from success
      const good = l.map(o => o === 'ok' || o === 'noisy' || o === 'nofile' && old).map(g => g && wat === 'ok'), bad = good.indexOf(false), n = bad < 0 ? l.length : bad + 1;
      const log = fs.existsSync(d + '/log') ? fs.readFileSync(d + '/log', 'utf8').trim().split('\n') : [];
      if (bad < 0 ? code !== 0 || !/All contracts compiled successfully\nCONTINUED\n$/.test(out) : code === 0 || /CONTINUED|All contracts/.test(out)) return fail(`exits ${code} although ${bad < 0 ? 'every contract compiled' : `contract ${bad} failed`}`);
      if (log.length !== n) return fail(`ran the compiler ${log.length} times, expected ${n}`);
      for (let i = 0; i < n; i++) if (log[i] !== `--input ir/C${i}.sol/C${i}.iropt --output ir/C${i}.wasm${extra ? ' ' + extra : ''}`) return fail(`called the compiler with ${log[i]}`);
      for (let i = 0; i < l.length; i++) {
        if (/Successfully compiled C\d/.test(out) && new RegExp(`Successfully compiled C${i} `).test(out) !== (i < n && good[i])) return fail(`reports the wrong outcome of contract ${i}`);
        if (i < n && good[i] && !fs.existsSync(`${d}/ir/C${i}.wat`)) return fail(`no text form of contract ${i}`);
      }
      rep.cls(bad < 0 ? 'compiled' : 'stopped at the failing contract');
    });
  } finally { rm(d); }
}
function forge(job, rep) {
  // histories: deploy test vm, deploy contract, setUp, then calls; each step's client outcome is ok, fails, or reports a revert
  const d = scratch();
  try {
    const cases = product(['ok', 'fail', 'late'], ['ok', 'fail', 'late'], ['ok', 'fail', 'late', 'revert', 'silent'], ['ok', 'fail', 'late', 'killed', 'revert', 'silent', 'wrong', 'noisy'], ['ok', 'fail', 'late'], [false, true]).filter(c => (c[0] === 'ok') + (c[1] === 'ok') + (c[2] === 'ok') >= 2 || c[3] === 'ok' && c[4] === 'ok' && !c[5]);
    cases.forEach((c, ci) => {
      const [d1, d2, su, call, abi, db] = c, key = `forge: deploy ${d1}, deploy ${d2}, setUp ${su}, call ${call}, encoder ${abi}, ${db ? 'old' : 'no'} database`;
      if (ci % job.of !== job.at || job.only && job.only !== key) return;
      rm(d); fs.mkdirSync(d + '/examples/work', { recursive: true }); fs.mkdirSync(d + '/cwd');
      const rel = path.relative(d, REPO);
      fs.mkdirSync(d + '/x/examples', { recursive: true }); fs.symlinkSync(REPO + '/examples/scripts', d + '/x/examples/scripts'); fs.mkdirSync(d + '/x/cwd');
      const say = { ok: `echo "evm finish with result hex: 0a0b"`, fail: 'echo broken; exit 5', late: 'echo "evm finish with result hex: 0a0b"; exit 5', killed: 'echo "evm finish with result hex: 0a0b"; kill -9 $$', noisy: `echo '* -n \\t $x'; echo warning >&2; echo 'evm finish with result hex: 0a0b'; echo '  [1m% done'`, revert: 'echo "evm revert with result hex: 0a0b"', silent: 'true', wrong: 'echo "evm finish with result hex: 0a0c"' };
      fs.writeFileSync(d + '/client', `#!/bin/bash\necho "$@" >> ${d}/log\ncase "$*" in\n*vm.wasm*deploy*) ${say[d1]};;\n*c.wasm*deploy*) ${say[d2]};;\n*00005e70*) ${say[su]};;\n*) ${say[call]};;\nesac\n`, { mode: 0o755 });
      fs.writeFileSync(d + '/abi', `#!/bin/bash\necho "abi $@" >> ${d}/log\n[ "$1" = "setUp()" ] && { echo 0x00005e70; exit 0; }\n${abi === 'ok' ? 'echo 0x11112222' : abi === 'late' ? 'echo 0x11112222; exit 2' : 'echo bad >&2; exit 2'}\n`, { mode: 0o755 });
      if (db) fs.writeFileSync(d + '/x/cwd/test.db', 'old');
      const { out, code } = shells([`cd ${d}/x/cwd; source ${FORGE}\nMOCKCLI_PATH=${d}/client; ABI_ENCODE=${d}/abi\ninit_test vm.wasm 0xaa c.wasm 0xbb\ncall_contract_function c.wasm 0xbb "testA()" 'hex: 0a0b'\necho CONTINUED`])[0];
      rep.state(); rep.step(4); rep.trace();
      const fail = m => rep.viol(key, m + ': ' + out.slice(-200), { ...job, only: key });
      const steps = [d1 === 'ok', d2 === 'ok', su === 'ok', abi === 'ok', ['ok', 'revert', 'noisy'].includes(call)], bad = steps.indexOf(false);
      const log = fs.existsSync(d + '/log') ? fs.readFileSync(d + '/log', 'utf8').trim().split('\n') : [];
      const want = ['-f vm.wasm --action deploy -s 0x9988776655443322119900112233445566778899 -t 0xaa -i 0x', '-f c.wasm --action deploy -s 0x9988776655443322119900112233445566778899 -t 0xbb -i 0x', 'abi setUp()', '-f c.wasm -t 0xbb --action call --print-time --enable-gas-meter -s 0x9988776655443322119900112233445566778899 -i 0x00005e70', 'abi testA()', '-f c.wasm -t 0xbb --action call --print-time --enable-gas-meter -s 0x9988776655443322119900112233445566778899 -i 0x11112222'].slice(0, bad < 0 ? 6 : [1, 2, 4, 5, 6][bad]);
      if (bad < 0 ? code !== 0 || !/CONTINUED\n$/.test(out) : code === 0 || /CONTINUED/.test(out)) return fail(`exits ${code} although ${bad < 0 ? 'all steps succeed' : `step ${bad} fails`}`);
      if (log.length !== want.length) return fail(`made the calls ${log.join(' ¦ ')}`);
      for (let i = 0; i < want.length; i++) if (log[i].split(' ').sort().join(' ') !== want[i].split(' ').sort().join(' ')) return fail(`step ${i} calls ${log[i]}`);
      if (fs.existsSync(d + '/x/cwd/test.db')) return fail('starts on the old database');
      rep.cls(bad < 0 ? 'passes' : 'stops at the failing step');
    });
  } finally { rm(d); }
}
const KINDS = { bytes: [hex, 8], lengths: [hex, 8], paths: [hexPaths, 1], grep: [grep, 16], last: [lastResult, 16], build: [buildUtils, 4], forge: [forge, 4] };
module.exports = {
  technique: 'exhaustive enumeration of files, paths, outputs, statuses, patterns, shell modes and outcome histories through the scripts themselves, compared with their statement',
  needs: [],
  bounds: t => `bin_to_hex on all one byte files, ${t === 'thorough' ? 'all' : 'a third of the'} two byte files, lengths 0-300 and around buffer sizes, path forms and faults; grep helper on outputs of up to ${t === 'thorough' ? '3' : '2 (some 3)'} of ${Object.keys(LINES).length} line kinds x 20 patterns x statuses x shell modes; last result on outputs of up to ${t === 'thorough' ? 4 : 3} lines; build helper on all outcome lists of up to 3 contracts; forge helper on all outcome histories`,
  assumptions: ['the compiler, wasm2wat and the chain client are stand-ins that record their calls'],
  conformance: 'every state is a run of the real script',
  jobs: tier => Object.entries(KINDS).flatMap(([kind, [, of]]) => Array.from({ length: of }, (_, at) => ({ kind, at, of, tier }))),
  exec: (job, rep) => KINDS[job.kind][0](job, rep),
  done: () => w && w.stop(),
};
