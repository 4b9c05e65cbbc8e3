'use strict';
// Reference semantics of Yul over a World: a parser and an interpreter written from the Yul specification,
// independent of the compiler under test. Values are BigInts below 2^256.
const keccak = require('./keccak');
const { ops, M, toBE, fromBE, H } = require('./u256');
const { Halt } = require('./host');

class Trap extends Error {}
// ---- parser -------------------------------------------------------------------------------------------------
const TOK = /\s+|\/\/[^\n]*|\/\*[\s\S]*?\*\/|(->|:=|[{}(),:])|([A-Za-z_$][\w$.]*)|(0x[0-9a-fA-F]+|[0-9]+)|"((?:[^"\\\n]|\\[\s\S])*)"/gy;
function lex(s) {
  const r = []; TOK.lastIndex = 0;
  while (TOK.lastIndex < s.length) {
    const at = TOK.lastIndex, m = TOK.exec(s);
    if (!m) throw new Error('lex: ' + s.slice(at, at + 30));
    if (m[1]) r.push(m[1]); else if (m[2]) r.push({ id: m[2] }); else if (m[3]) r.push({ v: BigInt(m[3]) & ((1n << 300n) - 1n) }); else if (m[4] !== undefined) r.push({ s: unesc(m[4]) });
  }
  return r;
}
const unesc = t => t.replace(/\\(x[0-9a-fA-F]{2}|u\{?[0-9a-fA-F]{4}\}?|[\s\S])/g, (_, c) => (c[0] === 'x' ? String.fromCharCode(parseInt(c.slice(1), 16)) : c[0] === 'u' ? String.fromCharCode(parseInt(c.replace(/[u{}]/g, ''), 16)) : { n: '\n', r: '\r', t: '\t' }[c] || c));
function strWord(s) { const b = Buffer.from(s, 'utf8'); if (b.length > 32) throw new Error('string literal too long'); const w = new Uint8Array(32); w.set(b); return fromBE(w); }
function parse(src) { // statements of a code block (without its braces) -> block
  const T = lex(src); let i = 0;
  const peek = () => T[i], is = x => T[i] === x, isId = x => T[i] && T[i].id === x;
  const eat = x => { if (T[i] !== x) throw new Error(`expected ${x}, got ${JSON.stringify(T[i])} at token ${i} of ${src.slice(0, 200)}`); i++; };
  const ident = () => { const t = T[i++]; if (!t || !t.id) throw new Error('identifier expected, got ' + JSON.stringify(t)); return t.id; };
  const typed = () => { const n = ident(); if (is(':')) { i++; ident(); } return n; };
  const list = f => { const r = [f()]; while (is(',')) { i++; r.push(f()); } return r; };
  function lit() { const t = T[i++]; let e; if (t.v !== undefined) e = { t: 'lit', v: t.v }; else if (t.s !== undefined) e = { t: 'str', s: t.s }; else if (t.id === 'true') e = { t: 'lit', v: 1n }; else if (t.id === 'false') e = { t: 'lit', v: 0n }; else throw new Error('literal expected'); if (is(':')) { i++; ident(); } return e; }
  function expr() {
    const t = peek();
    if (t && (t.v !== undefined || t.s !== undefined || t.id === 'true' || t.id === 'false')) return lit();
    const n = ident();
    if (!is('(')) return { t: 'id', n };
    i++; const a = is(')') ? [] : list(expr); eat(')'); return { t: 'call', n, a };
  }
  function block() { eat('{'); const b = []; while (!is('}')) b.push(stmt()); i++; return b; }
  function stmt() {
    if (is('{')) return { t: 'blk', b: block() };
    const k = peek().id;
    if (k === 'function') { i++; const n = ident(); eat('('); const p = is(')') ? [] : list(typed); eat(')'); let r = []; if (is('->')) { i++; r = list(typed); } return { t: 'fun', n, p, r, b: block() }; }
    if (k === 'let') { i++; const n = list(typed); let e = null; if (is(':=')) { i++; e = expr(); } return { t: 'let', n, e }; }
    if (k === 'if') { i++; const c = expr(); return { t: 'if', c, b: block() }; }
    if (k === 'for') { i++; const a = block(), c = expr(), p = block(), b = block(); return { t: 'for', i: a, c, p, b }; }
    if (k === 'switch') { i++; const c = expr(), cs = []; let d = null; while (isId('case')) { i++; const v = lit(); cs.push([v, block()]); } if (isId('default')) { i++; d = block(); } return { t: 'sw', c, k: cs, d }; }
    if (k === 'break' || k === 'continue' || k === 'leave') { i++; return { t: k }; }
    if (T[i + 1] === '(') return { t: 'x', e: expr() };
    const n = list(ident); eat(':='); return { t: 'set', n, e: expr() };
  }
  const b = []; while (i < T.length) b.push(stmt()); return b;
}
// ---- interpreter --------------------------------------------------------------------------------------------
const LIMIT = 1 << 22; // EVM memory the reference serves; accesses past it end the transaction abnormally
const mask160 = (1n << 160n) - 1n;
const GASMAX = (1n << 63n) - 1n; // the host's gas is an i64
const DATA = 1n << 250n;
class Ref {
  constructor(world, o = {}) {
    this.w = world; this.mem = new Uint8Array(1 << 12); this.size = 0; this.steps = 0; this.max = o.steps || 200000;
    this.objects = o.objects || {}; this.deploying = o.deploying || false; this.imm = o.immutables || new Map(); this.linker = o.linker || {};
  }
  range(o, n) { if (n === 0n) return [0, 0]; if (o + n > BigInt(LIMIT)) throw new Trap('memory'); o = Number(o); n = Number(n); this.size = Math.max(this.size, Math.ceil((o + n) / 32) * 32); if (o + n > this.mem.length) { const m = new Uint8Array(Math.max(o + n, this.mem.length * 2)); m.set(this.mem); this.mem = m; } return [o, n]; }
  rd(o, n) { [o, n] = this.range(o, n); return this.mem.slice(o, o + n); }
  wr(o, b) { if (!b.length) return; [o] = this.range(o, BigInt(b.length)); this.mem.set(b, o); }
  copy(d, src, o, n) { if (n === 0n) return; this.range(d, n); const r = new Uint8Array(Number(n)); if (o < BigInt(src.length)) r.set(src.subarray(Number(o), Math.min(src.length, Number(o + n)))); this.wr(d, r); }
  addr(x) { return toBE(x & mask160, 20); }
  builtin(n, a) {
    const w = this.w;
    if (Object.prototype.hasOwnProperty.call(ops, n)) return ops[n](...a);
    switch (n) {
      case 'pop': return undefined;
      case 'mload': return fromBE(this.rd(a[0], 32n));
      case 'mstore': return void this.wr(a[0], toBE(a[1]));
      case 'mstore8': return void this.wr(a[0], new Uint8Array([Number(a[1] & 255n)]));
      case 'mcopy': { this.range(a[0], a[2]); const b = this.rd(a[1], a[2]); return void this.wr(a[0], b); }
      case 'msize': return BigInt(this.size);
      case 'memoryguard': return 96n;
      case 'sload': return w.sload(a[0]);
      case 'sstore': return void w.sstore(a[0], a[1]);
      case 'tload': return w.tload(a[0]);
      case 'tstore': return void w.tstore(a[0], a[1]);
      case 'calldataload': { const b = new Uint8Array(32), c = w.calldata; if (a[0] < BigInt(c.length)) b.set(c.subarray(Number(a[0]), Number(a[0]) + 32)); return fromBE(b); }
      case 'calldatasize': return BigInt(w.calldata.length);
      case 'calldatacopy': return void this.copy(a[0], w.calldata, a[1], a[2]);
      case 'codesize': return BigInt(w.code.length + (this.deploying ? w.calldata.length : 0));
      case 'codecopy': if (a[1] >= DATA && a[1] < DATA << 1n && Object.keys(this.objects).length) return void this.copySegment(a[0], a[1], a[2]); return void this.copy(a[0], this.deploying ? Buffer.concat([w.code, w.calldata]) : w.code, a[1], a[2]);
      case 'extcodesize': return BigInt(w.extcode(this.addr(a[0])).length);
      case 'extcodecopy': return void this.copy(a[1], w.extcode(this.addr(a[0])), a[2], a[3]);
      case 'extcodehash': return fromBE(w.exthash(this.addr(a[0])));
      case 'returndatasize': return BigInt(w.returndata.length);
      case 'returndatacopy': if (a[1] + a[2] > BigInt(w.returndata.length)) throw new Trap('returndatacopy'); return void this.copy(a[0], w.returndata, a[1], a[2]);
      case 'keccak256': return fromBE(keccak(this.rd(a[0], a[1])));
      case 'address': return fromBE(w.address); case 'caller': return fromBE(w.caller); case 'origin': return fromBE(w.origin); case 'coinbase': return fromBE(w.coinbase);
      case 'callvalue': return w.callvalue; case 'gasprice': return w.gasprice; case 'gaslimit': return w.gaslimit; case 'gas': return w.gasleft;
      case 'timestamp': return w.timestamp; case 'number': return w.number; case 'chainid': return w.chainid; case 'basefee': return w.basefee; case 'blobbasefee': return w.blobbasefee;
      case 'prevrandao': case 'difficulty': return fromBE(w.prevrandao);
      case 'selfbalance': return w.balance(w.address); case 'balance': return w.balance(this.addr(a[0]));
      case 'blockhash': return a[0] >> 64n ? 0n : fromBE(w.blockhash(a[0]));
      case 'return': throw new Halt('return', this.rd(a[0], a[1]));
      case 'revert': throw new Halt('revert', this.rd(a[0], a[1]));
      case 'stop': throw new Halt('return');
      case 'invalid': throw new Halt('invalid');
      case 'selfdestruct': w.trace.push('D ' + H(this.addr(a[0]))); throw new Halt('selfdestruct');
      case 'log0': case 'log1': case 'log2': case 'log3': case 'log4': return void w.log(this.rd(a[0], a[1]), a.slice(2));
      case 'call': case 'callcode': case 'delegatecall': case 'staticcall': {
        const v = n === 'call' || n === 'callcode', [io, il, oo, ol] = a.slice(v ? 3 : 2);
        this.range(oo, ol); const inb = this.rd(io, il);
        const st = w.call(n, a[0] < GASMAX ? a[0] : GASMAX, this.addr(a[1]), v ? a[2] : null, inb), d = w.returndata;
        if (st === 0 || this.failingOutput !== false) this.wr(oo, d.slice(0, Number(ol < BigInt(d.length) ? ol : BigInt(d.length))));
        return st === 0 ? 1n : 0n;
      }
      case 'create': case 'create2': { // creation code carries its length: 4 bytes, the code, then the constructor arguments
        const b = this.rd(a[1], a[2]), len = Number(fromBE(b.slice(0, 4)));
        if (b.length < 4 + len) throw new Trap('creation code');
        const r = w.create(n, a[0], b.slice(0, 4 + len), b.slice(4 + len), n === 'create2' ? a[3] : null);
        return r.status === 0 ? fromBE(r.addr) : 0n;
      }
    }
    return null;
  }
  evalArgs(e, env) { const r = new Array(e.a.length); for (let i = e.a.length - 1; i >= 0; i--) r[i] = this.eval1(e.a[i], env); return r; }
  eval1(e, env) { const r = this.eval(e, env); if (typeof r !== 'bigint') throw new Error('one value expected from ' + JSON.stringify(e, (k, v) => (typeof v === 'bigint' ? String(v) : v))); return r; }
  eval(e, env) {
    switch (e.t) {
      case 'lit': return e.v;
      case 'str': return e.w ??= strWord(e.s);
      case 'id': return env.get(e.n);
      case 'call': {
        if (++this.steps > this.max) throw new Error('reference ran too long');
        const f = env.fun(e.n);
        if (f) {
          const args = this.evalArgs(e, env), fe = new Env(f.env, true); // functions see functions outside, no variables
          f.d.p.forEach((p, i) => fe.vars.set(p, args[i])); f.d.r.forEach(r => fe.vars.set(r, 0n));
          if (++this.depth > 400) throw new Trap('recursion');
          this.block(f.d.b, fe); this.depth--;
          const rs = f.d.r.map(r => fe.vars.get(r));
          return rs.length === 1 ? rs[0] : rs;
        }
        if (e.n === 'loadimmutable') return this.imm.get(e.a[0].s) || 0n;
        if (e.n === 'setimmutable') { const v = this.eval1(e.a[2], env); this.imm.set(e.a[1].s, v); return undefined; }
        if (e.n === 'linkersymbol') return this.linker[e.a[0].s];
        if (e.n in { datasize: 1, dataoffset: 1, datacopy: 1 }) return this.data(e, env);
        const r = this.builtin(e.n, this.evalArgs(e, env));
        if (r === null) throw new Error('unknown builtin ' + e.n);
        return r;
      }
    }
  }
  data(e, env) { // segments: name -> bytes; dataoffset gives an opaque place that only copies understand
    const names = Object.keys(this.objects), n = e.n === 'datacopy' ? null : e.a[0].s, i = names.indexOf(n);
    if (n !== null && i < 0) throw new Error('no data named ' + n);
    if (e.n === 'datasize') return BigInt(this.objects[n].length);
    if (e.n === 'dataoffset') return DATA + (BigInt(i) << 40n);
    const [d, o, k] = this.evalArgs(e, env);
    if (o >= DATA) this.copySegment(d, o, k); else this.builtin('codecopy', [d, o, k]);
  }
  copySegment(d, o, n) {
    const b = Object.values(this.objects)[Number((o - DATA) >> 40n)], at = (o - DATA) & ((1n << 40n) - 1n);
    if (!b || at + n > BigInt(b.length)) throw new Error('copy past the end of a data segment is not defined here');
    this.wr(d, b.slice(Number(at), Number(at + n)));
  }
  block(b, env) { // -> undefined | 'break' | 'continue' | 'leave'
    const s = new Env(env);
    return this.inner(b, s);
  }
  inner(b, s) {
    for (const x of b) if (x.t === 'fun') s.funs.set(x.n, { d: x, env: s });
    for (const x of b) { const r = this.stmt(x, s); if (r) return r; }
  }
  stmt(x, env) {
    if (++this.steps > this.max) throw new Error('reference ran too long');
    switch (x.t) {
      case 'fun': return;
      case 'blk': return this.block(x.b, env);
      case 'x': this.eval(x.e, env); return;
      case 'let': { const v = x.e === null ? x.n.map(() => 0n) : x.n.length === 1 ? [this.eval1(x.e, env)] : this.eval(x.e, env); x.n.forEach((n, i) => env.vars.set(n, v[i])); return; }
      case 'set': { const v = x.n.length === 1 ? [this.eval1(x.e, env)] : this.eval(x.e, env); x.n.forEach((n, i) => env.set(n, v[i])); return; }
      case 'if': if (this.eval1(x.c, env) !== 0n) return this.block(x.b, env); return;
      case 'sw': { const v = this.eval1(x.c, env); for (const [l, b] of x.k) if (this.eval(l, env) === v) return this.block(b, env); if (x.d) return this.block(x.d, env); return; }
      case 'for': {
        const s = new Env(env); const r0 = this.inner(x.i, s); if (r0) return r0;
        for (;;) {
          if (this.eval1(x.c, s) === 0n) return;
          const r = this.block(x.b, s); if (r === 'break') return; if (r === 'leave') return r;
          const p = this.block(x.p, s); if (p) return p;
        }
      }
      default: return x.t;
    }
  }
  run(block) { // -> {kind, data}
    this.depth = 0;
    try { this.block(block, null); return { kind: 'return', data: '' }; } catch (e) {
      if (e instanceof Halt) return { kind: e.kind, data: H(e.data) };
      if (e instanceof Trap) return { kind: 'trap', data: '' };
      throw e;
    }
  }
}
class Env {
  constructor(up, fn = false) { this.up = up; this.fn = fn; this.vars = new Map(); this.funs = new Map(); }
  find(n) { for (let e = this; e; e = e.up) { if (e.vars.has(n)) return e; if (e.fn) break; } throw new Error('unknown variable ' + n); }
  get(n) { return this.find(n).vars.get(n); }
  set(n, v) { this.find(n).vars.set(n, v); }
  fun(n) { for (let e = this; e; e = e.up) if (e.funs.has(n)) return e.funs.get(n); return null; }
}
module.exports = { parse, Ref, strWord, Trap };
