'use strict';
// Snippets that use every part of the language and of the runtime, for checks over compile options.
const { inputs } = require('./clayer');
const A = require('./arith');
const W = require('./words');
const { toBE } = require('./u256');
const B = (a, n = 0n) => (1n << BigInt(a)) + n;
const bytes = (n, s) => new Uint8Array(n).map((_, i) => (i * 37 + s) & 255);
const CALLS = [{ status: 0, data: bytes(40, 3) }, { status: 1, data: bytes(64, 9) }, { status: 0, data: new Uint8Array(0) }];
// programs that obey Solidity's use of memory: words below 128 are scratch and the free pointer, which only literal
// mload(64) and mstore(64, ..) touch
const P = {
  mem: 'mstore(128, calldataload(32)) mstore8(133, calldataload(64)) mstore(150, mload(129)) mcopy(200, 128, 60) return(128, 160)',
  memdyn: 'let p := add(128, and(calldataload(32), 0xff)) mstore(p, not(0)) mstore(add(p, 16), calldataload(64)) log1(128, 320, mload(add(p, 7))) log1(0, 0, msize())',
  grow: 'mstore(70000, calldataload(32)) log1(0, 0, mload(70000)) mstore(200000, 5) log2(0, 0, mload(70000), mload(199999)) mcopy(300000, 69990, 50) log1(300000, 50, msize())',
  free: 'mstore(64, 128) let a := alloc(32) let b := alloc(100) mstore(a, calldataload(32)) mstore(b, a) log2(a, 132, b, mload(64)) mstore(64, add(mload(64), 5)) return(mload(64), 0)',
  kec: 'mstore(0, calldataload(32)) mstore(32, 7) let s := keccak256(0, 64) sstore(s, add(sload(s), 1)) sstore(s, add(sload(s), calldataload(64))) log1(0, 0, sload(s)) mstore(128, s) log0(128, keccak256(128, 0x20)) return(0, 0)'.replace('log0(128, keccak256(128, 0x20))', 'log1(128, 32, keccak256(128, 0x20))'),
  map: 'let k := mapping(calldataload(32), 3) sstore(k, calldataload(64)) let j := mapping(calldataload(64), 3) log2(0, 0, sload(k), sload(j)) sstore(j, add(sload(j), 1)) log2(0, 0, sload(k), sload(j))',
  sto: 'sstore(calldataload(32), calldataload(64)) sstore(calldataload(64), 5) log1(0, 0, sload(calldataload(32))) tstore(calldataload(32), 9) log2(0, 0, tload(calldataload(32)), tload(0)) sstore(1, lt(1, 2)) sstore(2, calldatasize()) sstore(3, caller()) log3(0, 0, sload(1), sload(2), sload(3))',
  pack: 'let v := sload(4) v := or(and(v, not(0xffff)), and(calldataload(32), 0xffff)) sstore(4, v) v := or(and(sload(4), not(shl(16, 0xff))), shl(16, and(calldataload(64), 0xff))) sstore(4, v) log2(0, 0, and(sload(4), 0xffff), and(shr(16, sload(4)), 0xff))',
  cd: 'calldatacopy(128, 4, 100) log2(128, 128, calldatasize(), calldataload(sub(calldatasize(), 5))) calldatacopy(256, calldatasize(), 64) log1(256, 64, calldataload(not(0)))',
  sel: 'let s := shr(224, calldataload(32)) switch s case 0xa9059cbb { log1(0, 0, 1) } case 0 { log1(0, 0, 2) } default { log1(0, 0, s) }',
  env: 'log4(0, 0, caller(), address(), origin(), callvalue()) log4(0, 0, gasprice(), basefee(), chainid(), prevrandao()) log4(0, 0, timestamp(), number(), gaslimit(), coinbase()) log4(0, 0, selfbalance(), balance(caller()), blockhash(sub(number(), 1)), gas()) log3(0, 0, extcodesize(5), extcodehash(5), blobbasefee())',
  env2: 'let a := caller() let b := timestamp() let c := gas() if eq(a, caller()) { log2(0, 0, add(b, c), and(a, 0xff)) } mstore(128, a) mstore(160, b) log0(128, 64) sstore(a, b)',
  call: 'mstore(128, shl(224, 0x12345678)) mstore(132, calldataload(32)) let ok := call(gas(), calldataload(64), callvalue(), 128, 36, 200, 32) log2(200, 40, ok, returndatasize()) returndatacopy(256, 0, returndatasize()) log0(256, 64) ok := staticcall(70000, 9, 128, 4, 0, 0) if iszero(ok) { returndatacopy(128, 0, returndatasize()) revert(128, returndatasize()) } log1(0, 0, 77)',
  dcall: 'let ok := delegatecall(gas(), 0xabcdef, 0, 0, 128, 64) log2(128, 64, ok, returndatasize()) ok := delegatecall(5, not(0), 128, 64, 128, 0) log1(0, 0, ok)',
  rev: 'if gt(calldataload(32), 4) { mstore(0, shl(224, 0x08c379a0)) mstore(4, 0x20) mstore(36, 5) revert(0, 68) } if calldataload(64) { mstore(0, 1) return(31, 1) } invalid()'.replace(/mstore\(36, 5\) /, '').replace('revert(0, 68)', 'revert(0, 36)'),
  str: 'mstore(128, "hello \\"world\\"\\x00\\x7fend") mstore(160, hexless()) log1(128, 64, "topic") switch calldataload(32) case "a" { log1(0, 0, 1) } default { log1(0, 0, "b") }',
  ext: 'extcodecopy(7, 128, 3, 40) log2(128, 40, extcodesize(7), extcodehash(7)) codecopy(200, 0, 80) log1(200, 80, codesize())',
  sd: 'if calldataload(32) { selfdestruct(calldataload(64)) } stop()',
  logs: 'mstore(128, calldataload(32)) log0(128, 3) log1(130, 0, 1) log2(128, 32, 1, not(0)) log3(128, 33, calldataload(64), 2, 3) log4(159, 2, 4, 5, 6, calldataload(32))',
  addr: 'let a := dec_addr(36) sstore(a, 1) log1(0, 0, a)',
  addr2: 'let a := abi_decode_address(32) log1(0, 0, a) let b := and(calldataload(64), sub(shl(160, 1), 1)) sstore(b, a)',
  erc: 'let r := fun_trans_5(calldataload(32), calldataload(64), 7) log1(0, 0, r)',
  ck: 'let x := checked_add(calldataload(32), calldataload(64)) log1(0, 0, x) x := checked_mul(x, 3) log1(0, 0, x) x := checked_sub(x, calldataload(64)) log1(0, 0, x)',
  msz: 'log1(0, 0, msize()) mstore(128, 0) log1(0, 0, msize()) pop(mload(300)) log1(0, 0, msize())',
  exp: 'log3(0, 0, exp(calldataload(32), calldataload(64)), exp(2, calldataload(32)), exp(calldataload(64), 3))',
  mod: 'log4(0, 0, addmod(calldataload(32), calldataload(64), 7), mulmod(calldataload(32), calldataload(64), not(2)), smod(calldataload(32), calldataload(64)), sdiv(calldataload(32), not(0)))',
  crt: 'mstore(128, shl(224, 4)) mstore(132, shl(224, 0x11223344)) let a := create(5, 128, 8) log1(0, 0, a) a := create2(0, 128, 40, calldataload(32)) log1(0, 0, a)',
  abi: 'mstore(64, 128) let p := enc(calldataload(32), calldataload(64), "xyz") return(p, sub(mload(64), p))',
  arr: 'let s := 0 for { let i := 0 } lt(i, 5) { i := add(i, 1) } { mstore(add(128, mul(i, 32)), mul(i, calldataload(32))) s := xor(s, keccak256(128, mul(32, add(i, 1)))) } log1(128, 160, s)',
  loop: 'let n := and(calldataload(32), 63) let s := 1 for { } n { n := sub(n, 1) } { if eq(n, 7) { continue } if gt(s, shl(200, 1)) { break } s := add(mul(s, 3), n) switch and(s, 3) case 0 { s := not(s) } case 1 { s := shr(3, s) } default { { let t := s s := add(t, t) } } } log2(0, 0, n, s)',
};
const FUNS = [
  'function alloc(n) -> p { p := mload(64) let e := add(p, n) if gt(e, 0xffffffffffffffff) { revert(0, 0) } mstore(64, e) }', 'function mapping(k, s) -> r { mstore(0, k) mstore(32, s) r := keccak256(0, 64) }', 'function hexless() -> r { r := 0x68656c6c6f }',
  'function dec_addr(o) -> a { a := and(calldataload(o), 0xffffffffffffffffffffffffffffffffffffffff) }', 'function fun_trans_5(a, b, c) -> r { r := add(a, mul(b, c)) if iszero(a) { r := 1 } }',
  'function checked_add(a, b) -> r { r := add(a, b) if gt(a, r) { panic() } }', 'function checked_mul(a, b) -> r { r := mul(a, b) if iszero(or(iszero(a), eq(b, div(r, a)))) { panic() } }', 'function checked_sub(a, b) -> r { r := sub(a, b) if gt(r, a) { panic() } }', 'function panic() { mstore(0, shl(224, 0x4e487b71)) mstore(4, 0x11) revert(0, 0x24) }',
  'function enc(a, b, s) -> p { p := mload(64) mstore(p, a) mstore(add(p, 32), and(b, 0xff)) mstore(add(p, 64), 0x60) mstore(add(p, 96), 3) mstore(add(p, 128), s) mstore(64, add(p, 160)) }',
  'function abi_decode_address(o) -> v { v := calldataload(o) if iszero(eq(v, and(v, sub(shl(160, 1), 1)))) { revert(0, 0) } }',
];
const WS = [[3n, 5n], [B(255, 8n), B(64, 1n)], [W.M, 0n]];
function programs() {
  return Object.entries(P).map(([k, code]) => ({ key: k, code, funs: FUNS, proto: true, inputs: WS.map(words => ({ words: k === 'addr2' || k === 'addr' ? words.map(w => w & (B(160) - 1n)) : words, o: { calls: CALLS, ext: new Map([['0'.repeat(39) + '7', { code: bytes(60, 1), balance: 99n }]]), callvalue: 5n } })) }));
}
// words an operator sees as operands of several forms
function operators() {
  const sn = [];
  for (const [op, n] of Object.entries(A.ARITY)) for (const fs of [['C', 'C', 'C'], ['V', 'P', 'C'], ['l', 'b', 'I']]) { const s = A.snippet(op, fs.slice(0, n), 'mem'); sn.push({ ...s, key: 'op ' + s.key, inputs: WS.map(words => ({ words, o: { prevrandao: toBE(words[1]) } })) }); }
  return sn;
}
function language() {
  const step = (l, k) => l.filter((_, i) => i % k === 0);
  const c17 = require('../checks/C17').parts, c18 = require('../checks/C18').parts, c19 = require('../checks/C19').parts;
  const ii = s => ({ ...s, inputs: (s.inputs || inputs([3n, W.M], [B(200), 0n], [0n, 1n])).slice(0, 4) });
  return [...step(c17.trees(2, 'all'), 9), ...c17.long(200), ...step(c18.arity(), 19), ...step(c18.order(), 53), ...c18.recursion(), ...step(c18.similar(), 41), ...step(c19.pairForms(), 97), ...step(c19.wrapped(), 61), ...step(c19.shared(), 9), ...step(c19.scopes(), 23)].map(ii);
}
module.exports = { programs, operators, language, WS, CALLS };
