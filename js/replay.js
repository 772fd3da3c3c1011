// Replays cases through the JavaScript bindings: node replay.js MODULE; one JSON case per line on
// stdin, an empty line asks for the report since the last one.
'use strict';
const path = require('path');
const mod = path.resolve(process.argv[2]);
for (const k of ['log', 'info', 'debug', 'warn', 'error', 'trace']) console[k] = () => {};
let lib, codes;
function load() {
  delete require.cache[mod];
  lib = require(mod);
  codes = lib.ResponseVerificationErrorCode;
}
load();
const cache = new Map();
function bytes(b64) {
  let x = cache.get(b64);
  if (!x) {
    x = Uint8Array.from(Buffer.from(b64, 'base64'));
    if (b64.length < 200) cache.set(b64, x);
  }
  return x;
}
// a body in each of the forms a caller may hold it in
function form(u8, f) {
  switch (f % 4) {
    case 0: return u8;
    case 1: return Array.from(u8);
    case 2: return Buffer.from(u8);
    default: {
      const big = new Uint8Array(u8.length + 7).fill(0xa5);
      big.set(u8, 3);
      return big.subarray(3, 3 + u8.length);
    }
  }
}
function permute(keys, n) {
  keys = keys.slice();
  const out = [];
  while (keys.length) {
    out.push(keys.splice(n % keys.length, 1)[0]);
    n = Math.floor(n / (keys.length + 1));
  }
  return out;
}
function build(vals, order, extra) {
  const o = extra & 1 ? { unknown: 'x', Body: [9], statusCode: 500, URL: '/y' } : {};
  for (const k of permute(Object.keys(vals), order)) o[k] = vals[k];
  if (extra & 2) o.upgrade = [true], o.streaming_strategy = [];
  return o;
}
const same = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0;
// strings of JavaScript may hold half of a surrogate pair, which reads as U+FFFD
const halve = (s, n) => s.replaceAll('\ufffd', n % 2 ? '\ud83d' : '\udc00');
function run(x) {
  const f = x.f;
  const lone = f >= 2 ** 40 ? (s) => halve(s, f) : (s) => s;
  const pairs = (h) => (f >= 2 ** 40 ? h.map((p) => p.map(lone)) : h);
  const req = { url: lone(x.u), method: lone(x.m), body: form(bytes(x.b), f), headers: pairs(x.h) };
  if (f & 4) req.certificate_version = f & 8 ? [] : [2];
  const resp = { status_code: x.s, headers: pairs(x.rh), body: form(bytes(x.rb), f >> 2) };
  const before = x.deep ? JSON.stringify([req, resp]) : null;
  const args = [build(req, f >> 4, f), build(resp, f >> 5, f >> 1), form(bytes(x.c), f & 1), BigInt(x.n), BigInt(x.o), form(bytes(x.k), f & 1), x.v];
  let got;
  try {
    got = lib.verifyRequestResponsePair(...args);
  } catch (e) {
    if (!(e instanceof lib.ResponseVerificationError)) {
      load();
      return 'trap: ' + e;
    }
    const kind = codes[e.code], text = e.message;
    e.free();
    if (x.w.e === undefined) return 'error ' + kind + ': ' + text;
    if (x.w.e !== '' && kind !== x.w.e) return 'error code ' + kind;
    return x.w.t !== undefined && text !== x.w.t ? 'message ' + text : null;
  }
  if (x.w.e !== undefined) return 'accepted ' + JSON.stringify(got);
  if (before !== null && before !== JSON.stringify([req, resp])) return 'arguments changed';
  if (got.verificationVersion !== x.w.v) return 'version ' + got.verificationVersion;
  if (Object.keys(got).sort().join() !== 'response,verificationVersion') return 'keys ' + Object.keys(got);
  const r = got.response, w = x.w.r;
  if (w === null) return r === undefined || r === null ? null : 'response ' + JSON.stringify(r);
  if (!r) return 'no response';
  if (w.s === null ? 'statusCode' in r && r.statusCode !== undefined : r.statusCode !== w.s) return 'status ' + r.statusCode;
  if (!(r.body instanceof Uint8Array) || !same(r.body, w.b === 1 ? bytes(x.rb) : bytes(w.b))) return 'body ' + r.body;
  const h = w.h === 1 ? x.rh : w.h;
  if (!Array.isArray(r.headers) || r.headers.length !== h.length || !r.headers.every((p, i) => Array.isArray(p) && p.length === 2 && p[0] === h[i][0] && p[1] === h[i][1])) return 'headers ' + JSON.stringify(r.headers);
  for (const k of Object.keys(r)) if (!['statusCode', 'body', 'headers'].includes(k)) return 'key ' + k;
  return null;
}
function decode(x) {
  try {
    const got = lib.decodeAll(bytes(x.d));
    return got === x.x ? null : 'decoded ' + got.slice(0, 300);
  } catch (e) {
    load();
    return 'trap: ' + e;
  }
}
let n = 0, bad = 0, first = [];
let rest = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  const lines = (rest + d).split('\n');
  rest = lines.pop();
  for (const s of lines) {
    if (s === '') {
      const info = { n, bad, first, min: lib.getMinVerificationVersion(), max: lib.getMaxVerificationVersion(), codes: Object.keys(codes).filter((k) => isNaN(k)) };
      process.stdout.write(JSON.stringify(info) + '\n');
      n = 0, bad = 0, first = [];
      continue;
    }
    const x = JSON.parse(s);
    n++;
    let r;
    try {
      r = x.d !== undefined ? decode(x) : run(x);
    } catch (e) {
      r = 'harness: ' + e.stack;
    }
    if (r !== null) {
      bad++;
      if (first.length < 3) first.push({ got: String(r).slice(0, 600), case: s.slice(0, 3000), key: x.key });
    }
  }
});
