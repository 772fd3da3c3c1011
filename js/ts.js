// C29: explores verifyCertification of packages/certificate-verification-js, transpiled from the
// working tree, against stand-ins for the three peer dependencies (@dfinity/agent, candid and
// principal), which are not part of the repository. usage: node ts.js OUTDIR TIER
'use strict';
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [VERIF, TIER] = process.argv.slice(2);
const DEEP = TIER === 'thorough';
const SRC = process.env.MC_TS_SRC || '/repo/packages/certificate-verification-js/src';
const started = Date.now();

// The clock of the code under test.
let clock = 0;
class Clock extends Date {
  constructor(...a) { if (a.length) super(...a); else super(clock); }
  static now() { return clock; }
}

// ------------------------------------------------------------------ the tree model
const sha = (...p) => { const h = crypto.createHash('sha256'); p.forEach((x) => h.update(x)); return h.digest(); };
const sep = (s) => Buffer.concat([Buffer.from([s.length]), Buffer.from(s)]);
const digest = (t) => {
  switch (t[0]) {
    case 0: return sha(sep('ic-hashtree-empty'));
    case 1: return sha(sep('ic-hashtree-fork'), digest(t[1]), digest(t[2]));
    case 2: return sha(sep('ic-hashtree-labeled'), Buffer.from(t[1]), digest(t[2]));
    case 3: return sha(sep('ic-hashtree-leaf'), Buffer.from(t[1]));
    case 4: return Buffer.from(t[1]);
  }
  throw new Error('not a tree');
};
const ab = (b) => { const u = new Uint8Array(b); return u.buffer.slice(u.byteOffset, u.byteOffset + u.byteLength); };
const show = (x) => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? `${v}n` : v instanceof ArrayBuffer || v instanceof Uint8Array ? 'h:' + Buffer.from(v instanceof ArrayBuffer ? new Uint8Array(v) : v).toString('hex').slice(0, 80) : v));

// ------------------------------------------------------------------ stand-ins
// Suspension points of the stand-ins; `step` decides how long each of them takes.
let pending = null; // null: resolve at once; otherwise a list of resolvers
const pause = () => (pending ? new Promise((r) => pending.push(r)) : Promise.resolve());
// An encoded certificate or tree is a handle; what it stands for is looked up here.
const objects = new Map();
let handles = 0;
const handle = (o) => {
  const b = Buffer.alloc(8);
  b.writeBigUInt64BE(BigInt(++handles));
  objects.set(b.toString('hex'), o);
  return ab(b);
};
const deref = (b) => {
  const o = b && (b instanceof ArrayBuffer || ArrayBuffer.isView(b)) ? objects.get(Buffer.from(b instanceof ArrayBuffer ? new Uint8Array(b) : b).toString('hex')) : undefined;
  if (o === undefined) throw new Error('decoding failed');
  return o;
};
class Principal {
  constructor(b) { this.b = Uint8Array.from(b); }
  toUint8Array() { return this.b; }
  toText() { return Buffer.from(this.b).toString('hex'); }
  toString() { return this.toText(); }
  toHex() { return this.toText().toUpperCase(); }
  static fromUint8Array(b) { return new Principal(b); }
}
const bytesOf = (x) => (typeof x === 'string' ? Buffer.from(x) : x instanceof ArrayBuffer ? Buffer.from(new Uint8Array(x)) : ArrayBuffer.isView(x) ? Buffer.from(x) : Buffer.from('?'));
class Certificate {
  constructor(model) { this.model = model; this.cert = { tree: [0], signature: ab([1]) }; }
  // Verifies the signature, and that a delegation covers the canister; ideal here.
  static async create(o) {
    const m = deref(o.certificate);
    await pause();
    if (bytesOf(o.rootKey).toString('hex') !== m.key) throw new Error('Signature verification failed');
    if (m.ranges && !m.ranges.includes(bytesOf(o.canisterId.toUint8Array()).toString('hex'))) throw new Error('Canister is not within the ranges');
    return new Certificate(m);
  }
  lookup(p) {
    const k = p.map((x) => bytesOf(x).toString('hex')).join('/');
    const v = this.model.values[k];
    return v === undefined ? undefined : ab(v);
  }
  lookup_label() { return undefined; }
}
class PipeArrayBuffer {
  constructor(b) { this.b = b ? new Uint8Array(b) : new Uint8Array(0); this.i = 0; }
  readUint8() { return this.i < this.b.length ? this.b[this.i++] : undefined; }
  get end() { return this.i === this.b.length; }
  get byteLength() { return this.b.length - this.i; }
}
const lebDecode = (pipe) => {
  let w = 1n, v = 0n, byte;
  do {
    byte = pipe.readUint8();
    if (byte === undefined) throw new Error('unexpected end of buffer');
    v += BigInt(byte & 0x7f) * w;
    w *= 128n;
  } while (byte >= 0x80);
  return v;
};
const agent = {
  Certificate,
  Cbor: { decode: (b) => { const o = deref(b); if (o.bad) throw new Error('CBOR'); return o.tree; }, encode: (tree) => handle({ tree }) },
  reconstruct: async (t) => { const d = digest(t); await pause(); return ab(d); },
  compare: (x, y) => {
    if (x.byteLength !== y.byteLength) return x.byteLength - y.byteLength;
    const [a, b] = [new Uint8Array(x), new Uint8Array(y)];
    for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] - b[i];
    return 0;
  },
  bufEquals: (x, y) => agent.compare(x, y) === 0,
};
const modules = new Map();
const load = (name) => {
  if (name === '@dfinity/agent') return agent;
  if (name === '@dfinity/candid') return { PipeArrayBuffer, lebDecode, lebEncode: undefined };
  if (name === '@dfinity/principal') return { Principal };
  if (!name.startsWith('.')) return require(name);
  const f = [name + '.ts', name + '/index.ts', name.replace(/\.js$/, '.ts')].map((x) => path.join(SRC, x)).find((x) => fs.existsSync(x));
  if (!modules.has(f)) {
    const m = { exports: {} };
    modules.set(f, m);
    const out = ts.transpileModule(fs.readFileSync(f, 'utf8'), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText;
    new Function('require', 'module', 'exports', 'Date', out)((n) => load(n.startsWith('.') ? './' + path.relative(SRC, path.join(path.dirname(f), n)) : n), m, m.exports, Clock);
  }
  return modules.get(f).exports;
};
const { verifyCertification } = load('./index');
const errors = load('./error');

// ------------------------------------------------------------------ cases
const leb = (n) => { const o = []; do { let b = Number(n & 127n); n >>= 7n; if (n) b |= 128; o.push(b); } while (n); return Buffer.from(o); };
const hex = (x) => bytesOf(x).toString('hex');
const KEY = ab([1, 2, 3]);
const CAN = new Principal([0, 0, 0, 0, 0, 0, 0, 7, 1, 1]);
const OTHER = new Principal([0, 0, 0, 0, 0, 0, 0, 8, 1, 1]);
const at = (can) => ['canister', can.toUint8Array(), 'certified_data'].map(hex).join('/');
const leaf = (s) => [3, ab(Buffer.from(s))];
const TREES = [[0], leaf(''), leaf('x'), [2, ab(Buffer.from('a')), leaf('x')], [1, [2, ab(Buffer.from('a')), leaf('x')], [2, ab(Buffer.from('b')), [4, ab(Buffer.alloc(32, 9))]]], [4, ab(Buffer.alloc(32, 5))]];
const count = { states: 0, transitions: 0, outcomes: {}, samples: [], violations: [] };
const fail = (key, detail) => { if (count.violations.length < 20) count.violations.push({ key, detail }); };

// What the call must do. `ms`: the time of the certificate in ms, rounded down.
const expected = (c) => {
  if (c.undecodable) return 'error';
  const m = c.model;
  if (hex(c.key) !== m.key || (m.ranges && !m.ranges.includes(hex(c.can.toUint8Array())))) return 'error';
  if (c.badTree) return 'error';
  const t = m.values[hex('time')];
  if (t === undefined) return 'error';
  let n = 0n, w = 1n, ended = false;
  for (const b of t) { n += BigInt(b & 127) * w; w *= 128n; if (b < 128) { ended = true; break; } }
  if (!ended) return 'error';
  const ms = n / 1000000n, off = BigInt(c.offset), now = BigInt(c.now);
  if (ms > now + off || ms + off < now) return 'time';
  const d = m.values[at(c.can)];
  if (d === undefined || Buffer.compare(Buffer.from(d), digest(c.tree)) !== 0) return 'data';
  return 'tree';
};
const classify = (r) => {
  if (r.ok !== undefined) return 'tree';
  const e = r.err;
  if (e instanceof errors.CertificateTimeError) return 'time';
  if (e instanceof errors.CertificateVerificationError) return 'data';
  return e instanceof Error ? 'error' : 'nothing';
};
const call = (c) => {
  clock = c.now;
  try {
    return verifyCertification({ canisterId: c.can, encodedCertificate: c.undecodable ? ab([1]) : c.cert, encodedTree: c.encTree, rootKey: c.key, maxCertificateTimeOffsetMs: c.offset }).then((ok) => ({ ok: ok === undefined ? null : ok }), (err) => ({ err }));
  } catch (err) {
    return Promise.resolve({ err, sync: true });
  }
};
const judge = (c, r, how) => {
  const want = expected(c), got = classify(r);
  count.transitions++;
  count.outcomes[want] = (count.outcomes[want] || 0) + 1;
  // where several things are wrong at once, any of the errors will do
  const ok = want === 'tree' ? got === 'tree' && show(r.ok) === show(c.tree) : want === 'error' ? got === 'error' || got === 'data' || got === 'time' : got === want || (want === 'time' && c.several && (got === 'data' || got === 'error'));
  if (!ok) fail(`${how}: ${want} wanted, ${got} seen`, { now: c.now, offset: c.offset, canister: c.can.toText(), values: c.model && c.model.values, tree: c.tree, result: show(r.ok), error: r.err && String(r.err) });
  if (count.samples.length < 6 && count.transitions % 9973 === 1) count.samples.push({ now: c.now, offset: c.offset, want });
};
const mk = (o) => {
  const values = {};
  if (o.time !== undefined) values[hex('time')] = o.time;
  for (const [p, d] of o.data || []) values[p] = d;
  const model = { key: hex(o.signedBy || KEY), ranges: o.ranges, values };
  const tree = o.tree || TREES[3];
  return { ...o, model, tree, cert: handle(model), encTree: o.badTree ? handle({ bad: true }) : handle({ tree }), key: o.key || KEY, can: o.can || CAN };
};

async function main() {
  // (1) time: every certificate time about both ends of the window, to the nanosecond
  const nows = [0, 1, 1700000000000, 1700000000999, 4102444800000, ...(DEEP ? [2, 999, 1000, 1e12, 1e13] : [])];
  const offsets = [0, 1, 999, 1000, 60000, 300000, 301000, 3600000, 86400000 * 400, ...(DEEP ? [2, 59999, 60001, 299999, 300001] : [])];
  const deltas = [0n, 1n, 499999n, 500000n, 500001n, 999999n, 1000000n, 1000001n, 1999999n, 2000000n, 1000000000n, 60000000000n, 300000000000n];
  for (const now of nows) for (const offset of offsets) {
    const base = BigInt(now) * 1000000n;
    const edges = [base, base + BigInt(offset) * 1000000n, base - BigInt(offset) * 1000000n, 0n, (1n << 64n) - 1n, 1n << 63n, (1n << 53n) * 1000000n];
    const times = new Set();
    for (const e of edges) for (const d of deltas) for (const s of [1n, -1n]) if (e + s * d >= 0n) times.add(e + s * d);
    for (const t of times) {
      const c = mk({ now, offset, time: leb(t), data: [[at(CAN), digest(TREES[3])]] });
      judge(c, await call(c), 'time');
      count.states++;
      objects.clear();
    }
  }
  // (2) every combination of certificate and tree
  const shapes = (d) => [undefined, d, Buffer.alloc(0), d.subarray(0, 31), Buffer.concat([d, Buffer.from([0])]), Buffer.from(d).fill(0, 31), (() => { const x = Buffer.from(d); x[0] ^= 1; return x; })(), (() => { const x = Buffer.from(d); x[31] ^= 128; return x; })(), Buffer.from(d).reverse(), Buffer.from(d.toString('hex'))];
  const NOW = 1700000000000;
  const good = leb(BigInt(NOW) * 1000000n);
  for (const tree of TREES) for (const own of shapes(digest(tree))) for (const other of [undefined, digest(tree)]) for (const can of [CAN, OTHER])
    for (const time of [good, undefined, Buffer.alloc(0), Buffer.from([0x80]), leb(0n), leb(BigInt(NOW) * 2000000n)]) for (const signedBy of [KEY, ab([9])]) for (const ranges of [undefined, [hex(CAN.b)], [hex(OTHER.b)], []])
      for (const badTree of [false, true]) for (const undecodable of [false, true]) {
        const data = [];
        if (own !== undefined) data.push([at(CAN), own]);
        if (other !== undefined) data.push([at(OTHER), other]);
        // values elsewhere in the certificate that are not the certified data of the canister
        data.push([hex('certified_data'), digest(tree)], [['canister', CAN.b, 'module_hash'].map(hex).join('/'), digest(tree)], [['canister', CAN.toText(), 'certified_data'].map(hex).join('/'), digest(tree)], [['canister', '', 'certified_data'].map(hex).join('/'), digest(tree)]);
        const c = mk({ now: NOW, offset: 300000, tree, can, time, signedBy, ranges, badTree, undecodable, data, several: true });
        judge(c, await call(c), 'combination');
        count.states++;
        objects.clear();
      }
  // (3) concurrent calls: every order in which their suspended steps can go on
  const kinds = [
    () => mk({ now: NOW, offset: 300000, time: good, data: [[at(CAN), digest(TREES[3])]] }),
    () => mk({ now: NOW, offset: 300000, time: good, data: [[at(OTHER), digest(TREES[4])]], tree: TREES[4], can: OTHER }),
    () => mk({ now: NOW, offset: 0, time: leb(BigInt(NOW + 1) * 1000000n), data: [[at(CAN), digest(TREES[3])]] }),
    () => mk({ now: NOW, offset: 300000, time: good, data: [[at(CAN), digest(TREES[4])]] }),
    () => mk({ now: NOW, offset: 300000, time: good, data: [[at(CAN), digest(TREES[3])]], signedBy: ab([9]) }),
    () => mk({ now: NOW, offset: 300000, time: good, data: [[at(OTHER), digest(TREES[3])]] }),
    () => mk({ now: NOW, offset: 300000, time: leb(BigInt(NOW - 300001) * 1000000n), data: [[at(CAN), digest(TREES[3])]] }),
    // the clock has moved on when this call is made: fresh, and no longer fresh
    () => mk({ now: NOW + 5000, offset: 0, time: leb(BigInt(NOW + 5000) * 1000000n), data: [[at(CAN), digest(TREES[3])]] }),
    () => mk({ now: NOW + 5000, offset: 4999, time: good, data: [[at(CAN), digest(TREES[3])]] }),
  ];
  const settle = async () => { for (let i = 0; i < 12; i++) await Promise.resolve(); };
  const interleave = async (which) => {
    const work = [[]];
    while (work.length) {
      const prefix = work.pop();
      // run with the choices of the prefix, then always the first
      pending = [];
      const cs = which.map((k) => kinds[k]());
      const rs = cs.map(() => undefined);
      cs.forEach((c, i) => call(c).then((r) => { rs[i] = r; }));
      await settle();
      let depth = 0;
      const took = [];
      while (rs.some((r) => r === undefined)) {
        if (!pending.length) { fail('concurrent: a call never ends', { which, took }); break; }
        const n = pending.length;
        const pick = depth < prefix.length ? prefix[depth] : 0;
        if (depth >= prefix.length) for (let k = n - 1; k > 0; k--) work.push([...took, k]);
        took.push(pick);
        pending.splice(pick, 1)[0]();
        depth++;
        await settle();
      }
      count.states++;
      cs.forEach((c, i) => rs[i] && judge(c, rs[i], `concurrent ${which}`));
      objects.clear();
    }
    pending = null;
  };
  const n = kinds.length;
  for (let a = 0; a < n; a++) for (let b = 0; b < n; b++) {
    await interleave([a, b]);
    for (let d = 0; d < n; d++) {
      await interleave([a, b, d]);
      if (DEEP) for (let e = 0; e < 3; e++) await interleave([a, b, d, e]);
    }
  }
  // (3b) the clock moves while a call is suspended: the moment of the call counts
  for (const offset of [0, 1, 1000, 300000]) for (const edge of [-offset - 1, -offset, 0, offset, offset + 1]) for (const where of [0, 1, 2, 3]) for (const by of [1, -1, 2, -2, offset, -offset, 2 * offset + 2, -2 * offset - 2, 1e9, -1e9]) {
    pending = [];
    const c = mk({ now: NOW, offset, time: leb(BigInt(NOW + edge) * 1000000n), data: [[at(CAN), digest(TREES[3])]] });
    let out;
    call(c).then((x) => { out = x; });
    for (let step = 0; out === undefined && step < 50; step++) {
      if (step === where) clock += by;
      await settle();
      if (pending.length) pending.shift()();
      await settle();
    }
    pending = null;
    count.states++;
    if (out === undefined) fail('a call never ends', { offset, edge, where, by });
    else judge(c, out, 'moving clock');
    objects.clear();
  }
  // (4) histories: calls one after another
  const seq = async (h) => {
    for (const k of h) { const c = kinds[k](); judge(c, await call(c), `history ${h}`); objects.clear(); }
    count.states++;
  };
  const hist = async (h, d) => { if (d === 0) return seq(h); for (let k = 0; k < n; k++) await hist([...h, k], d - 1); };
  await hist([], DEEP ? 5 : 4);
}
const watchdog = setTimeout(() => finish([{ key: 'hang', detail: {} }]), (DEEP ? 3000 : 600) * 1000);
function finish(extra) {
  clearTimeout(watchdog);
  const v = [...count.violations, ...extra];
  const ev = { property: 'C29', tier: DEEP ? 'thorough' : 'quick', seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
    coverage: { states: count.states, transitions: count.transitions, traces_validated_against_impl: count.transitions, outcomes: count.outcomes, samples: count.samples.slice(0, 6), exhaustive_within_bounds: true, violations: v.map((x) => x.key),
      bound: 'certificate times to the nanosecond about both ends of the window for each current time and offset; every combination of tree, certified data of this and another canister, time, signer, ranges and encodings; every order of the suspended steps of 2 and 3 concurrent calls of 9 kinds made at different times; clocks that move at every step; every history of calls' },
    wall_s: (Date.now() - started) / 1000, violations: v.length };
  fs.writeFileSync(path.join(VERIF, 'evidence/C29.json'), JSON.stringify(ev, null, 1));
  if (v.length) {
    const f = path.join(VERIF, 'replays/C29.json');
    fs.writeFileSync(f, show({ property: 'C29', violations: v }));
    v.slice(0, 5).forEach((x) => console.log('  key=' + x.key + ' ' + (show(x.detail) || '').slice(0, 400)));
    console.log(`VIOLATION property=C29 replay=${f}`);
    process.exit(1);
  }
  console.log(`OK property=C29 tier=${ev.tier} states=${count.states} transitions=${count.transitions} wall=${ev.wall_s.toFixed(1)}s`);
  process.exit(0);
}
main().then(() => finish([]), (e) => finish([{ key: 'uncaught: ' + e, detail: { stack: e && e.stack } }]));
