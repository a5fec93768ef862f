// Conformance agent that uses the library through its Node interface.
// Speaks the protocol of the Rust agent.
//   node --expose-gc agent.js LIBIPMB_JS
'use strict';
const fs = require('fs'), os = require('os');
const mod = { exports: {} };
process.dlopen(mod, process.argv[2], os.constants.dlopen.RTLD_NOW);
const X = mod.exports;
const tx = {}, rx = {}, kept = {};
let marks = Buffer.from(require('crypto').randomBytes(4)).readUInt32LE(0) * 1048576;

function pad(i, n) {
  const b = Buffer.alloc(n);
  for (let k = 0; k < n; k++) b[k] = (i * 31 + k * 7 + (k >>> 8) * 13 + (k >>> 16) * 17) & 255;
  return b;
}
function op(v) {
  if (v[0] === 't' || v[0] === 'f') return new X.LabelOp(v[0] === 't');
  if (v[0] === 'l') return new X.LabelOp(v[1]);
  const a = op(v[1]);
  if (v[0] === 'n') a.not();
  else if (v[0] === 'a') a.and(op(v[2]));
  else a.or(op(v[2]));
  return a;
}
function ino(fd) {
  const s = fs.fstatSync(fd);
  return s.dev + ':' + s.ino;
}
function errOf(e) {
  let m = String(e && e.message);
  let v = /VersionMismatch\(Version\(\((\d+), (\d+), (\d+)\)\)/.exec(m) || /[vV]ersion[ -]?mismatch.*?(\d+)\.(\d+)\.(\d+)/.exec(m);
  if (v) return 'VersionMismatch ' + v[1] + '.' + v[2] + '.' + v[3];
  return m;
}
function received(v, m) {
  const d = m.bytesMessage.data, f = m.bytesMessage.format;
  const out = { ty: 'Y', id: f, len: d.length, intact: d.equals(pad(f, d.length)) };
  if (m.objects.length) out.objs = m.objects.map(o => ino(o.value()));
  if (m.memoryRegions.length && !v.bare) {
    out.regs = m.memoryRegions.map(r => {
      const w = r.map(0, -1);
      return 'R' + w.readBigUInt64LE(w.length - 8);
    });
    out.heads = m.memoryRegions.map(r => [...r.map(0, 24)]);
  }
  if (v.keep) kept[v.keep] = m;
  return out;
}
const sleep = ms => new Promise(r => setTimeout(r, ms));

const OPS = {
  join(v) {
    const t0 = process.hrtime.bigint();
    const us = () => Number((process.hrtime.bigint() - t0) / 1000n);
    try {
      const j = X.join({ identifier: v.ident, label: v.label, token: v.token || '', controllerAffinity: v.aff === undefined ? true : v.aff }, v.timeout);
      tx[v.e] = j.sender; rx[v.e] = j.receiver;
      return { ok: true, us: us() };
    } catch (e) { return { err: errOf(e), us: us() }; }
  },
  send(v) {
    const d = pad(v.id, v.len || 0);
    const bufs = (v.bufs || []).map(([n, seed]) => pad(seed, n));
    try {
      tx[v.e].send({ labelOp: op(v.sel), mode: v.mode === 'm' ? X.SelectorMode.Multicast : X.SelectorMode.Unicast, ttl: v.ttl || 0 },
        { format: v.id, data: d }, bufs);
      return { ok: true };
    } catch (e) { return { err: errOf(e) }; }
  },
  // answers when the promise is settled
  async recv(v) {
    const t0 = Number(process.hrtime.bigint() / 1000n), c = OPS.n++;
    const t = v.timeout === null ? undefined : v.timeout;
    let p;
    try { p = rx[v.e].recv(t); } catch (e) { return { thrown: errOf(e) }; }
    try {
      const m = await p;
      return { msg: received(v, m), c, t0, t1: Number(process.hrtime.bigint() / 1000n), n: OPS.n++ };
    } catch (e) {
      const r = { err: errOf(e), c, t0, t1: Number(process.hrtime.bigint() / 1000n), n: OPS.n++ };
      if (r.err === 'timeout') r.err = 'Timeout';
      else if (/[Dd]ecode/.test(r.err)) r.err = 'Decode';
      return r;
    }
  },
  n: 0,
  async drain(v) {
    const got = [];
    const max = v.max === undefined ? 1e9 : v.max;
    while (got.length < max) {
      const r = await OPS.recv({ e: v.e, timeout: Math.min(v.idle === undefined ? 100 : v.idle, 1e9) });
      if (r.thrown) { got.push({ err: r.thrown }); return { got, end: 'err' }; }
      if (r.msg) got.push(r.msg);
      else if (r.err === 'Timeout') return { got, end: 'idle' };
      else { got.push({ err: r.err }); if (r.err !== 'Decode') return { got, end: 'err' }; }
      if (r.msg && r.msg.id === v.until) return { got, end: 'until' };
    }
    return { got, end: 'max' };
  },
  dropr(v) { const t0 = Date.now(); if (rx[v.e]) rx[v.e].close(); if (!v.keep) delete rx[v.e]; return { ms: Date.now() - t0 }; },
  async drops(v) {
    delete tx[v.e];
    for (let i = 0; i < 3; i++) { global.gc(); await sleep(1); }
    return {};
  },
  async collect(v) { delete rx[v.e]; for (let i = 0; i < 4; i++) { global.gc(); await sleep(1); } return {}; },
  async gc() { for (let i = 0; i < 3; i++) { global.gc(); await sleep(1); } return {}; },
  forget(v) { for (const k in kept) if (k.startsWith(v.prefix)) delete kept[k]; return {}; },
  rmap(v) {
    const r = kept[v.name].memoryRegions[v.i];
    try { const b = r.map(v.off, v.n); return { len: b.length, data: [...b.subarray(0, 64)] }; } catch (e) { return { err: errOf(e) }; }
  },
  labels(v) { return { r: v.exprs.map(x => op(x).toString()) }; },
  adv() { return {}; },
  fds() {
    const l = fs.readdirSync('/proc/self/fd').map(f => { try { return [Number(f), fs.readlinkSync('/proc/self/fd/' + f)]; } catch (e) { return null; } }).filter(x => x);
    return { n: l.length, list: l, threads: fs.readdirSync('/proc/self/task').length,
      maps: fs.readFileSync('/proc/self/maps', 'utf8').split('\n').filter(l => l.includes('memfd:')).length };
  },
};

let buf = '';
process.stdin.on('data', d => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const v = JSON.parse(buf.slice(0, i));
    buf = buf.slice(i + 1);
    let r;
    try { r = OPS[v.op](v); } catch (e) { r = { panic: 'harness: ' + v.op + ': ' + (e && e.stack) }; }
    Promise.resolve(r).then(r => { r.rid = v.rid; fs.writeSync(1, JSON.stringify(r) + '\n'); },
      e => fs.writeSync(1, JSON.stringify({ rid: v.rid, panic: 'harness: ' + (e && e.stack) }) + '\n'));
  }
});
process.stdin.on('end', () => { if (!process.env.AGENT_NATURAL) process.exit(0); });
