// N01-N03: drives servers behind the Node.js addon. The command line and the
// report are those of vp.h.
'use strict';
const os = require('os'), fs = require('fs'), net = require('net'), { EventEmitter } = require('events');
const A = { seed: 1n, thorough: false, prop: '', out: '', shard: 0, shards: 1, budget: 1e9, scale: 1, alarm: 120, family: '', only: -1 };
const addon = process.argv[2];
for (let i = 3; i < process.argv.length; ++i) {
  const a = process.argv[i], v = () => process.argv[++i];
  if (a === '--seed') A.seed = BigInt(v());
  else if (a === '--thorough') A.thorough = true;
  else if (a === '--prop') A.prop = v();
  else if (a === '--out') A.out = v();
  else if (a === '--shard') { const s = v().split('/'); A.shard = +s[0]; A.shards = +s[1]; }
  else if (a === '--family') A.family = v();
  else if (a === '--case') A.only = +v();
  else if (a === '--budget') A.budget = +v();
  else if (a === '--scale') A.scale = +v();
  else if (a === '--alarm') A.alarm = +v();
}
const M64 = (1n << 64n) - 1n;
function mix(x) { x = (x + 0x9e3779b97f4a7c15n) & M64; x = ((x ^ (x >> 30n)) * 0xbf58476d1ce4e5b9n) & M64; x = ((x ^ (x >> 27n)) * 0x94d049bb133111ebn) & M64; return x ^ (x >> 31n); }
function hash(s) { let h = 1469598103934665603n; for (const b of Buffer.from(s)) h = ((h ^ BigInt(b)) * 1099511628211n) & M64; return mix(h); }
class Rng {
  constructor(s) { this.a = Number(s & 0xffffffffn); this.b = Number(s >> 32n); }
  next() { // 32 bits: two rounds of a small generator
    this.a = (this.a + 0x9e3779b9) >>> 0; let x = (this.a ^ this.b) >>> 0;
    x = Math.imul(x ^ (x >>> 16), 0x85ebca6b); x = Math.imul(x ^ (x >>> 13), 0xc2b2ae35); x ^= x >>> 16; this.b = Math.imul(this.b, 0x19660d) + 0x3c6ef35f >>> 0; return x >>> 0;
  }
  below(n) { return n > 0 ? this.next() % n : 0; }
  chance(a, b) { return this.below(b) < a; }
  pick(v) { return v[this.below(v.length)]; }
  size(m) { const k = this.below(4); return this.below(Math.min(m, k === 0 ? 2 : k === 1 ? 5 : k === 2 ? 16 : m) + 1); }
}
class Fail extends Error {}
const families = [], counters = {}, sets = {}, samples = {}, perFamily = {}, hashes = new Set();
let where = '', evaluations = 0, failures = 0, current = '';
function family(name, quick, thorough, body) { families.push({ name, quick, thorough, body }); }
function line(s) { fs.writeSync(1, s); }
class Case {
  constructor(r, index) { this.R = r; this.index = index; this.pc = []; this.pd = []; this.ps = []; }
  input(s) { current = String(s).replace(/[^\x20-\x7e]/g, '?').slice(0, 1500); vp.input(current); }
  fail(key, msg) { line(`\nVP-FAIL ${where} key=${key} msg=${String(msg).replace(/[^\x20-\x7e]/g, '?').slice(0, 1200)} input=${current}\n`); throw new Fail(key); }
  check(ok, key, msg) { if (!ok) this.fail(key, msg); }
  count(n, k = 1) { this.pc.push([n, k]); }
  distinct(s) { this.pd.push(hash(where.split(' ')[0] + s)); }
  member(n, s) { this.ps.push([n, hash(s).toString(16)]); }
  sample(s) { this.smp = String(s).replace(/[^\x20-\x7e]/g, '?').slice(0, 500); }
}
let vp, connect;
const tick = () => new Promise(r => setImmediate(r));

// A socket without a network: what the addon asks for and is given.
class Fake extends EventEmitter {
  constructor() { super(); this.setMaxListeners(0); this.written = []; }
  write(d) { this.written.push(d); }
}
function open(k, plan, start = true) {
  const c = connect(d => { k.write(d); }, (e, f) => { k.on(e, f); });
  if (!start) return c;
  vp.next(plan); c.startServer(); k.id = vp.last(); k.listeners_ = []; // [kind, actions]
  if (plan !== 'I') for (const x of plan.split(',')) if (x) k.listeners_.push([x[0], x.slice(2)]);
  return c;
}
function drawPlan(R, act) {
  const p = []; for (let n = R.size(6); n-- > 0;) { let a = ''; for (let m = R.below(3); m-- > 0;) a += R.pick(act); p.push(R.pick('RRC') + ':' + a); }
  return p.join(',');
}
function bytes(R) {
  const n = R.chance(1, 30) ? 1 + R.below(200000) : R.size(60), kind = R.below(4), off = R.below(9);
  const b = kind === 0 ? Buffer.alloc(n + off) : Buffer.allocUnsafe(n + off);
  const alpha = kind === 1 ? [0, 1, 10, 13, 65, 127, 128, 192, 195, 237, 240, 255] : null;
  for (let i = 0; i < b.length; ++i) b[i] = alpha ? R.pick(alpha) : kind === 2 ? 32 + R.below(95) : R.below(256);
  const v = b.subarray(off);
  return R.chance(1, 4) ? new Uint8Array(v.buffer, v.byteOffset, v.length) : v;
}
function text(R) {
  let s = ''; const pool = ['a', 'Z', '0', ' ', '\n', '\0', '\u007f', '\u0080', '\u00e9', '\u07ff', '\u0800', '\u20ac', '\ud7ff', '\ue000', '\ufeff', '\uffff', '\u{10000}', '\u{1f600}', '\u{10ffff}', '"', '\\'];
  for (let n = R.chance(1, 30) ? R.below(50000) : R.size(40); n-- > 0;) s += R.pick(pool);
  return s;
}
// What one data event has to cause; follows the actions of listeners.
function expectData(k, data, out) {
  const n = k.listeners_.length; // listeners of this event: those set before it
  for (let i = 0; i < n; ++i) {
    const [kind, acts] = k.listeners_[i]; if (kind !== 'R') continue;
    out.events.push([k.id, i, 'R', data]);
    for (const a of acts) perform(k, a, data, out);
  }
}
function expectClose(k, error, out) {
  const n = k.listeners_.length;
  for (let i = 0; i < n; ++i) {
    const [kind, acts] = k.listeners_[i]; if (kind !== 'C') continue;
    out.events.push([k.id, i, 'C', error]);
    for (const a of acts) perform(k, a, Buffer.alloc(0), out);
  }
}
function perform(k, a, data, out) {
  const s = Buffer.from(data).toString();
  if (a === 'e') out.sent.push([k, s]);
  else if (a === 'E') { out.sent.push([k, s]); out.sent.push([k, '+' + s]); }
  else if (a === 'b') out.sent.push([k, 'bye']);
  else if (a === 'a') k.listeners_.push(['R', '']);
  else if (a === 'c') k.listeners_.push(['C', '']);
}
function showEvents(E) { return E.slice(0, 12).map(e => `${e[0]}.${e[1]}${e[2]}` + (e[2] === 'R' ? `(${e[3].length}:${Buffer.from(e[3]).subarray(0, 12).toString('hex')})` : e[3])).join(' '); }
function compareEvents(c, got, want) {
  const same = (a, b) => a[0] === b[0] && a[1] === b[1] && a[2] === b[2] && (a[2] === 'R' ? Buffer.compare(Buffer.from(a[3]), Buffer.from(b[3])) === 0 : a[3] === b[3]);
  for (const e of got) c.check(e[2] !== '!', 'listener', 'the state of a listener is corrupted');
  let i = 0; while (i < got.length && i < want.length && same(got[i], want[i])) ++i;
  if (i === got.length && i === want.length) return;
  c.fail(i < got.length && i < want.length && got[i][0] === want[i][0] && got[i][1] === want[i][1] && got[i][2] === want[i][2] ? 'data' : 'events', `call ${i} of ${want.length} expected: ${showEvents(want.slice(i))}; observed: ${showEvents(got.slice(i))}`);
}
function compareSent(c, ks, sent) {
  for (const k of ks) {
    const want = sent.filter(x => x[0] === k).map(x => x[1]);
    c.check(k.written.length === want.length, 'sent', `${k.written.length} messages instead of ${want.length}`);
    for (let i = 0; i < want.length; ++i) c.check(typeof k.written[i] === 'string' && k.written[i] === want[i], 'sent', `message ${i}: ${typeof k.written[i]} of ${k.written[i].length} instead of ${want[i].length} characters: ${JSON.stringify(k.written[i].slice(0, 60))} instead of ${JSON.stringify(want[i].slice(0, 60))}`);
    k.written.length = 0;
  }
}
async function releaseAll() { for (let i = 0; i < 3; ++i) { await tick(); global.gc(); } }

family('N01.data', 3000, 60000, c => {
  const R = c.R, k = new Fake(), plan = drawPlan(R, 'gmacb');
  open(k, plan); const out = { events: [], sent: [] }; let inp = plan, total = 0;
  for (let n = 1 + R.size(8); n-- > 0;) {
    if (R.chance(1, 5)) { vp.listen(k.id, 'R', ''); k.listeners_.push(['R', '']); }
    const d = bytes(R); inp += ` ${d.length}:${Buffer.from(d).subarray(0, 20).toString('hex')}`; c.input(inp);
    expectData(k, Buffer.from(d), out); k.emit('data', d); total += d.length;
    if (d.includes(0)) c.count('chunks_with_zero');
  }
  compareEvents(c, vp.take(), out.events); compareSent(c, [k], out.sent);
  k.emit('close', false); vp.take(); k.written.length = 0; vp.forget(k.id);
  c.count('chunks', out.events.length); c.count('bytes', total); c.distinct(inp); c.sample(inp);
});
family('N01.text', 3000, 60000, c => {
  const R = c.R, k = new Fake(), echo = R.chance(1, 2), plan = echo ? R.pick(['R:e', 'R:E', 'R:e,R:e', 'R:ge,C:b', 'R:eg,R:']) : 'C:';
  open(k, plan); const out = { events: [], sent: [] }; let inp = plan;
  for (let n = 1 + R.size(8); n-- > 0;) {
    const s = text(R), b = Buffer.from(s); inp += ' ' + JSON.stringify(s.slice(0, 30)); c.input(inp);
    if (echo) { expectData(k, b, out); k.emit('data', b); } else { out.sent.push([k, s]); vp.send(k.id, b); }
    if (s.includes('\0')) c.count('texts_with_zero'); if (s.length && b.length > s.length) c.count('texts_not_ascii');
  }
  compareEvents(c, vp.take(), out.events); compareSent(c, [k], out.sent);
  k.emit('close', true); vp.take(); vp.forget(k.id);
  c.count('texts', out.sent.length); c.distinct(inp); c.sample(inp);
});
function collected(s, n, ms = 20000) { return new Promise((ok, bad) => { let t = setTimeout(() => bad(new Error('no answer')), ms), have = 0; s.on('data', d => { have += d.length; if (have >= n) { clearTimeout(t); ok(); } }); s.on('end', () => { clearTimeout(t); ok(); }); }); }
family('N01.net', 60, 1500, async c => {
  const R = c.R, n = 1 + R.below(4), conns = []; let inp = `${n} clients`;
  const server = net.createServer({ allowHalfOpen: false }, s => { const k = conns.length; open(s, 'R:e,R:,C:'); conns.push(s); });
  await new Promise(r => server.listen(0, '127.0.0.1', r));
  const clients = [];
  for (let i = 0; i < n; ++i) {
    const s = net.connect(server.address().port, '127.0.0.1'); await new Promise(r => s.once('connect', r)); while (conns.length <= i) await tick();
    const parts = []; for (let m = 1 + R.size(10); m-- > 0;) { let t = text(R).replace(/[^\x00-\x7f]/gu, '?'); parts.push(Buffer.from(t)); }
    const got = []; s.on('data', d => got.push(d)); clients.push({ s, parts, got, all: Buffer.concat(parts), closed: new Promise(r => s.once('close', r)) });
    inp += ' ' + parts.map(p => p.length).join('+');
  }
  c.input(inp);
  const order = []; clients.forEach((x, i) => x.parts.forEach(() => order.push(i)));
  for (let i = order.length - 1; i > 0; --i) { const j = R.below(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
  const pos = clients.map(() => 0);
  for (const i of order) { clients[i].s.write(clients[i].parts[pos[i]++]); if (R.chance(1, 3)) await tick(); }
  for (const x of clients) { const t0 = Date.now(); while (Buffer.concat(x.got).length < x.all.length && Date.now() - t0 < 20000) await tick(); x.s.end(); }
  await Promise.all(clients.map(x => x.closed)); await new Promise(r => server.close(r));
  const E = vp.take();
  clients.forEach((x, i) => {
    const id = conns[i].id;
    for (const l of [0, 1]) { const d = Buffer.concat(E.filter(e => e[0] === id && e[1] === l && e[2] === 'R').map(e => e[3])); c.check(Buffer.compare(d, x.all) === 0, 'stream', `listener ${l} of client ${i} is given ${d.length} bytes of ${x.all.length}, or others`); }
    const C = E.filter(e => e[0] === id && e[2] === 'C'); c.check(C.length === 1 && C[0][3] === false, 'closed', `${C.length} calls`);
    c.check(Buffer.compare(Buffer.concat(x.got), x.all) === 0, 'reply', `client ${i} reads ${Buffer.concat(x.got).length} bytes of ${x.all.length}, or others`);
    vp.forget(id); c.count('network_bytes', x.all.length);
  });
  c.count('network_clients', n); c.distinct(inp); c.sample(inp);
});

family('N02.events', 2000, 40000, c => {
  const R = c.R, ks = [], n = 1 + R.below(5), out = { events: [], sent: [] }; let inp = '';
  for (let s = 2 + R.size(30); s-- > 0;) {
    const what = R.below(10);
    if (what === 0 || ks.length === 0) { if (ks.length < n) { const k = new Fake(), p = drawPlan(R, 'gebac'); const before = vp.last(); open(k, p); c.check(k.id === before + 1, 'start', `${k.id - before} servers are created by startServer()`); ks.push(k); inp += ` open[${p}]`; } }
    else {
      const k = R.pick(ks); if (k.gone) continue;
      if (what === 1) { const e = R.chance(1, 2); inp += ` ${k.id - ks[0].id}closed(${e})`; c.input(inp); k.gone = true; expectClose(k, e, out); k.emit('close', e); c.count('closed'); }
      else if (what === 2) { const kind = R.pick('RC'), a = R.pick(['', 'g', 'b']); inp += ` ${k.id - ks[0].id}+${kind}`; vp.listen(k.id, kind, a); k.listeners_.push([kind, a]); }
      else if (what === 3) { vp.send(k.id, Buffer.from('direct')); out.sent.push([k, 'direct']); }
      else if (what === 4) { const e = R.pick(['error', 'end', 'drain', 'timeout', 'connect']); inp += ` ${e}`; if (e !== 'error') k.emit(e); c.check(k.listenerCount('data') === k.listeners_.filter(l => l[0] === 'R').length, 'registered', `${k.listenerCount('data')} data listeners`); }
      else { const d = Buffer.from(text(R).slice(0, 30)); inp += ` ${k.id - ks[0].id}data`; c.input(inp); expectData(k, d, out); k.emit('data', d); c.count('events_data'); }
    }
  }
  for (const k of ks) if (!k.gone) { expectClose(k, false, out); k.emit('close', false); }
  compareEvents(c, vp.take(), out.events); compareSent(c, ks, out.sent);
  for (const k of ks) vp.forget(k.id);
  c.count('connections', ks.length); if (ks.length > 1) c.count('several_connections'); c.distinct(inp); c.sample(inp);
});
family('N02.wrong', 1500, 20000, c => {
  const R = c.R, bad = [undefined, null, 1, 'x', {}, [], true, Symbol('x'), 1n], fn = () => {};
  const thrown = f => { try { f(); } catch (e) { return e; } return null; };
  const what = R.below(5); let inp = '' + what; c.input(inp);
  if (what === 0) { // wrong arguments
    const a = R.pick([[], [fn], [R.pick(bad), fn], [fn, R.pick(bad)], [R.pick(bad), R.pick(bad)], [R.pick(bad)]]), before = vp.last();
    inp += ' ' + a.map(x => typeof x); c.input('connect: ' + inp);
    const e = thrown(() => connect(...a));
    c.check(e instanceof TypeError, 'wrong-arguments', `${e} is thrown`); c.check(vp.last() === before, 'wrong-arguments', 'a server is created'); c.count('wrong_arguments');
  } else {
    const k = new Fake(), n = 1 + R.below(3); const conn = open(k, Array(n).fill('R:').concat(Array(n).fill('C:')).join(','));
    if (what === 1) { // not bytes
      const v = R.pick([undefined, null, 1, 'text', {}, [1, 2], true, new ArrayBuffer(4), new Uint16Array(2)]); inp += ' ' + typeof v; c.input('data: ' + inp);
      const e = thrown(() => R.chance(1, 5) ? k.emit('data') : k.emit('data', v));
      c.check(e instanceof TypeError && vp.take().length === 0, 'wrong-data', `${e} is thrown`); c.count('wrong_data');
    } else if (what === 2) {
      const v = R.pick([undefined, null, 1, 0, 'true', {}]); inp += ' ' + typeof v; c.input('close: ' + inp);
      for (const l of k.listeners('close')) { const e = thrown(() => l(v)); c.check(e instanceof TypeError && vp.take().length === 0, 'wrong-close', `${e} is thrown`); } c.count('wrong_close');
    } else if (what === 3) { // another receiver
      const f = Object.getPrototypeOf(conn).startServer, before = vp.last(), e = thrown(() => f.call(R.pick([{}, Fake, undefined, 1, k]))); c.check(e instanceof TypeError && vp.last() === before, 'wrong-receiver', `${e} is thrown`); c.count('wrong_receiver');
    } else { // more arguments do not matter
      k.emit('data', Buffer.from('a'), 1, 2); k.emit('close', true, 1); const E = vp.take(); c.check(E.length === 2 * n, 'events', `${E.length} calls`);
      vp.forget(k.id); c.count('more_arguments'); c.distinct(inp); return;
    }
    // Everything goes on.
    k.emit('data', Buffer.from('ab')); k.emit('close', false);
    const E = vp.take(); c.check(E.length === 2 * n && E.every(e => e[0] === k.id && (e[2] === 'R' ? e[3].toString() === 'ab' : e[3] === false)), 'afterwards', showEvents(E));
    vp.forget(k.id);
  }
  c.distinct(inp); c.sample(inp);
});
family('N02.intrusive', 400, 8000, async c => {
  const R = c.R, n = 1 + R.below(3), ks = []; let inp = '';
  for (let i = 0; i < n; ++i) {
    const k = new Fake(), left = R.chance(1, 2) ? '' : String(R.below(4)); k.left = left === '' ? Infinity : +left; k.want = []; k.delim = R.pick(['\n', '$', ';']);
    vp.next('I', k.delim.charCodeAt(0), left); const conn = connect(d => { k.write(d); }, (e, f) => { k.on(e, f); }); conn.startServer(); k.id = vp.last(); ks.push(k); inp += ` [${JSON.stringify(k.delim)} ${left}]`;
  }
  for (let s = R.size(12); s-- > 0;) {
    const k = R.pick(ks), req = []; for (let m = 1 + R.below(3); m-- > 0;) req.push('q' + R.below(1000) + 'é'.repeat(R.below(3)));
    inp += ' ' + req.join('|'); c.input(inp);
    for (const q of req) k.want.push((k.left-- > 0 ? '[' + q.replace(/[a-z]/g, x => x.toUpperCase()) + ']' : 'REJECT') + k.delim);
    k.emit('data', Buffer.from(req.join(k.delim) + k.delim));
    if (R.chance(1, 3)) await tick();
  }
  for (const k of ks) k.emit('close', false);
  for (const k of ks) { c.check(JSON.stringify(k.written) === JSON.stringify(k.want), 'answers', `${JSON.stringify(k.written).slice(0, 300)} instead of ${JSON.stringify(k.want).slice(0, 300)}`); c.count('answers', k.want.length); vp.forget(k.id); }
  for (let i = 0; i < 20000 && vp.handlers(); ++i) await tick();
  c.check(vp.handlers() === 0, 'handlers', 'a handler has not ended');
  c.distinct(inp); c.sample(inp); c.count('intrusive_connections', n);
});

// The garbage collector runs at any point of the life of a connection.
family('N03.gc', 1200, 20000, async c => {
  const R = c.R, n = 1 + R.below(4), ks = [], out = { events: [], sent: [] }; let inp = '';
  const gc = () => { R.chance(1, 2) ? global.gc() : global.gc({ type: 'minor' }); };
  for (let i = 0; i < n; ++i) {
    const k = new Fake(), p = drawPlan(R, 'gggmeb'); inp += ` [${p}]`;
    if (R.chance(1, 2)) k.on('close', gc); if (R.chance(1, 3)) k.on('data', gc);
    (() => { open(k, p); })();
    if (R.chance(1, 2)) k.on('close', gc); ks.push(k);
  }
  for (let s = R.size(8); s-- > 0;) {
    const k = R.pick(ks), d = Buffer.from(text(R).slice(0, 20)); c.input(inp);
    if (R.chance(1, 3)) gc(); if (R.chance(1, 6)) await tick();
    if (R.chance(1, 4)) { const kind = R.pick('RC'); vp.listen(k.id, kind, 'g'); k.listeners_.push([kind, 'g']); if (R.chance(1, 2)) k.on('close', gc); }
    expectData(k, d, out); k.emit('data', d); c.count('data_under_gc'); inp += ' d';
  }
  for (const k of ks) { const e = R.chance(1, 2); expectClose(k, e, out); c.input(inp + ' close'); k.emit('close', e); c.count('closed_under_gc', k.listeners_.filter(l => l[0] === 'C').length); }
  compareEvents(c, vp.take(), out.events); compareSent(c, ks, out.sent);
  for (const k of ks) vp.forget(k.id);
  c.distinct(inp); c.sample(inp);
});
// Closed connections are released with everything they hold.
family('N03.release', 60, 1000, async c => {
  const R = c.R, N = 24, kind = c.index % 5, plan = drawPlan(R, 'egmb') + ',R:,C:'; let refs = [];
  const inp = `${['net', 'fake', 'fake late listeners', 'fake dropped', 'not started'][kind]} ${plan}`; c.input(inp);
  await releaseAll(); const live = vp.live();
  const make = () => { const k = new Fake(), send = d => { k.write(d); }, on = (e, f) => { k.on(e, f); }; const conn = connect(send, on); if (kind !== 4) { vp.next(plan); conn.startServer(); k.id = vp.last(); } refs.push([new WeakRef(send), new WeakRef(on), new WeakRef(conn)]); return k; };
  if (kind === 0) {
    const server = net.createServer(s => { const send = d => { if (s.writable) s.write(d); }, on = (e, f) => { s.on(e, f); }; vp.next(plan); const conn = connect(send, on); conn.startServer(); s.id = vp.last(); s.on('error', () => {}); s.on('close', () => vp.forget(s.id)); refs.push([new WeakRef(send), new WeakRef(on), new WeakRef(conn)]); });
    await new Promise(r => server.listen(0, '127.0.0.1', r));
    for (let i = 0; i < N; ++i) { const s = net.connect(server.address().port, '127.0.0.1'); s.on('error', () => {}); s.resume(); s.end('x'.repeat(R.below(100))); await new Promise(r => s.once('close', r)); }
    await new Promise(r => server.close(r));
  } else {
    let ks = []; for (let i = 0; i < N; ++i) ks.push(make());
    global.gc(); if (kind !== 4) for (const r of refs) c.check(r[0].deref() && r[1].deref(), 'released-early', 'functions of an open connection are released');
    if (kind !== 4) for (const k of ks) { if (kind === 2) { vp.listen(k.id, 'C', ''); vp.listen(k.id, 'R', 'g'); } k.emit('data', Buffer.from('abc')); k.emit('close', R.chance(1, 2)); vp.forget(k.id); if (kind === 3) k.removeAllListeners(); }
    ks = null;
  }
  vp.take();
  let left; for (let i = 0; i < 20; ++i) { await releaseAll(); left = [0, 1, 2].map(j => refs.filter(r => r[j].deref()).length); if (left.every(x => x === 0) && vp.live() <= live) break; }
  c.check(left[0] <= N / 2 && left[1] <= N / 2, 'functions-leak', `${left[0]} and ${left[1]} functions of ${N} closed connections are still alive`);
  c.check(left[2] <= N / 2, 'connections-leak', `${left[2]} of ${N} closed connections are still alive`);
  c.check(vp.live() - live < N / 2, 'listeners-leak', `${vp.live() - live} listeners of ${N} closed connections are still alive`);
  c.count('released', N); c.member('release_kinds', String(kind)); c.distinct(inp + c.index); c.sample(inp);
});
// Several servers on one connection.
family('N03.twice', 300, 5000, async c => {
  const R = c.R, k = new Fake(), n = 2 + R.below(2), log = []; let inp = '' + n, id0;
  k.on('close', () => global.gc());
  (() => { const conn = connect(d => { k.write(d); }, (e, f) => { k.on(e, f); }); for (let i = 0; i < n; ++i) { vp.next('R:e,C:'); conn.startServer(); if (i === 0) id0 = vp.last(); if (R.chance(1, 2)) global.gc(); } })();
  c.check(vp.last() === id0 + n - 1, 'start', `${vp.last() - id0 + 1} servers instead of ${n}`);
  k.on('close', () => global.gc());
  for (let m = R.below(4); m-- > 0;) { const d = Buffer.from(text(R).slice(0, 20)); inp += ' ' + d.length; c.input(inp); k.emit('data', d); for (let i = 0; i < n; ++i) log.push([id0 + i, 0, 'R', d]); if (R.chance(1, 2)) await tick(); }
  const e = R.chance(1, 2); k.emit('close', e); for (let i = 0; i < n; ++i) log.push([id0 + i, 1, 'C', e]);
  compareEvents(c, vp.take(), log); for (let i = 0; i < n; ++i) vp.forget(id0 + i);
  if (R.chance(1, 4)) await releaseAll();
  c.count('started_again', n - 1); c.distinct(inp); c.sample(inp);
});
// Messages are not kept.
family('N03.messages', 24, 400, async c => {
  const R = c.R, k = new Fake(), size = 20000 + R.below(100000), n = 100, back = R.chance(1, 2), plan = back ? 'R:e,R:' : 'R:,R:'; k.write = () => {};
  c.input(`${n} messages of ${size}, echo ${back}`); (() => { open(k, plan); })();
  const d = Buffer.alloc(size, 97), round = async () => { for (let i = 0; i < n; ++i) { k.emit('data', d); vp.take(); if (i % 20 === 0) await tick(); } await releaseAll(); return vp.heap(); };
  await round(); const h1 = await round(), h2 = await round(), h3 = await round();
  c.check(Math.min(h2 - h1, h3 - h2) < size * n / 4, 'messages-leak', `${h2 - h1} and ${h3 - h2} bytes stay after ${n} messages of ${size} bytes`);
  k.emit('close', false); vp.take(); vp.forget(k.id);
  c.count('messages', 4 * n); c.distinct(`${size} ${back}`); c.sample(`${n} messages of ${size}, echo ${back}`);
});

async function main() {
  const start = Date.now();
  line(''); process.on('uncaughtException', e => { if (!(e instanceof Fail)) line(`\nVP-FAIL ${where} key=exception msg=${String(e && e.stack).replace(/[^\x20-\x7e]/g, '?').slice(0, 1200)} input=${current}\n`); process.exit(1); });
  const m = { exports: {} }; where = `family=${A.prop}boot case=0 seed=${A.seed}`;
  process.dlopen(m, addon, os.constants.dlopen.RTLD_NOW);
  connect = m.exports;
  const boot = new Fake(); connect(d => boot.write(d), (e, f) => boot.on(e, f)).startServer(); vp = global.__vp;
  if (!vp) throw new Error('startServer() does not start a server');
  boot.emit('close', false); vp.take(); vp.forget(1);
  const todo = families.filter(f => f.name.startsWith(A.prop) && (!A.family || A.family === f.name));
  for (let t = 0; t < todo.length; ++t) {
    const f = todo[t], end = Date.now() + (start + A.budget * 1000 - Date.now()) / (todo.length - t);
    const N = Math.max(1, Math.floor((A.thorough ? f.thorough : f.quick) * A.scale)); let failed = 0;
    for (let i = A.shard; i < N || A.only >= 0; i += A.shards) {
      if (A.only >= 0) i = A.only; if (Date.now() > end && i >= A.shards) break;
      where = `family=${f.name} case=${i} seed=${A.seed}`; current = ''; vp.begin(where, A.alarm);
      const c = new Case(new Rng(mix(mix(A.seed) ^ hash(f.name) ^ mix(BigInt(i) * 2654435761n & M64))), i);
      try { const p = f.body(c); if (p) await p; else if (i % 64 === 0) await tick(); }
      catch (e) { ++failed; ++failures; if (!(e instanceof Fail)) line(`\nVP-FAIL ${where} key=exception msg=${String(e && e.stack).replace(/[^\x20-\x7e]/g, '?').slice(0, 1200)} input=${current}\n`); vp.take(); }
      ++evaluations; perFamily[f.name] = (perFamily[f.name] || 0) + 1;
      if (!failed) { for (const [n, k] of c.pc) counters[n] = (counters[n] || 0) + k; for (const h of c.pd) hashes.add(h); for (const [n, h] of c.ps) (sets[n] = sets[n] || new Set()).add(h); const S = samples[f.name] = samples[f.name] || []; if (c.smp && S.length < 2) S.push(c.smp); }
      if (failed >= 2 || A.only >= 0) break;
    }
  }
  if (A.out) {
    fs.writeFileSync(A.out, JSON.stringify({ evaluations, failures, wall: (Date.now() - start) / 1000, families: perFamily, counters, sets: Object.fromEntries(Object.entries(sets).map(([n, s]) => [n, [...s]])), samples }));
    const b = Buffer.alloc(8 * hashes.size); let i = 0; for (const h of hashes) b.writeBigUInt64LE(h, 8 * i++); fs.writeFileSync(A.out + '.hashes', b);
  }
  line(`VP-DONE evaluations=${evaluations} failures=${failures}\n`);
  process.exit(failures ? 1 : 0);
}
main().catch(e => { line(`\nVP-FAIL ${where} key=exception msg=${String(e && e.stack).replace(/[^\x20-\x7e]/g, '?').slice(0, 1200)} input=${current}\n`); process.exit(1); });
