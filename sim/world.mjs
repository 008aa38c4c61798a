// The simulated operating system: everything the tool can observe or affect goes
// through the WASI calls implemented here. No call reaches the real system.
//
// A scenario is plain JSON:
//   argv, env           command line and environment
//   nodes               [{path, kind:'file'|'dir'|'symlink', data|b64, target, denied, statSize, fifo}]
//   stdin               text (or {b64})
//   stdinOpen           nothing more ever arrives on standard input, not even its end
//   stdio               {in, out: 'char'|'pipe'|'file', before}: what the streams are; bytes already consumed from a file
//   sched               {seed}: hash seeds, map order, goroutine order, listing order, clock
//   delivery            {seed, mode, eintr, delay, wait}: how reads are divided and disturbed; wait: standard input does not
//                       block, bytes become available at chosen instants
//   faults              [{op, path, nth, errno | short, sticky}]
//   writers             [{at, do:'replace'|'remove'|'create'|'append'|'truncate', path, data}]
//   fdLimit, killAt, maxCalls
import { Rng, hash32 } from './rng.mjs';

export const E = { SUCCESS: 0, E2BIG: 1, EACCES: 2, EAGAIN: 6, EBADF: 8, EBUSY: 10, EEXIST: 20, EINTR: 27, EINVAL: 28, EIO: 29, EISDIR: 31, ELOOP: 32, EMFILE: 33, ENAMETOOLONG: 37, ENFILE: 41, ENODEV: 43, ENOENT: 44, ENOMEM: 48, ENOSPC: 51, ENOSYS: 52, ENOTDIR: 54, ENOTEMPTY: 55, ENXIO: 60, EPERM: 63, EPIPE: 64, EROFS: 69, ESPIPE: 70, ESTALE: 72, ETIMEDOUT: 73, ENOTCAPABLE: 76 };
const ERRNAME = Object.fromEntries(Object.entries(E).map(([k, v]) => [v, k]));
// What the Go syscall package prints for each error the simulator injects.
export const ERRTEXT = { EACCES: /permission denied/i, EIO: /i\/o error|input\/output error/i, EMFILE: /too many open files/i, ENFILE: /file ?table overflow|too many open files/i, ENOENT: /no such file|not exist|does not exist/i, EISDIR: /is a directory/i, ELOOP: /too many (levels of )?symbolic links|symbolic link loop/i, ENOMEM: /cannot allocate memory|out of memory|not enough space/i, ESTALE: /stale/i, ETIMEDOUT: /timed out/i, EPERM: /not permitted/i, ENXIO: /no such device or address/i, ENODEV: /no such device|not supported by device/i, EBUSY: /busy/i, ENOTDIR: /not a directory/i, ENOTCAPABLE: /capabilit/i };

const FT_CHAR = 2, FT_DIR = 3, FT_FILE = 4, FT_SOCK = 6, FT_LINK = 7; const STREAM = { char: FT_CHAR, pipe: FT_SOCK, file: FT_FILE };
const enc = new TextEncoder(), dec = new TextDecoder('utf-8');
export function toBytes(x) { if (x == null) return new Uint8Array(0); if (x instanceof Uint8Array) return x; if (typeof x === 'string') return enc.encode(x); if (x.b64 != null) return new Uint8Array(Buffer.from(x.b64, 'base64')); throw new Error('bad data'); }

class Exit { constructor(code) { this.code = code; } }
class Killed { }
class Hung { }

class Node { constructor(kind) { this.kind = kind; this.entries = kind === 'dir' ? new Map() : null; this.data = kind === 'file' ? new Uint8Array(0) : null; this.target = null; this.denied = false; this.statSize = null; this.fifo = null; this.ino = 0; } }

// Bytes a run can read: the step bound grows with them.
function inputSize(scn) { let n = scn.stdin?.length ?? 0; for (const f of scn.nodes ?? []) n += f.data?.length ?? 0; for (const w of scn.writers ?? []) n += w.data?.length ?? 0; return n; }
export class World {
  constructor(scn) {
    this.scn = scn; this.ino = 1; this.ages = new Rng('ages', scn.sched?.seed ?? 0); this.inoBase = this.ages.int(1000003); this.inoStep = 1 + this.ages.int(1000002); this.root = this.mk('dir');
    this.rand = new Rng('rand', scn.sched?.seed ?? 0);
    this.order = new Rng('order', scn.sched?.seed ?? 0);
    const clk = new Rng('clock', scn.sched?.seed ?? 0);
    this.real0 = [1000n, 946684800000000000n, 1600000000000000000n, 1700000000000000000n, 4102444800000000000n][clk.weighted([[0, 0.5], [1, 1], [2, 4], [3, 4], [4, 1]])] + BigInt(clk.u32()) * 100000000n; this.mono = BigInt(clk.int(1e9)) + 1n; this.mono0 = this.mono;
    this.clockStep = BigInt([1, 1000, 1000000, 50000000][clk.int(4)]); this.clockJump = clk.chance(0.25) ? clk : null; this.stall = new Rng('stall', scn.sched?.seed ?? 0); if (!this.stall.chance(0.3)) this.stall = null; // the machine stands still for milliseconds to hours
    this.maxCalls = scn.maxCalls ?? 200000 + 16 * inputSize(scn); this.calls = 0; this.counts = new Map(); this.sites = []; this.fired = {}; this.mutations = []; this.peakFds = 0; this.trace = 0x811c9dc5 >>> 0;
    this.out = []; this.err = []; this.outCalls = 0; this.log = scn.log ? [] : null; this.missed = [];
    for (const n of scn.nodes ?? []) this.put(n);
    this.fds = new Map();
    const io = scn.stdio ?? {}, before = io.in === 'file' ? toBytes(io.before) : new Uint8Array(0);
    this.fds.set(0, { dev: 'stdin', path: 'stdin', pos: before.length, data: before.length ? Buffer.concat([before, toBytes(scn.stdin)]) : toBytes(scn.stdin), type: STREAM[io.in] });
    this.fds.set(1, { dev: 'stdout', path: 'stdout', type: STREAM[io.out] }); this.fds.set(2, { dev: 'stderr', path: 'stderr' });
    this.fds.set(3, { node: this.root, path: '/', pos: 0, pre: true });
    this.writers = (scn.writers ?? []).map(w => ({ ...w })).sort((a, b) => a.at - b.at); this.wi = 0;
    this.faults = new Map(); for (const f of scn.faults ?? []) { const k = f.op + ' ' + f.path; if (!this.faults.has(k)) this.faults.set(k, []); this.faults.get(k).push(f); }
  }
  mk(kind) { const n = new Node(kind); n.ino = (this.inoStep * this.ino++ + this.inoBase) % 1000003 + 1; n.age = this.ages.int(8) ? BigInt(Math.floor(10 ** (this.ages.int(16500) / 1000))) * (this.ages.int(12) ? 1n : -1n) : 0n; return n; }
  put(spec) {
    const parts = spec.path.split('/').filter(Boolean); let d = this.root;
    for (let i = 0; i < parts.length - 1; i++) { let c = d.entries.get(parts[i]); if (!c) { c = this.mk('dir'); d.entries.set(parts[i], c); } d = c; }
    const name = parts[parts.length - 1]; let n = d.entries.get(name);
    if (!n || n.kind !== spec.kind || spec.kind === 'file') { n = this.mk(spec.kind); d.entries.set(name, n); }
    if (spec.kind === 'file') n.data = toBytes(spec.b64 != null ? { b64: spec.b64 } : spec.data);
    if (spec.kind === 'symlink') n.target = spec.target;
    n.denied = !!spec.denied; n.statSize = spec.statSize ?? null; if (spec.fifo) n.fifo = { pos: 0 }; return n;
  }
  // A picture of the whole tree, to check nothing changed.
  snapshot() { const out = []; const walk = (n, p) => { if (n.kind === 'dir') { out.push(p + '/'); for (const k of [...n.entries.keys()].sort()) walk(n.entries.get(k), p + '/' + k); } else if (n.kind === 'symlink') out.push(p + ' -> ' + n.target); else out.push(p + ' ' + n.data.length + ' ' + hash32(Buffer.from(n.data).toString('latin1'))); }; walk(this.root, ''); return out.join('\n'); }
  resolve(path, follow, depth = 0) { // -> [errno, node, parent, name, abspath]
    let cur = this.root, stack = [], parts = path.split('/').filter(x => x && x !== '.'), abs = [];
    for (let i = 0; i < parts.length; i++) {
      const nm = parts[i];
      if (nm === '..') { if (stack.length) { cur = stack.pop(); abs.pop(); } continue; }
      if (cur.kind !== 'dir') return [E.ENOTDIR];
      const c = cur.entries.get(nm);
      const last = i === parts.length - 1;
      if (!c) return [E.ENOENT, null, last ? cur : null, nm, '/' + abs.concat(nm).join('/')];
      if (c.kind === 'symlink' && (!last || follow)) {
        if (depth > 20) return [E.ELOOP];
        const t = c.target.startsWith('/') ? c.target : '/' + abs.join('/') + '/' + c.target;
        const rest = parts.slice(i + 1).join('/');
        return this.resolve(t + (rest ? '/' + rest : ''), follow, depth + 1);
      }
      stack.push(cur); abs.push(nm); cur = c;
    }
    return [0, cur, stack[stack.length - 1] ?? null, abs[abs.length - 1] ?? '', '/' + abs.join('/')];
  }
  // Every simulated system call passes here: other processes act, faults strike.
  enter(op, path) {
    this.calls++;
    if (this.calls > this.maxCalls) throw new Hung();
    while (this.wi < this.writers.length && this.writers[this.wi].at <= this.calls) { this.act(this.writers[this.wi]); this.wi++; }
    if (this.scn.killAt && this.calls >= this.scn.killAt) { this.hit('kill'); throw new Killed(); }
    const key = op + ' ' + path, nth = (this.counts.get(key) ?? 0) + 1; this.counts.set(key, nth);
    this.sites.push([op, path, nth]);
    let f = null; for (const c of this.faults.get(key) ?? []) if (c.nth === nth || (c.sticky && nth >= c.nth)) { f = c; break; }
    this.mix(key); if (f) { this.hit(f.errno ? `${op}:${f.errno}` : f.short != null ? `${op}:short` : `${op}:?`); this.mix('!' + (f.errno ?? 'short' + f.short)); }
    if (this.log && this.log.length < 5000) this.log.push(`${this.calls} ${key}#${nth}${f ? ' FAULT ' + (f.errno ?? 'short ' + f.short) : ''}`);
    return [nth, f];
  }
  mix(s) { let h = this.trace; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) >>> 0; } this.trace = h; }
  hit(k) { this.fired[k] = (this.fired[k] ?? 0) + 1; }
  act(w) {
    const [e, node, parent, name] = this.resolve(w.path, false);
    if (this.log) this.log.push(`   writer ${w.do} ${w.path} before call ${this.calls}`);
    if (w.do === 'replace' || w.do === 'create') { this.put({ path: w.path, kind: 'file', data: w.data }); }
    else if (w.do === 'remove') { if (e === 0 && parent) parent.entries.delete(name); else return; }
    else if (w.do === 'mkdir') { this.put({ path: w.path, kind: 'dir' }); }
    else if (e === 0 && node.kind === 'file') { // in place
      if (w.do === 'truncate') node.data = node.data.slice(0, w.size); else if (w.do === 'append') node.data = Buffer.concat([node.data, toBytes(w.data)]); else if (w.do === 'overwrite') node.data = toBytes(w.data);
    } else return;
    this.hit('writer:' + w.do); this.mix('w' + w.do + w.path);
  }
  mutate(what) { this.mutations.push(what); if (this.log) this.log.push('   MUTATION ' + what); }

  imports() {
    const W = this; let mem; this.bind = (inst) => { mem = inst.exports.memory; };
    let dvBuf, dvv, u8v; const dv = () => { if (dvBuf !== mem.buffer) { dvBuf = mem.buffer; dvv = new DataView(dvBuf); u8v = new Uint8Array(dvBuf); } return dvv; }; const u8 = () => { dv(); return u8v; };
    const str = (p, n) => dec.decode(u8().slice(p, p + n));
    const iovs = (p, n) => { const d = dv(), r = []; for (let i = 0; i < n; i++) r.push([d.getUint32(p + 8 * i, true), d.getUint32(p + 8 * i + 4, true)]); return r; };
    const tick = () => { W.mono += W.clockStep; if (W.stall && W.stall.chance(0.04)) W.mono += BigInt(Math.floor(10 ** (6 + W.stall.int(7000) / 1000))); if (W.clockJump && W.clockJump.chance(0.1)) W.real0 += BigInt(W.clockJump.int(2e9) - 1e9) * 1000000n; };
    const args = (W.scn.argv ?? ['gql']).map(a => enc.encode(a + '\0')); const envs = Object.entries(W.scn.env?.GOGC === 'off' ? { GOMEMLIMIT: '300MiB', ...W.scn.env } : W.scn.env ?? {}).map(([k, v]) => enc.encode(`${k}=${v}\0`));
    const sizes = (list, a, b) => { dv().setUint32(a, list.length, true); dv().setUint32(b, list.reduce((s, x) => s + x.length, 0), true); return 0; };
    const get = (list, a, b) => { for (const x of list) { dv().setUint32(a, b, true); a += 4; u8().set(x, b); b += x.length; } return 0; };
    const fd = n => W.fds.get(n);
    const abs = (dirfd, p, n) => { const d = fd(dirfd); return (d.path === '/' ? '/' : d.path + '/') + str(p, n); };
    const norm = p => { const o = []; for (const x of p.split('/')) { if (!x || x === '.') continue; if (x === '..') o.pop(); else o.push(x); } return '/' + o.join('/'); };
    const filestat = (buf, node, f) => {
      const d = dv(); for (let i = 0; i < 64; i += 8) d.setBigUint64(buf + i, 0n, true);
      d.setBigUint64(buf, 1n, true); d.setBigUint64(buf + 8, BigInt(node ? node.ino : 1000), true); d.setBigUint64(buf + 24, 1n, true);
      d.setUint8(buf + 16, !node ? f?.type ?? FT_CHAR : node.fifo ? FT_SOCK : node.kind === 'dir' ? FT_DIR : node.kind === 'symlink' ? FT_LINK : FT_FILE);
      const size = !node ? (f?.type === FT_FILE ? f.data ? f.data.length : W.out.reduce((a, b) => a + b.length, 0) : 0) : node.fifo ? 0 : node.kind === 'file' ? (node.statSize ?? node.data.length) : node.kind === 'symlink' ? node.target.length : 4096;
      if (node && node.kind === 'file' && node.statSize != null) W.hit('stat:wrong-size');
      d.setBigUint64(buf + 32, BigInt(size), true); for (const o of [40, 48, 56]) d.setBigUint64(buf + o, node && W.real0 > node.age ? W.real0 - node.age : W.real0, true);
    };
    const errOf = f => E[f.errno];
    // How many of `want` available bytes this read delivers.
    const deliver = (path, nth, want) => {
      const dl = W.scn.delivery; if (!dl || want === 0) return want;
      const r = new Rng(dl.seed, path, nth); const far = nth > 3000; // large files: larger pieces after a while
      if (dl.delay && r.chance(dl.delay)) { W.mono += BigInt(r.int(3600)) * 1000000000n; W.hit('read:delay'); }
      let n = want;
      switch (dl.mode) { case 'one': n = far ? r.range(1, 400) : 1; break; case 'small': n = r.range(1, far ? 1000 : 7); break; case 'rand': n = r.range(1, Math.max(1, want)); break; case 'mixed': n = r.chance(0.5) ? want : r.range(1, 64); break; case 'half': n = Math.max(1, want >> 1); break; }
      n = Math.min(n, want); if (n < want) W.hit('read:short'); return n;
    };
    // The instant at which the next read of a stream that does not block finds something.
    const waits = f => f.dev === 'stdin' && f.type !== FT_FILE && W.scn.delivery?.wait > 0;
    const due = f => { if (f.due == null) { const r = new Rng(W.scn.delivery.seed, 'due', f.reads = (f.reads ?? 0) + 1); f.due = W.mono + (r.chance(W.scn.delivery.wait) ? BigInt(Math.floor(10 ** (r.int(13000) / 1000))) : 0n); } return f.due; };
    const eintr = (op, path, nth) => { const dl = W.scn.delivery; if (!dl || !dl.eintr) return false; const r = new Rng(dl.seed, 'eintr', op, path, nth); if (r.chance(dl.eintr)) { W.hit(op + ':EINTR'); return true; } return false; };
    const read = (n, iv, ivn, out, off) => {
      const f = fd(n); if (!f) return E.EBADF; tick();
      const [nth, flt] = W.enter('read', f.path);
      if (flt && flt.errno) return errOf(flt);
      if (f.dev && f.dev !== 'stdin') return E.EBADF;
      if (!f.dev && f.node.kind === 'dir') return E.EISDIR;
      if (eintr('read', f.path, nth)) return E.EINTR;
      if (waits(f)) { if (due(f) > W.mono) { W.hit('read:EAGAIN'); return E.EAGAIN; } f.due = null; }
      const data = f.dev ? f.data : f.node.data; if (f.node?.fifo && off != null) return E.ESPIPE; const src = f.node?.fifo ?? f; let pos = off != null ? Number(off) : src.pos;
      const vs = iovs(iv, ivn); const cap = vs.reduce((s, v) => s + v[1], 0);
      let want = Math.min(cap, Math.max(0, data.length - pos)); if (flt && flt.short != null) want = Math.min(want, flt.short);
      if (W.scn.stdinOpen && f.dev && want === 0 && cap > 0) { W.hit('stdin:never'); throw new Hung(); }
      want = deliver(f.path, nth, want); let left = want;
      for (const [p, l] of vs) { const k = Math.min(l, left); if (k <= 0) break; u8().set(data.subarray(pos, pos + k), p); pos += k; left -= k; }
      if (off == null) src.pos = pos; if (want === 0 && cap > 0) f.eof = true;
      dv().setUint32(out, want, true); return 0;
    };
    const write = (n, iv, ivn, out, off) => {
      const f = fd(n); if (!f) return E.EBADF; tick();
      const [nth, flt] = W.enter('write', f.path);
      if (flt && flt.errno && !(flt.partial > 0)) return errOf(flt);
      if (f.dev === 'stdin') return E.EBADF;
      if (f.dev && eintr('write', f.path, nth)) return E.EINTR;
      const vs = iovs(iv, ivn); let buf = Buffer.concat(vs.map(([p, l]) => Buffer.from(u8().slice(p, p + l))));
      const dl = W.scn.delivery; if (dl && dl.shortWrites && f.dev && buf.length > 1) { const r = new Rng(dl.seed, 'sw', f.path, nth); if (r.chance(dl.shortWrites)) { buf = buf.subarray(0, r.range(1, buf.length - 1)); W.hit('write:short'); } }
      if (flt && flt.short != null) buf = buf.subarray(0, Math.max(1, Math.min(buf.length, flt.short)));
      if (flt && flt.partial > 0) { f.dead = flt; buf = buf.subarray(0, Math.min(buf.length, flt.partial)); }
      if (f.dev === 'stdout') W.out.push(buf); else if (f.dev === 'stderr') W.err.push(buf);
      else { if (!f.wr) return E.EBADF; W.mutate('write ' + f.path); let pos = off != null ? Number(off) : f.append ? f.node.data.length : f.pos; const nb = Buffer.alloc(Math.max(f.node.data.length, pos + buf.length)); nb.set(f.node.data); nb.set(buf, pos); f.node.data = nb; if (off == null) f.pos = pos + buf.length; }
      dv().setUint32(out, buf.length, true); return 0;
    };
    const alloc = () => { let n = 4; while (W.fds.has(n)) n++; return n; };
    const pathMut = (op, fn) => (...a) => { const p = norm(abs(a[0], a[1], a[2])); tick(); const [, flt] = W.enter(op, p); W.mutate(op + ' ' + p); if (flt && flt.errno) return errOf(flt); return fn(p, ...a); };
    const api = {
      args_sizes_get: (a, b) => sizes(args, a, b), args_get: (a, b) => get(args, a, b),
      environ_sizes_get: (a, b) => sizes(envs, a, b), environ_get: (a, b) => get(envs, a, b),
      clock_time_get: (id, _p, out) => { tick(); dv().setBigUint64(out, id === 0 ? W.real0 + W.mono : W.mono, true); return 0; },
      clock_res_get: (_id, out) => { dv().setBigUint64(out, 1n, true); return 0; },
      random_get: (p, n) => { W.rand.bytes(u8().subarray(p, p + n)); return 0; },
      sched_yield: () => { W.calls++; if (W.calls > W.maxCalls) throw new Hung(); return 0; },
      proc_exit: c => { throw new Exit(c); }, proc_raise: () => { throw new Exit(134); },
      poll_oneoff: (inp, outp, n, nev) => {
        W.calls++; if (W.calls > W.maxCalls) throw new Hung();
        let k = 0, min = null; const d = dv(); const ev = [];
        for (let i = 0; i < n; i++) { const s = inp + 48 * i, ty = d.getUint8(s + 8); if (ty === 0) { let t = d.getBigUint64(s + 24, true); const absF = d.getUint16(s + 40, true) & 1; const at = absF ? t : W.mono + t; ev.push([d.getBigUint64(s, true), 0, at]); if (min == null || at < min) min = at; } else { const f = ty === 1 ? fd(d.getUint32(s + 16, true)) : null, at = f && waits(f) ? due(f) : W.mono; ev.push([d.getBigUint64(s, true), ty, at]); if (min == null || at < min) min = at; } }
        if (min != null && min > W.mono) { W.mono = min; W.hit(ev.some(e => e[1] && e[2] === min) ? 'input:wait' : 'timer'); }
        const ready = ev.filter(e => e[1] !== 0 && e[2] <= W.mono), pick = ready.length ? ready : ev.filter(e => e[2] <= W.mono);
        for (const e of pick) { const o = outp + 32 * k; d.setBigUint64(o, e[0], true); d.setUint16(o + 8, 0, true); d.setUint8(o + 10, e[1]); d.setBigUint64(o + 16, 1n, true); k++; }
        d.setUint32(nev, k, true); return 0;
      },
      fd_read: (n, iv, c, o) => read(n, iv, c, o, null), fd_pread: (n, iv, c, off, o) => read(n, iv, c, o, off),
      fd_write: (n, iv, c, o) => write(n, iv, c, o, null), fd_pwrite: (n, iv, c, off, o) => write(n, iv, c, o, off),
      fd_close: n => { const f = fd(n); if (!f) return E.EBADF; tick(); const [, flt] = W.enter('close', f.path); W.fds.delete(n); return flt && flt.errno ? errOf(flt) : 0; },
      fd_prestat_get: (n, b) => { if (n !== 3) return E.EBADF; dv().setUint8(b, 0); dv().setUint32(b + 4, 1, true); return 0; },
      fd_prestat_dir_name: (n, p) => { u8()[p] = 47; return 0; },
      fd_fdstat_get: (n, b) => { const f = fd(n); if (!f) return E.EBADF; const d = dv(); for (let i = 0; i < 24; i += 8) d.setBigUint64(b + i, 0n, true); d.setUint8(b, f.dev ? f.type ?? FT_CHAR : f.node.fifo ? FT_SOCK : f.node.kind === 'dir' ? FT_DIR : FT_FILE); d.setUint16(b + 2, (f.append ? 1 : 0) | (waits(f) ? 4 : 0), true); d.setBigUint64(b + 8, 0x1fffffffn, true); d.setBigUint64(b + 16, 0x1fffffffn, true); return 0; },
      fd_fdstat_set_flags: () => 0, fd_fdstat_set_rights: () => 0, fd_advise: () => 0,
      fd_filestat_get: (n, b) => { const f = fd(n); if (!f) return E.EBADF; tick(); const [, flt] = W.enter('fstat', f.path); if (flt && flt.errno) return errOf(flt); filestat(b, f.dev ? null : f.node, f); return 0; },
      fd_seek: (n, off, wh, out) => { const f = fd(n); if (!f) return E.EBADF; if (f.dev ? f.dev !== 'stdin' || f.type !== FT_FILE : f.node.fifo) return E.ESPIPE; W.enter('seek', f.path); const base = wh === 0 ? 0 : wh === 1 ? f.pos : (f.dev ? f : f.node).data.length; const np = base + Number(off); if (np < 0) return E.EINVAL; f.pos = np; dv().setBigUint64(out, BigInt(np), true); return 0; },
      fd_tell: (n, out) => { const f = fd(n); if (!f) return E.EBADF; dv().setBigUint64(out, BigInt(f.pos || 0), true); return 0; },
      fd_sync: () => 0, fd_datasync: () => 0, fd_renumber: () => E.ENOSYS,
      fd_filestat_set_size: (n, sz) => { const f = fd(n); if (!f) return E.EBADF; W.mutate('truncate ' + f.path); if (f.node) { const nb = Buffer.alloc(Number(sz)); nb.set(f.node.data.subarray(0, Number(sz))); f.node.data = nb; } return 0; },
      fd_filestat_set_times: n => { W.mutate('utimes ' + (fd(n)?.path)); return 0; }, fd_allocate: n => { W.mutate('allocate ' + (fd(n)?.path)); return 0; },
      fd_readdir: (n, buf, len, cookie, out) => {
        const f = fd(n); if (!f) return E.EBADF; tick(); const [, flt] = W.enter('readdir', f.path); if (flt && flt.errno) return errOf(flt);
        if (f.dev || f.node.kind !== 'dir') return E.ENOTDIR;
        const max = flt && flt.short != null ? flt.short : Infinity; // listing delivered in pieces
        if (cookie === 0n || !f.list) { const names = [...f.node.entries.entries()].map(([k, v]) => [k, v]); names.sort((a, b) => a[0] < b[0] ? -1 : 1); W.order.shuffle(names); f.list = [['.', f.node], ['..', W.root], ...names]; }
        let i = Number(cookie), used = 0, cnt = 0;
        while (i < f.list.length && used < len && cnt < max) {
          const [nm, nd] = f.list[i], nb = enc.encode(nm), rec = new Uint8Array(24 + nb.length), rd = new DataView(rec.buffer);
          rd.setBigUint64(0, BigInt(i + 1), true); rd.setBigUint64(8, BigInt(nd.ino), true); rd.setUint32(16, nb.length, true); rd.setUint8(20, nd.kind === 'dir' ? FT_DIR : nd.kind === 'symlink' ? FT_LINK : nd.fifo ? FT_SOCK : FT_FILE); rec.set(nb, 24);
          const k = Math.min(rec.length, len - used); u8().set(rec.subarray(0, k), buf + used); used += k; i++; cnt++;
        }
        dv().setUint32(out, used, true); return 0;
      },
      path_open: (dfd, dfl, p, l, ofl, rb, ri, ffl, out) => {
        const path = norm(abs(dfd, p, l)); tick(); const [nth, flt] = W.enter('open', path); if (flt && flt.errno) return errOf(flt);
        if (eintr('open', path, nth)) return E.EINTR;
        const wr = (rb & (1n << 6n)) !== 0n, creat = ofl & 1, dirOnly = ofl & 2, excl = ofl & 4, trunc = ofl & 8;
        if (path === '/dev/stdin' && !wr) { const f0 = fd(0), n = alloc(); if (!f0) return E.ENXIO; W.fds.set(n, f0.type === FT_FILE ? { ...f0, pos: 0 } : f0); W.peakFds = Math.max(W.peakFds, W.fds.size - 4); dv().setUint32(out, n, true); return 0; }
        let [e, node, parent, name, ap] = W.resolve(path, (dfl & 1) !== 0 && !excl);
        if (e === E.ENOENT && creat && parent) { W.mutate('create ' + path); node = W.mk('file'); parent.entries.set(name, node); e = 0; }
        else if (e) return e; else if (creat && excl) return E.EEXIST;
        if (node.kind === 'symlink') return E.ELOOP;
        if (node.denied) { W.hit('open:denied'); return E.EACCES; }
        if (dirOnly && node.kind !== 'dir') return E.ENOTDIR;
        if (wr && node.kind === 'dir') { if (creat || trunc) return E.EISDIR; }
        else if (wr) W.mutate('open-for-writing ' + path);
        if (trunc) { W.mutate('truncate ' + path); node.data = new Uint8Array(0); }
        if (W.fds.size - 1 >= (W.scn.fdLimit ?? Infinity)) { W.hit('open:EMFILE-limit'); return E.EMFILE; }
        const n = alloc(); W.fds.set(n, { node, path: ap ?? path, pos: 0, wr: wr && node.kind !== 'dir', append: (ffl & 1) !== 0 }); W.peakFds = Math.max(W.peakFds, W.fds.size - 4);
        dv().setUint32(out, n, true); return 0;
      },
      path_filestat_get: (dfd, fl, p, l, b) => { const path = norm(abs(dfd, p, l)); tick(); const [, flt] = W.enter('stat', path); if (flt && flt.errno) return errOf(flt); if (path === '/dev/stdin' && fd(0)) { filestat(b, null, fd(0)); return 0; } const [e, node] = W.resolve(path, (fl & 1) !== 0); if (e) return e; filestat(b, node); return 0; },
      path_readlink: (dfd, p, l, buf, len, out) => { const path = norm(abs(dfd, p, l)); tick(); const [, flt] = W.enter('readlink', path); if (flt && flt.errno) return errOf(flt); const [e, node] = W.resolve(path, false); if (e) return e; if (node.kind !== 'symlink') return E.EINVAL; const t = enc.encode(node.target).subarray(0, len); u8().set(t, buf); dv().setUint32(out, t.length, true); return 0; },
      path_create_directory: pathMut('mkdir', p => { const [e, , par, nm] = W.resolve(p, false); if (e === 0) return E.EEXIST; if (!par) return E.ENOENT; par.entries.set(nm, W.mk('dir')); return 0; }),
      path_unlink_file: pathMut('unlink', p => { const [e, nd, par, nm] = W.resolve(p, false); if (e) return e; if (nd.kind === 'dir') return E.EISDIR; par.entries.delete(nm); return 0; }),
      path_remove_directory: pathMut('rmdir', p => { const [e, nd, par, nm] = W.resolve(p, false); if (e) return e; if (nd.kind !== 'dir') return E.ENOTDIR; if (nd.entries.size) return E.ENOTEMPTY; par.entries.delete(nm); return 0; }),
      path_filestat_set_times: (f, _fl, p, l) => pathMut('utimes', () => 0)(f, p, l),
      path_symlink: (op, ol, dfd, p, l) => { const path = norm(abs(dfd, p, l)); W.mutate('symlink ' + path); const t = str(op, ol); W.put({ path, kind: 'symlink', target: t }); return 0; },
      path_link: (ofd, ofl, op, ol, dfd, p, l) => { const path = norm(abs(dfd, p, l)); W.mutate('link ' + path); const [e, nd] = W.resolve(norm(abs(ofd, op, ol)), true); if (e) return e; const [e2, , par, nm] = W.resolve(path, false); if (e2 === 0) return E.EEXIST; if (!par) return E.ENOENT; par.entries.set(nm, nd); return 0; },
      path_rename: (ofd, op, ol, dfd, p, l) => { const a = norm(abs(ofd, op, ol)), b = norm(abs(dfd, p, l)); W.mutate('rename ' + a + ' ' + b); const [e, nd, par, nm] = W.resolve(a, false); if (e) return e; const [, , par2, nm2] = W.resolve(b, false); if (!par2) return E.ENOENT; par.entries.delete(nm); par2.entries.set(nm2, nd); return 0; },
      sock_accept: () => E.ENOSYS, sock_shutdown: () => E.ENOSYS, sock_recv: () => E.ENOSYS, sock_send: () => E.ENOSYS,
    };
    return { wasi_snapshot_preview1: api };
  }
}

// ---- machines ---------------------------------------------------------------------
// Making a WebAssembly instance costs more than a typical run, so instances are used
// again: before each run memory and globals get the contents a fresh instance has.
// compile() adds exports for the module's mutable globals, which makes that possible.
export function compile(bytes) {
  const b = Buffer.from(bytes); const leb = p => { let r = 0, s = 0; for (;;) { const x = b[p++]; r += (x & 127) * 2 ** s; s += 7; if (!(x & 128)) return [r, p]; } };
  const enc = n => { const o = []; do { let x = n & 127; n = Math.floor(n / 128); if (n) x |= 128; o.push(x); } while (n); return Buffer.from(o); };
  const out = [b.subarray(0, 8)]; const muts = []; let imported = 0;
  for (let p = 8; p < b.length;) {
    const id = b[p]; const [n, q] = leb(p + 1); let body = b.subarray(q, q + n);
    if (id === 2) { let [c, k] = leb(q); for (; c; c--) { for (let i = 0; i < 2; i++) { const [l, m] = leb(k); k = m + l; } const kind = b[k++]; if (kind !== 0) throw new Error('unexpected import kind ' + kind); k = leb(k)[1]; } }
    if (id === 6) { let [c, k] = leb(q); for (let g = 0; g < c; g++) { const mut = b[k + 1]; k += 2; if (b[k] !== 0x41 && b[k] !== 0x42) throw new Error('unexpected global initialiser'); k++; while (b[k] & 128) k++; k++; if (b[k++] !== 0x0b) throw new Error('unexpected global initialiser'); if (mut) muts.push(g + imported); } }
    if (id === 7) { const [c, k] = leb(q); body = Buffer.concat([enc(c + muts.length), b.subarray(k, q + n), ...muts.map(g => { const nm = Buffer.from('sim.g' + g); return Buffer.concat([enc(nm.length), nm, Buffer.from([3]), enc(g)]); })]); }
    out.push(Buffer.from([id]), enc(body.length), body); p = q + n;
  }
  return new WebAssembly.Module(Buffer.concat(out));
}
const machines = new WeakMap(); const LARGE = 40 << 20;
function machine(module) {
  let m = machines.get(module);
  if (m) { const mem = new Uint8Array(m.inst.exports.memory.buffer); mem.set(m.image); mem.fill(0, m.image.length); for (const [g, v] of m.globals) g.value = v; return m; }
  m = { W: null }; const names = WebAssembly.Module.imports(module).map(i => i.name); const imp = {}; for (const n of names) imp[n] = (...a) => { for (let i = 0; i < a.length; i++) if (typeof a[i] === 'number') a[i] >>>= 0; return m.api[n](...a); }; // addresses beyond 2 GB
  m.inst = new WebAssembly.Instance(module, { wasi_snapshot_preview1: imp }); m.image = new Uint8Array(m.inst.exports.memory.buffer).slice(); m.globals = Object.entries(m.inst.exports).filter(([k]) => k.startsWith('sim.g')).map(([, g]) => [g, g.value]);
  if (m.globals.length) machines.set(module, m); return m;
}

// Runs the module once in a fresh world. Everything in the result is a function of
// (module, scenario) alone.
// With one thread the Go collector can fall behind code that allocates large blocks without
// pausing, and 4 GB fill up with garbage. Running out of memory therefore only counts when it
// also happens with a collector that stops the program.
export function execute(module, scn, prev) {
  const x = execute1(module, scn, prev);
  if (x.exit !== 2 || !/out of memory/.test(x.stderr) || x.mutations.length || scn.env?.GODEBUG) return x;
  return execute1(module, { ...scn, env: { ...scn.env, GOGC: '100', GODEBUG: 'gcstoptheworld=1' } }, prev);
}
function execute1(module, scn, prev) { // prev: a finished world whose file system is carried over
  const W = new World(prev ? { ...scn, nodes: [] } : scn); if (prev) { W.root = prev.root; W.ino = prev.ino; W.inoBase = prev.inoBase; W.inoStep = prev.inoStep; W.fds.get(3).node = W.root; } const before = scn.snapshot ? W.snapshot() : null;
  const m = machine(module), inst = m.inst; m.api = W.imports().wasi_snapshot_preview1; W.bind(inst);
  let exit = null, killed = false, hung = false, trap = null;
  try { inst.exports._start(); exit = 0; } catch (e) { if (e instanceof Exit) exit = e.code; else if (e instanceof Killed) killed = true; else if (e instanceof Hung) hung = true; else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) trap = String(e.message); else throw e; }
  if (trap || hung || inst.exports.memory.buffer.byteLength > LARGE) machines.delete(module);
  const cat = xs => Buffer.concat(xs);
  const outB = cat(W.out); let stderr = cat(W.err).toString('utf8');
  if (exit === 97 && stderr.includes('SIM-STEP-BUDGET')) hung = true;
  return { exit, killed, hung, trap, stdout: outB.toString('utf8'), stdoutB: outB, stderr, calls: W.calls, simNs: Number(W.mono - W.mono0), fired: W.fired, sites: W.sites, mutations: W.mutations, peakFds: W.peakFds, leaked: W.fds.size - 4, trace: hash32(W.trace, outB.length, exit), changed: before != null ? before !== W.snapshot() : false, world: W, log: W.log, pendingWriters: W.writers.length - W.wi };
}
