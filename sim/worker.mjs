// Executes cases of one property. Also used in-process by --replay.
import { workerData, parentPort, isMainThread } from 'node:worker_threads';
import { Rng, hash32 } from './rng.mjs';
import { execute } from './world.mjs';
import { setDict } from './schema.mjs';
import { readFileSync } from 'node:fs';
import { spawnSync } from 'node:child_process';
import { PROPS0 } from './props.mjs';
import { C13, C15 } from './api.mjs';
import { clone } from './schema.mjs';

const BASE_DICT = JSON.parse(readFileSync(new URL('./base-dict.json', import.meta.url)));
const PROPS = { ...PROPS0, C13, C15 };
// The same scenario natively, under Go's race detector. What races is named by the
// innermost functions of gql on both sides.
function native(build, api) {
  const p = spawnSync(build + '/apirace', [], { input: JSON.stringify(api), env: { GORACE: 'halt_on_error=0 exitcode=66 history_size=5 atexit_sleep_ms=0', GOGC: 'off', GOMEMLIMIT: '1GiB', GOMAXPROCS: '1', GODEBUG: 'asyncpreemptoff=1', PATH: '/bin' }, encoding: 'utf8', timeout: 60000, maxBuffer: 1 << 28, cwd: '/' });
  if (p.error && p.error.code !== 'ETIMEDOUT') throw new Error('cannot run apirace: ' + p.error);
  const err = p.stderr ?? ''; let race = null; const at = err.indexOf('WARNING: DATA RACE');
  if (at >= 0) { const secs = err.slice(at).split('==================')[0].split(/\n\n/).slice(0, 2); race = secs.map(s => { const fs = s.split('\n').filter(l => /^  \S.*\(\)$/.test(l)).map(l => l.trim()); return (fs.find(f => f.includes('CrowdStrike/gql/') && !f.includes('/verifsim/')) ?? fs.find(f => !f.startsWith('runtime.')) ?? fs[0] ?? '?').replace(/^.*CrowdStrike\/gql\//, ''); }).sort().join(' and '); }
  return { exit: p.status === 66 && race ? 0 : p.status ?? 134, stdout: p.stdout ?? '', stderr: err, race, timeout: p.error?.code === 'ETIMEDOUT' };
}
export function makeRunner({ build, modules, dict, tier, seed, prop, selfcheck = 0 }) {
  if (dict) setDict(dict, BASE_DICT);
  const P = PROPS[prop]; if (!P) throw new Error('no such property ' + prop);
  const S = { execs: 0, cases: 0, nontrivial: 0, simNs: 0, calls: 0, fired: {}, probes: {}, traces: new Set(), selfchecks: 0, mismatch: null, errors: [], samples: [], rechecked: 0 };
  let sinceGc = 0, nt = false, check = false, logOn = false, lastLog = null, scns = null;
  const gc = () => { if (++sinceGc >= 24 && globalThis.gc) { sinceGc = 0; globalThis.gc(); } };
  const ctx = {
    tier,
    ex(scn, prev, which = 'cli') {
      gc(); if (logOn) scn = { ...scn, log: true }; scns?.push(scn);
      const x = execute(modules[which], scn, prev); S.execs++; S.calls += x.calls; S.simNs += x.simNs; S.traces.add(x.trace); for (const k in x.fired) S.fired[k] = (S.fired[k] ?? 0) + x.fired[k];
      if (logOn) lastLog = x.log;
      if (check && !prev) { const y = execute(modules[which], scn); S.selfchecks++; if (x.trace !== y.trace || x.stdout !== y.stdout || x.exit !== y.exit || x.calls !== y.calls || x.stderr !== y.stderr || x.simNs !== y.simNs) S.mismatch = { prop, scn }; }
      return x;
    },
    native(api) { S.execs++; return native(build, api); }, interleaving(sig) { S.traces.add('i' + sig); },
    api(scn) { return ctx.ex(scn, undefined, 'api'); },
    probe(n) { S.probes[n] = (S.probes[n] ?? 0) + 1; }, hit(n) { S.fired[n] = (S.fired[n] ?? 0) + 1; }, nontrivial() { nt = true; },
  };
  const genCase = i => { const r = new Rng('case', seed, prop, i); return P.gen(r, tier); };
  return {
    P, S, genCase,
    runCase(i) { const c = genCase(i); nt = false; check = selfcheck > 0 && i % selfcheck === 0; const keep = S.samples.length < 1 && i < 64 ? clone(c) : null; const v = P.run(c, ctx); check = false; S.cases++; if (nt) S.nontrivial++; if (keep && nt) S.samples.push(keep); return v ? { c, v } : null; },
    judge(c, log = false, cls) { logOn = log; lastLog = null; try { let v = P.run(c, ctx); for (let k = 0; k < 8 && !v && cls === 'race'; k++) v = P.run(c, ctx); return v; } finally { logOn = false; } },
    lastLog: () => lastLog,
    minimise(c0, v0, ms) {
      let c = clone(c0), v = v0; const t0 = Date.now(); let tried = 0, kept = 0; const same = w => w && w.cls === v0.cls;
      { const d = clone(c); let w = P.run(d, ctx); for (let k = 0; k < 8 && v0.cls === 'race' && !same(w); k++) w = P.run(d, ctx); if (!same(w)) return { c: c0, v: v0, tried, kept, lost: true }; c = d; v = w; }
      for (let again = true; again && Date.now() - t0 < ms;) {
        again = false;
        for (const cand of P.shrink(c)) { if (Date.now() - t0 > ms) break; tried++; let d, w; try { d = clone(cand); if (JSON.stringify(d) === JSON.stringify(c)) continue; w = P.run(d, ctx); } catch { continue; } if (same(w)) { c = d; v = w; kept++; again = true; break; } }
      }
      return { c, v, tried, kept };
    },
  };
}
export const fixedCases = prop => PROPS[prop].fixed ?? [];
const strip = S => ({ ...S, traces: [...S.traces] });

if (!isMainThread && workerData?.sim) {
  const { sab, n, deadline } = workerData; const ctl = new Int32Array(sab); // [0]=next index, [1]=stop at index, then per worker: [current index, ticks]
  const P0 = PROPS[workerData.prop]; const me = workerData.slot; const R = makeRunner(workerData);
  parentPort.on('message', m => {
    if (m.go) {
      let done = 0; const viol = [];
      for (;;) {
        const i = Atomics.add(ctl, 0, 1); if (i >= n || i >= Atomics.load(ctl, 1) || Date.now() > deadline) { if (i < n && i < Atomics.load(ctl, 1)) Atomics.store(ctl, 2, 1); break; }
        Atomics.store(ctl, 4 + 2 * me, i); Atomics.add(ctl, 5 + 2 * me, 1);
        try { const f = R.runCase(i); if (f) { viol.push({ i, ...f }); parentPort.postMessage({ violation: { i, c: f.c, v: f.v } }); } } catch (e) { R.S.errors.push(`case ${i}: ${e.stack}`); if (R.S.errors.length > 3) break; }
        done++; if (R.S.mismatch) break;
      }
      Atomics.store(ctl, 4 + 2 * me, -1);
      parentPort.postMessage({ done: strip(R.S) });
    } else if (m.fixed) { parentPort.postMessage({ fixed: P0.fixed.map(c => R.judge(clone(c))) });
    } else if (m.min) { Atomics.store(ctl, 4 + 2 * me, -2); parentPort.postMessage({ min: R.minimise(m.c, m.v, m.ms) }); }
    else if (m.log) { Atomics.store(ctl, 4 + 2 * me, -2); const v = R.judge(m.c, true, m.cls); parentPort.postMessage({ log: R.lastLog(), v }); }
  });
}
