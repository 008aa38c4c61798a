// node --expose-gc main.mjs --prop C01 --build DIR [--tier quick] [--seed 1] [--n N] [--workers K] [--cap SECONDS]
//                           | --prop C01 --build DIR --replay FILE
// Exit 0: held. 1: VIOLATION printed. 3: the check itself is in trouble.
import { Worker } from 'node:worker_threads';
import { readFileSync, writeFileSync, mkdirSync, existsSync } from 'node:fs';
import { spawnSync } from 'node:child_process';
import { dirname, join, resolve } from 'node:path';
import { fileURLToPath } from 'node:url';
import { compile } from './world.mjs';
import { makeRunner, fixedCases as fixedOf } from './worker.mjs';
import { CFG } from './config.mjs';
import { clone } from './schema.mjs';

const HERE = dirname(fileURLToPath(import.meta.url)), VERIF = resolve(HERE, '..');
const opt = {}; for (let i = 2; i < process.argv.length; i++) { const a = process.argv[i]; if (a.startsWith('--')) opt[a.slice(2)] = process.argv[i + 1]?.startsWith('--') ?? true ? true : process.argv[++i]; }
const prop = opt.prop, tier = opt.tier ?? process.env.VERIF_TIER ?? 'quick', seed = Number(opt.seed ?? process.env.VERIF_SEED ?? 1) || 0;
const show = s => String(s).replace(/[\x00-\x08\x0b-\x1f\x7f-\x9f]/g, c => '\\x' + c.charCodeAt(0).toString(16).padStart(2, '0')).slice(0, 2000);
const die = m => { console.error('check: ' + m); process.exit(3); };
const cfg = CFG[prop]; if (!cfg) die('unknown property ' + prop);
const load = f => compile(readFileSync(join(opt.build, f)));
const modules = {}; for (const k of cfg.modules ?? ['cli']) modules[k] = load(k + '.wasm');
const dict = existsSync(join(opt.build, 'wasm/dict.json')) ? JSON.parse(readFileSync(join(opt.build, 'wasm/dict.json'))) : null;
const base = { build: resolve(opt.build ?? '.'), modules, dict, tier, seed, prop };

const fixedCases = fixedOf(prop);
const t0 = Date.now();
const workers = Number(opt.workers ?? 8), n = Number(opt.n ?? cfg[tier].n), cap = Number(opt.cap ?? cfg[tier].cap);
const sab = new SharedArrayBuffer(4 * (6 + 2 * Math.max(workers, 1))); const ctl = new Int32Array(sab);
const HANG_S = Number(opt.hang ?? 90);
function start(slot, stackSizeMb = 64) { return new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { sim: true, ...base, sab, n, slot, deadline: t0 + cap * 1000, selfcheck: opt.selfcheck != null ? Number(opt.selfcheck) : cfg.selfcheck ?? 40 }, resourceLimits: { stackSizeMb } }); }
// Sends one request to a fresh worker; null when it does not answer in time.
function ask(msg, ms) { return new Promise(res => { const w = start(0, 1000); const t = setTimeout(() => { w.terminate(); res(null); }, ms); w.on('message', m => { clearTimeout(t); w.terminate(); res(m); }); w.on('error', e => { clearTimeout(t); res({ error: String(e.stack) }); }); w.postMessage(msg); }); }

if (opt.replay) {
  const f = JSON.parse(readFileSync(opt.replay)); if (f.property !== prop) die(`replay file is for ${f.property}`);
  base.tier = f.tier; base.seed = f.seed;
  const r = await ask({ log: true, c: f.case, cls: f.violation.cls }, 600000);
  const v = r == null ? { cls: 'hang', text: 'does not end' } : r.v; if (r?.error) die(r.error);
  if (v) { console.log(show(`${v.cls}: ${v.text}`)); console.log(`VIOLATION property=${prop} replay=${opt.replay}`); console.log(v.cls === f.violation.cls && v.text === f.violation.text ? 'reproduced exactly' : `differs from the recorded violation (${f.violation.cls}: ${f.violation.text})`); process.exit(1); }
  console.log('no violation'); process.exit(0);
}

// ---- known findings: a committed list, never written here
//   known: property=ID cls=CLASS match=/REGEXP/ WHAT FAILS
//   fixed: property=ID COMMIT WHAT FAILED
const known = []; if (existsSync(join(VERIF, 'known-findings.txt'))) for (const l of readFileSync(join(VERIF, 'known-findings.txt'), 'utf8').split('\n')) { const m = /^known: property=(\S+) cls=(\S+) match=\/(.*)\/ (.*)$/.exec(l); if (m && m[1] === prop) known.push({ cls: m[2], match: m[3], what: m[4] }); else if (/^known:/.test(l) && !m) die('known-findings.txt: ' + l); }
const isKnown = v => known.find(k => k.cls === v.cls && new RegExp(k.match).test(v.text));

// The inputs of known findings, next to the search.
const fixed = cfg.fixed && !opt.nofixed ? new Promise(res => { const w = start(workers, 1000); const t = setTimeout(() => { w.terminate(); res(null); }, 300000); w.on('message', m => { clearTimeout(t); w.terminate(); res(m.fixed ?? null); }); w.on('error', () => { clearTimeout(t); res(null); }); w.postMessage({ fixed: true }); }) : null;
const res = await new Promise(done => {
  const out = { stats: [], viol: [], hung: [] }; let live = 0; ctl[1] = n; const ws = [];
  const finish = () => { clearInterval(tm); done(out); };
  for (let s = 0; s < workers; s++) {
    ctl[4 + 2 * s] = -1; const w = start(s); ws[s] = { w, last: -1, at: Date.now(), alive: true }; live++;
    w.on('message', m => {
      if (m.violation) { const { i, v } = m.violation; const k = isKnown(v); out.viol.push({ ...m.violation, known: k }); if (!k) { let cur = Atomics.load(ctl, 1); if (i < cur) Atomics.store(ctl, 1, i); } }
      if (m.done) { out.stats.push(m.done); ws[s].alive = false; w.terminate(); if (--live === 0) finish(); }
    });
    w.on('error', e => { if (!ws[s].alive) return; ws[s].alive = false; out.stats.push({ execs: 0, cases: 0, nontrivial: 0, simNs: 0, calls: 0, fired: {}, probes: {}, traces: [], selfchecks: 0, mismatch: null, errors: [String(e.stack)], samples: [] }); if (--live === 0) finish(); });
    w.postMessage({ go: true });
  }
  const tm = setInterval(() => { // a run that never comes back is a violation too: code that loops without taking a counted step
    for (let s = 0; s < workers; s++) { const x = ws[s]; if (!x.alive) continue; const i = Atomics.load(ctl, 4 + 2 * s), k = Atomics.load(ctl, 5 + 2 * s); if (i < 0 || k !== x.last) { x.last = k; x.at = Date.now(); continue; } if (Date.now() - x.at > HANG_S * 1000) { x.alive = false; x.w.terminate(); out.hung.push(i); if (--live === 0) finish(); } }
  }, 1000);
});

const T = { execs: 0, cases: 0, nontrivial: 0, simNs: 0, calls: 0, fired: {}, probes: {}, selfchecks: 0 }; const traces = new Set(); const errors = []; const samples = []; let mismatch = null;
for (const s of res.stats) { for (const k of ['execs', 'cases', 'nontrivial', 'simNs', 'calls', 'selfchecks']) T[k] += s[k]; for (const g of ['fired', 'probes']) for (const k in s[g]) T[g][k] = (T[g][k] ?? 0) + s[g][k]; for (const t of s.traces) traces.add(t); errors.push(...s.errors); samples.push(...s.samples); if (s.mismatch) mismatch = s.mismatch; }
const seen = new Set(); const fx = await fixed; if (fx) for (const v of fx) { if (!v) continue; const k = isKnown(v); if (k) seen.add(k); else res.viol.push({ i: -1, c: clone(fixedCases[fx.indexOf(v)]), v }); }
for (const x of res.viol) if (x.known) seen.add(x.known);
let viol = res.viol.filter(x => !x.known).sort((a, b) => a.i - b.i);
if (!viol.length && res.hung.length) { const R = makeRunner(base); const i = Math.min(...res.hung); viol = [{ i, c: R.genCase(i), v: { cls: 'hang', text: `case ${i} does not end` }, hung: true }]; }
const secs = (Date.now() - t0) / 1000; let status = 0, replayPath = null;
if (viol.length) {
  const f = viol[0]; const budget = Number(opt.minms ?? 45000); let m = { c: f.c, v: f.v, tried: 0, kept: 0 };
  if (!f.hung) { const a = await ask({ min: true, c: f.c, v: f.v, ms: budget }, budget + 120000); if (a?.min && !a.min.lost) m = a.min; else if (a?.min?.lost && f.v.cls !== 'race') { errors.push(`violation of case ${f.i} (${f.v.cls}: ${f.v.text}) did not repeat: the simulation is not deterministic`); m = null; } }
  if (m) {
    let log = null; if (!f.hung) { const a = await ask({ log: true, c: clone(m.c), cls: m.v.cls }, 120000); log = a?.log ?? null; if (a?.v) m.v = a.v; }
    mkdirSync(join(VERIF, 'replays'), { recursive: true }); replayPath = join(VERIF, 'replays', `${prop}-${tier}-${seed}-${f.i}.json`);
    writeFileSync(replayPath, JSON.stringify({ property: prop, tier, seed, index: f.i, violation: m.v, case: m.c, shrink: { candidates: m.tried, accepted: m.kept }, trace: log }, null, 1));
    status = 1; console.log(show(`${m.v.cls}: ${m.v.text}`));
    if (!f.hung && !opt.noverify) { const p = spawnSync(process.execPath, ['--expose-gc', join(HERE, 'main.mjs'), '--prop', prop, '--build', opt.build, '--replay', replayPath], { encoding: 'utf8' }); console.log(`replayed in a fresh process: ${p.status === 1 && p.stdout.includes('reproduced exactly') ? 'reproduced exactly' : 'status ' + p.status + ' ' + p.stdout}`); }
    console.log(`case ${f.i} of seed ${seed}; shrunk with ${m.tried} candidate runs, ${m.kept} accepted`);
    console.log(`VIOLATION property=${prop} replay=${replayPath}`);
  }
}
for (const k of known) if (seen.has(k) || !fx) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
if (status === 0 && mismatch) errors.push('self-check: the same scenario gave two different executions: ' + JSON.stringify(mismatch).slice(0, 2000));
if (errors.length) for (const e of errors.slice(0, 5)) console.error('check: ' + e);
if (status === 0 && errors.length) status = 3;
const perHour = x => Math.round(x / secs * 3600);
const ev = { property: prop, tier, seed, level: cfg.level ?? 'exploration', coverage: {
  evaluations: T.execs, distinct_nontrivial: T.nontrivial, rule: cfg.rule + ' A case is one seed, evaluated over several simulated runs; cases of different seeds are independent draws; those whose run reached what the property is about are counted as non-trivial.', samples: samples.slice(0, 3).map(s => { const t = JSON.stringify(s); return t.length > 6000 ? t.slice(0, 6000) + '…' : s; }),
  simulated_runs: T.execs, seeds: T.cases, seeds_requested: n, cut_short_by_time: Atomics.load(ctl, 2) === 1, runs_per_hour: perHour(T.execs), seeds_per_hour: perHour(T.cases), search_s: secs, simulated_seconds: T.simNs / 1e9, system_calls: T.calls,
  fault_kinds_fired: Object.fromEntries(Object.entries(T.fired).sort()), rare_conditions_reached: Object.fromEntries(Object.entries(T.probes).sort()),
  distinct_executions: traces.size, distinct_executions_measure: 'hash of the sequence of system calls with their paths, the faults and writers that struck, the output length and the exit status', determinism_rechecks: T.selfchecks, workers,
  real_components: cfg.real ?? ['all of gql: main, cmd, cmd/linter, cmd/compare, pkg/linter, pkg/compare, utils, the embedded lexer', 'gqlparser, cobra, pflag', 'Go standard library and runtime (allocator, collector, maps, goroutine scheduler), compiled to WebAssembly'], stub_components: cfg.stub ?? ['the operating system: files, directories, descriptors, standard streams, clock, randomness, arguments and environment (sim/world.mjs)'],
}, assumptions: cfg.assumptions ?? ['the WebAssembly build of the Go code behaves like the native build given the same system-call results, hash seeds and scheduling choices', 'file names in the scenarios are Unix paths'], wall_s: (Date.now() - t0) / 1000, violations: status === 1 ? 1 : 0 };
if (!opt.noevidence) { mkdirSync(join(VERIF, 'evidence'), { recursive: true }); writeFileSync(join(VERIF, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1)); }
console.log(`${prop} ${tier} seed=${seed}: ${T.cases} cases, ${T.execs} simulated runs, ${traces.size} distinct executions, ${T.nontrivial} non-trivial, ${secs.toFixed(1)} s${status === 0 ? ': held' : ''}`);
if (opt.stats) console.log(JSON.stringify({ fired: T.fired, probes: T.probes }, null, 1));
process.exit(status);
