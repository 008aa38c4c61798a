// The properties: how a case is generated, run and judged, and how it is shrunk.
//   gen(r, tier) -> case (plain JSON)      run(case, ctx) -> null | {cls, text}
//   shrink(case) -> iterator of smaller cases
// ctx.ex(scn) executes a scenario; ctx.probe(name) counts rare conditions reached;
// ctx.nontrivial() marks the case as one that exercised what the property is about.
import { Rng } from './rng.mjs';
import { Gen, DICT, LARGE, clone, layout, nodesOf, items, splitItem, renderFile, mkStyle, mkNames, finishLayout, absPath, linkSame } from './schema.mjs';
import { refDiff, parseCompare, matchChanges, stripEmptyNotices } from './refdiff.mjs';
import { RULES, refLint, parseLint, matchFindings } from './reflint.mjs';
import { HOME_NODES, mkEnv, mkSched, baseScn, mkEdits, cmpArgv, cmpFlags, mkCompare, mkLint, mkLintFile, renderLint, lintArgv, breakText } from './work.mjs';
import { ERRTEXT } from './world.mjs';

const first = (s, n = 300) => { s = String(s); return s.length > n ? s.slice(0, n) + '…' : s; };
export function crash(x) { if (x.trap) return { cls: 'crash', text: 'trap: ' + x.trap }; if (x.hung) return { cls: 'hang', text: 'does not end within the step bound' }; if (x.exit != null && x.exit !== 0 && x.exit !== 1 || /^(panic:|fatal error:)/m.test(x.stderr)) return { cls: 'crash', text: `exit ${x.exit}: ${first(x.stderr, 400)}` }; return null; }
const VERDICT = /Schema has no lint errors|Total lint errors found|No changes found on schema compare|No breaking changes found|Breaking changes in schema:/;
export function diffAt(a, b) { const x = a.split('\n'), y = b.split('\n'); for (let i = 0; i < Math.max(x.length, y.length); i++) if (x[i] !== y[i]) return `line ${i + 1}: ${JSON.stringify(first(x[i] ?? '(none)', 160))} / ${JSON.stringify(first(y[i] ?? '(none)', 160))}`; return 'no difference'; }
const same = (a, b) => a.exit === b.exit && a.stdout === b.stdout;

// ---- shrinking of concrete scenarios ---------------------------------------------
const lines = s => s.split('\n');
export function* shrinkList(xs) { for (let w = Math.ceil(xs.length / 2); w >= 1; w = w > 1 ? Math.ceil(w / 2) : 0) { for (let i = 0; i < xs.length; i += w) yield [...xs.slice(0, i), ...xs.slice(i + w)]; if (w === 1) break; } }
function* shrinkNodes(nodes) {
  const own = nodes.filter(n => !HOME_NODES.some(h => h.path === n.path)); const rest = nodes.filter(n => !own.includes(n));
  for (const ns of shrinkList(own)) yield [...rest, ...ns];
  for (const n of own) if (n.kind === 'file' && typeof n.data === 'string' && n.data) { const at = nodes.indexOf(n); for (const l of shrinkList(lines(n.data))) { const c = nodes.slice(); c[at] = { ...n, data: l.join('\n') }; yield c; } }
  if (rest.length) yield own;
}
export function* shrinkScn(scn) {
  for (const k of ['faults', 'writers']) if (scn[k]?.length) for (const l of shrinkList(scn[k])) yield { ...scn, [k]: l };
  if (scn.delivery) { const { delivery, ...o } = scn; yield o; for (const k of ['eintr', 'delay', 'wait', 'shortWrites']) if (delivery[k]) yield { ...scn, delivery: { ...delivery, [k]: 0 } }; }
  if (scn.env && Object.keys(scn.env).length > 1) yield { ...scn, env: { PWD: '/' } };
  if (scn.fdLimit) { const { fdLimit, ...o } = scn; yield o; }
  for (const ns of shrinkNodes(scn.nodes)) yield { ...scn, nodes: ns };
  if (typeof scn.stdin === 'string' && scn.stdin) for (const l of shrinkList(lines(scn.stdin))) yield { ...scn, stdin: l.join('\n') };
  if (scn.argv.length > 4) for (let i = 2; i < scn.argv.length; i++) { if (/^-(b|e)$|^--(breaking|exclude)/.test(scn.argv[i])) yield { ...scn, argv: scn.argv.filter((_, j) => j !== i) }; if (/^-r$|^--rules$/.test(scn.argv[i])) yield { ...scn, argv: scn.argv.filter((_, j) => j !== i && j !== i + 1) }; }
}
function* shrinkBase(c) { for (const b of shrinkScn(c.base)) yield { ...c, base: b }; }

// ---- C01, C02: determinism --------------------------------------------------------
const mkStdio = r => ({ in: r.pick(['char', 'pipe', 'file']), out: r.pick(['char', 'pipe', 'file']) });
function envVariant(r, env) { const e = { ...mkEnv(r) }; e.PWD = '/'; return r.chance(0.6) ? e : env; }
const determinism = (id, gen0) => ({
  id,
  gen(r, tier) { const base = gen0(r); const n = tier === 'thorough' ? 8 : 5; return { base, vars: Array.from({ length: n }, () => ({ sched: mkSched(r), env: envVariant(r, base.env), ...(r.chance(0.3) ? { stdio: mkStdio(r) } : {}) })) }; },
  run(c, ctx) {
    const a = ctx.ex(c.base); const cr = crash(a); if (cr && cr.cls === 'hang') return cr; if (a.stdout.split('\n').length > 2) ctx.nontrivial();
    for (const v of c.vars) { const b = ctx.ex({ ...c.base, ...v }); if (!same(a, b)) return { cls: a.exit !== b.exit ? 'status' : 'output', text: a.exit !== b.exit ? `exit ${a.exit} and ${b.exit} for the same input` : `same input, different output at ${diffAt(a.stdout, b.stdout)}` }; }
    return null;
  },
  *shrink(c) { if (c.vars.length > 1) for (const vs of shrinkList(c.vars)) if (vs.length) yield { ...c, vars: vs }; if (c.vars.some(v => v.env !== undefined)) yield { ...c, vars: c.vars.map(v => ({ ...v, env: c.base.env })) }; yield* shrinkBase(c); },
});
export const C01 = determinism('C01', r => {
  const w = mkCompare(r); const scn = w.scn; // ties: everything on one line makes every change share a location
  if (r.chance(0.08)) { const f = r.pick(scn.nodes.filter(n => n.kind === 'file')); f.data = breakText(r, f.data); if (r.chance(0.5)) { const g = r.pick(scn.nodes.filter(n => n.kind === 'file')); g.data = breakText(r, g.data); } }
  return scn;
});
export const C02 = determinism('C02', r => {
  const w = mkLint(r); const scn = w.scn;
  if (r.chance(0.2)) { const g = new Rng('x', r.u32()); const k = r.range(1, 3); for (let i = 0; i < k; i++) { const f = r.pick(w.L.files); const n = scn.nodes.find(n => n.path === absPath(f.path)); n.data = breakText(g, n.data); } }
  if (r.chance(0.08)) { scn.stdin = w.L.files[0].text; scn.argv = lintArgv(r, null, w.rules); }
  return scn;
});

// ---- C03: delivery of bytes -------------------------------------------------------
const MODES = ['one', 'small', 'rand', 'mixed', 'half', 'all'];
const mkDelivery = r => ({ seed: r.u32(), mode: r.pick(MODES), eintr: r.pick([0, 0, 0.1, 0.5]), delay: r.pick([0, 0.2, 0.8]), wait: r.pick([0, 0, 0.3, 1]), shortWrites: r.pick([0, 0, 0, 0.5]) });
export const C03 = {
  id: 'C03',
  gen(r, tier) {
    const lint = r.chance(0.6); const big = r.chance(0.1);
    let scn, L = null, rules = null; if (lint) { const w = mkLint(r, big ? { n: r.range(1, 3) } : {}); scn = w.scn; L = w.L; rules = w.rules; } else scn = mkCompare(r).scn;
    if (r.chance(0.12)) { const f = r.pick(scn.nodes.filter(n => n.kind === 'file')); f.data = breakText(r, f.data); }
    const fs = scn.nodes.filter(n => n.kind === 'file' && n.path !== '/etc/hostname');
    if (big) for (const f of fs) if (r.chance(0.5)) f.data += '\n' + ('# ' + 'long comment '.repeat(r.range(1, 8)) + '\n').repeat(r.range(20, r.chance(0.3) ? 2500 : 300)) + (r.chance(0.5) ? 'type Tail { x: Int }\n' : '');
    const c = { base: scn, vars: [] };
    if (lint && r.chance(0.45)) { const f = r.pick(L.files); const node = scn.nodes.find(n => n.path === absPath(f.path)); c.pipe = { file: f.path, argvFile: lintArgv(r, esc(f.path), rules), argvPipe: lintArgv(r, null, rules), argvDev: lintArgv(r, '/dev/stdin', rules), data: node.data }; }
    for (let i = tier === 'thorough' ? 6 : 3; i > 0; i--) { const v = { delivery: mkDelivery(r), sched: mkSched(r) }; if (r.chance(0.35)) v.sizes = fs.filter(() => r.chance(0.6)).map(f => [f.path, r.pick([0, 1, 5, 511, 512, 4096, 1 << 20, Math.max(0, f.data.length - 1)])]); if (c.pipe) { v.stdio = mkStdio(r); if (v.stdio.in === 'file' && r.chance(0.4)) v.stdio.before = r.pick(['type Earlier { a: Int }\n', '\n', '}\n', '#lint-disable type-desc\n', 'x'.repeat(r.range(1, 9000))]); if (r.chance(0.12) && v.stdio.before == null) v.dev = true; } if (r.chance(0.25)) v.fifos = fs.filter(() => r.chance(0.6)).map(f => f.path); if (r.chance(0.25)) v.links = fs.filter(() => r.chance(0.5)).map(f => f.path); c.vars.push(v); }
    return c;
  },
  run(c, ctx) {
    const judge = (a, b, what) => crash(b) && !crash(a) ? crash(b) : a.exit !== b.exit ? { cls: 'status', text: `${what}: exit ${a.exit} / ${b.exit}` } : a.stdout !== b.stdout ? { cls: 'output', text: `${what}: ${diffAt(a.stdout, b.stdout)}` } : null;
    const vary = (scn, v) => {
      const s = { ...scn, delivery: v.delivery, sched: v.sched, nodes: scn.nodes.map(n => ({ ...n })) };
      for (const p of v.fifos ?? []) for (const n of s.nodes) if (n.path === p && n.kind === 'file') n.fifo = true;
      for (const [p, k] of v.sizes ?? []) for (const n of s.nodes) if (n.path === p && n.kind === 'file') n.statSize = k;
      for (const p of v.links ?? []) { const i = s.nodes.findIndex(n => n.path === p); if (i >= 0) { const t = '/store/' + i + '.blob'; s.nodes.push({ ...s.nodes[i], path: t }); s.nodes[i] = { path: p, kind: 'symlink', target: t }; } }
      return s;
    };
    if (c.pipe) {
      const A = ctx.ex({ ...c.base, argv: c.pipe.argvFile }), name = c.pipe.file; const strip = s => stripEmptyNotices(stripEmptyNotices(s, [name], [esc(name)]), ['/dev/stdin'], ['/dev/stdin']).split(name).join('<in>').split('/dev/stdin').join('<in>');
      const a = { ...A, stdout: strip(A.stdout) };
      for (const v of c.vars) { const B = ctx.ex({ ...c.base, argv: v.dev ? c.pipe.argvDev : c.pipe.argvPipe, ...(v.stdio ? { stdio: v.stdio } : {}), stdin: c.pipe.data, delivery: v.delivery, sched: v.sched }); const e = judge(a, { ...B, stdout: strip(B.stdout) }, 'file / pipe'); if (e) return { ...e, cls: 'pipe-' + e.cls }; if (v.stdio) ctx.probe('stdin-' + v.stdio.in + (v.stdio.before ? '-begun' : '')); if (v.dev) ctx.probe('dev-stdin'); if (Object.keys(B.fired).some(k => k.startsWith('read:'))) ctx.nontrivial(); }
      ctx.probe('stdin'); return null;
    }
    const a = ctx.ex(c.base);
    for (const v of c.vars) { const b = ctx.ex(vary(c.base, v)); if (v.sizes?.length) ctx.probe('wrong-size'); if (v.links?.length) ctx.probe('symlink'); if (v.fifos?.length) ctx.probe('named-pipe'); if (Object.keys(b.fired).some(k => /^(read:|stat:|open:EINTR|write:)/.test(k))) ctx.nontrivial(); const e = judge(a, b, 'one-shot / disturbed delivery'); if (e) return e; }
    return null;
  },
  *shrink(c) {
    if (c.vars.length > 1) for (const vs of shrinkList(c.vars)) if (vs.length) yield { ...c, vars: vs };
    for (let i = 0; i < c.vars.length; i++) { const v = c.vars[i]; for (const k of ['sizes', 'links', 'fifos']) if (v[k]?.length) { for (const l of shrinkList(v[k])) { const vs = c.vars.slice(); vs[i] = { ...v, [k]: l }; yield { ...c, vars: vs }; } } for (const k of ['eintr', 'delay', 'wait', 'shortWrites']) if (v.delivery?.[k]) { const vs = c.vars.slice(); vs[i] = { ...v, delivery: { ...v.delivery, [k]: 0 } }; yield { ...c, vars: vs }; } if (v.stdio) { const vs = c.vars.slice(); const { stdio, ...o } = v; vs[i] = o; yield { ...c, vars: vs }; } }
    if (c.pipe) { const at = c.base.nodes.findIndex(n => n.path === absPath(c.pipe.file)); for (const l of shrinkList(lines(c.pipe.data))) { const d = l.join('\n'); const nodes = c.base.nodes.slice(); if (at >= 0) nodes[at] = { ...nodes[at], data: d }; yield { ...c, base: { ...c.base, nodes }, pipe: { ...c.pipe, data: d } }; } return; }
    yield* shrinkBase(c);
  },
};
const esc = p => p.replace(/[*?[\\]/g, m => '\\' + m);

// ---- C04: no verdict from partial input --------------------------------------------
const OPEN_ERR = ['EACCES', 'EIO', 'EMFILE', 'ENFILE', 'ENOENT', 'ELOOP', 'ENOMEM', 'ESTALE', 'ETIMEDOUT', 'EPERM', 'ENXIO', 'EBUSY', 'ENODEV'], READ_ERR = ['EIO', 'EISDIR', 'ENOMEM', 'ESTALE', 'ETIMEDOUT', 'ENXIO', 'EACCES'], DIR_ERR = ['EACCES', 'EIO', 'EMFILE', 'ENFILE', 'ENOMEM', 'ESTALE', 'ETIMEDOUT', 'EPERM'], LIST_ERR = ['EIO', 'ESTALE', 'ENOMEM', 'ETIMEDOUT', 'EACCES'], STAT_ERR = ['EACCES', 'EIO', 'ESTALE', 'ELOOP', 'ENOMEM', 'EPERM'];
const isInput = (p, scn) => p === 'stdin' || scn.inputs.files.includes(p) || scn.inputs.dirs.includes(p);
function inputsOf(Ls) { // files that match, and every directory above them up to the first wildcard's parent
  const files = [], dirs = new Set(), pats = []; for (const L of Ls) { pats.push(L.pattern); for (const f of L.files) { const p = absPath(f.path); files.push(p); let d = p; const pat = absPath(L.pattern).split('/'); const wild = pat.findIndex(x => /[*?[]/.test(x)); for (;;) { d = d.slice(0, d.lastIndexOf('/')) || '/'; if (d === '/') break; if (wild >= 0 && d.split('/').length >= wild) dirs.add(d); } } } return { files, dirs: [...dirs], pats };
}
export const C04 = {
  id: 'C04',
  gen(r, tier) {
    const mode = r.weighted([['lint', 4], ['compare', 5], ['stdin', 1]]); let scn, Ls;
    if (mode === 'compare') { const w = mkCompare(r, { size: r.range(0, 5) }); scn = w.scn; Ls = [w.Lo, w.Ln]; } else { const w = mkLint(r, { size: r.range(0, 4) }); scn = w.scn; Ls = [w.L]; if (mode === 'stdin') { scn.stdin = w.L.files[0].text; scn.argv = lintArgv(r, null, w.rules); Ls = []; } }
    const c = { base: { ...scn, inputs: inputsOf(Ls) }, mode, pick: r.u32(), kind: r.weighted([['fault', 10], ['node', mode === 'stdin' ? 0 : 3], ['limit', mode === 'stdin' ? 0 : 1]]), n: tier === 'thorough' ? 10 : 5 };
    if (r.chance(0.3)) c.base.delivery = { seed: r.u32(), mode: r.pick(['rand', 'mixed', 'half']), eintr: 0.1, delay: 0 };
    return c;
  },
  expand(c, ctx) { // concrete failing scenarios, placed on the calls a fault-free run makes
    const r = new Rng('c04', c.pick), base = c.base, out = []; const files = base.inputs.files;
    if (c.kind === 'limit') { out.push({ scn: { ...base, fdLimit: 3 }, need: { path: null, cause: 'EMFILE' } }); return out; }
    if (c.kind === 'node') {
      const p = r.pick(files), t = r.pick(['denied', 'dir', 'dangling', 'loop', 'denieddir']); const nodes = base.nodes.map(n => ({ ...n })); const i = nodes.findIndex(n => n.path === p);
      if (i < 0) return out;
      if (t === 'denied') nodes[i].denied = true; else if (t === 'dir') nodes[i] = { path: p, kind: 'dir' }; else if (t === 'dangling') nodes[i] = { path: p, kind: 'symlink', target: 'nowhere.graphql' }; else if (t === 'loop') nodes[i] = { path: p, kind: 'symlink', target: p.slice(p.lastIndexOf('/') + 1) };
      else { const ds = base.inputs.dirs; if (!ds.length) return out; const d = r.pick(ds); nodes.push({ path: d, kind: 'dir', denied: true }); out.push({ scn: { ...base, nodes }, need: { path: d, cause: 'EACCES', dir: true } }); return out; }
      out.push({ scn: { ...base, nodes }, need: { path: p, cause: { denied: 'EACCES', dir: 'EISDIR', dangling: 'ENOENT', loop: 'ELOOP' }[t] } }); return out;
    }
    const a = ctx.ex(base); if (crash(a)) return out;
    const sites = a.sites.filter(([op, p]) => isInput(p, base) && ['open', 'read', 'readdir', 'stat'].includes(op) && !(op === 'stat' && files.includes(p) && !base.inputs.pats.some(q => absPath(q).replace(/\\(.)/g, '$1') === p)));
    if (!sites.length) return out; const groups = {}; for (const s of sites) (groups[s[0] + (base.inputs.dirs.includes(s[1]) ? 'dir' : '')] ??= []).push(s);
    for (let i = 0; i < c.n; i++) {
      const [op, path, nth] = r.pick(r.pick(Object.values(groups))); const dir = base.inputs.dirs.includes(path);
      const errno = r.pick(op === 'open' ? (dir ? DIR_ERR : OPEN_ERR) : op === 'read' ? READ_ERR : op === 'readdir' ? LIST_ERR : STAT_ERR);
      out.push({ scn: { ...base, sched: mkSched(r), faults: [{ op, path, nth, errno, ...(r.chance(0.3) ? { sticky: true } : {}) }] }, need: { path, cause: errno, dir, op } });
    }
    return out;
  },
  run(c, ctx) {
    const todo = c.concrete ?? this.expand(c, ctx);
    for (const t of todo) {
      const b = ctx.ex(t.scn); const fired = t.scn.faults ? Object.keys(b.fired).some(k => k.endsWith(':' + t.need.cause)) : t.scn.fdLimit ? b.fired['open:EMFILE-limit'] : true;
      if (!fired) continue; ctx.nontrivial(); ctx.probe(`${t.need.op ?? c.kind}${t.need.dir ? '-dir' : ''}`);
      const e = this.judge(t, b); if (e) { c.concrete = [t]; return e; }
    }
    return null;
  },
  judge(t, b) {
    const at = `${t.need.op ?? 'input'} ${t.need.path ?? ''} fails with ${t.need.cause}`;
    const cr = crash(b); if (cr) return { cls: cr.cls, text: at + ': ' + cr.text };
    if (b.exit === 0) return { cls: 'status-' + (t.need.dir ? 'dir' : 'file'), text: `${at}, yet exit 0: ${first(b.stdout)}` };
    if (VERDICT.test(b.stdout)) return { cls: 'verdict-' + (t.need.dir ? 'dir' : 'file'), text: `${at}, yet a verdict is printed: ${first(b.stdout)}` };
    const files = t.scn.inputs.files.flatMap(f => [f, f.slice(1)]);
    if (t.scn.argv[1] === 'lint' ? parseLint(b.stdout, [...files, '/dev/stdin']).finds.length : parseCompare(b.stdout, files, true).lines.length) return { cls: 'partial-findings', text: `${at}, yet findings or changes are printed: ${first(b.stdout)}` };
    const msg = b.stdout + '\n' + b.stderr, p = t.need.path; const names = p === 'stdin' ? ['stdin'] : p == null ? ['/'] : [p, p.slice(1), ...t.scn.inputs.pats];
    if (!names.some(n => msg.includes(n))) return { cls: 'path', text: `${at}: message does not name the path: ${first(msg)}` };
    if (ERRTEXT[t.need.cause] && !ERRTEXT[t.need.cause].test(msg)) return { cls: 'cause-' + (t.need.dir || t.need.op === 'stat' ? 'list' : 'file'), text: `${at}: message does not name the cause: ${first(msg)}` };
    return null;
  },
  *shrink(c) { const t = c.concrete?.[0]; if (!t) return; for (const s of shrinkScn(t.scn)) { if (t.scn.faults && !s.faults?.length) continue; if (t.need.path && t.need.path !== 'stdin' && !s.nodes.some(n => n.path === t.need.path || n.path.startsWith(t.need.path + '/'))) continue; yield { ...c, base: null, concrete: [{ ...t, scn: { ...s, inputs: { ...t.scn.inputs, files: t.scn.inputs.files.filter(f => s.nodes.some(n => n.path === f)) } } }] }; } },
};

// ---- C05: compare against the reference --------------------------------------------
function renderPair(c) { const Lo = layout(c.S, new Rng('lo', c.lseed), { side: '-old', ...c.lopt }), Ln = layout(c.N, new Rng('ln', c.lseed), { side: '-new', ...c.lopt }); return [Lo, Ln]; }
function whereOf(Lo, Ln) { const w = {}; for (const L of [Lo, Ln]) for (const [k, v] of Object.entries(L.where)) (w[k] ??= []).push(...v); return w; }
function* shrinkSchema(S) { for (const k of ['defs', 'exts', 'dirs']) for (const l of shrinkList(S[k])) yield { ...S, [k]: l }; for (const k of ['ops', 'extOps']) for (const o of Object.keys(S[k])) { const c = { ...S[k] }; delete c[o]; yield { ...S, [k]: c }; } }
function strip(d) { return ['dirs', 'ifaces', 'fields', 'values', 'members'].some(k => d[k].length); }
export function* shrinkPair(c) {
  // remove the same definition from both sides, then members, then decorations
  const names = k => [...new Set([...c.S[k], ...c.N[k]].map(d => d.name))];
  for (const k of ['defs', 'exts', 'dirs']) { const all = names(k); for (const keep of shrinkList(all)) yield { ...c, S: { ...c.S, [k]: c.S[k].filter(d => keep.includes(d.name)) }, N: { ...c.N, [k]: c.N[k].filter(d => keep.includes(d.name)) } }; }
  for (const k of ['ops', 'extOps']) for (const o of ['query', 'mutation', 'subscription']) if (c.S[k][o] || c.N[k][o]) { const a = { ...c.S[k] }, b = { ...c.N[k] }; delete a[o]; delete b[o]; yield { ...c, S: { ...c.S, [k]: a }, N: { ...c.N, [k]: b } }; }
  const edit = (pre, name, fn) => { const out = { ...c, S: { ...c.S }, N: { ...c.N } }; let ok = true; for (const s of ['S', 'N']) out[s][pre] = c[s][pre].map(d => { if (d.name !== name) return d; const e = fn(clone(d)); if (pre === 'exts' && !strip(e)) ok = false; return e; }); return ok ? out : null; };
  for (const pre of ['defs', 'exts']) for (const nm of names(pre)) {
    const ds = [c.S, c.N].map(s => s[pre].find(d => d.name === nm)).filter(Boolean); const mem = k => [...new Set(ds.flatMap(d => d[k].map(x => x.name ?? x)))];
    for (const k of ['fields', 'values', 'members', 'ifaces']) for (const keep of shrinkList(mem(k))) { const e = edit(pre, nm, d => { d[k] = d[k].filter(x => keep.includes(x.name ?? x)); return d; }); if (e) yield e; }
    if (ds.some(d => d.desc)) { const e = edit(pre, nm, d => { d.desc = ''; return d; }); if (e) yield e; } if (ds.some(d => d.dirs.length)) { const e = edit(pre, nm, d => { d.dirs = []; return d; }); if (e) yield e; }
    for (const k of ['fields', 'values']) for (const m of mem(k)) { const all = ds.flatMap(d => d[k].filter(x => x.name === m)); const on = f => edit(pre, nm, d => { for (const x of d[k]) if (x.name === m) f(x); return d; }); for (const [p, z] of [['desc', ''], ['dirs', []], ['args', []], ['def', null]]) if (all.some(x => x[p] && x[p].length !== 0)) { const e = on(x => { if (p in x) x[p] = z; }); if (e) yield e; } if (all.some(x => x.args?.length > 1)) for (const an of new Set(all.flatMap(x => x.args.map(a => a.name)))) { const e = on(x => { x.args = x.args.filter(a => a.name !== an); }); if (e) yield e; } }
  }
  if (c.lopt?.files !== 1) yield { ...c, lopt: { ...c.lopt, files: 1 } };
  yield { ...c, lopt: { ...c.lopt, split: false } }; yield { ...c, lopt: { ...c.lopt, style: { nl: '\n', one: false, flat: false, comments: 0, bom: false, multiArgs: 0, pad: 0, block: 0 } } };
}
export const C05 = {
  id: 'C05',
  gen(r, tier) { const g = new Gen(r, { big: r.chance(0.2) }); const S = g.schema(); const [N, edits] = mkEdits(r, g, S); const huge = LARGE.huge.length && r.chance(0.004) ? { side: r.int(2), file: r.u32(), size: r.pick(LARGE.huge) + r.range(-3, 3), ch: r.pick([' ', ',', '\t']) } : undefined; return { S, N, edits, huge, lseed: r.u32(), lopt: {}, sched: mkSched(r), sched2: mkSched(r), env: mkEnv(r), flags2: r.pick([['-b'], ['-e'], ['-b', '-e'], ['--breaking-change-only'], ['--exclude-print-filepath']]) }; },
  run(c, ctx) {
    const [Lo, Ln] = renderPair(c); if (c.huge) { const L = [Lo, Ln][c.huge.side], f = L.files[c.huge.file % L.files.length], n = Math.max(0, c.huge.size - Buffer.byteLength(f.text)), bom = f.text.startsWith('\ufeff') ? 1 : 0; f.text = f.text.slice(0, bom) + c.huge.ch.repeat(n) + f.text.slice(bom); ctx.hit('huge-file'); } const nodes = [...HOME_NODES, ...nodesOf(Lo), ...nodesOf(Ln)]; const files = [...Lo.files, ...Ln.files].map(f => f.path);
    const go = (flags, sched) => { const x = ctx.ex({ argv: cmpArgv(new Rng('a', c.lseed), Lo.pattern, Ln.pattern, flags), env: c.env, sched, nodes }); return [x, parseCompare(stripEmptyNotices(x.stdout, files, [Lo.pattern, Ln.pattern]), files, !flags.some(f => /^-e|^--ex/.test(f)))]; };
    const exp = refDiff(c.S, c.N), nb = exp.filter(e => e.sev === 'B').length; if (exp.length) ctx.nontrivial(); for (const e of exp) ctx.probe(e.sev + ' ' + e.msg.replace(/'[^']*'/g, 'X').replace(/ (OBJECT|INTERFACE|INPUT_OBJECT)$/, ''));
    const where = whereOf(Lo, Ln);
    const judge = (x, p, flags) => {
      const only = flags.some(f => /^-b|^--br/.test(f)), bare = flags.some(f => /^-e|^--ex/.test(f)); const cr = crash(x); if (cr) return cr;
      if (x.exit !== (nb ? 1 : 0)) return { cls: 'status', text: `exit ${x.exit} with ${nb} breaking change(s)${nb ? ', e.g. ' + exp.find(e => e.sev === 'B').msg : ''}: ${first(x.stdout)}` };
      if (p.junk.length) return { cls: 'output', text: 'unexpected output: ' + first(p.junk[0]) };
      if (bare) { const g = p.lines.find(l => files.some(f => l.msg.startsWith(f + ':') && /^:\d/.test(l.msg.slice(f.length)))); if (g) return { cls: 'location', text: `a location is printed although it was excluded: ${g.raw}` }; }
      const m = matchChanges(only ? exp.filter(e => e.sev === 'B') : exp, p.lines, where, { noLoc: bare, withPath: !bare }); if (m) return m;
      const want = !exp.length ? 'none' : nb ? 'breaking' : 'ok'; if (p.verdict !== want) return { cls: 'verdict', text: `verdict line is ${p.verdict}, should be ${want}` };
      if (nb && p.total !== nb) return { cls: 'total', text: `total ${p.total}, ${nb} breaking changes listed` };
      return null;
    };
    const [x, p] = go([], c.sched); const e = judge(x, p, []); if (e) return e;
    const [y, q] = go(c.flags2, c.sched2); const e2 = judge(y, q, c.flags2); if (e2) return { cls: 'flags-' + e2.cls, text: `with ${c.flags2.join(' ')}: ${e2.text}` };
    return null;
  },
  *shrink(c) { yield* shrinkPair(c); yield { ...c, env: { PWD: '/' } }; },
};

// ---- C06: layout does not matter ---------------------------------------------------
export const C06 = {
  id: 'C06',
  gen(r, tier) { const g = new Gen(r, { big: r.chance(0.1) }); const S = g.schema(); const [N, edits] = r.chance(0.4) ? [clone(S), []] : mkEdits(r, g, S); const k = tier === 'thorough' ? 4 : 2; return { S, N, edits, lopt: {}, lays: Array.from({ length: k }, () => ({ o: r.u32(), n: r.u32(), sched: mkSched(r) })), env: mkEnv(r) }; },
  run(c, ctx) {
    const lay = (S, seed, side) => layout(S, new Rng('l', seed), { side, members: true, ...c.lopt });
    const key = p => p.lines.map(l => l.sev + ' ' + l.msg).sort(); const equal = JSON.stringify(norm(c.S)) === JSON.stringify(norm(c.N)); let ref = null, refx = null;
    if (c.lays.length) ctx.nontrivial(); if (equal) ctx.probe('equal-schemas');
    for (const l of c.lays) {
      const Lo = lay(c.S, l.o, '-old'), Ln = lay(c.N, l.n, '-new'); const files = [...Lo.files, ...Ln.files].map(f => f.path);
      const x = ctx.ex({ argv: ['gql', 'compare', '-o', Lo.pattern, '-n', Ln.pattern], env: c.env, sched: l.sched, nodes: [...HOME_NODES, ...nodesOf(Lo), ...nodesOf(Ln)] });
      const cr = crash(x); if (cr) return cr; const p = parseCompare(stripEmptyNotices(x.stdout, files, [Lo.pattern, Ln.pattern]), files, true); const ks = key(p);
      if (equal && (x.exit !== 0 || ks.length || p.verdict !== 'none')) return { cls: 'equal', text: `same definitions in two layouts, yet exit ${x.exit}: ${first(x.stdout)}` };
      if (ref == null) { ref = ks; refx = x; } else { if (refx.exit !== x.exit) return { cls: 'status', text: `exit ${refx.exit} / ${x.exit} for two layouts of the same schemas` }; if (ref.join('\n') !== ks.join('\n')) return { cls: 'changes', text: `two layouts of the same schemas: ${diffAt(ref.join('\n'), ks.join('\n'))}` }; }
    }
    return null;
  },
  *shrink(c) { if (c.lays.length > 1) for (const l of shrinkList(c.lays)) if (l.length) yield { ...c, lays: l }; yield* shrinkPair(c); yield { ...c, env: { PWD: '/' } }; },
};
function norm(S) { const srt = (xs, f) => [...xs].sort((a, b) => (f(a) < f(b) ? -1 : 1)); const nm = x => x.name ?? x; const def = d => ({ ...d, fields: srt(d.fields.map(f => ({ ...f, args: srt(f.args ?? [], nm) })), nm), values: srt(d.values, nm), members: srt(d.members, nm), ifaces: srt(d.ifaces, nm) }); return { defs: srt(S.defs.map(def), nm), exts: srt(S.exts.map(def), nm), dirs: srt(S.dirs.map(d => ({ ...d, args: srt(d.args, nm), locs: [...d.locs].sort() })), nm), ops: srt(Object.entries(S.ops), x => x[0]), extOps: srt(Object.entries(S.extOps), x => x[0]) }; }

// ---- C07: lint against the reference ------------------------------------------------
function lintExpect(files, rules) { return files.flatMap(f => refLint(f, rules ?? RULES).map(e => ({ ...e, file: f.path }))); }
export const C07 = {
  id: 'C07',
  gen(r, tier) {
    const n = r.weighted([[1, 4], [2, 3], [r.range(3, 7), 3], [r.range(8, 25), 0.7]]); const files = [];
    for (let i = 0; i < n; i++) { const g = new Gen(r, { lint: true, big: r.chance(0.1) }); files.push(i && r.chance(0.06) ? clone(r.pick(files)) : { its: items(g.schema(n > 7 ? r.range(0, 3) : undefined)), seed: r.u32(), split: r.chance(0.3) }); }
    return { files, nseed: r.u32(), rules: r.chance(0.5) ? null : r.sample(RULES, r.weighted([[1, 4], [2, 3], [r.range(3, 9), 3]])), sched: mkSched(r), env: mkEnv(r), stdin: n === 1 && r.chance(0.1), links: r.chance(0.5) };
  },
  run(c, ctx) {
    const nm = mkNames(new Rng('n', c.nseed), c.files.length);
    const files = c.files.map((f, i) => { const r = new Rng('f', f.seed); let its = f.its; if (f.split) its = its.flatMap(it => r.chance(0.5) ? splitItem(it, r) : [it]); return { ...renderLint(its, r, f.opt ?? {}), path: c.stdin ? '/dev/stdin' : nm.names[i] }; });
    if (c.links) { linkSame(files); if (files.some(f => f.link)) ctx.hit('matched-link'); } const L = { pattern: nm.pattern, files, decoys: nm.decoys }; const argv = lintArgv(new Rng('a', c.nseed), c.stdin ? null : nm.pattern, c.rules);
    const x = ctx.ex({ argv, env: c.env, sched: c.sched, nodes: [...HOME_NODES, ...(c.stdin ? [] : nodesOf(L))], ...(c.stdin ? { stdin: files[0].text } : {}) });
    const exp = lintExpect(files, c.rules); if (exp.length) ctx.nontrivial(); for (const e of exp) ctx.probe(e.rule); if (files.some(f => f.comments.length)) { ctx.probe('comments'); const all = files.flatMap(f => refLint({ ...f, comments: [] }, c.rules ?? RULES)).length; if (all !== exp.length) ctx.probe('suppressed'); }
    const cr = crash(x); if (cr) return cr; const names = files.map(f => f.path); const p = parseLint(stripEmptyNotices(x.stdout, names, [nm.pattern]), names);
    if (p.junk.length) return { cls: 'output', text: 'unexpected output: ' + first(p.junk[0]) };
    const m = matchFindings(exp, p.finds); if (m) return m;
    if (x.exit !== (exp.length ? 1 : 0)) return { cls: 'status', text: `exit ${x.exit} with ${exp.length} finding(s)` };
    if (p.verdict !== (exp.length ? 'errors' : 'ok')) return { cls: 'verdict', text: `verdict line ${p.verdict} with ${exp.length} finding(s)` };
    if (exp.length && p.total !== exp.length) return { cls: 'total', text: `total ${p.total}, ${exp.length} finding(s) listed` };
    return null;
  },
  *shrink(c) {
    for (const fs of shrinkList(c.files)) if (fs.length) yield { ...c, files: fs };
    if (c.rules == null) for (const r of RULES) yield { ...c, rules: [r] }; else if (c.rules.length > 1) for (const r of c.rules) yield { ...c, rules: [r] };
    for (let i = 0; i < c.files.length; i++) { const f = c.files[i]; const put = x => { const fs = c.files.slice(); fs[i] = x; return { ...c, files: fs }; }; for (const its of shrinkList(f.its)) yield put({ ...f, its }); if (f.split) yield put({ ...f, split: false }); if (!f.opt?.noComments) yield put({ ...f, opt: { ...f.opt, noComments: true } }); if (!f.opt?.style) yield put({ ...f, opt: { ...f.opt, style: { nl: '\n', one: false, flat: false, bom: false, multiArgs: 0, pad: 0, block: 0 } } });
      for (let j = 0; j < f.its.length; j++) { const it = f.its[j]; if (!it.d?.fields) continue; for (const k of ['fields', 'values', 'members', 'dirs', 'ifaces']) for (const l of shrinkList(it.d[k])) { const d = { ...it.d, [k]: l }; if (it.t === 'ext' && !strip(d)) continue; const its = f.its.slice(); its[j] = { ...it, d }; yield put({ ...f, its }); } } }
    yield { ...c, env: { PWD: '/' } };
  },
};

// ---- C08: files are linted independently ---------------------------------------------
export const C08 = {
  id: 'C08',
  gen(r, tier) { const w = mkLint(r, { n: r.weighted([[2, 3], [r.range(3, 6), 4], [r.range(7, 16), 1]]), size: r.chance(0.5) ? r.range(0, 4) : undefined, links: true }); const broken = r.chance(0.12) && !w.L.files.some(f => f.link) ? r.int(w.L.files.length) : null; if (broken != null) { const n = w.scn.nodes.find(n => n.path === absPath(w.L.files[broken].path)); n.data = breakText(r, n.data); } return { base: w.scn, files: w.L.files.map(f => f.path), pattern: w.L.pattern, scheds: w.L.files.map(() => mkSched(r)) }; },
  run(c, ctx) {
    const has = p => c.base.nodes.find(n => n.path === p), present = c.files.filter(f => { const n = has(absPath(f)); return n && (n.kind !== 'symlink' || has(n.target)); }); if (c.base.nodes.some(n => n.kind === 'symlink' && !has(n.target))) return null; if (!present.length) return null;
    const joint = ctx.ex(c.base); const cr = crash(joint); if (cr) return cr; const fi = c.base.argv.findIndex(a => a === c.pattern || a === '--filepath=' + c.pattern);
    const J = parseLint(stripEmptyNotices(joint.stdout, present, [c.pattern]), present); let total = 0, status = 0, broken = false; const per = new Map();
    for (let i = 0; i < present.length; i++) {
      const f = present[i]; const argv = c.base.argv.slice(); argv[fi] = argv[fi].startsWith('--filepath=') ? '--filepath=' + esc(f) : esc(f);
      const x = ctx.ex({ ...c.base, argv, sched: c.scheds[i] ?? c.base.sched }); const cx = crash(x); if (cx) return cx; status |= x.exit; if (/failed to parse/.test(x.stdout)) { broken = true; continue; }
      const P = parseLint(stripEmptyNotices(x.stdout, [f], [esc(f)]), [f]); per.set(f, P.finds.map(y => y.raw)); total += P.total ?? 0;
    }
    if (joint.exit !== status) return { cls: 'status', text: `joint exit ${joint.exit}, separate runs give ${status}` };
    if (broken) { ctx.probe('unparseable'); return null; } if (present.length > 1 && total) ctx.nontrivial();
    for (const f of present) { const a = J.finds.filter(x => x.file === f).map(x => x.raw), b = per.get(f) ?? []; if ([...a].sort().join('\n') !== [...b].sort().join('\n')) return { cls: 'findings', text: `${f}: joint / alone differ at ${diffAt([...a].sort().join('\n'), [...b].sort().join('\n'))}` }; }
    if ((J.total ?? 0) !== total) return { cls: 'total', text: `joint total ${J.total ?? 0}, separate totals add up to ${total}` };
    if (J.junk.length) return { cls: 'output', text: 'unexpected output: ' + first(J.junk[0]) };
    return null;
  },
  *shrink(c) { for (const b of shrinkScn(c.base)) { const fi = b.argv.length === c.base.argv.length; yield { ...c, base: b, files: c.files.filter(f => b.nodes.some(n => n.path === absPath(f))) }; } },
};

// ---- C09: failing standard output -----------------------------------------------------
const OUT_ERR = ['EIO', 'ENOSPC', 'EPIPE', 'EAGAIN', 'EBADF', 'EPERM', 'ETIMEDOUT'];
function anyWork(r) { if (r.chance(0.5)) { const w = mkLint(r); if (r.chance(0.15)) { w.scn.stdin = w.L.files[0].text; w.scn.argv = lintArgv(r, null, w.rules); } else if (r.chance(0.1)) { const f = w.scn.nodes.find(n => n.path === absPath(w.L.files[0].path)); f.data = breakText(r, f.data); } return w.scn; } const w = mkCompare(r); if (r.chance(0.08)) { const f = r.pick(w.scn.nodes.filter(n => n.kind === 'file')); f.data = breakText(r, f.data); } return w.scn; }
export const C09 = {
  id: 'C09',
  gen(r, tier) { return { base: anyWork(r), pick: r.u32(), n: tier === 'thorough' ? 10 : 5 }; },
  run(c, ctx) {
    const a = ctx.ex(c.base); if (crash(a)) return null; const r = new Rng('c09', c.pick); const writes = a.sites.filter(s => s[0] === 'write' && s[1] === 'stdout').length; if (!writes) return null;
    const plans = c.plans ?? Array.from({ length: c.n }, () => { const nth = r.chance(0.3) ? 1 : r.chance(0.3) ? writes : r.range(1, writes); const t = r.weighted([['dead', 5], ['partial', 3], ['short', 2], ['soft', 3]]); if (t === 'soft') return { soft: true, delivery: { seed: r.u32(), mode: 'all', shortWrites: r.pick([0.2, 0.7, 1]), eintr: r.pick([0, 0.3]) } }; return { faults: [{ op: 'write', path: 'stdout', nth, ...(t === 'short' ? { short: r.range(1, 20) } : { errno: r.pick(OUT_ERR), sticky: true, ...(t === 'partial' ? { partial: r.range(1, 30) } : {}) }) }], soft: t === 'short' }; });
    for (const p of plans) {
      const scn = { ...c.base, ...(p.faults ? { faults: p.faults } : {}), ...(p.delivery ? { delivery: p.delivery } : {}), sched: c.base.sched };
      if (p.faults?.[0].partial) scn.faults = [p.faults[0], { ...p.faults[0], partial: 0, nth: p.faults[0].nth + 1 }];
      const b = ctx.ex(scn); const e = this.judge(a, b, p); if (Object.keys(b.fired).some(k => k.startsWith('write:'))) ctx.nontrivial(); if (e) { c.plans = [p]; return e; }
    }
    return null;
  },
  judge(a, b, p) {
    const what = p.soft ? 'short or interrupted writes' : `stdout fails with ${p.faults[0].errno} at write ${p.faults[0].nth}`;
    const pipe = p.faults?.[0].errno === 'EPIPE' && (b.exit > 1 || b.trap) && !/^(panic:|fatal error: (?!.*sigpipe))/m.test(b.stderr); // death by SIGPIPE, as on any Unix
    if (!pipe) { const cr = crash(b); if (cr) return { cls: cr.cls, text: what + ': ' + cr.text }; }
    if (a.exit !== 0 && b.exit === 0) return { cls: 'status', text: `${what}: exit 0, would be ${a.exit}` };
    if (p.soft) { if (a.stdout !== b.stdout || a.exit !== b.exit) return { cls: 'soft', text: `${what}: ${a.exit !== b.exit ? `exit ${a.exit} / ${b.exit}` : diffAt(a.stdout, b.stdout)}` }; }
    else if (!a.stdoutB.subarray(0, b.stdoutB.length).equals(b.stdoutB)) return { cls: 'prefix', text: `${what}: delivered bytes are not a prefix of the output: ${diffAt(a.stdout, b.stdout)}` };
    return null;
  },
  *shrink(c) { for (const b of shrinkScn(c.base)) yield { ...c, base: b }; if (c.plans?.[0]?.faults) { const f = c.plans[0].faults[0]; if (f.nth > 1) for (const k of [1, f.nth >> 1, f.nth - 1]) yield { ...c, plans: [{ ...c.plans[0], faults: [{ ...f, nth: k }] }] }; } },
};

// ---- C10: descriptors -------------------------------------------------------------------
const FD_BOUND = 8;
export const C10 = {
  id: 'C10',
  gen(r, tier) {
    const n = r.weighted([[r.range(17, 40), 6], [r.range(41, 120), 3], [r.range(121, tier === 'thorough' ? 900 : 300), 0.7]]); const lint = r.chance(0.5); const pool = Array.from({ length: 4 }, () => mkLintFile(r, { size: r.range(0, 1), style: { pad: 0 } }).text);
    const mk = (dir, k) => Array.from({ length: k }, (_, i) => ({ path: `${dir}/${r.chance(0.7) ? 'f' : 'g'}${i}.graphql`, kind: 'file', data: r.chance(0.5) ? `type T${dir.length}x${i} { a: Int }\n` : pool[r.int(4)].replace(/\b([A-Z][a-z]+)/g, (m) => m + i) })); const sub = r.chance(0.2);
    let nodes, argv; if (lint) { nodes = mk('/s', n); if (sub) nodes.forEach((x, i) => { x.path = `/s/d${i % 23}/${x.path.slice(3)}`; }); argv = ['gql', 'lint', '-f', sub ? '/s/*/*.graphql' : '/s/*.graphql', ...(r.chance(0.5) ? ['-r', 'type-caps'] : [])]; } else { nodes = [...mk('/old', n), ...mk('/new', r.chance(0.5) ? n : r.range(1, 30))]; argv = ['gql', 'compare', '-o', '/old/*.graphql', '-n', '/new/*.graphql', ...cmpFlags(r)]; }
    if (r.chance(0.1)) { const f = r.pick(nodes); f.data = breakText(r, f.data); }
    if (r.chance(0.25)) { const p = r.pick([0.2, 1]); nodes = nodes.flatMap((x, i) => r.chance(p) ? [{ ...x, path: `/store/${i}` }, { path: x.path, kind: 'symlink', target: r.chance(0.5) ? `/store/${i}` : '../'.repeat(x.path.split('/').length - 2) + 'store/' + i }] : [x]); } // many links
    if (r.chance(0.2)) { const t = r.pick(['', ' ', '# nothing\n']); const p = r.pick([0.1, 0.9]); nodes = nodes.map(x => x.data != null && r.chance(p) ? { ...x, data: t } : x); } // many empty files
    const base = baseScn(r, argv, nodes); return { base, vars: Array.from({ length: 2 }, () => ({ fdLimit: r.weighted([[16, 3], [r.range(16, 40), 2], [256, 1]]), env: { ...base.env, GOGC: r.pick(['off', 'off', 'off', '1', '100', '1000']) }, sched: mkSched(r), ...(r.chance(0.3) ? { delivery: { seed: r.u32(), mode: 'mixed', eintr: 0.05 } } : {}) })) };
  },
  run(c, ctx) {
    const a = ctx.ex({ ...c.base, env: { ...c.base.env, GOGC: 'off' } }); const cr = crash(a); if (cr) return cr; const n = c.base.nodes.filter(x => /\.graphql$/.test(x.path)).length; if (n > FD_BOUND) ctx.nontrivial();
    if (a.peakFds > FD_BOUND) return { cls: 'peak', text: `${a.peakFds} files held open at once while processing ${n} files` };
    for (const v of c.vars) { const b = ctx.ex({ ...c.base, ...v }); if (b.peakFds > FD_BOUND) return { cls: 'peak', text: `${b.peakFds} files held open at once while processing ${n} files` }; if (b.fired['open:EMFILE-limit']) ctx.probe('limit-hit'); if (!same(a, b)) return { cls: a.exit !== b.exit ? 'status' : 'output', text: `descriptor limit ${v.fdLimit}: ${a.exit !== b.exit ? `exit ${a.exit} / ${b.exit}, ` : ''}${diffAt(a.stdout, b.stdout)}` }; }
    return null;
  },
  *shrink(c) { if (c.vars.length > 1) for (const vs of shrinkList(c.vars)) if (vs.length) yield { ...c, vars: vs }; yield* shrinkBase(c); },
};

// ---- C11: read-only, no trace -----------------------------------------------------------
// Directories and files with names found in the code lie where a run might look for them.
function lying(r, scn) {
  const words = [...DICT.strs, ...DICT.paths.flatMap(p => { const q = p.replace(/^[~/.]+\/|^\/+|\/+$/g, ''); return [q, q.split('/')[0]]; })].filter(x => /^[\w.\-/]{2,40}$/.test(x) && !/\.(graphqls?|gql)$/.test(x) && /\w/.test(x) && !x.split('/').some(y => y === '..')); if (!words.length || r.chance(0.4)) return scn; const has = new Set(scn.nodes.map(n => n.path)), dirs = ['', '/tmp', '/home/u', '/home/u/.cache', '/home/u/.config', ...scn.nodes.filter(n => n.kind === 'file').map(n => n.path.slice(0, n.path.lastIndexOf('/')))];
  const out = []; for (let k = r.range(1, 5); k > 0; k--) { const d = r.pick(dirs), p = d + '/' + r.pick(words); if (has.has(p) || [...has].some(h => isDirOf(p, h))) continue; has.add(p); out.push(r.chance(0.6) ? { path: p, kind: 'dir' } : { path: p, kind: 'file', data: r.pick(['', 'x\n', '{}']) }); } return { ...scn, nodes: [...scn.nodes, ...out] };
}
export const C11 = {
  id: 'C11',
  gen(r, tier) {
    const w = anyWork(r); if (r.chance(0.15)) { const fs = w.nodes.filter(n => n.kind === 'file' && !HOME_NODES.some(h => h.path === n.path)); if (fs.length) { const f = r.pick(fs); f.data = breakText(r, f.data); } } // runs that fail
    else if (r.chance(0.08)) w.argv = r.pick([[...w.argv, '--no-such'], [...w.argv, '-r', wrongRule(r)], w.argv.slice(0, -1), ['gql', 'none'], ['gql'], [...w.argv.slice(0, 2), '--help'], w.argv.map(x => x.includes('*') ? x + '.none' : x)]);
    return { base: lying(r, w), pick: r.u32(), n: tier === 'thorough' ? 8 : 4 };
  },
  run(c, ctx) {
    const base = { ...c.base, snapshot: true }; const a = ctx.ex(base);
    const trace = (x, what, others) => x.mutations.length ? { cls: 'mutation', text: `${what}: ${x.mutations[0]}` } : x.changed && !others ? { cls: 'changed', text: `${what}: the file system is not as it was` } : null;
    let e = trace(a, 'undisturbed run'); if (e) return e;
    const r = new Rng('c11', c.pick); const plans = c.plans ?? Array.from({ length: c.n }, () => {
      const t = r.weighted([['kill', 4], ['fault', 4], ['world', 2]]);
      if (t === 'kill') return { t, scn: { killAt: r.chance(0.2) ? a.calls : r.range(1, Math.max(1, a.calls)) } };
      if (t === 'fault') { const s = a.sites.filter(s => s[0] !== 'close'); const k = r.range(1, 3); return { t, scn: { sched: mkSched(r), faults: Array.from({ length: k }, () => { const [op, path, nth] = r.pick(s.length ? s : [['open', '/x', 1]]); return { op, path, nth, errno: r.pick(['EIO', 'EACCES', 'ENOSPC', 'EMFILE', 'ENOENT', 'EROFS']), sticky: r.chance(0.3) }; }) } }; }
      const fs = c.base.nodes.filter(n => n.kind === 'file'); return { t, scn: { sched: mkSched(r), writers: Array.from({ length: r.range(1, 4) }, () => { const f = r.pick(fs); const at = r.range(1, Math.max(2, a.calls)); return r.chance(0.5) ? { at, do: 'remove', path: f.path } : { at, do: 'create', path: f.path.replace(/[^/]*$/, '') + 'new' + r.int(9) + '.graphql', data: 'type New { a: Int }\n' }; }), ...(r.chance(0.3) ? { killAt: r.range(1, Math.max(1, a.calls)) } : {}) } };
    });
    for (const p of plans) {
      const b = ctx.ex({ ...base, ...p.scn }); ctx.nontrivial(); ctx.probe(p.t); e = trace(b, p.scn.killAt ? `killed at call ${p.scn.killAt}` : p.t === 'fault' ? `with ${p.scn.faults.map(f => f.op + ' ' + f.path + ' ' + f.errno).join(', ')}` : 'files appearing and vanishing', p.t === 'world'); if (e) { c.plans = [p]; return e; }
      if (p.t === 'kill') { const again = ctx.ex({ ...base }, b.world); if (!same(a, again)) { c.plans = [p]; return { cls: 'rerun', text: `after a run killed at call ${p.scn.killAt} the next run differs: exit ${a.exit} / ${again.exit}, ${diffAt(a.stdout, again.stdout)}` }; } e = trace(again, 'second run'); if (e) return e; }
    }
    // a second run over the same file system must not see the first
    const again = ctx.ex({ ...base, sched: { seed: c.pick } }, a.world); e = trace(again, 'second run'); if (e) return e; if (again.exit !== a.exit) return { cls: 'rerun', text: `running again: exit ${a.exit} / ${again.exit}` };
    return null;
  },
  *shrink(c) { for (const b of shrinkScn(c.base)) yield { ...c, base: b }; if (c.plans) for (const k of ['faults', 'writers']) if (c.plans[0].scn[k]?.length > 1) for (const l of shrinkList(c.plans[0].scn[k])) yield { ...c, plans: [{ ...c.plans[0], scn: { ...c.plans[0].scn, [k]: l } }] }; },
};

// ---- C12: torn and corrupted bytes --------------------------------------------------------
function corrupt(r, b) {
  const n = b.length, out = Buffer.from(b), at = () => r.int(Math.max(1, n)), fit = (a, l) => Math.min(n, a + l), len = () => Math.min(n, r.weighted([[1, 2], [r.range(2, 16), 3], [512, 1], [r.range(1, Math.max(1, n)), 1]]));
  switch (r.int(9)) {
    case 0: for (let i = r.range(1, 6); i > 0 && n; i--) out[at()] ^= 1 << r.int(8); return out;
    case 1: { const a = at(); out.fill(0, a, fit(a, len())); return out; }
    case 2: { const a = at(), l = len(); return Buffer.concat([out.subarray(0, a), out.subarray(Math.min(n, a + l))]); }
    case 3: { const a = at(), l = len(); const piece = out.subarray(a, a + l); return Buffer.concat([out.subarray(0, a), piece, piece, out.subarray(Math.min(n, a + l))]); }
    case 4: { const a = at(), t = r.pick(['#', '#lint-', '#lint- ', '\n#lint-\n', '"', '"""', '\\', '{', '}', '(', ')', '[', ']', '@', '$', '!', '|', '&', ':', '=', '...', '\u0000', '\ufeff', '\r', '\n', '\\u00', '\\u12G4', '\\x', '-', '0', '01', '1e', '1.', '-.', 'extend', 'extend type', 'schema', 'directive @', 'union X =', 'type', 'implements', 'implements &', 'on', ' repeatable ', 'enum E {', '\u2028', '𝒳', '#lint-disable', '\n#lint-disable-line\n', '\n#lint-\t\n', '\n#lint-  x\n', '"\n"', '{}', '()', '[]', '@a(', '= ', '"\\']); return Buffer.concat([out.subarray(0, a), Buffer.from(t), out.subarray(a)]); }
    case 5: { const a = at(); out.subarray(a, a + len()).forEach((_, i) => { out[a + i] = r.int(256); }); return out; }
    case 6: { const a = at(), c = at(), l = len(); return Buffer.concat([out.subarray(0, a), out.subarray(c, c + l), out.subarray(a)]); } // block written at the wrong place
    case 7: { const a = at(); return Buffer.concat([out.subarray(0, a), Buffer.from([r.pick([0xff, 0xc0, 0xe2, 0xf0, 0x80])]), out.subarray(a)]); }
    default: return Buffer.concat([out.subarray(0, at()), Buffer.alloc(r.range(0, 64))]);
  }
}
const b64 = b => Buffer.from(b).toString('base64');
// A block repeated many times where brackets nest.
function deepText({ n, what, closed }) {
  if (what === 'type') return '\ntype Deep { f: ' + '['.repeat(n) + (closed ? 'Int' + ']'.repeat(n) + ' }\n' : '');
  const [a, v, b] = what === 'list' ? ['[', '1', ']'] : ['{a:', '1', '}']; return '\nscalar Deep @deep(x: ' + a.repeat(n) + (closed ? v + b.repeat(n) + ')\n' : '');
}
export const C12 = {
  id: 'C12',
  // Executed in every run, on a big stack: the inputs known-findings.txt describes.
  fixed: [{ base: { argv: ['gql', 'compare', '-o', '/work/old.graphql', '-n', '/work/new.graphql'], env: { PWD: '/' }, sched: { seed: 1 }, nodes: [{ path: '/work/old.graphql', kind: 'file', data: '' }, { path: '/work/new.graphql', kind: 'file', data: 'type A { a: Int }\n' }] }, stdin: false, muts: [{ file: '/work/old.graphql', deep: { n: 2000000, what: 'type', closed: true } }] }],
  gen(r, tier) {
    const cmp = r.chance(0.35), stdin = !cmp && r.chance(0.2); let scn, files, rules = null;
    if (cmp) { const w = mkCompare(r, { size: r.range(1, 6) }); scn = w.scn; files = [...w.Lo.files, ...w.Ln.files]; } else { const w = mkLint(r, { size: r.chance(0.7) ? r.range(1, 5) : undefined }); scn = w.scn; files = w.L.files; rules = w.rules; if (stdin) scn.argv = lintArgv(r, null, rules); }
    const c = { base: scn, muts: [], stdin };
    for (let i = tier === 'thorough' ? 12 : 6; i > 0; i--) {
      if (r.chance(0.01)) { const f = stdin ? files[0] : r.pick(files); c.muts.push({ file: f.path, deep: { n: r.pick([30, 300, 3000, r.range(2, 20000)]), what: r.pick(['type', 'list', 'object']), closed: r.chance(0.5) } }); continue; }
      const f = stdin ? files[0] : r.pick(files); const buf = Buffer.from(f.text);
      if (r.chance(0.45)) { const rs = f.recs.filter(x => x.b0 != null); if (rs.length) { const x = r.pick(rs), lo = Buffer.byteLength(f.text.slice(0, x.b0)), hi = Buffer.byteLength(f.text.slice(0, x.b1)); const cut = r.chance(0.2) ? hi : r.range(lo, hi); c.muts.push({ file: f.path, cut, must: true, ...(r.chance(0.3) ? { pad: r.pick(['\0', '\0', '\0', ' ', '\n']), n: r.pick([1, 3, 64, 512 - cut % 512, 4096 - cut % 4096]) } : {}) }); continue; } c.muts.push({ file: f.path, cut: r.int(buf.length + 1) }); continue; }
      let b = buf; for (let k = r.weighted([[1, 5], [2, 2], [4, 1]]); k > 0; k--) b = corrupt(r, b); c.muts.push({ file: f.path, b64: b64(b) });
    }
    return c;
  },
  run(c, ctx) {
    for (const m of c.muts) {
      const nodes = c.base.nodes.slice(); const i = nodes.findIndex(n => n.path === absPath(m.file)); const scn = { ...c.base, nodes };
      const src = Buffer.from(c.base.nodes[i]?.data ?? '', 'utf8'); const bytes = m.b64 != null ? m.b64 : b64(m.deep ? Buffer.concat([src, Buffer.from(deepText(m.deep))]) : m.pad ? Buffer.concat([src.subarray(0, m.cut), Buffer.from(m.pad.repeat(m.n))]) : src.subarray(0, m.cut));
      if (c.stdin) scn.stdin = { b64: bytes }; else if (i >= 0) nodes[i] = { path: nodes[i].path, kind: 'file', b64: bytes }; else continue;
      const x = ctx.ex(scn); ctx.nontrivial(); ctx.hit(m.deep ? 'nested-deeply' : m.must ? m.pad ? 'torn-and-padded' : 'torn-in-braces' : m.cut != null ? 'torn' : 'corrupt');
      const what = m.deep ? `${m.file} with ${m.deep.n} nested brackets (${m.deep.what})` : m.cut != null ? `${m.file} cut at byte ${m.cut}${m.pad ? ` and padded with ${m.n} ${JSON.stringify(m.pad)}` : ''}` : `${m.file} corrupted`; let e = crash(x); if (e) e = { cls: e.cls, text: what + ': ' + e.text };
      else if (m.must) { const name = c.stdin ? '/dev/stdin' : m.file, pos = /:\d+/; if (x.exit !== 1) e = { cls: 'accepted', text: `${what} inside a definition, yet exit ${x.exit}: ${first(x.stdout)}` }; else if (/Schema has no lint errors|No changes found|No breaking changes found/.test(x.stdout)) e = { cls: 'verdict', text: `${what}: success verdict printed: ${first(x.stdout)}` }; else if (!x.stdout.includes(name) && !x.stderr.includes(name) && !pos.test(x.stdout)) e = { cls: 'message', text: `${what}: message names neither file nor position: ${first(x.stdout)}` }; }
      if (e) { c.muts = [m]; return e; }
    }
    return null;
  },
  *shrink(c) {
    const m = c.muts[0]; if (!m) return; if (m.deep) { for (const n of [m.deep.n >> 1, m.deep.n - 1]) if (n > 0) yield { ...c, muts: [{ ...m, deep: { ...m.deep, n } }] }; } for (const ns of shrinkList(c.base.nodes.filter(n => n.path !== absPath(m.file)))) yield { ...c, base: { ...c.base, nodes: [...ns, ...c.base.nodes.filter(n => n.path === absPath(m.file))] } };
    if (m.deep) { } else if (m.b64 != null) { const l = Buffer.from(m.b64, 'base64').toString('latin1').split('\n'); for (const k of shrinkList(l)) yield { ...c, muts: [{ ...m, b64: Buffer.from(k.join('\n'), 'latin1').toString('base64') }] }; if (l.length === 1) { const b = Buffer.from(m.b64, 'base64'); for (const k of shrinkList([...b])) yield { ...c, muts: [{ ...m, b64: b64(k) }] }; } }
    else { const i = c.base.nodes.findIndex(n => n.path === absPath(m.file)); const d = c.base.nodes[i]; if (d) { const buf = Buffer.from(d.data).subarray(0, m.cut).toString('utf8'); const l = lines(buf); for (const k of shrinkList(l.slice(0, -1))) { const t = [...k, l[l.length - 1]].join('\n'); const nodes = c.base.nodes.slice(); nodes[i] = { ...d, data: t }; yield { ...c, base: { ...c.base, nodes }, muts: [{ ...m, cut: Buffer.byteLength(t), ...(m.must ? { must: openBrace(t) } : {}) }] }; } } }
    yield { ...c, base: { ...c.base, env: { PWD: '/' } } };
  },
};
function openBrace(t) { let d = 0; for (const l of t.replace(/"""(?:\\"""|(?!\\?""")[\s\S])*"""|"(?:\\.|[^"\\\n])*"|#[^\n]*/g, '').split('')) { if (l === '{') d++; if (l === '}') d--; } return d > 0; }

// ---- C14: one version of every file ----------------------------------------------------------
export const C14 = {
  id: 'C14',
  gen(r, tier) {
    const cmp = r.chance(0.45); const n = r.range(1, 3); const mkVersions = (g0, split) => { const out = []; for (let i = 0; i < n; i++) { const g = new Gen(r, { lint: true }); let S = g.schema(r.range(1, 4)); const vs = []; const k = r.range(1, 3); for (let j = 0; j < k; j++) { const its = items(S); if (r.chance(0.3)) r.shuffle(its); vs.push(renderLint(its, r, { style: { pad: r.pick([0, 0, 3]) } }).text); const [N] = mkEdits(r, g, S); S = N; } if (r.chance(0.25)) vs.push(null); out.push(vs); } return out; };
    const mk = (side) => { const nm = mkNames(r, n, { side }); return nm.names.map((p, i) => ({ path: absPath(p), vs: mkVersions()[i] })).map(x => ({ ...x, pattern: nm.pattern })); };
    const sides = cmp ? [mk('-old'), mk('-new')] : [mk('')]; const all = sides.flat(); // at most 32 combinations
    let combos = all.reduce((a, f) => a * f.vs.length, 1); for (const f of all) while (combos > 24 && f.vs.length > 1) { combos /= f.vs.length; f.vs.pop(); combos *= f.vs.length; }
    const rules = r.chance(0.5) ? null : r.sample(RULES, r.range(1, 4)); const flags = cmp ? cmpFlags(r) : []; const argv = cmp ? ['gql', 'compare', '-o', sides[0][0].pattern, '-n', sides[1][0].pattern, ...flags] : lintArgv(r, sides[0][0].pattern, rules);
    return { base: { argv, env: mkEnv(r), sched: mkSched(r), nodes: HOME_NODES }, files: all.map(({ path, vs }) => ({ path, vs })), pick: r.u32(), n: tier === 'thorough' ? 16 : 8 };
  },
  run(c, ctx) {
    const r = new Rng('c14', c.pick); const nodesFor = pickV => [...c.base.nodes, ...c.files.flatMap((f, i) => f.vs[pickV[i]] == null ? [] : [{ path: f.path, kind: 'file', data: f.vs[pickV[i]] }])];
    const combos = [[]]; for (const f of c.files) { const next = []; for (const x of combos) for (let v = 0; v < f.vs.length; v++) next.push([...x, v]); combos.length = 0; combos.push(...next); }
    const allowed = new Set(); let calls = 0; const base0 = []; for (const v of combos) { const x = ctx.ex({ ...c.base, nodes: nodesFor(v) }); if (crash(x)) return null; allowed.add(x.exit + '\0' + x.stdout); calls = Math.max(calls, x.calls); base0.push(x); }
    if (allowed.size > 1) ctx.nontrivial();
    const files = c.files.flatMap(f => [f.path, f.path.slice(1)]); const lint = c.base.argv[1] === 'lint';
    const plans = c.plans ?? Array.from({ length: c.n }, () => { const start = c.files.map(f => r.int(f.vs.length)), cur = start.slice(), ws = []; const k = r.range(1, 5); const ats = Array.from({ length: k }, () => r.range(2, Math.max(3, Math.min(calls, 60)))).sort((a, b) => a - b); for (const at of ats) { const cand = c.files.map((f, i) => i).filter(i => c.files[i].vs.length > 1); if (!cand.length) break; const i = r.pick(cand); let v = r.int(c.files[i].vs.length); if (v === cur[i]) v = (v + 1) % c.files[i].vs.length; cur[i] = v; ws.push(c.files[i].vs[v] == null ? { at, do: 'remove', path: c.files[i].path } : { at, do: 'replace', path: c.files[i].path, data: c.files[i].vs[v] }); } return { start, writers: ws, sched: mkSched(r), delivery: r.chance(0.6) ? { seed: r.u32(), mode: r.pick(['small', 'rand', 'half', 'mixed']), eintr: 0.05 } : undefined }; });
    for (const p of plans) {
      const scn = { ...c.base, sched: p.sched, nodes: nodesFor(p.start), writers: p.writers, ...(p.delivery ? { delivery: p.delivery } : {}) }; const x = ctx.ex(scn); if (x.pendingWriters < p.writers.length) ctx.probe('written-during-run');
      const cr = crash(x); if (cr) { c.plans = [p]; return cr; } if (allowed.has(x.exit + '\0' + x.stdout)) continue;
      const failed = x.exit !== 0 && !VERDICT.test(x.stdout) && !(lint ? parseLint(x.stdout, files).finds.length : parseCompare(x.stdout, files, true).lines.length); if (failed) { ctx.probe('reported-failure'); continue; }
      c.plans = [p]; return { cls: 'mixed', text: `exit ${x.exit}, output of no choice of versions: ${first(x.stdout, 500)}` };
    }
    return null;
  },
  *shrink(c) {
    const p = c.plans?.[0]; if (!p) return; for (const ws of shrinkList(p.writers)) yield { ...c, plans: [{ ...p, writers: ws }] }; if (p.delivery) yield { ...c, plans: [{ ...p, delivery: undefined }] };
    if (c.files.length > 1) for (let i = 0; i < c.files.length; i++) { const fs = c.files.filter((_, j) => j !== i); yield { ...c, files: fs, plans: [{ ...p, start: p.start.filter((_, j) => j !== i), writers: p.writers.filter(w => w.path !== c.files[i].path) }] }; }
    yield { ...c, base: { ...c.base, env: { PWD: '/' } } };
  },
};

// ---- C16: files that do not match ------------------------------------------------------------
const quote = x => x.replace(/[.*+?^${}()|[\]\\\/]/g, '\\$&');
function globRe(pat) { let o = '^'; for (let i = 0; i < pat.length; i++) { const ch = pat[i]; if (ch === '*') o += '[^/]*'; else if (ch === '?') o += '[^/]'; else if (ch === '[') { const j = pat.indexOf(']', i + 1); o += pat.slice(i, j + 1).replace('[^', '[^/'); i = j; } else if (ch === '\\') o += quote(pat[++i]); else o += quote(ch); } return new RegExp(o + '$', 'su'); }
const isDirOf = (d, p) => p.startsWith(d === '/' ? '/' : d + '/');
// Things that lie around: none of them matches, none is on the way to a match.
function mkNoise(r, Ls, taken) {
  const pats = Ls.map(L => absPath(L.pattern)), res = pats.map(globRe), out = []; const has = new Set(taken), files = taken; let g = null; const text = () => { g ??= new Rng('noise', r.u32()); const named = () => r.sample(Ls.flatMap(L => L.files.map(f => f.path)), r.range(1, 3)).map(p => r.chance(0.7) ? p.slice(p.lastIndexOf('/') + 1) : p); return r.weighted([[() => '', 1], [() => named().join('\n') + '\n', 1.5], [() => JSON.stringify({ ignore: named(), exclude: named() }), 0.5], [() => 'exclude:\n' + named().map(x => '  - ' + x + '\n').join(''), 0.5], [() => 'this is { not a schema', 2], [() => mkLintFile(g, { size: r.range(1, 4) }).text, 3], [() => 'type Query { a: Int }\n#lint-disable ' + RULES.join(',') + '\n', 1], [() => '*\n*.graphql\n*.graphqls\n*.gql\n', 1], [() => '{"rules": ["type-desc"], "ignore": ["*"], "strict": true}\n', 1], [() => 'rules: [type-desc]\nignore: "*"\nexclude: ["*"]\n', 1], [() => 'x'.repeat(r.range(1, 200000)), 0.3]])(); };
  const words = [...DICT.strs, ...DICT.paths.map(p => p.replace(/^[~/.]+\/|^\/+|\/+$/g, ''))].filter(x => /^[\w.\-/]{2,40}$/.test(x)); const lit = () => words.length ? r.pick(words) : 'x';
  for (let k = r.range(1, 12); k > 0; k--) {
    const i = r.int(Ls.length), L = Ls[i], m = absPath(r.pick(L.files).path), cut = m.lastIndexOf('/'), dir = m.slice(0, cut), nm = m.slice(cut + 1), dot = nm.lastIndexOf('.'), stem = nm.slice(0, dot), ext = nm.slice(dot);
    const above = dir.slice(0, dir.lastIndexOf('/')) || '';
    const near = r.pick([nm + '.bak', nm + '~', nm + '.swp', '.' + nm + '.swp', '#' + nm + '#', stem, stem + ext.toUpperCase(), stem + ext + 's', stem + ext.slice(0, -1), stem + ext.slice(1), nm + '.tmp', 'ignored.' + r.pick(['txt', 'md', 'json', 'graphql', 'graphqls', 'gql']), '.gitignore', '.gqlignore', '.gqlrc', '.gql.yaml', 'gql.yaml', 'gql.json', '.graphqlrc', '.graphqlconfig', '.lintrc', 'README.md', 'index', 'Makefile', lit(), '.' + lit(), lit() + ext, nm + '.' + lit()]);
    const p = r.weighted([[dir + '/' + near, 6], [dir + '/sub' + r.int(3) + '/' + r.pick([nm, near]), 2], [above + '/' + r.pick([near, nm, 'other' + r.int(3) + '/' + nm]), 2], ['/' + r.pick([near, lit()]), 1], ['/home/u/' + r.pick(['.gqlrc', '.gql.yaml', '.config/gql/config.yaml', '.config/gql.json', '.config/' + lit(), lit(), '.' + lit()]), 1], ['/etc/' + r.pick(['gql.conf', 'gql/config', lit()]), 0.5], ['/tmp/' + r.pick([nm, lit()]), 0.5]]);
    const q = p.split('/').filter(Boolean); if (!q.length || q.some(x => x === '.' || x === '..')) continue; const path = '/' + q.join('/'); let ok = !has.has(path) && !res.some(x => x.test(path)) && ![...has].some(h => isDirOf(path, h));
    for (let d = path; ok && d;) { d = d.slice(0, d.lastIndexOf('/')); if (d && (files.includes(d) || out.some(o => o.path === d && o.kind !== 'dir') || res.some(x => x.test(d)))) ok = false; } // no file above it, no matching directory made
    if (!ok) continue;
    // Where a pattern has a wildcard above its last part, whatever lies there has to be listed.
    const onTheWay = pats.some(pt => { const ps = pt.split('/').filter(Boolean); return q.length < ps.length && /[*?[]/.test(ps.slice(0, q.length + 1).join('/')) || q.length >= ps.length && /[*?[]/.test(ps.slice(0, -1).join('/')); });
    const kind = r.weighted([['file', 8], ['dir', 1], ['link', 1], ['dangling', onTheWay ? 0 : 1], ['loop', onTheWay ? 0 : 0.7]]); const o = { path, ...(onTheWay ? { way: true } : {}) };
    if (kind === 'file') Object.assign(o, { kind: 'file', data: text(), denied: !onTheWay && r.chance(0.25) }); else if (kind === 'dir') Object.assign(o, { kind: 'dir', denied: !onTheWay && r.chance(0.4) }); else Object.assign(o, { kind: 'symlink', target: kind === 'link' ? r.pick([m, '/etc/hostname']) : kind === 'loop' ? q[q.length - 1] : 'nowhere' });
    if (kind === 'file' && r.chance(0.1)) o.statSize = r.pick([0, 1 << 30]);
    out.push(o); has.add(path);
  }
  return out;
}
// The same scenario with everything the relative patterns lead to below the working directory cwd.
const HOMES = /^\/(tmp|home|etc|var)(\/|$)/;
function moved(scn, cwd) {
  if (!cwd) return scn; const to = x => x.startsWith('/') && !HOMES.test(x) ? cwd + x : x;
  return { ...scn, env: { ...scn.env, PWD: cwd }, nodes: [...scn.nodes.map(n => n.out ? n : { ...n, path: to(n.path), ...(n.target ? { target: to(n.target) } : {}) }), { path: cwd, kind: 'dir' }], ...(scn.writers ? { writers: scn.writers.map(w => ({ ...w, path: to(w.path) })) } : {}), ...(scn.faults ? { faults: scn.faults.map(f => ({ ...f, path: to(f.path) })) } : {}) };
}
// Files outside the working directory, at places the patterns lead to from elsewhere.
function mkOutside(r, Ls, cwd, noise) {
  const ups = []; for (let d = cwd; d;) { d = d.slice(0, d.lastIndexOf('/')); ups.push(d); }
  for (let k = r.range(0, 3); k > 0; k--) { const m = absPath(r.pick(r.pick(Ls).files).path), nm = m.slice(m.lastIndexOf('/')), path = r.pick([...ups, '/home/u', '/etc']) + r.pick([m, m, nm]); if (isDirOf(cwd, path) || isDirOf(path, cwd) || noise.some(n => n.path === path || isDirOf(n.path, path) || isDirOf(path, n.path) || (cwd + n.path) === path)) continue; noise.push({ path, kind: 'file', data: r.pick(['type Query { a: Int }\n', 'enum e { a }\n', '}']), out: true }); }
}
export const C16 = {
  id: 'C16',
  gen(r, tier) {
    const cwd = r.chance(0.2) ? r.pick(['/w', '/w/x', '/home/u/w', '/s']) : null, kind = cwd ? 'rel' : undefined; let scn, Ls; if (r.chance(0.45)) { const w = mkCompare(r, { layout: { kind } }); scn = w.scn; Ls = [w.Lo, w.Ln]; } else { const w = mkLint(r, { kind }); scn = w.scn; Ls = [w.L]; }
    if (r.chance(0.15)) { const gone = new Set(r.pick(Ls).files.map(f => absPath(f.path))); scn.nodes = scn.nodes.filter(n => !gone.has(n.path)); }
    else if (r.chance(0.06)) { const f = r.pick(Ls[0].files); const n = scn.nodes.find(n => n.path === absPath(f.path)); n.data = breakText(r, n.data); }
    const decoys = new Set(Ls.flatMap(L => L.decoys ?? [])); scn.nodes = scn.nodes.filter(n => !decoys.has(n.path)); const taken = scn.nodes.filter(n => n.kind === 'file').map(n => n.path); const vars = [];
    for (let i = tier === 'thorough' ? 6 : 3; i > 0; i--) {
      const noise = mkNoise(r, Ls, taken), v = { noise, sched: mkSched(r) }; if (cwd) mkOutside(r, Ls, cwd, noise); const fs = noise.filter(n => n.kind === 'file' && !n.out);
      if (fs.length && r.chance(0.6)) v.writers = Array.from({ length: r.range(1, 4) }, () => { const f = r.pick(fs); return { at: r.range(1, 80), path: f.path, ...r.pick([{ do: 'remove' }, { do: 'replace', data: 'type Late { a: Int }\n' }, { do: 'append', data: '\n}' }, { do: 'truncate', size: 3 }, { do: 'overwrite', data: '}' }]) }; });
      const ff = fs.filter(f => !f.way); if (ff.length && r.chance(0.4)) v.faults = Array.from({ length: r.range(1, 3) }, () => ({ op: r.pick(['open', 'read', 'stat']), path: r.pick(ff).path, nth: 1, errno: r.pick(['EACCES', 'EIO', 'EMFILE', 'ESTALE']), sticky: true }));
      if (r.chance(0.3)) v.stdin = r.pick(['type Query { a: Int }', '}', 'y\n', '\0', '#lint-disable type-desc\n', mkLintFile(r, { size: 2 }).text]); if (r.chance(0.5)) v.stdio = mkStdio(r);
      vars.push(v);
    }
    return { base: scn, vars, cwd };
  },
  run(c, ctx) {
    const a = ctx.ex(moved(c.base, c.cwd)); const e0 = crash(a); if (e0 && e0.cls === 'hang') return e0; if (a.stdout.split('\n').length > 2 && c.vars.some(v => v.noise.length)) ctx.nontrivial();
    for (const v of c.vars) {
      const b = ctx.ex(moved({ ...c.base, nodes: [...c.base.nodes, ...v.noise], sched: v.sched, ...(v.writers ? { writers: v.writers } : {}), ...(v.faults ? { faults: v.faults } : {}), ...(v.stdin != null ? { stdin: v.stdin } : {}), ...(v.stdio ? { stdio: v.stdio } : {}) }, c.cwd)); if (c.cwd) ctx.probe('working-directory');
      for (const n of v.noise) ctx.hit('beside:' + (n.denied ? 'unreadable-' : '') + n.kind); if (v.writers && b.pendingWriters < v.writers.length) ctx.probe('changed-beside'); if (v.stdin != null) ctx.probe('unread-stdin');
      const what = v.noise.map(n => n.path + (n.kind === 'file' ? n.denied ? ' (unreadable)' : '' : ` (${n.kind})`)).join(', ') + (v.stdin != null ? ' and something on stdin' : '');
      if (crash(b) && !e0) return crash(b); if (a.exit !== b.exit) return { cls: 'status', text: `exit ${a.exit}, but ${b.exit} beside ${first(what)}` }; if (a.stdout !== b.stdout) return { cls: 'output', text: `beside ${first(what)}: ${diffAt(a.stdout, b.stdout)}` };
    }
    return null;
  },
  *shrink(c) {
    if (c.vars.length > 1) for (const vs of shrinkList(c.vars)) if (vs.length) yield { ...c, vars: vs };
    for (let i = 0; i < c.vars.length; i++) { const v = c.vars[i]; const put = w => { const vs = c.vars.slice(); vs[i] = { ...v, ...w }; return { ...c, vars: vs }; }; for (const k of ['noise', 'writers', 'faults']) if (v[k]?.length) for (const l of shrinkList(v[k])) yield put({ [k]: l }); if (v.stdin != null) yield put({ stdin: undefined }); }
    yield* shrinkBase(c);
  },
};

// ---- C17: command lines that are refused -------------------------------------------------------
const FLAGS = { lint: ['-f', '--filepath', '-r', '--rules'], compare: ['-o', '--oldversion', '-n', '--newversion'] };
const WRONG_FLAGS = ['--verbose', '--rule', '--file', '--path', '--strict', '--Filepath', '--FILEPATH', '--oldVersion', '--old', '--new', '--version', '--config', '--quiet', '--json', '--breaking', '-x', '-q', '-v', '-F', '-R', '-z', '-1', '--no-color', '--filepaths', '--breaking-changes-only', '--exclude', '-be9', '--9'];
const LONG = { lint: ['--filepath', '--rules'], compare: ['--oldversion', '--newversion', '--breaking-change-only', '--exclude-print-filepath'] };
function wrongFlag(r, cmd) { // close to a flag there is
  const x = r.pick(LONG[cmd]).slice(2), i = r.int(x.length), j = r.range(1, x.length - 1); const y = r.pick([x.replace(/-/g, '_'), x.replace(/-/g, ''), x.replace(/-/g, '.'), x.slice(0, j) + r.pick(['-', '_', '.']) + x.slice(j), x.replace(/(version|path|print|change|only)/, (m, _a, at) => (at ? r.pick(['-', '_', '']) : '') + m), x.replace(/-?(version|path|print|change|only)/, (_m, a) => cap1(a)), x.slice(0, j), x + 's', x.slice(0, i) + x[i] + x.slice(i), x.toUpperCase(), cap1(x), 'no-' + x, x.slice(0, i) + x.slice(i + 1)]);
  return Object.values(LONG).flat().includes('--' + y) || !y || y === 'help' || y.startsWith('-') ? '--flag' : '--' + y;
}
const cap1 = s => s[0].toUpperCase() + s.slice(1);
const known = x => RULES.includes(x.trim().toLowerCase());
function wrongRule(r) {
  const x = r.pick(RULES), i = r.int(x.length); const words = DICT.strs.filter(w => /^[\w.\-]{1,40}$/.test(w));
  const y = r.pick([x.slice(0, i) + x.slice(i + 1), x.slice(0, i) + x[i] + x.slice(i), x + 's', x.replace('-', '_'), x.replace('-', ''), x.replace('-', '--'), x.replace('-', ' '), x + '.', x + ';' + r.pick(RULES), x + ' ' + r.pick(RULES), x.slice(0, -1), x.split('-')[0], x.split('-')[1], 'no-' + x, '!' + x, x + '*', '*', 'all', 'none', 'default', '.', x + '-' + x.split('-')[1], 'x' + x, x.split('-').reverse().join('-'), x.replace('-', '\u2010'), x + '=true', x + ':off', words.length ? r.pick(words) : 'word', [...x].reverse().join(''), x.replace(/e/, '3'), x + '\u00a0x']);
  return y && !known(y) && !/[",\n]/.test(y) ? y : 'no-such-rule';
}
const insert = (r, xs, ...ys) => { const i = r.range(0, xs.length); return [...xs.slice(0, i), ...ys, ...xs.slice(i)]; };
export const C17 = {
  id: 'C17',
  gen(r, tier) {
    const lint = r.chance(0.5), rest = []; let scn, argv, names = [], how, w; // names: what the message has to mention
    if (lint) w = mkLint(r, { n: r.range(1, 3), size: r.range(0, 4) }); else w = mkCompare(r, { size: r.range(0, 5) }); scn = w.scn;
    if (r.chance(0.12)) { // names of rules in other spellings: the same run
      if (!lint) return this.gen(r, tier); const L = w.L, rules = r.chance(0.2) ? [...RULES] : r.sample(RULES, r.range(1, 5)), all = rules.length === RULES.length; const ws = x => r.pick(['', '', ' ', '  ', '\t']) + r.pick([x, x.toUpperCase(), x[0].toUpperCase() + x.slice(1), x.split('-').map(y => y[0].toUpperCase() + y.slice(1)).join('-'), [...x].map(ch => r.chance(0.5) ? ch.toUpperCase() : ch).join('')]) + r.pick(['', '', ' ']);
      const odd = all && r.chance(0.6) ? r.pick([[], ['--rules='], ['-r', '']]) : r.chance(0.5) ? ['-r', rules.map(ws).join(',')] : rules.flatMap(x => ['-r', ws(x)]);
      return { accept: true, scn: { ...scn, argv: ['gql', 'lint', '-f', L.pattern, '-r', rules.join(',')] }, argv: r.chance(0.5) ? [...odd, '-f', L.pattern] : ['-f', L.pattern, ...odd], vars: [{ sched: mkSched(r) }] };
    }
    const help = r.chance(0.1); const pats = lint ? [w.L.pattern] : [w.Lo.pattern, w.Ln.pattern]; const args = scn.argv.slice(2);
    const named = { lint: r.chance(0.6) ? r.pick([['-f', pats[0]], ['--filepath', pats[0]], ['--filepath=' + pats[0]]]) : [], compare: lint ? [] : r.pick([['-o', pats[0], '-n', pats[1]], ['--oldversion=' + pats[0], '--newversion', pats[1]]]) };
    const cmd = lint ? 'lint' : 'compare', given = named[cmd];
    if (help) { how = 'help'; argv = r.pick([[], ['--help'], ['-h'], ['help'], ['help', cmd], [cmd, '-h'], [cmd, '--help'], [cmd, ...given, '--help'], [cmd, '-h', ...given], ['help', 'help'], ['completion', 'bash']]); }
    else how = r.weighted([['flag', 4], ['value', 1.5], ['command', 1.5], ['pattern', 3], ...(lint ? [['rule', 8]] : [['missing', 4], ['same', 2.5], ['bool', 1.5]])]);
    if (how === 'rule') { const bad = wrongRule(r), list = insert(r, r.sample(RULES, r.pick([0, 0, 1, 2, 5])), bad); names = bad.trim() ? [bad.trim()] : []; if (r.chance(0.1)) list.push(wrongRule(r)); if (list.length > 1 && r.chance(0.06)) { list[list.indexOf(bad)] = ' '; names = []; } const flag = r.chance(0.6) ? [r.pick(['-r', '--rules']), list.join(r.pick([',', ', ']))] : r.chance(0.5) ? ['--rules=' + list.join(',')] : list.flatMap(x => ['-r', x]); argv = [cmd, ...(r.chance(0.5) ? [...flag, ...given] : [...given, ...flag])]; if (list.filter(x => !known(x)).length > 1) names = []; }
    if (how === 'flag') { const f = r.chance(0.25) ? r.pick(lint ? ['-o', '-n', '-b', '-e', '--oldversion', '--newversion'] : ['-f', '-r', '--filepath', '--rules']) : r.chance(0.5) ? wrongFlag(r, cmd) : r.pick(WRONG_FLAGS); names = [f.startsWith('--') ? f : f === '-be9' ? lint ? 'b' : '9' : f[1]]; const v = r.chance(0.4) ? [f + (f.startsWith('--') ? '=' : '') + r.pick(['x', 'true', ...pats, ...pats])] : [f]; argv = r.chance(0.15) ? [...v, cmd, ...given] : [cmd, ...(r.chance(0.5) ? [...v, ...given] : [...given, ...v])]; }
    if (how === 'value') { const f = r.pick(FLAGS[cmd]); names = [f.replace(/^-+/, '')]; argv = [cmd, ...(r.chance(0.5) ? given : []), f]; }
    if (how === 'bool') { const f = r.pick(['-b', '-e', '--breaking-change-only', '--exclude-print-filepath']), v = r.pick(['maybe', '2', 'yes', 'on', 'tru', 'no', '-1', 'T F', '']); names = v ? [v] : []; argv = [cmd, ...given, f + '=' + v]; if (r.chance(0.5)) argv = [cmd, f + '=' + v, ...given]; }
    if (how === 'command') { const x = r.pick(['lnt', 'Lint', 'LINT', 'check', 'diff', 'compares', 'lint2', 'validate', 'comp', 'l', 'c', 'version', 'linter', 'Compare', 'lint-', pats[0]].concat(DICT.strs.filter(w => /^[a-z]{3,12}$/.test(w) && !['lint', 'compare', 'help', 'completion', 'gql'].includes(w)))); names = [x]; argv = [x, ...(r.chance(0.3) ? given : [])]; if (argv.length > 1) names = []; }
    if (how === 'missing') { const o = r.pick([[], ['-o', pats[0]], ['-n', pats[1]], ['-o', '', '-n', pats[1]], ['-o', pats[0], '-n', ''], ['--oldversion='], ['-o', '', '-n', ''], ['--newversion=' + pats[1], '-b'], ['-b', '-e'], [pats[0], pats[1]], ['-o', pats[0], pats[1]]]); argv = [cmd, ...o]; }
    if (how === 'same') { const i = r.int(2); argv = [cmd, ...r.pick([['-o', pats[i], '-n', pats[i]], ['--newversion=' + pats[i], '-o', pats[i]], ['-b', '-n', pats[i], '--oldversion', pats[i], '-e']])]; names = [pats[i]]; }
    if (how === 'pattern') { // a pattern that is malformed, or that nothing matches
      const there = new Set(); for (const n of scn.nodes) for (let p = n.path; p; p = p.slice(0, p.lastIndexOf('/'))) there.add(p);
      const near = () => { const p = r.pick(scn.nodes).path, e = p.match(/\.\w+$/)?.[0] ?? '', s = p.slice(0, p.length - e.length); const x = r.pick([s, s, p.slice(0, -1), p + 's', p + '.graphql', s + r.pick(['.graphql', '.graphqls', '.gql', '.GRAPHQL', '.json']), p.toLowerCase(), p.toUpperCase(), s + '*.' + e, p.slice(1).replace('/', '//') + '~']); return /[[\]\\*?]/.test(s) || there.has(x) || !x ? null : x; }; // close to a file that is there
      const at = r.pick(pats).replace(/[^/]*$/, ''), bad = () => (r.chance(0.35) ? near() : null) ?? (r.chance(0.5) ? r.pick([at + '[', at + 'a[', '[', '[]', at + '[a-', at + '[^', at + '*[b-', at + '[]a].graphql', at + '*.graphql\\', '[x/' + 'a.graphql', at + '[a/*.graphql', at + '[z-]x', '*[', '?[^]']) : r.pick([at + 'none-*.gql9', at + 'no/such/*.graphql', 'nowhere/at/all.graphql', at + '?.gql9', '/none/*', at + '[!]x.gql9', at + 'missing file.graphql', '*.gql9', 'no-dir*/*.graphql', at + '*.graphql/*', at + '{a,b}.gql9', at + '**/none.gql9', '\\*.gql9', '~/none.graphql', '$HOME/none.graphql']));
      if (lint) { const x = bad(); names = [x]; argv = ['lint', ...r.pick([['-f', x], ['--filepath=' + x], ['-f', x, '-r', r.pick(RULES)], ['-r', r.sample(RULES, 2).join(','), '--filepath', x]])]; }
      else { const k = r.int(3), o = k === 1 ? pats[0] : bad(), n = k === 0 ? pats[1] : k === 2 && o === pats[1] ? bad() + 'x' : k === 2 ? 'other/' + bad() : bad(); if (k !== 2) names = [k ? n : o]; argv = ['compare', ...r.pick([['-o', o, '-n', n], ['--newversion=' + n, '-o', o], ['-b', '-n', n, '--oldversion', o, '-e']])]; }
    }
    const files = scn.nodes.filter(n => n.kind === 'file' && !HOME_NODES.some(h => h.path === n.path)); const vars = [];
    for (let i = tier === 'thorough' ? 6 : 3; i > 0; i--) {
      const v = { sched: mkSched(r), env: r.chance(0.4) ? mkEnv(r) : scn.env };
      v.stdin = r.weighted([['open', 4], ['text', 2], ['none', 2], ['fails', 1]]); if (r.chance(0.5)) v.stdio = { ...mkStdio(r), in: v.stdin === 'open' ? r.pick(['char', 'pipe']) : r.pick(['char', 'pipe', 'file']) };
      v.files = r.weighted([['as they are', 4], ['gone', 2], ['denied', 2], ['broken', 1], ['failing', 1.5]]);
      if (r.chance(0.4)) v.out = r.weighted([['dead', 3], ['soft', 2], ['err', 2], ['both', 1]]); v.nth = r.pick([1, 1, 2, 3]); v.errno = r.pick(OUT_ERR); v.seed = r.u32();
      vars.push(v);
    }
    return { scn: { ...scn, argv: ['gql', ...argv] }, help, how, names, vars, files: files.map(f => f.path) };
  },
  run(c, ctx) {
    ctx.nontrivial();
    if (c.accept) {
      const a = ctx.ex(c.scn), b = ctx.ex({ ...c.scn, argv: ['gql', 'lint', ...c.argv], sched: c.vars[0].sched }); ctx.hit('names:other-spelling'); if (crash(b) && !crash(a)) return crash(b);
      const as = x => x.split('\n').sort().join('\n'); if (a.exit !== b.exit) return { cls: 'status', text: `exit ${a.exit} for ${c.scn.argv.join(' ')}, but ${b.exit} for ${c.argv.join(' ')}` }; if (as(a.stdout) !== as(b.stdout)) return { cls: 'selection', text: `the same rules in another spelling: ${diffAt(as(a.stdout), as(b.stdout))}` }; return null;
    }
    for (const v of c.vars) {
      const own = new Set(c.files), faults = []; let scn = { ...c.scn, sched: v.sched, env: v.env };
      if (v.files === 'gone') scn.nodes = scn.nodes.filter(n => !own.has(n.path)); else if (v.files === 'denied') scn.nodes = scn.nodes.map(n => own.has(n.path) ? { ...n, denied: true } : n); else if (v.files === 'broken') scn.nodes = scn.nodes.map(n => own.has(n.path) && n.kind === 'file' ? { ...n, data: 'type {' } : n); else if (v.files === 'failing') for (const p of own) for (const op of ['open', 'stat', 'read']) faults.push({ op, path: p, nth: 1, errno: 'EIO', sticky: true });
      scn.stdin = v.stdin === 'text' ? 'type Query { a: Int }\n' : ''; if (v.stdin === 'open') scn.stdinOpen = true; if (v.stdin === 'fails') faults.push({ op: 'read', path: 'stdin', nth: 1, errno: 'EIO', sticky: true }); if (v.stdio) scn.stdio = v.stdio;
      if (v.out === 'dead' || v.out === 'both') faults.push({ op: 'write', path: 'stdout', nth: v.nth, errno: v.errno, sticky: true }); if (v.out === 'err' || v.out === 'both') faults.push({ op: 'write', path: 'stderr', nth: v.nth, errno: v.errno, sticky: true }); if (v.out === 'soft') scn.delivery = { seed: v.seed, mode: 'all', shortWrites: 0.7, eintr: 0.3 };
      if (faults.length) scn.faults = faults; const b = ctx.ex(scn); const what = c.scn.argv.slice(1).join(' ') || '(nothing)'; ctx.hit((c.help ? 'help' : 'refuse:' + c.how)); ctx.hit('stdin:' + v.stdin); ctx.hit('files:' + v.files.replace(/ /g, '-'));
      const at = b.sites.find(s => s[1] === 'stdin' && s[0] === 'read' || s[1] === '/dev/stdin'); if (at) return { cls: 'stdin', text: `standard input is read for: ${what}` };
      const pipe = v.out && v.errno === 'EPIPE' && (b.exit > 1 || b.trap) && !/^(panic:|fatal error: (?!.*sigpipe))/m.test(b.stderr); const cr = crash(b); if (cr && !pipe) return cr;
      const op = b.sites.find(s => own.has(s[1]) && ['open', 'read'].includes(s[0])); if (op && c.how !== 'pattern') return { cls: 'opened', text: `${op[1]} is opened for: ${what}` };
      if (c.help ? b.exit !== 0 && !v.out : b.exit !== 1 && !pipe) return { cls: 'status', text: `exit ${b.exit} for: ${what}` };
      if (VERDICT.test(b.stdout)) return { cls: 'verdict', text: `a verdict is printed for: ${what}` };
      const said = b.stdout + b.stderr; if ((!v.out || v.out === 'soft') && (!said.trim() || !c.help && (c.how !== 'pattern' || v.files === 'as they are') && c.names.some(x => !said.includes(x)))) return { cls: 'message', text: `the message does not say what is wrong with: ${what}: ${JSON.stringify(first(said, 160))}` };
    }
    return null;
  },
  *shrink(c) { if (c.vars.length > 1) for (const vs of shrinkList(c.vars)) if (vs.length) yield { ...c, vars: vs }; for (let i = 0; i < c.vars.length; i++) { const v = c.vars[i]; for (const k of ['out', 'stdio']) if (v[k]) { const vs = c.vars.slice(); vs[i] = { ...v, [k]: undefined }; yield { ...c, vars: vs }; } if (v.files !== 'as they are') { const vs = c.vars.slice(); vs[i] = { ...v, files: 'as they are' }; yield { ...c, vars: vs }; } } for (const ns of shrinkNodes(c.scn.nodes)) yield { ...c, scn: { ...c.scn, nodes: ns } }; },
};

export const PROPS0 = { C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C14, C16, C17 };
