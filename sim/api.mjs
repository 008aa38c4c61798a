// C13 and C15: calls of the libraries inside one process, through harness/apisim.
import { Gen, DICT, LARGE, clone, layout, nodesOf } from './schema.mjs';
import { RULES } from './reflint.mjs';
import { HOME_NODES, mkEnv, mkSched, mkEdits, mkLintFile, breakText } from './work.mjs';
import { crash, diffAt, shrinkList } from './props.mjs';

const MARK = '\x01\x02';
const first = (s, n = 300) => { s = String(s); return s.length > n ? s.slice(0, n) + '…' : s; };
function docFiles(L) { const o = {}; for (const f of L.files) o[f.path] = f.text; return o; }
const wide = r => { const w = LARGE.size.filter(x => x <= 70000); return { wide: r.chance(0.02) ? (w.length && r.chance(0.8) ? r.pick(w) + r.range(-2, 2) : 66000) : 0 }; }; // wider ones only take long
// The same files with a letter or two changed: same names, same lengths, other contents.
function twin(r, doc) {
  const d = clone(doc), k = r.pick(Object.keys(d)); const lint = [...d[k].matchAll(/#lint-[^\n]*/g)], ws = lint.length && r.chance(0.7) ? lint : [...d[k].matchAll(/[A-Za-z]{2,}/g)].filter(m => !/^(type|enum|input|interface|union|scalar|extend|schema|directive|implements|on|repeatable|query|mutation|subscription)$/.test(m[0])); if (!ws.length) return null;
  const m = r.pick(ws), i = m.index + (lint.length && ws === lint ? 5 + r.int(m[0].length - 5) : r.int(m[0].length)), c = d[k][i]; if (!/[A-Za-z]/.test(c)) return null;
  d[k] = d[k].slice(0, i) + (r.chance(0.4) ? (c === c.toLowerCase() ? c.toUpperCase() : c.toLowerCase()) : r.pick([...'abcdexyzQ'])) + d[k].slice(i + 1); return d;
}
function mkDocs(r) {
  const g = new Gen(r, { big: r.chance(0.1), noBlow: true }); const S = g.schema(r.range(1, r.pick([4, 10]))); const [N] = mkEdits(r, g, S); const docs = [];
  docs.push(docFiles(layout(S, r, { side: '-old', style: wide(r) })), docFiles(layout(N, r, { side: '-new', style: wide(r) })));
  if (r.chance(0.5)) { const f = {}; for (let i = r.range(1, 3); i > 0; i--) f[`lint${i}.graphql`] = mkLintFile(r, { size: r.range(1, 6), style: wide(r) }).text; docs.push(f); if (r.chance(0.5)) { const d = {}; for (const k of Object.keys(f)) d[k] = mkLintFile(r, { size: r.range(1, 6), style: wide(r) }).text; docs.push(d); } } // other contents under the same names
  if (r.chance(0.3)) { const d = clone(docs[0]); const k = r.pick(Object.keys(d)); d[k] = breakText(r, d[k]); docs.push(d); }
  if (r.chance(0.2)) docs.push(clone(docs[0]));
  if (r.chance(0.3)) { const k = r.int(docs.length), d = twin(r, docs[k]); if (d) docs.push(d); }
  return docs;
}
function mkOp(r, docs, read) {
  const o = { op: r.weighted([['compare', 4], ['group', 2], ['report', 2], ['rule', 4], ['sorted', 2], ['lint', 4], ['findlint', 2], ['parse', 2], ['select', 1], ['describe', 0.3], ['lex', 1], [read ? 'read' : 'lint', read ? 1 : 0]]), doc: r.int(docs.length) };
  if (['compare', 'group', 'report'].includes(o.op)) { if (r.chance(0.6)) { o.doc = 0; o.new = 1; } else o.new = r.int(docs.length); o.flag = r.chance(0.5); }
  if (['rule', 'sorted', 'lint', 'findlint'].includes(o.op)) o.rules = r.chance(0.4) ? [] : r.sample(RULES, r.pick([1, 1, 2, 3]));
  if (o.op === 'select') o.rules = r.chance(0.3) ? [] : r.sample([...RULES, 'TYPE-DESC', ' field-desc ', 'nosuch'], r.range(1, 4));
  if (o.op === 'read') o.path = r.pick(['files/*.graphql', 'files/a?.graphql', 'files/none*', 'files/a1.graphql']);
  return o;
}
const FILES = r => Array.from({ length: r.range(1, 4) }, (_, i) => ({ path: `/files/a${i}.graphql`, kind: 'file', data: `type T${i} { f: Int }\n` }));
const scnOf = (c, api, sched) => ({ argv: ['apisim'], env: c.env, sched, nodes: [...HOME_NODES, ...c.files], stdin: JSON.stringify(api) });
function read(x) { // -> {out, text per call, rest}
  const i = x.stdout.lastIndexOf(MARK + 'OUT '); if (i < 0) return null; return { ...JSON.parse(x.stdout.slice(i + MARK.length + 4)), text: x.stdout.slice(0, i) };
}
function printed(text) { const m = new Map(); const re = /\x01\x02(\d+)\.(\d+)\.false\n([\s\S]*?)\x01\x02\1\.\2\.true\n/g; for (let k; (k = re.exec(text));) m.set(k[1] + '.' + k[2], k[3]); return m; }
const fails = x => crash(x) ?? (x.exit !== 0 ? { cls: 'exit', text: `the process ended with status ${x.exit}: ${first(x.stdout.slice(-300))} ${first(x.stderr)}` } : null);
const name = o => o.op + ' ' + JSON.stringify({ ...o, op: undefined });
const lineBag = s => s.split('\n').sort().join('\n');
const panics = (res, what) => { for (const t of res) for (const v of t) if (v.startsWith('PANIC')) return { cls: 'panic', text: `${what}: ${first(v)}` }; return null; };

function* shrinkTasks(c) {
  if (c.tasks.length > 1) for (const t of shrinkList(c.tasks)) if (t.length) yield { ...c, tasks: t };
  for (let i = 0; i < c.tasks.length; i++) if (c.tasks[i].length > 1) for (const l of shrinkList(c.tasks[i])) if (l.length) { const t = c.tasks.slice(); t[i] = l; yield { ...c, tasks: t }; }
  for (let i = 0; i < c.docs.length; i++) for (const f of Object.keys(c.docs[i])) {
    const set = v => { const d = c.docs.slice(); d[i] = { ...d[i] }; if (v == null) delete d[i][f]; else d[i][f] = v; return { ...c, docs: d }; };
    if (Object.keys(c.docs[i]).length > 1) yield set(null); const ls = c.docs[i][f].split('\n'); if (c.docs[i][f]) for (const l of shrinkList(ls)) yield set(l.join('\n'));
  }
}

export const C13 = {
  id: 'C13',
  gen(r, tier) {
    const docs = mkDocs(r); const native = r.chance(0.5); const c = { docs, tasks: [], files: FILES(r), env: mkEnv(r), sched: mkSched(r), vars: [], native: [] };
    const same = r.chance(0.5) ? mkOp(r, docs, !native) : null; // the same call from several sides
    const crowd = r.chance(0.05) ? DICT.ints.length && r.chance(0.6) ? Math.min(24, Math.max(2, r.pick(DICT.ints) + r.range(0, 2))) : r.range(5, 16) : 0; // as many callers as a number in the code
    for (let i = crowd || r.range(2, 4); i > 0; i--) c.tasks.push(Array.from({ length: crowd ? 1 : r.range(1, 4) }, () => same && r.chance(0.5) ? clone(same) : mkOp(r, docs, !native)));
    const hammer = !crowd && r.chance(0.15) && docs.length > 1; // one kind of call again and again on a few schemas, with many switches
    if (hammer) { const kind = r.chance(0.6) ? { op: r.pick(['rule', 'sorted']), rules: [r.pick(RULES)] } : mkOp(r, docs, !native); const ks = r.chance(0.5) ? [0, docs.length - 1] : [r.int(docs.length), r.int(docs.length)]; c.tasks = c.tasks.map(() => Array.from({ length: r.range(3, 6) }, () => ({ ...clone(kind), doc: r.pick(ks) }))); }
    const v = () => ({ sched: mkSched(r), gap: hammer ? r.pick([1, 2, 3, 8, 30]) : r.pick([1, 2, 3, 8, 30, 100, 500, 3000]), seed: r.u32() });
    for (let i = tier === 'thorough' ? 8 : 4; i > 0; i--) c.vars.push(v()); if (native) for (let i = tier === 'thorough' ? 2 : 1; i > 0; i--) c.native.push(v());
    return c;
  },
  run(c, ctx) {
    const A = ctx.api(scnOf(c, { mode: 'alone', docs: c.docs, tasks: c.tasks }, c.sched)); const e0 = fails(A); if (e0) return e0; const a = read(A); const pa = panics(a.results, 'alone'); if (pa) return pa;
    let own = ''; for (const t of printed(a.text).values()) own += t; const bag = lineBag(own);
    const judge = (x, b, how) => {
      ctx.interleaving(b.sig);
      const p = panics(b.results, how); if (p) return p;
      for (let i = 0; i < c.tasks.length; i++) for (let j = 0; j < c.tasks[i].length; j++) if (a.results[i][j] !== b.results[i][j]) return { cls: 'answer', text: `${how}: ${name(c.tasks[i][j])} differs from the same call made alone, ${diffAt(a.results[i][j], b.results[i][j])}` };
      if (b.touched.length) return { cls: 'touched', text: `${how}: ${b.touched[0]} was modified` };
      if (lineBag(b.text) !== bag) return { cls: 'printed', text: `${how}: printed lines differ from those of the calls made alone: ${diffAt(bag, lineBag(b.text))}` };
      return null;
    };
    for (const v of c.vars) {
      const x = ctx.api(scnOf(c, { mode: 'tasks', docs: c.docs, tasks: c.tasks, gap: v.gap, seed: v.seed }, v.sched)); const e = fails(x) ?? judge(x, read(x), `concurrently (schedule ${v.seed}, gap ${v.gap})`); if (e) return e;
    }
    for (const v of c.native) {
      const x = ctx.native({ mode: 'tasks', docs: c.docs, tasks: c.tasks, gap: v.gap, seed: v.seed }); ctx.probe('race-detector run');
      const how = `concurrently under the race detector (schedule ${v.seed}, gap ${v.gap})`;
      if (x.race) return { cls: 'race', text: `data race between ${x.race}` };
      if (x.timeout) return { cls: 'hang', text: `${how}: does not end` };
      const e = fails(x) ?? judge(x, read(x), how); if (e) return e;
    }
    if (c.tasks.length > 1) ctx.nontrivial(); for (const t of c.tasks) for (const o of t) ctx.probe('call ' + o.op); return null;
  },
  *shrink(c) { if (c.vars.length) for (const v of shrinkList(c.vars)) yield { ...c, vars: v }; if (c.native.length) for (const v of shrinkList(c.native)) yield { ...c, native: v }; yield* shrinkTasks(c); },
};

export const C15 = {
  id: 'C15',
  gen(r, tier) {
    const docs = mkDocs(r); const n = r.range(2, tier === 'thorough' ? 25 : 12); const ops = [];
    if (r.chance(0.12)) { // one file and near copies of it, with few kinds of calls
      const t = r.chance(0.6) ? mkLintFile(r, { size: r.range(1, 5), style: wide(r) }).text : Object.values(docs[0])[0]; docs.length = 0; docs.push({ 'a.graphql': t }); for (let i = r.range(2, 4); i > 0; i--) { const d = twin(r, r.pick(docs)); if (d) docs.push(d); }
      const kinds = Array.from({ length: r.range(1, 2) }, () => mkOp(r, docs, false)); for (let i = 0; i < n; i++) ops.push({ ...clone(r.pick(kinds)), doc: r.int(docs.length) });
    } else for (let i = 0; i < n; i++) ops.push(ops.length && r.chance(0.4) ? { ...clone(r.pick(ops)), ...(r.chance(0.4) ? { doc: r.int(docs.length) } : {}) } : mkOp(r, docs, true));
    const probe = []; for (let i = 0; i < (tier === 'thorough' ? 5 : 3); i++) probe.push(r.chance(0.6) ? ops.length - 1 - r.int(Math.min(3, ops.length)) : r.int(ops.length));
    return { docs, tasks: [ops], probe: [...new Set(probe)], files: FILES(r), env: mkEnv(r), sched: mkSched(r), sched2: mkSched(r) };
  },
  run(c, ctx) {
    const H = ctx.api(scnOf(c, { mode: 'history', docs: c.docs, tasks: c.tasks }, c.sched)); const e0 = fails(H); if (e0) return e0; const h = read(H), ops = c.tasks[0]; const ph = panics(h.results, 'in a history'); if (ph) return ph;
    if (h.touched.length) return { cls: 'touched', text: h.touched[0] + ' was modified' };
    const out = printed(h.text); const seen = new Map();
    for (let j = 0; j < ops.length; j++) { const k = JSON.stringify(ops[j]), v = h.results[0][j] + '\0' + out.get('0.' + j); if (seen.has(k)) { ctx.probe('repeated call'); if (seen.get(k) !== v) return { cls: 'repeat', text: `${name(ops[j])} repeated: ${diffAt(seen.get(k), v)}` }; } else seen.set(k, v); }
    for (const j of c.probe) {
      if (j >= ops.length) continue; const F = ctx.api(scnOf(c, { mode: 'alone', look: true, docs: c.docs, tasks: [[ops[j]]] }, c.sched2)); const e = fails(F); if (e) return e; const f = read(F);
      if (f.touched.length) return { cls: 'touched', text: f.touched[0] + ' was modified' };
      if (f.results[0][0] !== h.results[0][j]) return { cls: 'answer', text: `${name(ops[j])} after ${j} other call(s) differs from the same call in a fresh process: ${diffAt(f.results[0][0], h.results[0][j])}` };
      if (printed(f.text).get('0.0') !== out.get('0.' + j)) return { cls: 'printed', text: `${name(ops[j])} after ${j} other call(s) prints other lines than in a fresh process: ${diffAt(printed(f.text).get('0.0'), out.get('0.' + j))}` };
    }
    if (ops.length > 1) ctx.nontrivial(); for (const o of ops) ctx.probe('call ' + o.op); return null;
  },
  *shrink(c) { const n = c.tasks[0].length; for (const d of shrinkTasks(c)) { const m = d.tasks[0]?.length; yield m !== n ? { ...d, probe: Array.from({ length: m }, (_, i) => i) } : d; } if (c.probe.length > 1) for (const p of shrinkList(c.probe)) yield { ...c, probe: p }; },
};
