// Reference differ: what compare must list for two abstract schemas, from the README's
// change catalogue and the severities the repository's own tests pin.
// Entry: {sev, msg, keys} - keys are the definitions the change belongs to.
import { typeStr, valStr } from './schema.mjs';
export const B = 'B', D = 'D', N = 'N';

// A change of an output type is safe when everything the new type yields was allowed before.
export function safeOut(o, n) {
  if (o.nn && !n.nn) return false;
  if (o.l && n.l) return safeOut(o.l, n.l);
  return !o.l && !n.l && o.n === n.n;
}
// A change of an input type is safe when everything accepted before still is.
export function safeIn(o, n) {
  if (!o.nn && n.nn) return false;
  if (o.l && n.l) return safeIn(o.l, n.l);
  return !o.l && !n.l && o.n === n.n;
}
const by = (xs, n) => xs.find(x => x.name === n);
const dep = x => by(x.dirs, 'deprecated');
const reason = u => { const a = u.args.find(a => a[0] === 'reason'); return a ? valStr(a[1]) : null; };

export function refDiff(O, Nw) {
  const out = []; const add = (sev, msg, ...keys) => out.push({ sev, msg, keys });
  ops(O.ops, Nw.ops, 'schema', add); ops(O.extOps, Nw.extOps, 'schemaext', add);
  types(O.defs, Nw.defs, 'def', 'Type', add); types(O.exts, Nw.exts, 'ext', 'Extended type', add);
  for (const od of O.dirs) {
    const key = 'dir:' + od.name, nd = by(Nw.dirs, od.name);
    if (!nd) { add(B, `Directive '@${od.name}' was removed`, key); continue; }
    if (od.desc !== nd.desc) add(N, `Directive '@${od.name}' description changed`, key);
    for (const l of od.locs) if (!nd.locs.includes(l)) add(B, `Location '${l}' was removed from '@${od.name}' directive`, key);
    for (const l of nd.locs) if (!od.locs.includes(l)) add(N, `Location '${l}' was added to '@${od.name}' directive`, key);
    if (od.repeatable && !nd.repeatable) add(B, `Repeatable flag was removed from '@${od.name}' directive`, key);
    if (!od.repeatable && nd.repeatable) add(N, `Repeatable flag was added to '@${od.name}' directive`, key);
    for (const oa of od.args) {
      const na = by(nd.args, oa.name); if (!na) { add(B, `Argument '${oa.name}' was removed from directive '@${od.name}'`, key); continue; }
      if (typeStr(oa.type) !== typeStr(na.type)) add(safeIn(oa.type, na.type) ? N : B, `Argument '${oa.name}' type changed from '${typeStr(oa.type)}' to '${typeStr(na.type)}' in directive '@${od.name}'`, key);
      if (valStr(oa.def) !== valStr(na.def)) add(D, `Argument '${oa.name}' default value changed from '${valStr(oa.def)}' to '${valStr(na.def)}' in directive '@${od.name}'`, key);
      if (oa.desc !== na.desc) add(N, `Argument '${oa.name}' description changed in directive '@${od.name}'`, key);
    }
    for (const na of nd.args) if (!by(od.args, na.name)) na.type.nn ? add(B, `Non-nullable argument '${na.name}:${typeStr(na.type)}' was added to directive '@${od.name}'`, key) : add(N, `Argument '${na.name}:${typeStr(na.type)}' was added to to directive '@${od.name}'`, key);
  }
  for (const nd of Nw.dirs) if (!by(O.dirs, nd.name)) add(N, `Directive '@${nd.name}' was added`, 'dir:' + nd.name);
  return out;
}
function ops(o, n, key, add) {
  for (const k of ['query', 'mutation', 'subscription']) {
    if (!o[k] && n[k]) add(N, `Schema ${k} root has added '${k}'`, key);
    if (o[k] && !n[k]) add(B, `Schema ${k} root has removed '${k}'`, key);
    if (o[k] && n[k] && o[k] !== n[k]) add(B, `Schema ${k} root has changed from '${o[k]}' to '${n[k]}'`, key);
  }
}
function types(os, ns, pre, word, add) {
  for (const ot of os) if (!by(ns, ot.name)) add(B, `${word} '${ot.name}' was removed`, pre + ':' + ot.name);
  for (const nt of ns) if (!by(os, nt.name)) add(N, `${word} '${nt.name}' was added`, pre + ':' + nt.name);
  for (const ot of os) {
    const nt = by(ns, ot.name); if (!nt) continue; const key = pre + ':' + ot.name; const put = (s, m) => add(s, m, key);
    if (ot.kind !== nt.kind) put(B, `Type '${ot.name}' kind changed from '${ot.kind}' to '${nt.kind}'`);
    if (ot.desc !== nt.desc) put(N, `Type '${ot.name}' description changed`);
    if (ot.kind !== nt.kind) continue;
    const T = ot.name, K = ot.kind;
    if (K === 'OBJECT') {
      for (const i of ot.ifaces) if (!nt.ifaces.includes(i)) put(B, `'${T}' object type no longer implements '${i}' interface`);
      for (const i of nt.ifaces) if (!ot.ifaces.includes(i)) put(D, `'${T}' object type implements '${i}' interface`);
    }
    if (K === 'OBJECT' || K === 'INTERFACE') uses(ot.dirs, nt.dirs, T, put);
    if (K === 'UNION') { for (const m of ot.members) if (!nt.members.includes(m)) put(B, `Member '${m}' was removed from Union type '${T}'`); for (const m of nt.members) if (!ot.members.includes(m)) put(D, `Member '${m}' was added to Union type '${T}'`); }
    if (K === 'ENUM') {
      for (const ov of ot.values) {
        const nv = by(ot.values === nt.values ? [] : nt.values, ov.name); if (!nv) { put(B, `Enum value '${ov.name}'${dep(ov) ? '(deprecated)' : ''} was removed from enum '${T}'`); continue; }
        if (ov.desc !== nv.desc) put(N, `Enum value '${ov.name}' description changed in enum '${T}'`);
        deprecation(ov, nv, { a: `Enum value '${ov.name}' deprecated in enum '${T}'`, r: `Enum value '${ov.name}' deprecation removed in enum '${T}'`, c: `Enum value '${ov.name}' deprecation reason changed in enum '${T}'` }, put);
      }
      for (const nv of nt.values) if (!by(ot.values, nv.name)) put(D, `Enum value '${nv.name}' was added to enum '${T}'`);
    }
    if (K === 'OBJECT' || K === 'INTERFACE' || K === 'INPUT_OBJECT') {
      const inp = K === 'INPUT_OBJECT';
      for (const of of ot.fields) {
        const F = `${T}.${of.name}`, nf = by(nt.fields, of.name);
        if (!nf) { put(B, inp ? (dep(of) ? `input field '${F}'(deprecated) was removed from input object type` : `Input field '${F}' was removed from input object type`) : `Field '${F}'${dep(of) ? '(deprecated)' : ''} was removed from ${K}`); continue; }
        if (typeStr(of.type) !== typeStr(nf.type)) { const s = (inp ? safeIn : safeOut)(of.type, nf.type) ? N : B; put(s, inp ? `Input field '${F}' type changed from '${typeStr(of.type)}' to '${typeStr(nf.type)}' in input object type` : `Field '${F}' type changed from '${typeStr(of.type)}' to '${typeStr(nf.type)}' in ${K}`); }
        if (inp && valStr(of.def) !== valStr(nf.def)) put(D, `Input field '${F}' default value changed from '${valStr(of.def)}' to '${valStr(nf.def)}' in input object type`);
        if (of.desc !== nf.desc) put(N, inp ? `Input field '${F}' description changed in input object type` : `Field '${F}' description changed in ${K}`);
        deprecation(of, nf, { a: `Field '${F}' deprecated in ${K}`, r: `Field '${F}' deprecation removed in ${K}`, c: `Field '${F}' deprecation reason changed in ${K}` }, put);
        if (!inp) {
          for (const oa of of.args) {
            const na = by(nf.args, oa.name); if (!na) { put(B, `Argument '${oa.name}:${typeStr(oa.type)}' was removed from field '${F}'`); continue; }
            if (typeStr(oa.type) !== typeStr(na.type)) put(safeIn(oa.type, na.type) ? N : B, `Argument '${oa.name}' type changed from '${typeStr(oa.type)}' to '${typeStr(na.type)}' in '${F}'`);
            if (valStr(oa.def) !== valStr(na.def)) put(D, `Argument '${oa.name}' default value changed from '${valStr(oa.def)}' to '${valStr(na.def)}' in '${F}'`);
            if (oa.desc !== na.desc) put(N, `Argument '${oa.name}' description changed in '${F}'`);
          }
          for (const na of nf.args) if (!by(of.args, na.name)) na.type.nn ? put(B, `Required argument '${na.name}:${typeStr(na.type)}' was added to field '${F}'`) : put(D, `Argument '${na.name}:${typeStr(na.type)}' was added to field '${F}'`);
        }
        uses(of.dirs, nf.dirs, F, put);
      }
      for (const nf of nt.fields) if (!by(ot.fields, nf.name)) { if (inp) nf.type.nn ? put(B, `Required field '${nf.name}' was added to input object type '${T}'`) : put(D, `Field '${nf.name}' was added to input object type '${T}'`); else put(N, `Field '${T}.${nf.name}' was added to ${K}`); }
    }
  }
}
function deprecation(o, n, m, put) {
  const a = dep(o), b = dep(n); if (!a && b) put(D, m.a); if (a && !b) put(D, m.r);
  if (a && b) { const x = reason(a), y = reason(b); if (x != null && y != null && x !== y) put(N, m.c); }
}
function uses(os, ns, where, put) {
  const rest = xs => xs.filter(u => u.name !== 'deprecated'); os = rest(os); ns = rest(ns);
  const argOf = (u, n) => u.args.find(a => a[0] === n);
  for (const o of os) {
    const olds = os.filter(u => u.name === o.name), news = ns.filter(u => u.name === o.name), at = '@' + o.name;
    if (!news.length) put(D, `Directive '${at}' was removed from '${where}'`);
    else if (olds.length === 1 && news.length === 1) {
      const n = news[0];
      for (const [nm, v] of o.args) { const x = argOf(n, nm); if (!x) put(D, `Directive '${at}' argument '${nm}' was removed in '${where}'`); else if (valStr(v) !== valStr(x[1])) put(D, `Directive '${at}' argument '${nm}' value changed from '${valStr(v)}' to '${valStr(x[1])}' in '${where}'`); }
      for (const [nm] of n.args) if (!argOf(o, nm)) put(N, `Directive '${at}' argument '${nm}' was added to in '${where}'`);
    } else if (!news.some(n => n.args.length === o.args.length && o.args.every(([nm, v]) => { const x = argOf(n, nm); return x && valStr(x[1]) === valStr(v); }))) put(D, `Directive '${at}' was changed on '${where}'`);
  }
  for (const n of ns) if (!os.some(u => u.name === n.name)) put(N, `Directive '@${n.name}' was added in '${where}'`);
}

// ---- reading compare's output ----------------------------------------------------
const norm = s => s.replace(/\s+/g, ' ').trim();
const SEV = { '❌': B, '✋️': D, '✋': D, '✅': N };
export function stripEmptyNotices(stdout, files, patterns) {
  let s = stdout; for (let guard = 0; guard < 500 && s.startsWith('empty file='); guard++) { let hit = false; for (const f of files) for (const p of patterns) { const n = `empty file=${f} in path=${p}`; if (s.startsWith(n)) { let k = n.length; if (s[k] === '\n') k++; s = s.slice(k); hit = true; break; } if (hit) break; } if (!hit) break; } return s;
}
// -> {lines:[{sev, file, line, msg, raw}], verdict, total, junk[]}
export function parseCompare(stdout, files, withPath) {
  const res = { lines: [], verdict: null, total: null, junk: [] };
  const sorted = [...files].sort((a, b) => b.length - a.length);
  for (const raw of stdout.split('\n')) {
    if (raw === '') continue; let m;
    if (raw === 'No changes found on schema compare!') { res.verdict = (res.verdict ? res.verdict + '+' : '') + 'none'; continue; }
    if (raw === 'No breaking changes found 🎉') { res.verdict = (res.verdict ? res.verdict + '+' : '') + 'ok'; continue; }
    if ((m = /^❌ Breaking changes in schema: (\d+)$/.exec(raw))) { res.verdict = (res.verdict ? res.verdict + '+' : '') + 'breaking'; res.total = +m[1]; continue; }
    m = /^(❌|✋️|✋|✅)\s+(.*)$/su.exec(raw); if (!m) { res.junk.push(raw); continue; }
    const e = { sev: SEV[m[1]], file: null, line: null, msg: m[2], raw };
    if (withPath) for (const f of sorted) if (m[2].startsWith(f + ':')) { const k = /^:(\d+)\s+(.*)$/s.exec(m[2].slice(f.length)); if (k) { e.file = f; e.line = +k[1]; e.msg = k[2]; break; } }
    e.msg = norm(e.msg); res.lines.push(e);
  }
  return res;
}
const tokens = s => s.match(/'(?:[^']*)'/g)?.join() ?? '';
const ACT = [[/no longer|removed/i, '-'], [/added/i, '+'], [/changed/i, '~'], [/deprecated/i, 'd'], [/implements/i, 'i']];
const unq = s => s.replace(/'[^']*'/g, '');
const act = s => { const t = s.replace(/'[^']*'/g, ''); for (const [re, k] of ACT) if (re.test(t)) return k; return '?'; };
// Matches printed lines against expected entries. Returns null or a description of the first difference.
export function matchChanges(exp, got, where, opt = {}) {
  const left = exp.map(e => ({ ...e, msg: norm(e.msg) })); const un = [];
  const locOk = (g, e) => { if (opt.noLoc || g.file == null) return true; return e.keys.some(k => (where[k] ?? []).some(w => w.file === g.file && g.line >= w.lo && g.line <= w.hi)); };
  const bad = [];
  const idx = new Map(); left.forEach((e, i) => { const k = e.sev + e.msg; if (!idx.has(k)) idx.set(k, []); idx.get(k).push(i); }); const usedE = new Set();
  const claim = (g, cands) => { let f = cands.find(i => !usedE.has(i) && locOk(g, left[i])); if (f == null) { f = cands.find(i => !usedE.has(i)); if (f == null) return false; bad.push([g, left[f]]); } usedE.add(f); return true; };
  for (const g of got) if (!claim(g, idx.get(g.sev + g.msg) ?? [])) un.push(g);
  const un2 = []; // tolerate rewording: same severity, same action, same quoted names in the same order
  for (const g of un) if (/%!/.test(g.msg) || !claim(g, left.map((_, i) => i).filter(i => !usedE.has(i) && left[i].sev === g.sev && tokens(left[i].msg) === tokens(g.msg) && act(left[i].msg) === act(g.msg) && /deprecated/i.test(unq(left[i].msg)) === /deprecated/i.test(unq(g.msg))))) un2.push(g);
  const miss = left.filter((_, i) => !usedE.has(i));
  const wrong = []; for (const g of un2) { const m = miss.find(e => e.msg === g.msg && e.sev !== g.sev); if (m) wrong.push(`listed as ${g.sev} instead of ${m.sev}: ${g.msg}`); }
  if (wrong.length) return { cls: 'severity', text: wrong[0] };
  if (miss.length) return { cls: 'missing', text: `not listed (${miss[0].sev}): ${miss[0].msg}` + (un2.length ? `; listed instead: ${un2[0].raw}` : '') };
  if (un2.length) { const dup = exp.some(e => norm(e.msg) === un2[0].msg); return { cls: dup ? 'duplicate' : 'spurious', text: `${dup ? 'listed more than once' : 'listed but not made'}: ${un2[0].raw}` }; }
  if (bad.length) return { cls: 'location', text: `location outside the definition: ${bad[0][0].raw} (expected ${JSON.stringify(bad[0][1].keys.flatMap(k => where[k] ?? []).slice(0, 4))})` };
  if (opt.withPath) { const g = got.find(g => g.file == null); if (g) return { cls: 'location', text: `no location printed: ${g.raw}` }; }
  return null;
}
