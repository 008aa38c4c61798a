// Reference linter: what lint must report for rendered files whose structure is known.
// Finding: {rule, lo, hi, text, names} - reported on a line in [lo, hi].
import { typeBase } from './schema.mjs';
export const RULES = ['type-desc', 'args-desc', 'field-desc', 'enum-caps', 'enum-desc', 'field-camel', 'type-caps', 'relay-conn-type', 'relay-conn-args'];
const isList = t => t.l != null;

// `file` is a rendered file: {recs, comments:[{line, cmd, rules}]}
export function refLint(file, rules) {
  const out = [], on = new Set(rules); const defs = file.recs.filter(r => r.t === 'def'), exts = file.recs.filter(r => r.t === 'ext');
  const add = (rule, lo, hi, text, names) => { if (on.has(rule)) out.push({ rule, lo, hi, text, names }); };
  for (const rc of defs) if (!rc.it.d.desc) add('type-desc', rc.nameLine, rc.nameLine, `type ${rc.name} does not have description`, [rc.name]);
  for (const rc of [...defs, ...exts]) {
    const d = rc.it.d, X = rc.t === 'ext' ? 'extended ' : '', nl = rc.nameLine;
    if (/^[a-z]/.test(d.name)) add('type-caps', nl, nl, `${X}type ${d.name} is not capitalized`, [d.name]);
    d.fields.forEach((f, i) => {
      const m = rc.members[i], at = [m.nameLine, m.typeLine];
      if (!f.desc) add('field-desc', ...at, `field ${d.name}.${f.name} does not have description`, [d.name, f.name]);
      if (!/^[a-z][a-zA-Z0-9]*$/.test(f.name)) add('field-camel', ...at, `field ${d.name}.${f.name} is not camelcased`, [d.name, f.name]);
      if (d.kind === 'OBJECT' || d.kind === 'INTERFACE') for (const a of f.args) if (!a.desc) add('args-desc', ...m.args[a.name], `argument ${d.name}.${f.name}.${a.name} does not have description`, [d.name, f.name, a.name]);
      if (rc.t === 'def') relayArgs(f, m, at, add);
    });
    d.values.forEach((v, i) => {
      const m = rc.members[i];
      if (v.name !== v.name.toUpperCase()) add('enum-caps', m.lo, m.hi, `${X}enum value ${d.name}.${v.name} is not uppercase`, [d.name, v.name]);
      if (!v.desc) add('enum-desc', m.lo, m.hi, `${X}enum value ${d.name}.${v.name} does not have description`, [d.name, v.name]);
    });
  }
  for (const rc of defs) {
    const d = rc.it.d, nl = rc.nameLine; if (!d.name.endsWith('Connection')) continue;
    if (d.kind !== 'OBJECT') { add('relay-conn-type', nl, nl, `type ${d.name} cannot end with Connection as that is reserved for entities`, [d.name, 'cannot end']); continue; }
    const e = d.fields.findIndex(f => f.name === 'edges'), p = d.fields.findIndex(f => f.name === 'pageInfo');
    if (e < 0) add('relay-conn-type', nl, nl, `type ${d.name} is a Connection type and therefore needs to have a field named 'edges' that returns a list type`, [d.name, 'edges']);
    else if (!isList(d.fields[e].type)) add('relay-conn-type', rc.members[e].nameLine, rc.members[e].typeLine, `edges field from Connection type ${d.name} needs to return a list type`, [d.name, 'edges']);
    if (p < 0) add('relay-conn-type', nl, nl, `type ${d.name} is a Connection type and therefore needs to have a field named 'pageInfo' that returns a non-null PageInfo object`, [d.name, 'pageInfo']);
    else { const t = d.fields[p].type; if (isList(t) || !t.nn || t.n !== 'PageInfo') add('relay-conn-type', rc.members[p].nameLine, rc.members[p].typeLine, `pageInfo field from Connection type ${d.name} needs to return a non-null PageInfo object`, [d.name, 'pageInfo']); }
  }
  return out.filter(f => !off(f, file.comments ?? []));
}
function relayArgs(f, m, at, add) {
  if (!typeBase(f.type).endsWith('Connection')) return; const a = n => f.args.find(x => x.name === n);
  const first = a('first'), last = a('last'), fwd = first && a('after'), bwd = last && a('before');
  if (!fwd && !bwd) add('relay-conn-args', ...at, `field ${f.name} returns a Connection type and therefore must include forward pagination arguments`, [f.name, 'must include']);
  const bad = (x, nullable) => isList(x.type) || typeBase(x.type) !== 'Int' || (nullable && x.type.nn);
  if (first && bad(first, !!bwd)) add('relay-conn-args', ...m.args.first, `field ${f.name} is returns a Connection type \`first\` argument`, [f.name, '`first` argument']);
  if (last && bad(last, !!fwd)) add('relay-conn-args', ...m.args.last, `field ${f.name} is returns a Connection type \`last\` argument`, [f.name, '`last` argument']);
}
// Switched off by the file's own comments: on that line, or strictly between disable and enable.
function off(f, comments) {
  let range = false;
  for (const c of comments) {
    if (!c.rules.some(r => r.toLowerCase() === f.rule)) continue;
    if (c.cmd === 'lint-disable-line' && c.line >= f.lo && c.line <= f.hi) return true;
    if (c.line < f.lo) { if (c.cmd === 'lint-disable') range = true; else if (c.cmd === 'lint-enable') range = false; }
  }
  return range;
}
// ---- reading lint's output
export function parseLint(stdout, files) {
  const res = { finds: [], verdict: null, total: null, junk: [] }; const sorted = [...files].sort((a, b) => b.length - a.length);
  for (const raw of stdout.split('\n')) {
    if (raw === '') continue; let m;
    if (raw === 'Schema has no lint errors! 🎉') { res.verdict = (res.verdict ? res.verdict + '+' : '') + 'ok'; continue; }
    if ((m = /^❌ Total lint errors found: (\d+)$/.exec(raw))) { res.verdict = (res.verdict ? res.verdict + '+' : '') + 'errors'; res.total = +m[1]; continue; }
    let hit = null; for (const f of sorted) if (raw.startsWith(f + ':')) { const k = /^:(\d+):(-?\d+) (.*)$/s.exec(raw.slice(f.length)); if (k) { const at = /^(\d+):(-?\d+) /.exec(k[3]); hit = { file: f, line: +k[1], col: +k[2], msg: k[3].replace(/^\d+:-?\d+ /, ''), raw, garbled: /%!/.test(k[3]) || at && (at[1] !== k[1] || at[2] !== k[2]) }; break; } }
    if (hit) res.finds.push(hit); else res.junk.push(raw);
  }
  return res;
}
// Which rule a printed message belongs to.
export function ruleOf(msg) {
  if (/^argument .*description/.test(msg)) return 'args-desc'; if (/^field .*description/.test(msg)) return 'field-desc'; if (/enum value .*description/.test(msg)) return 'enum-desc'; if (/enum value .*uppercase/.test(msg)) return 'enum-caps'; if (/camel/i.test(msg)) return 'field-camel'; if (/capitalized/.test(msg)) return 'type-caps'; if (/type .*description/.test(msg)) return 'type-desc';
  if (/Connection/.test(msg) && /pagination|argument/.test(msg)) return 'relay-conn-args';
  if (/Connection/.test(msg) && /edges|pageInfo|cannot end/.test(msg)) return 'relay-conn-type';
  return null;
}
const hasName = (msg, names) => { let at = 0; for (const n of names) { const i = msg.indexOf(n, at); if (i < 0) return false; at = i + n.length; } return true; };
export function matchFindings(exp, got) {
  const left = exp.map(e => ({ ...e })); const un = [];
  for (const g of got) {
    const rule = ruleOf(g.msg); let i = left.findIndex(e => !e.used && e.file === g.file && e.rule === rule && g.line >= e.lo && g.line <= e.hi && (g.msg === e.text || (e.rule.startsWith('relay') && hasName(g.msg, e.names))));
    if (i < 0) i = left.findIndex(e => !e.used && e.file === g.file && (rule == null || e.rule === rule) && g.line >= e.lo && g.line <= e.hi && hasName(g.msg, e.names));
    if (i < 0) un.push(g); else left[i].used = true;
  }
  const bad = got.find(g => g.garbled); if (bad) return { cls: 'garbled', text: `message does not say what it is about: ${bad.raw}` };
  const miss = left.filter(e => !e.used);
  if (miss.length && un.length) { const m = miss[0]; const g = un.find(g => g.msg === m.text); if (g) return { cls: 'line', text: `${m.text}: reported at ${g.file}:${g.line}, is at ${m.file}:${m.lo}` }; }
  if (miss.length) return { cls: 'missing', text: `not reported: ${miss[0].file}:${miss[0].lo} [${miss[0].rule}] ${miss[0].text}` };
  if (un.length) return { cls: 'spurious', text: `reported but not a violation: ${un[0].raw}` };
  return null;
}
