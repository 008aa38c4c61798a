// Workloads: random command lines over random schema files, as scenarios.
import { otherCase, Gen, DICT, LARGE, clone, layout, nodesOf, renderFile, mkStyle, mkNames, items, finishLayout, splitItem, absPath, linkSame } from './schema.mjs';
import { RULES } from './reflint.mjs';

export const HOME_NODES = [{ path: '/tmp', kind: 'dir' }, { path: '/home/u/.cache', kind: 'dir' }, { path: '/home/u/.config', kind: 'dir' }, { path: '/var/tmp', kind: 'dir' }, { path: '/etc/hostname', kind: 'file', data: 'simhost\n' }];
export function mkEnv(r) {
  const e = { PWD: '/', HOME: '/home/u', TMPDIR: '/tmp', PATH: '/bin' };
  for (const [k, vs] of [['LANG', ['C', 'en_US.UTF-8', 'de_DE']], ['LC_ALL', ['C', 'tr_TR.UTF-8']], ['TERM', ['dumb', 'xterm-256color']], ['NO_COLOR', ['1']], ['CI', ['true']], ['COLUMNS', ['40', '200']], ['TZ', ['UTC', 'Asia/Tokyo']], ['USER', ['u', 'root']], ['DEBUG', ['1']], ['XDG_CACHE_HOME', ['/home/u/.cache']]]) if (r.chance(0.25)) e[k] = r.pick(vs);
  for (const k of DICT.envs) if (r.chance(0.5)) e[k] = r.pick(['1', 'true', '0', '', 'yes', '/tmp/x', '4', '*', 'auto', ...RULES.slice(0, 3), ...(DICT.idents.length ? [r.pick(DICT.idents)] : [])]);
  const gc = r.weighted([[null, 4], ['1', 2], ['off', 2], ['20', 1]]); if (gc) e.GOGC = gc;
  return e;
}
export const mkSched = r => ({ seed: r.u32() });
export function baseScn(r, argv, nodes, extra = {}) { return { argv, env: mkEnv(r), sched: mkSched(r), nodes: [...HOME_NODES, ...nodes], ...extra }; }

// ---- compare
export function mkEdits(r, g, S) { const N = clone(S); const n = r.weighted([[0, 1], [1, 4], [r.range(2, 5), 6], [r.range(6, 20), 3], [60, 0.3]]); const done = []; for (let i = 0; i < n; i++) { const e = g.edit(N); if (e) done.push(e); } if (!g.opt.noBlow && g.blow(N)) done.push('many+'); return [N, done]; }
export function cmpFlags(r) { const f = []; if (r.chance(0.3)) f.push(r.pick(['-b', '--breaking-change-only'])); if (r.chance(0.3)) f.push(r.pick(['-e', '--exclude-print-filepath'])); return f; }
export function cmpArgv(r, o, n, flags = []) { const parts = [r.chance(0.5) ? ['-o', o] : r.chance(0.5) ? ['--oldversion', o] : ['--oldversion=' + o], r.chance(0.5) ? ['-n', n] : ['--newversion', n], ...flags.map(f => [f])]; if (r.chance(0.3)) r.shuffle(parts); return ['gql', 'compare', ...parts.flat()]; }
export function mkCompare(r, opt = {}) {
  const g = new Gen(r, { big: opt.big ?? r.chance(0.15) }); const S = g.schema(opt.size); const [N, edits] = mkEdits(r, g, S);
  const Lo = layout(S, r, { side: '-old', ...opt.layout }), Ln = layout(N, r, { side: '-new', ...opt.layout });
  const flags = opt.flags ?? cmpFlags(r); const nodes = [...nodesOf(Lo), ...nodesOf(Ln)];
  return { S, N, edits, Lo, Ln, flags, scn: baseScn(r, cmpArgv(r, Lo.pattern, Ln.pattern, flags), nodes) };
}
// ---- lint
const pickRules = r => r.sample(RULES, r.weighted([[1, 5], [2, 3], [4, 1], [9, 0.5]]));
const cased = (r, x) => r.pick([x.toUpperCase(), x[0].toUpperCase() + x.slice(1), x.replace(/(^|-)(.)/g, (m, a, b) => a + b.toUpperCase())]);
export function lintHooks(r, comments, p) {
  const list = rs => { const v = rs.map(x => r.chance(0.05) ? cased(r, x) : x); if (r.chance(0.08)) v.splice(r.int(v.length + 1), 0, r.pick(['', 'no-such-rule', 'type', 'desc', '*'])); return v.join(r.pick([',', ', ', ' , ', ',', ',\t'])); };
  const cmdText = (cmd, rs) => '#' + cmd + (r.chance(0.1) ? r.pick(['  ', '\t', ' \t ']) : ' ') + list(rs) + r.pick(['', '', '', ' ']);
  const put = (o, cmd, rs) => { o.w(cmdText(cmd, rs)); comments.push({ line: o.line, cmd, rules: rs }); };
  const decoy = o => o.w(r.pick(['# note', '#', '#lint', '#lint-disable', '#lint-disabled type-desc', '#lint-disable-next-line type-desc', '#lint-disable unknown-rule', '#lint-enable', '#lint-disable-line', '# {', '# "', '#lint-disable type_desc', '#lint-', '#lint- type-desc', '# """', '#lint-disabletype-desc']));
  const full = () => comments.length >= (p.most ?? Infinity) && p.range + p.line > 0 && (p = { range: 0, line: 0, decoy: 0 });
  const own = (o, ind) => { full(); if (!r.chance(p.range)) { if (r.chance(p.decoy)) { o.w(ind); decoy(o); o.br(); } return; } o.w(ind); put(o, r.pick(['lint-disable', 'lint-disable', 'lint-enable']), pickRules(r)); o.br(); };
  return {
    top: o => { if (!o.st.one) own(o, ''); }, before: (o, ind) => { if (!o.st.one && !o.st.flat) own(o, ind); },
    header: (o, rec) => { full(); if (o.st.one || o.st.flat) return; if (r.chance(p.line)) { o.w(' '); put(o, r.chance(0.85) ? 'lint-disable-line' : 'lint-disable', pickRules(r)); } },
    after: (o, rec) => { full(); if (o.st.one || o.st.flat || rec.multi) return; const single = rec.kind === 'ENUM' ? rec.lo === rec.hi : rec.nameLine === rec.hi; if (single && r.chance(p.line)) { o.w(r.pick([' ', '  ', ''])); put(o, r.chance(0.9) ? 'lint-disable-line' : 'lint-disable', pickRules(r)); } else if (r.chance(p.decoy)) { o.w(' '); decoy(o); } },
    end: o => { if (!o.st.one && r.chance(p.decoy)) { o.br(); r.chance(0.5) ? decoy(o) : put(o, 'lint-disable', pickRules(r)); } },
  };
}
// One rendered lint file with its comments.
export function mkLintFile(r, opt = {}) {
  const g = new Gen(r, { lint: true, big: opt.big, blow: opt.blow }); const S = g.schema(opt.size); let its = items(S); if (r.chance(0.3)) its = its.flatMap(it => r.chance(0.5) ? splitItem(it, r) : [it]); if (S.defs.length && r.chance(0.08)) for (let i = r.range(1, 2); i > 0; i--) { const d = r.pick(S.defs); its.push({ t: 'def', key: 'def:' + d.name, d: g.def(r.chance(0.7) ? d.kind : r.weighted(g.kinds), d.name) }); } // the parser accepts a type defined twice
  if (r.chance(0.5)) r.shuffle(its);
  return renderLint(its, r, opt);
}
export function renderLint(its, r, opt = {}) {
  const comments = []; const p = opt.noComments ? { range: 0, line: 0, decoy: 0 } : { range: r.pick([0, 0.05, 0.2]), line: r.pick([0, 0.1, 0.4]), decoy: r.pick([0, 0.05, 0.2]) };
  const n = its.reduce((n, it) => n + 1 + (it.d?.fields?.length ?? 0) + (it.d?.values?.length ?? 0), 0); if (n > 2000) p.most = r.pick([20, 150, 400]); // findings times comments
  const f = renderFile(its, mkStyle(r, opt.style), r, lintHooks(r, comments, p)); comments.sort((a, b) => a.line - b.line); return { text: f.text, recs: f.recs, comments };
}
export function lintArgv(r, pattern, rules) {
  const a = ['gql', 'lint']; const f = pattern == null ? [] : r.chance(0.6) ? ['-f', pattern] : r.chance(0.5) ? ['--filepath', pattern] : ['--filepath=' + pattern]; const rl = [];
  if (rules) { const shown = rules.map(x => r.chance(0.1) ? cased(r, x) : x); if (r.chance(0.6)) rl.push(r.pick(['-r', '--rules']), shown.join(r.chance(0.15) ? ', ' : ',')); else for (const x of shown) rl.push('-r', x); }
  return [...a, ...(r.chance(0.5) ? [...f, ...rl] : [...rl, ...f])];
}
export function mkLint(r, opt = {}) {
  const n = opt.n ?? (LARGE.count.length && r.chance(0.01) ? Math.min(400, r.pick(LARGE.count) + r.range(0, 2)) : r.weighted([[1, 3], [2, 3], [r.range(3, 8), 4], [r.range(9, 30), 1]])); const nm = mkNames(r, n, { kind: opt.kind }); const big = r.chance(0.15);
  const size = () => n > 8 ? r.range(0, 3) : n > 3 ? r.range(0, 6) : undefined; const files = [], one = r.int(n);
  for (let i = 0; i < n; i++) { const f = i && r.chance(0.06) ? clone(r.pick(files)) : r.chance(0.03) ? { text: '', recs: [], comments: [] } : mkLintFile(r, { size: opt.size ?? size(), big, blow: i === one }); files.push({ ...f, path: nm.names[i] }); }
  const rules = opt.rules !== undefined ? opt.rules : r.chance(0.5) ? null : r.sample(RULES, r.weighted([[1, 4], [2, 3], [r.range(3, 9), 3]]));
  if (opt.links && n > 1 && r.chance(0.12)) { // a file that differs from another in one letter, perhaps also by name
    const [i, j] = r.shuffle(files.map((_, i) => i)), f = files[i], t = f.text.replace(/\b(type|enum|input|interface|union|scalar)( +)([A-Za-z])/, (_, k, b, l) => k + b + (l === l.toLowerCase() ? l.toUpperCase() : l.toLowerCase()));
    const at = f.path.lastIndexOf('/') + 1, twin = f.path.slice(0, at) + f.path.slice(at).replace(/^[^.]+/, x => otherCase(r, x)); files[j] = { ...files[j], text: t, path: r.chance(0.6) && /\*\.\w+$|\*$/.test(nm.pattern) && !/\[/.test(nm.pattern) && files.every(g => g.path !== twin) ? twin : files[j].path };
  }
  if (opt.links && r.chance(0.5)) linkSame(files); const L = { pattern: nm.pattern, files, decoys: nm.decoys ?? [] };
  return { L, rules, scn: baseScn(r, lintArgv(r, nm.pattern, rules), nodesOf(L)) };
}
export function breakText(r, t) { // makes a schema unparseable
  return r.pick([t + '\ntype {', t + '\n}', t + '\ntype X { a }', 'type 1X { a: Int }\n' + t, t + '\n"""open', t + '\nfoo', t + '\ntype Y { a: Int', t + '\nunion = A', t + ' $', t + '\ntype Z { a\u0001: Int }', t + '\n\u0000', t + "\ntype Z { a(b: String = 'x'): Int }", t + '\ntype Z { a(b: String = "\\q"): Int }', t + '\ntype Z { a(b: String = "open): Int }', t + '\ntype Z { a(b: Int = 01): Int }', t + '\ntype Z { a(b: Float = 1.): Int }', t + '\n..', t + '\nextend', t + '\ntype Z {}}', t + '\ninput I { a: }', t + '\n"description only"', t + '\nschema { query }', t + '\nquery { a }', t + '\nfragment F on A { a }', t + '\n\u00e9', '{' + t]);
}
