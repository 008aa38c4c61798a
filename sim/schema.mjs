// Abstract schemas: generation, edits, and rendering to files with known line ranges.
//
// Schema   {defs:[Def], exts:[Def], dirs:[DirDef], ops:{query:T}, extOps:{...}, hasSchema, hasSchemaExt}
// Def      {kind, name, desc, dirs:[Use], ifaces:[name], fields:[Field], values:[Val], members:[name]}
// Field    {name, desc, type, args:[Arg], def, dirs:[Use]}   Arg {name, desc, type, def, dirs}
// Val      {name, desc, dirs}     DirDef {name, desc, args, repeatable, locs}     Use {name, args:[[name,value]]}
// Type     {n|l, nn}              Value {k, v}
import { Rng } from './rng.mjs';

export const KINDS = ['OBJECT', 'INTERFACE', 'INPUT_OBJECT', 'ENUM', 'UNION', 'SCALAR'];
export const KW = { OBJECT: 'type', INTERFACE: 'interface', INPUT_OBJECT: 'input', ENUM: 'enum', UNION: 'union', SCALAR: 'scalar' };
export const LOCS = ['QUERY', 'MUTATION', 'SUBSCRIPTION', 'FIELD', 'FRAGMENT_DEFINITION', 'FRAGMENT_SPREAD', 'INLINE_FRAGMENT', 'VARIABLE_DEFINITION', 'SCHEMA', 'SCALAR', 'OBJECT', 'FIELD_DEFINITION', 'ARGUMENT_DEFINITION', 'INTERFACE', 'UNION', 'ENUM', 'ENUM_VALUE', 'INPUT_OBJECT', 'INPUT_FIELD_DEFINITION'];
const BUILTIN = ['Int', 'String', 'ID', 'Boolean', 'Float'];
const WORDS = ['user', 'order', 'item', 'book', 'page', 'info', 'node', 'edge', 'host', 'alert', 'detect', 'policy', 'group', 'tenant', 'file', 'event', 'rule', 'scan', 'task', 'cursor', 'count', 'total', 'name', 'id', 'key', 'value', 'date', 'time', 'zone', 'index', 'array', 'state', 'version', 'meta', 'tag', 'a', 'z', 'x1'];
const KWFIELDS = ['type', 'input', 'query', 'on', 'extend', 'interface', 'implements', 'schema', 'enum', 'fragment', 'repeatable', 'directive', 'union', 'scalar', 'edges', 'pageInfo', 'first', 'deprecated', 'true', 'null'];
const cap = s => s[0].toUpperCase() + s.slice(1);
export const clone = x => JSON.parse(JSON.stringify(x));

// ---- dictionary read from the tree under test (identifiers and numbers that occur there)
export const DICT = { ints: [], idents: [], strs: [], envs: [], paths: [] }, LARGE = { count: [], size: [], huge: [] };
// Literals of the code under test guide the search; those the pinned tree did not have weigh most.
export function setDict(d, base) { const neu = d.ints.filter(x => !(base?.ints ?? []).includes(x)); LARGE.count = neu.filter(x => x > 140 && x <= 6000); LARGE.huge = neu.filter(x => x >= 1 << 22 && x <= 1 << 26); LARGE.size = neu.filter(x => x > 200 && x < 1 << 22); for (const k in DICT) { const old = new Set(base?.[k] ?? []), neu = d[k].filter(x => !old.has(x)); DICT[k] = [...d[k]]; while (neu.length && DICT[k].length < 2 * d[k].length) DICT[k].push(...neu); } DICT.envs.push(...d.idents.filter(x => /^[A-Z][A-Z0-9_]{2,}$/.test(x) && !(base?.idents ?? []).includes(x))); }

export const typeStr = t => (t.n != null ? t.n : '[' + typeStr(t.l) + ']') + (t.nn ? '!' : '');
export const typeBase = t => t.n != null ? t.n : typeBase(t.l);
export function goQuote(s) { // strconv.Quote for the texts generated here
  let o = '"'; for (const c of s) { const p = c.codePointAt(0); if (c === '"' || c === '\\') o += '\\' + c; else if (c === '\n') o += '\\n'; else if (c === '\t') o += '\\t'; else if (c === '\r') o += '\\r'; else if (p < 32 || p === 127) o += '\\x' + p.toString(16).padStart(2, '0'); else o += c; } return o + '"';
}
export function valStr(v) { if (v == null) return '<nil>'; switch (v.k) { case 'str': return goQuote(v.v); case 'list': return '[' + v.v.map(valStr).join(',') + ']'; case 'obj': return '{' + v.v.map(([n, x]) => n + ':' + valStr(x)).join(',') + '}'; default: return String(v.v); } }

// ---- generation -----------------------------------------------------------------
export class Gen {
  constructor(rng, opt = {}) {
    this.r = rng; const r = rng; this.opt = opt; this.used = new Set();
    const p = () => r.pick([0, 0.1, 0.3, 0.6, 0.9]);
    this.p = { desc: r.pick([0, 0.2, 0.5, 0.8, 1]), fdesc: r.pick([0, 0.2, 0.5, 0.9, 1]), adesc: r.pick([0, 0.3, 0.8, 1]), dir: r.pick([0, 0, 0.1, 0.3, 0.6]), args: p(), def: p(), dep: r.pick([0, 0.05, 0.2, 0.5]), iface: p(), ext: r.pick([0, 0.1, 0.3, 0.6]), odd: r.pick([0, 0.05, 0.2, 0.5]), kwf: r.pick([0, 0.1]), wrap: p(), conn: r.pick([0, 0.1, 0.4]), dup: r.pick([0, 0, 0.3]) };
    this.kinds = KINDS.map(k => [k, r.pick([0, 1, 1, 3])]); this.kinds[0][1] = r.pick([1, 2, 5]);
    this.texts = r.pick([3, 6, 40, 60]);
  }
  size(pairs) { const r = this.r; if (DICT.ints.length && r.chance(0.03)) { const k = r.pick(DICT.ints) + r.range(-1, 1); if (k >= 1 && k <= 140) return k; } const [a, b] = r.weighted(pairs); return r.range(a, b); }
  fresh(mk) { for (let i = 0; i < 60; i++) { const n = mk(i); if (!this.used.has(n)) { this.used.add(n); return n; } } let n; do { n = mk(0) + this.r.int(1e6); } while (this.used.has(n)); this.used.add(n); return n; }
  local(set, mk) { for (let i = 0; i < 40; i++) { const n = mk(i); if (!set.has(n)) { set.add(n); return n; } } let n; do { n = mk(0) + this.r.int(1e5); } while (set.has(n)); set.add(n); return n; }
  word() { return this.r.pick(WORDS); }
  typeName(kind) {
    const r = this.r;
    return this.fresh(() => {
      if (DICT.idents.length && r.chance(0.02)) return r.pick(DICT.idents);
      let n = cap(this.word()) + (r.chance(0.5) ? cap(this.word()) : '') + (r.chance(0.2) ? r.int(30) : '');
      if (r.chance(this.p.conn * 0.7)) n = r.pick([n + 'Connection', n + 'Connection', 'Connection', n + 'Connections', n + 'connection']);
      if (r.chance(this.p.odd)) n = r.pick([n[0].toLowerCase() + n.slice(1), '_' + n, 'a' + n, 'z' + n, n + '_', n.toUpperCase(), 'Query', 'Mutation', 'PageInfo', 'x', 'Q', n.repeat(12), '__' + n, 'é'.length > 1 ? n : n + '0']);
      return n;
    });
  }
  fieldName(set) {
    const r = this.r;
    return this.local(set, () => {
      if (DICT.idents.length && r.chance(0.02)) return r.pick(DICT.idents);
      if (r.chance(this.p.kwf)) return r.pick(KWFIELDS);
      let n = this.word() + (r.chance(0.5) ? cap(this.word()) : '') + (r.chance(0.15) ? r.int(30) : '');
      if (r.chance(this.p.odd)) n = r.pick([cap(n), n + '_' + this.word(), '_' + n, n.toUpperCase(), n + '_', 'edges', 'pageInfo', n + n + n + n, n[0], n[0].toUpperCase()]);
      return n;
    });
  }
  text() {
    const r = this.r, w = () => r.pick(WORDS), k = r.int(this.texts);
    if (DICT.strs.length && r.chance(0.01)) return r.pick(DICT.strs); if (DICT.ints.length && r.chance(0.005)) { const n = r.pick(DICT.ints) + r.range(-1, 1); if (n > 0 && n < 20000) return 'x'.repeat(n); }
    if (k < 30) return ['the ' + w(), w() + ' of ' + w(), 'A ' + w() + '.', w()][k % 4] + (k > 3 ? ' ' + k : '');
    return r.pick(['says "hi" to all', 'back\\slash', 'line one\nline two', 'l1\n\nl3 after blank', '#lint-disable type-desc', 'not # a comment', 'naïve ünïcode', '日本語 text', 'party 🎉 time', '100% %s %d %v', '{ braces } (parens) [x]', 'extend type Query { a: Int }', "it's", 'a,b,c', '  padded', 'trailing  ', '\ttab', 'x'.repeat(r.pick([50, 200, 2000])), '❌ Total lint errors found: 3', 'No changes found on schema compare!', 'type Foo does not have description', '@deprecated', '"""'.slice(0, 2), 'l1\n#lint-disable field-desc\nl3', 'l1\n\n\nl4', 'list:\n  * one\n    more\n\n  * two\nend', 'code:\n\tx = """y"""\nend', 'a "quoted" end "', 'ends in \\\\', '#\n#\n#lint-enable type-desc', 'bell\b form\f feed\r return', 'a/b//c', 'tab\there', 'control \u0001 \u001f', 'x\u00a0y\ufeffz', '\u2028', '\r\n']);
  }
  desc(p) { return this.r.chance(p) ? this.text() : ''; }
  typ(pool, depth = 0) { const r = this.r; if (depth < 3 && r.chance(depth ? 0.25 : this.p.wrap * 0.6)) return { l: this.typ(pool, depth + 1), nn: r.chance(0.4) }; if (depth === 3 && r.chance(0.1)) return { l: { l: this.typ(pool, 9), nn: r.chance(0.5) }, nn: r.chance(0.5) }; return { n: pool.length && r.chance(0.5) ? r.pick(pool) : r.pick(BUILTIN), nn: r.chance(0.4) }; }
  value(depth = 0) {
    const r = this.r; switch (r.int(depth > 1 ? 6 : 9)) {
      case 0: return { k: 'int', v: r.pick(['0', '1', '-5', '42', '-0', '1000000007']) };
      case 1: return { k: 'str', v: r.pick(['', 'abc', 'isbn', 'id name', "it's", 'q"q', '100%d', 'ünï', 'a\nb', '#x', 'some reason', '1', '-5', 'RED', 'a/b']) };
      case 2: return { k: 'bool', v: r.pick(['true', 'false']) };
      case 3: return { k: 'enum', v: r.pick(['RED', 'GREEN', 'asc', 'DESC']) };
      case 4: return { k: 'float', v: r.pick(['1.5', '-0.25', '6.02e23', '1e5', '1E-5', '-2.50e+10', '0.0', '0e0']) };
      case 5: return { k: 'null', v: 'null' };
      case 6: case 7: return { k: 'list', v: Array.from({ length: r.int(4) }, () => this.value(depth + 1)) };
      default: { const s = new Set(); return { k: 'obj', v: Array.from({ length: r.int(3) }, () => [this.local(s, () => this.word()), this.value(depth + 1)]) }; }
    }
  }
  // A value close to v: another kind with the same text, one element changed, added or left out.
  near(v) {
    const r = this.r, at = xs => r.int(xs.length);
    if (v.k === 'list' && v.v.length) { const xs = v.v.slice(), i = at(xs); switch (r.int(4)) { case 0: xs.splice(i, 1); break; case 1: xs.splice(i, 0, r.chance(0.5) ? xs[i] : this.value(2)); break; default: xs[i] = this.near(xs[i]); } return { k: 'list', v: xs }; }
    if (v.k === 'obj' && v.v.length) { const xs = v.v.slice(), i = at(xs); if (r.chance(0.25)) xs.splice(i, 1); else xs[i] = [xs[i][0], this.near(xs[i][1])]; return { k: 'obj', v: xs }; }
    if (r.chance(0.4)) { const t = String(v.v); if (v.k === 'str') { if (/^-?[1-9]\d{0,8}$/.test(t)) return { k: 'int', v: t }; if (/^[A-Za-z]\w*$/.test(t) && !['true', 'false', 'null'].includes(t)) return { k: 'enum', v: t }; return { k: 'str', v: t + r.pick([' ', '.', 'x']) }; } if (v.k !== 'list' && v.k !== 'obj') return { k: 'str', v: t }; }
    if (v.k === 'int') return { k: 'int', v: v.v.startsWith('-') ? v.v.slice(1) : v.v === '0' ? '10' : v.v + '0' }; if (v.k === 'bool') return { k: 'bool', v: v.v === 'true' ? 'false' : 'true' }; if (v.k === 'str' && v.v) return { k: 'str', v: r.chance(0.5) ? v.v.toUpperCase() : [...v.v].slice(1).join('') };
    return r.chance(0.3) ? { k: 'list', v: [v] } : this.value(1);
  }
  uses(p = this.p.dir) {
    const r = this.r, out = []; if (!r.chance(p)) return out;
    for (let i = r.range(1, r.chance(0.2) ? 4 : 2); i > 0; i--) { const s = new Set(); out.push({ name: r.chance(this.p.dup) && out.length ? out[0].name : r.pick(['key', 'external', 'auth', 'cost', 'tag', 'provides', 'shareable', 'link', 'inaccessible']), args: Array.from({ length: r.weighted([[0, 3], [1, 4], [2, 2], [3, 1]]) }, () => [this.local(s, () => r.pick(['fields', 'reason', 'scope', 'max', 'url', 'by'])), this.value()]) }); }
    return out;
  }
  deprec(p = this.p.dep) { const r = this.r; if (!r.chance(p)) return []; return [{ name: 'deprecated', args: r.chance(0.6) ? [['reason', { k: 'str', v: DICT.strs.length && r.chance(0.05) ? r.pick(DICT.strs) : r.pick(['old', 'use other', 'gone soon', '', '2024-06-30', '2099-12-31', 'remove after 2021-03-01', '2001-01-01']) }]] : [] }]; }
  dirs(dep) { const a = [...(dep ? this.deprec() : []), ...this.uses()]; return this.r.chance(0.5) ? a : this.r.shuffle(a); }
  arg(set, names) { const r = this.r; return { name: names ? this.local(set, () => r.pick(names)) : this.fieldName(set), desc: this.desc(this.p.adesc), type: r.chance(0.5) ? this.typ(this.pool) : { n: r.pick(BUILTIN), nn: r.chance(0.4) }, def: r.chance(this.p.def * 0.5) ? this.value() : null, dirs: r.chance(0.2) ? this.uses() : [] }; }
  args() { const r = this.r, s = new Set(); if (!r.chance(this.p.args)) return []; return Array.from({ length: this.size([[[1, 3], 8], [[4, 8], 1]]) }, () => this.arg(s, null)); }
  field(set, kind) {
    const r = this.r, f = { name: this.fieldName(set), desc: this.desc(this.p.fdesc), type: this.typ(this.pool), args: [], def: null, dirs: this.dirs(true) };
    if (kind === 'INPUT_OBJECT') { if (r.chance(this.p.def * 0.6)) f.def = this.value(); } else {
      f.args = this.args();
      if (this.p.conn && r.chance(this.p.conn)) { // relay-shaped
        const c = this.pool.filter(n => n.endsWith('Connection')); if (!this.noConnFields) { const nm = c.length ? r.pick(c) : 'ZedConnection'; f.type = r.pick([{ n: nm, nn: r.chance(0.5) }, { l: { n: nm, nn: false }, nn: r.chance(0.5) }]); }
        const s = new Set(f.args.map(a => a.name)); for (const nm of ['first', 'after', 'last', 'before']) if (r.chance(0.6) && !s.has(nm)) { s.add(nm); f.args.push({ name: nm, desc: this.desc(this.p.adesc), type: r.weighted([[{ n: 'Int', nn: false }, 5], [{ n: 'Int', nn: true }, 2], [{ n: 'String', nn: false }, 2], [{ l: { n: 'Int', nn: false }, nn: false }, 1], [{ l: { n: 'Int', nn: false }, nn: true }, 1]]), def: null, dirs: [] }); }
      }
    }
    return f;
  }
  val(set) { const r = this.r; return { name: this.local(set, () => { if (DICT.idents.length && r.chance(0.02)) { const d = r.pick(DICT.idents); if (!['true', 'false', 'null'].includes(d)) return d; } let n = this.word().toUpperCase() + (r.chance(0.4) ? '_' + this.word().toUpperCase() : '') + (r.chance(0.1) ? r.int(99) : ''); if (r.chance(this.p.odd)) n = r.pick([n.toLowerCase(), n[0] + n.slice(1).toLowerCase(), n.slice(0, -1) + n.slice(-1).toLowerCase(), '_' + n, n + '_x']); return n; }), desc: this.desc(this.p.fdesc), dirs: this.dirs(true) }; }
  def(kind, name, ext = false) {
    const r = this.r, d = { kind, name: name ?? this.typeName(kind), desc: ext ? '' : this.desc(this.p.desc), dirs: this.uses(), ifaces: [], fields: [], values: [], members: [] };
    const set = new Set(); this.noConnFields = ext && this.opt.lint;
    const many = [[[1, 3], 5], [[4, 8], 4], [[9, 25], 1], ...(this.opt.big ? [[[26, 90], 0.3]] : [])];
    if (kind === 'OBJECT' || kind === 'INTERFACE' || kind === 'INPUT_OBJECT') {
      if (kind !== 'INPUT_OBJECT' && r.chance(this.p.iface) && !(ext && kind === 'INTERFACE')) { const s = new Set(); d.ifaces = Array.from({ length: r.range(1, 3) }, () => this.local(s, () => r.pick(['Node', 'Entity', 'Timed', 'Named', 'Owned', ...this.pool.slice(0, 3)]))); }
      const n = r.chance(0.04) ? 0 : this.size(many); for (let i = 0; i < n; i++) d.fields.push(this.field(set, kind));
      if (d.name.endsWith('Connection') && kind === 'OBJECT' && r.chance(0.7)) { // plausible connection
        const need = { edges: r.weighted([[{ l: { n: 'Edge', nn: false }, nn: false }, 3], [{ l: { n: 'Edge', nn: true }, nn: true }, 2], [{ n: 'Edge', nn: false }, 2]]), pageInfo: r.weighted([[{ n: 'PageInfo', nn: true }, 5], [{ n: 'PageInfo', nn: false }, 2], [{ n: 'Page', nn: true }, 1], [{ l: { n: 'PageInfo', nn: true }, nn: true }, 1], [{ l: { n: 'PageInfo', nn: false }, nn: true }, 1]]) };
        for (const k of ['edges', 'pageInfo']) if (r.chance(0.85)) { const old = d.fields.find(f => f.name === k); if (old) old.type = need[k]; else { set.add(k); d.fields.push({ name: k, desc: this.desc(this.p.fdesc), type: need[k], args: [], def: null, dirs: [] }); } }
      }
      if (r.chance(0.3)) r.shuffle(d.fields);
    } else if (kind === 'ENUM') { const n = r.chance(0.03) ? 0 : this.size(many); for (let i = 0; i < n; i++) d.values.push(this.val(set)); }
    else if (kind === 'UNION') { const n = this.size([[[1, 3], 5], [[4, 9], 1]]); for (let i = 0; i < n; i++) d.members.push(this.local(set, () => this.pool.length && r.chance(0.6) ? r.pick(this.pool) : cap(this.word()) + cap(this.word()))); }
    if (ext && !d.dirs.length && !d.ifaces.length && !d.fields.length && !d.values.length && !d.members.length) d.dirs.push({ name: 'tag', args: [] });
    this.noConnFields = false; return d;
  }
  dirDef() { const r = this.r, s = new Set(); return { name: this.fresh2(() => r.pick(['key', 'auth', 'cost', 'tag', 'link', 'stream', 'transform', 'cached', 'Upper', 'x_y', 'internal'])), desc: this.desc(this.p.desc), args: r.chance(0.6) ? Array.from({ length: r.range(1, 3) }, () => this.arg(s)) : [], repeatable: r.chance(0.3), locs: r.sample(LOCS, r.range(1, r.chance(0.1) ? 12 : 4)) }; }
  fresh2(mk) { this.usedD ??= new Set(); return this.local(this.usedD, mk); }
  ops(n) { const r = this.r, o = {}; for (const k of r.sample(['query', 'mutation', 'subscription'], n)) o[k] = r.pick([cap(k), 'My' + cap(k), cap(this.word())]); return o; }
  // Now and then very many members or definitions: more than any number written into the code.
  blow(S, p = 1) {
    const r = this.r; if (!r.chance(p * (LARGE.count.length ? 0.03 : 0.002))) return false; const k = (LARGE.count.length && r.chance(0.9) ? r.pick(LARGE.count) : r.pick([200, 600, 1500])) + r.weighted([[r.range(-1, 2), 2], [r.range(10, 300), 1]]);
    const d = r.chance(0.3) ? null : S.defs.length && r.chance(0.8) ? r.pick(S.defs) : (S.defs.push(this.def('OBJECT')), S.defs[S.defs.length - 1]); const f = { desc: this.desc(this.p.fdesc), type: { n: r.pick(BUILTIN), nn: r.chance(0.3) }, odd: r.chance(0.5) ? '_' : '' };
    if (!d) { for (let i = 0; i < k; i++) { const kind = r.pick(['SCALAR', 'ENUM']); S.defs.push({ kind, name: this.fresh(() => (f.odd ? 'm' : 'M') + 'any' + i), desc: f.desc, dirs: [], ifaces: [], fields: [], values: [], members: [] }); } return true; }
    const list = d.kind === 'ENUM' ? d.values : d.kind === 'UNION' ? d.members : d.kind === 'SCALAR' ? null : d.fields; if (!list) return false; const set = new Set(); for (const x of [d, ...S.exts.filter(e => e.name === d.name), ...S.defs.filter(e => e.name === d.name)]) for (const y of [...x.fields, ...x.values, ...x.members]) set.add(y.name ?? y);
    for (let i = 0; i < k; i++) { const name = this.local(set, () => d.kind === 'ENUM' ? (f.odd ? 'v' : 'V') + i : d.kind === 'UNION' ? 'U' + i : 'f' + f.odd + i); list.push(d.kind === 'UNION' ? name : d.kind === 'ENUM' ? { name, desc: f.desc, dirs: [] } : { name, desc: f.desc, type: f.type, args: [], def: null, dirs: [] }); }
    return true;
  }
  schema(size) {
    const r = this.r, S = { defs: [], exts: [], dirs: [], ops: {}, extOps: {} }; this.pool = [];
    const n = size ?? this.size([[[0, 1], 1], [[2, 4], 5], [[5, 12], 4], ...(this.opt.big ? [[[13, 50], 0.6]] : [])]);
    const plan = Array.from({ length: n }, () => { const kind = r.weighted(this.kinds); return [kind, this.typeName(kind)]; }); this.pool = plan.map(x => x[1]);
    for (const [k, nm] of plan) S.defs.push(this.def(k, nm));
    // extensions: of types defined here, and of types that belong to other services
    const en = new Map(); for (const d of S.defs) if (r.chance(this.p.ext * 0.6) && !(this.opt.lint && d.name.endsWith('Connection'))) en.set(d.name, d.kind);
    if (r.chance(this.p.ext)) for (let i = r.range(1, 3); i > 0; i--) { let nm = r.pick(['Query', 'Mutation', 'Remote' + cap(this.word()), 'remote' + cap(this.word())]); if (!this.used.has(nm)) en.set(nm, nm === 'Query' || nm === 'Mutation' ? 'OBJECT' : r.weighted(this.kinds)); }
    for (const [nm, k] of en) { if (!this.used.has(nm)) this.used.add(nm); const base = S.defs.find(d => d.name === nm); S.exts.push(this.ext(k, nm, base)); }
    if (r.chance(0.4)) for (let i = r.range(1, 4); i > 0; i--) S.dirs.push(this.dirDef());
    if (r.chance(0.4)) S.ops = this.ops(r.range(1, 3));
    if (r.chance(this.p.ext * 0.7)) { const left = ['query', 'mutation', 'subscription'].filter(k => !S.ops[k]); for (const k of r.sample(left, r.range(0, left.length))) S.extOps[k] = r.pick([cap(k), 'Ext' + cap(k)]); }
    if (this.opt.blow ?? size === undefined) this.blow(S); return S;
  }
  ext(kind, name, base) { const d = this.def(kind, name, true); if (base) { d.fields = d.fields.filter(f => !base.fields.some(b => b.name === f.name)); d.values = d.values.filter(f => !base.values.some(b => b.name === f.name)); d.members = d.members.filter(f => !base.members.includes(f)); d.ifaces = d.ifaces.filter(f => !base.ifaces.includes(f)); if (!d.dirs.length && !d.ifaces.length && !d.fields.length && !d.values.length && !d.members.length) d.dirs.push({ name: 'tag', args: [] }); } return d; }
  // ---- edits ---------------------------------------------------------------------
  // Applies one random edit to S in place; returns its name or null when it does not apply.
  edit(S) {
    const r = this.r; this.pool = S.defs.map(d => d.name); for (const d of [...S.defs, ...S.exts]) this.used.add(d.name); this.usedD ??= new Set(); for (const d of S.dirs) this.usedD.add(d.name);
    const any = () => { const all = [...S.defs, ...S.exts]; return all.length ? r.pick(all) : null; };
    const withF = ks => { const all = [...S.defs, ...S.exts].filter(d => ks.includes(d.kind) && d.fields.length); return all.length ? r.pick(all) : null; };
    const isExt = d => S.exts.includes(d), ofKind = (...ks) => { const all = [...S.defs, ...S.exts].filter(d => ks.includes(d.kind)); return all.length ? r.pick(all) : null; };
    const likely = (xs, f) => { const ys = r.chance(0.6) ? xs.filter(f) : []; return ys.length ? r.pick(ys) : xs.length ? r.pick(xs) : null; }, used = x => x.dirs.some(u => u.name !== 'deprecated'), dep = x => x.dirs.some(u => u.name === 'deprecated');
    const other = d => (isExt(d) ? S.defs : S.exts).find(x => x.name === d.name);
    const nonEmpty = d => d.dirs.length || d.ifaces.length || d.fields.length || d.values.length || d.members.length;
    const mutType = t => { const c = clone(t); switch (r.int(7)) { case 0: case 1: c.nn = !c.nn; return c; case 2: return { l: c, nn: r.chance(0.5) }; case 3: if (c.l) return c.l; c.n = r.pick(BUILTIN); return c; case 4: { let x = c; while (x.l && r.chance(0.7)) x = x.l; x.nn = !x.nn; return c; } case 5: { let x = c; while (x.l) x = x.l; x.n = r.pick([...BUILTIN, ...this.pool]); return c; } default: return this.typ(this.pool); } };
    const mutUses = x => { // directive uses of an element
      const own = x.dirs.map((u, i) => u.name === 'deprecated' ? -1 : i).filter(i => i >= 0), i = own.length && r.chance(0.8) ? r.pick(own) : r.int(Math.max(1, x.dirs.length)); const u = x.dirs[i];
      if (!u || r.chance(0.25)) { x.dirs.splice(r.int(x.dirs.length + 1), 0, ...(this.uses(1))); return 'use+'; }
      switch (r.int(5)) { case 0: x.dirs.splice(i, 1); return 'use-'; case 1: if (u.args.length) { u.args.splice(r.int(u.args.length), 1); return 'usearg-'; } return null; case 2: if (u.args.length) { const a = r.pick(u.args); a[1] = r.chance(0.6) ? this.near(a[1]) : this.value(); return 'usearg~'; } return null; case 3: { const s = new Set(u.args.map(a => a[0])); u.args.push([this.local(s, () => r.pick(['fields', 'reason', 'scope', 'max', 'url', 'by'])), this.value()]); return 'usearg+'; } default: if (u.name !== 'deprecated') x.dirs.push(clone(u)); return 'use2'; }
    };
    const mutDep = x => { const i = x.dirs.findIndex(u => u.name === 'deprecated'); if (i < 0) { x.dirs.push(...this.deprec(1)); return 'dep+'; } if (r.chance(0.5)) { x.dirs.splice(i, 1); return 'dep-'; } x.dirs[i] = this.deprec(1)[0]; return 'dep~'; };
    const fresh = (d, key, mk) => { const o = other(d), s = new Set([...d[key], ...(o ? o[key] : [])].map(x => x.name ?? x)); return mk(s); };
    const mutArgs = (f) => { const s = new Set(f.args.map(a => a.name)); const k = r.int(6); if (!f.args.length || k === 0) { f.args.splice(r.int(f.args.length + 1), 0, this.arg(s)); return 'arg+'; } const a = r.pick(f.args); switch (k) { case 1: f.args.splice(f.args.indexOf(a), 1); return 'arg-'; case 2: a.type = mutType(a.type); return 'argtype'; case 3: a.def = a.def && r.chance(0.3) ? null : a.def && r.chance(0.5) ? this.near(a.def) : this.value(); return 'argdef'; case 4: a.desc = r.chance(0.3) ? '' : this.text(); return 'argdesc'; default: f.args.reverse(); return 'argorder'; } };
    switch (r.weighted([['type+', 2], ['type-', 2], ['kind', 1], ['desc', 2], ['field+', 4], ['field-', 4], ['ftype', 5], ['fdesc', 2], ['fdep', 2], ['fargs', 5], ['fuse', 3], ['tuse', 2], ['idef', 3], ['iface', 3], ['val+', 3], ['val-', 3], ['valm', 4], ['mem', 4], ['ops', 3], ['ext+', 2], ['ext-', 2], ['dir+', 1], ['dir-', 1], ['dirm', 5], ['order', 2], ['rename', 1], ['swap', 1]])) {
      case 'type+': S.defs.splice(r.int(S.defs.length + 1), 0, this.def(r.weighted(this.kinds))); return 'type+';
      case 'type-': if (!S.defs.length) return null; S.defs.splice(r.int(S.defs.length), 1); return 'type-';
      case 'kind': { const i = r.int(S.defs.length), d = S.defs[i]; if (!d || other(d)) return null; const k = r.pick(KINDS.filter(k => k !== d.kind)); S.defs[i] = this.def(k, d.name); if (r.chance(0.5)) S.defs[i].desc = d.desc; return 'kind'; }
      case 'desc': { const d = S.defs.length ? r.pick(S.defs) : null; if (!d) return null; d.desc = r.chance(0.3) ? '' : this.text(); return 'desc'; }
      case 'field+': { const d = ofKind('OBJECT', 'INTERFACE', 'INPUT_OBJECT'); if (!d) return null; d.fields.splice(r.int(d.fields.length + 1), 0, fresh(d, 'fields', s => this.field(s, d.kind))); return 'field+'; }
      case 'field-': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); if (!d) return null; const i = r.int(d.fields.length), sv = d.fields.splice(i, 1); if (isExt(d) && !nonEmpty(d)) { d.fields = sv; return null; } return 'field-'; }
      case 'ftype': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); if (!d) return null; const f = r.pick(d.fields); f.type = mutType(f.type); return 'ftype'; }
      case 'fdesc': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); if (!d) return null; r.pick(d.fields).desc = r.chance(0.3) ? '' : this.text(); return 'fdesc'; }
      case 'fdep': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); return d ? 'f' + mutDep(likely(d.fields, dep)) : null; }
      case 'fargs': { const d = withF(['OBJECT', 'INTERFACE']); return d ? 'f' + mutArgs(r.pick(d.fields)) : null; }
      case 'fuse': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); return d ? 'f' + mutUses(likely(d.fields, used)) : null; }
      case 'tuse': { const d = likely([...S.defs, ...S.exts], used); if (!d) return null; const sv = clone(d.dirs); const k = mutUses(d); if (isExt(d) && !nonEmpty(d)) { d.dirs = sv; return null; } return 't' + k; }
      case 'idef': { const d = withF(['INPUT_OBJECT']); if (!d) return null; const f = r.pick(d.fields); f.def = f.def && r.chance(0.3) ? null : f.def && r.chance(0.5) ? this.near(f.def) : this.value(); return 'idef'; }
      case 'iface': { const d = any(); if (!d || d.kind !== 'OBJECT' && d.kind !== 'INTERFACE' || isExt(d) && d.kind === 'INTERFACE') return null; if (d.ifaces.length && r.chance(0.5)) { const sv = d.ifaces.splice(r.int(d.ifaces.length), 1); if (isExt(d) && !nonEmpty(d)) { d.ifaces = sv; return null; } return 'iface-'; } d.ifaces.push(fresh(d, 'ifaces', s => this.local(s, () => r.pick(['Node', 'Entity', 'Timed', 'Named', 'Owned', 'Extra'])))); return 'iface+'; }
      case 'val+': { const d = ofKind('ENUM'); if (!d) return null; d.values.splice(r.int(d.values.length + 1), 0, fresh(d, 'values', s => this.val(s))); return 'val+'; }
      case 'val-': { const d = ofKind('ENUM'); if (!d || !d.values.length) return null; const sv = clone(d.values); d.values.splice(r.int(d.values.length), 1); if (isExt(d) && !nonEmpty(d)) { d.values = sv; return null; } return 'val-'; }
      case 'valm': { const d = ofKind('ENUM'); if (!d || !d.values.length) return null; const v = likely(d.values, dep); if (r.chance(0.35)) { v.desc = r.chance(0.3) ? '' : this.text(); return 'valdesc'; } return 'v' + mutDep(v); }
      case 'mem': { const d = ofKind('UNION'); if (!d) return null; if (d.members.length && r.chance(0.5)) { const sv = d.members.slice(); d.members.splice(r.int(d.members.length), 1); if (isExt(d) && !nonEmpty(d)) { d.members = sv; return null; } return 'mem-'; } d.members.push(fresh(d, 'members', s => this.local(s, () => cap(this.word()) + cap(this.word())))); return 'mem+'; }
      case 'ops': { const m = r.chance(0.5) ? S.ops : S.extOps, o = m === S.ops ? S.extOps : S.ops, k = r.pick(['query', 'mutation', 'subscription']); if (o[k]) return null; if (m[k] && r.chance(0.5)) { delete m[k]; return 'op-'; } const had = m[k]; m[k] = r.pick([cap(k), 'New' + cap(k), 'R' + r.int(9)]); return had ? 'op~' : 'op+'; }
      case 'ext+': { const b = S.defs.length && r.chance(0.6) ? r.pick(S.defs) : null; if (b ? S.exts.some(x => x.name === b.name) : false) return null; if (b && this.opt.lint && b.name.endsWith('Connection')) return null; S.exts.splice(r.int(S.exts.length + 1), 0, b ? this.ext(b.kind, b.name, b) : this.def(r.weighted(this.kinds), undefined, true)); return 'ext+'; }
      case 'ext-': if (!S.exts.length) return null; S.exts.splice(r.int(S.exts.length), 1); return 'ext-';
      case 'dir+': S.dirs.push(this.dirDef()); return 'dir+';
      case 'dir-': if (!S.dirs.length) return null; S.dirs.splice(r.int(S.dirs.length), 1); return 'dir-';
      case 'dirm': { if (!S.dirs.length) return null; const d = r.pick(S.dirs); switch (r.int(6)) { case 0: d.desc = r.chance(0.3) ? '' : this.text(); return 'ddesc'; case 1: d.repeatable = !d.repeatable; return 'drep'; case 2: { const left = LOCS.filter(l => !d.locs.includes(l)); if (d.locs.length > 1 && r.chance(0.5)) d.locs.splice(r.int(d.locs.length), 1); else d.locs.push(r.pick(left)); return 'dloc'; } default: return 'd' + mutArgs(d); } }
      case 'order': { const d = any(); r.shuffle(S.defs); if (d) { r.shuffle(d.fields); r.shuffle(d.values); r.shuffle(d.members); r.shuffle(d.ifaces); } return 'order'; }
      case 'rename': { const d = S.defs.length ? r.pick(S.defs) : null; if (!d || other(d)) return null; d.name = this.typeName(d.kind); return 'rename'; }
      case 'swap': { const d = withF(['OBJECT', 'INTERFACE', 'INPUT_OBJECT']); if (!d || d.fields.length < 2) return null; const [a, b] = r.sample(d.fields, 2); const t = a.type; a.type = b.type; b.type = t; return 'swap'; }
    }
    return null;
  }
}

// ---- rendering ------------------------------------------------------------------
// Items are the top-level pieces of a schema; a layout spreads them over files.
export function items(S) {
  const out = []; for (const d of S.defs) out.push({ t: 'def', key: 'def:' + d.name, d }); for (const d of S.exts) out.push({ t: 'ext', key: 'ext:' + d.name, d });
  for (const d of S.dirs) out.push({ t: 'dir', key: 'dir:' + d.name, d });
  if (Object.keys(S.ops).length) out.push({ t: 'schema', key: 'schema', ops: Object.entries(S.ops) }); if (Object.keys(S.extOps).length) out.push({ t: 'schemaext', key: 'schemaext', ops: Object.entries(S.extOps) });
  return out;
}
// Splits one extension item into several blocks carrying the same members.
export function splitItem(it, r) {
  const parts = []; const n = r.range(2, 4);
  if (it.t === 'schemaext') { for (const o of it.ops) parts.push({ ...it, ops: [o] }); return parts; }
  if (it.t !== 'ext') return [it];
  const bl = Array.from({ length: n }, () => ({ ...it.d, desc: '', dirs: [], ifaces: [], fields: [], values: [], members: [] }));
  for (const k of ['dirs', 'ifaces', 'fields', 'values', 'members']) for (const x of it.d[k]) r.pick(bl)[k].push(x);
  const ok = bl.filter(d => d.dirs.length || d.ifaces.length || d.fields.length || d.values.length || d.members.length);
  return ok.map(d => ({ ...it, d }));
}
export function mkStyle(r, o = {}) { return { nl: r.weighted([['\n', 8], ['\r\n', 1]]), one: r.chance(0.06), flat: r.chance(0.08), indent: r.pick(['  ', '    ', '\t', '']), gap: r.int(3), block: r.pick([0, 0.3, 0.8]), descOwn: r.pick([0, 0.5, 1]), comma: r.chance(0.2), comments: r.pick([0, 0, 0.1, 0.3]), bom: r.chance(0.05), tail: r.chance(0.85), multiArgs: r.pick([0, 0, 0.3]), pipe: r.chance(0.2), esc: r.pick([0, 0, 0, 0, 0, 0.02, 0.3]), pad: r.pick([0, 0, 0, 0, 5, 400]), wide: r.chance(LARGE.size.length ? 0.03 : 0.005) ? (LARGE.size.length && r.chance(0.8) ? r.pick(LARGE.size) + r.range(-2, 2) : 66000) : 0, ...o }; }

class Out {
  constructor(st, r) { this.st = st; this.r = r; this.s = ''; this.line = 1; this.nl = st.one ? ' ' : st.nl; }
  w(x) { this.s += x; for (let i = 0; i < x.length; i++) { if (x[i] === '\n') this.line++; } return this; }
  br() { return this.w(this.nl); }
}
const SHORT = { '"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\b': '\\b', '\f': '\\f', '\r': '\\r' };
function quoted(s, x) { const r = x.r, p = x.st.esc, hex = c => { const h = c.charCodeAt(0).toString(16).padStart(4, '0'); return '\\u' + (r.chance(0.5) ? h : h.toUpperCase()); }; let o = '"'; for (const c of s) { if (p && c.length === 1 && r.chance(p)) o += c === '/' && r.chance(0.5) ? '\\/' : hex(c); else if (SHORT[c]) o += SHORT[c]; else if (c < ' ') o += hex(c); else o += c; } return o + '"'; }
// A block string with the value s: its lines under any common indentation, blank lines cut short, blank lines around.
function descText(o, s, ind, own) {
  const r = o.r, nl = o.st.nl, ls = s.split('\n'); const able = !o.st.one && !/[\u0000-\u0008\u000b-\u001f]/.test(s) && s === s.trim() && Math.min(...ls.map(l => l.trim() ? /^[ \t]*/.exec(l)[0].length : 99)) === 0 && !ls.some(l => !l.trim() && l) && !(ls.length > 1 && /^[ \t]/.test(s));
  if (!able || !r.chance(ls.length > 1 ? 0.7 : o.st.block) || ls.length > 1 && !own) return quoted(s, o);
  const esc = s.replaceAll('"""', '\\"""'); if (ls.length === 1 && !(own && r.chance(0.3))) return /^"|["\\]$/.test(s) ? quoted(s, o) : '"""' + esc + '"""';
  const deep = ind + (r.chance(0.6) ? '' : r.pick(['  ', '    ', '\t', ' '])), blank = () => deep.slice(0, r.chance(0.6) ? 0 : r.int(deep.length + 1)), around = () => r.chance(0.85) ? '' : Array.from({ length: r.range(1, 3) }, () => r.pick(['', blank(), '   ']) + nl).join('');
  return '"""' + (r.chance(0.1) ? r.pick([' ', '\t']) : '') + nl + around() + esc.split('\n').map(l => l ? deep + l : blank()).join(nl) + nl + around() + (r.chance(0.8) ? ind : '') + '"""';
}
function vText(o, v) { switch (v.k) { case 'str': return quoted(v.v, o); case 'list': return '[' + v.v.map(x => vText(o, x)).join(', ') + ']'; case 'obj': return '{' + v.v.map(([n, x]) => n + ': ' + vText(o, x)).join(', ') + '}'; default: return v.v; } }
function usesText(o, dirs) { return dirs.map(u => ' @' + u.name + (u.args.length ? '(' + u.args.map(([n, v]) => n + ': ' + vText(o, v)).join(', ') + ')' : '')).join(''); }
function argText(o, a) { return (a.desc ? descText(o, a.desc, '', false) + ' ' : '') + a.name + ': ' + typeStr(a.type) + (a.def ? ' = ' + vText(o, a.def) : '') + usesText(o, a.dirs); }
// Writes an argument list, recording lines: rec.args[name] = [lo, hi].
function args(o, as, rec, ind) {
  rec.args = {}; if (!as.length) return; const multi = !o.st.one && !o.st.flat && o.r.chance(o.st.multiArgs); o.w('(');
  as.forEach((a, i) => { if (multi) o.br().w(ind + '  '); else if (i) o.w(', '); const lo = o.line; o.w(argText(o, a)); rec.args[a.name] = [lo, o.line]; });
  if (multi) o.br().w(ind); o.w(')'); if (multi) rec.multi = true;
}
// hooks: {before(o, ind), after(o, rec)} let the lint workload place comments.
function member(o, x, kind, ind, recs, hooks) {
  const rec = { name: x.name, kind }; rec.lo = o.line;
  if (x.desc) { const own = !o.st.one && !o.st.flat && o.r.chance(o.st.descOwn); o.w(ind + descText(o, x.desc, ind, own)); if (own) { o.br().w(ind); } else o.w(' '); } else o.w(ind);
  rec.nameLine = o.line; o.w(x.name);
  if (kind !== 'ENUM') { if (kind !== 'INPUT_OBJECT') args(o, x.args, rec, ind); o.w(': ' + typeStr(x.type)); rec.typeLine = o.line; if (kind === 'INPUT_OBJECT' && x.def) o.w(' = ' + vText(o, x.def)); }
  o.w(usesText(o, x.dirs)); rec.hi = o.line; recs.push(rec);
  if (o.st.comma) o.w(','); if (hooks?.after) hooks.after(o, rec);
}
function item(o, it, hooks) {
  const rec = { key: it.key, t: it.t, name: it.d?.name, it, lo: o.line, members: [] }; const ind = o.st.indent;
  if (it.t === 'schema' || it.t === 'schemaext') { o.w((it.t === 'schema' ? 'schema' : 'extend schema') + ' {'); rec.b0 = o.s.length; for (const [k, v] of it.ops) { o.br().w(ind + k + ': ' + v); } o.br(); rec.b1 = o.s.length; o.w('}'); rec.hi = o.line; return rec; }
  const d = it.d; if (d.desc) { const own = !o.st.one && !o.st.flat && o.r.chance(o.st.descOwn); o.w(descText(o, d.desc, '', own)); if (own) o.br(); else o.w(' '); }
  rec.nameLine = o.line;
  if (it.t === 'dir') { o.w('directive @' + d.name); args(o, d.args, rec, ind); o.w((d.repeatable ? ' repeatable' : '') + ' on ' + (o.st.pipe ? '| ' : '') + d.locs.join(' | ')); rec.hi = o.line; return rec; }
  o.w((it.t === 'ext' ? 'extend ' : '') + KW[d.kind] + ' ' + d.name); if (d.ifaces.length) o.w(' implements ' + (o.st.pipe ? '& ' : '') + d.ifaces.join(' & ')); o.w(usesText(o, d.dirs));
  if (d.kind === 'UNION' && d.members.length) { o.w(' = ' + (o.st.pipe ? '| ' : '') + d.members.join(' | ')); }
  const ms = d.kind === 'ENUM' ? d.values : d.fields;
  if (ms.length) {
    o.w(' {'); rec.b0 = o.s.length; if (hooks?.header) hooks.header(o, rec);
    for (const m of ms) { o[o.st.flat ? 'w' : 'br'](o.st.flat ? ' ' : undefined); if (hooks?.before) hooks.before(o, ind); member(o, m, d.kind, o.st.flat ? '' : ind, rec.members, hooks); if (!hooks && o.r.chance(o.st.comments) && !o.st.one && !o.st.flat) o.w(o.r.pick([' # note', ' #', ' # { "'])); }
    if (o.st.flat) o.w(' '); else o.br(); rec.b1 = o.s.length; o.w('}');
  } else if (hooks?.header) hooks.header(o, rec);
  rec.hi = o.line; return rec;
}
// Renders a list of items into one file: {text, recs:[{key, lo, hi, nameLine, members}]}.
export function renderFile(its, st, r, hooks) {
  const o = new Out(st, r), recs = []; if (st.bom) o.s += '\ufeff';
  if (st.pad && !st.one) for (let i = r.range(1, st.pad); i > 0; i--) { o.w(r.chance(0.5) ? '' : '# ' + 'padding '.repeat(r.int(8))); o.br(); }
  if (st.wide) { o.w(st.one || r.chance(0.5) ? r.pick([' ', ',', '\t']).repeat(st.wide) : '#' + 'x'.repeat(st.wide)); if (!st.one) o.br(); }
  its.forEach((it, i) => {
    if (i) { o.br(); for (let k = 0; k < st.gap && !st.one; k++) o.br(); }
    if (hooks?.top) hooks.top(o); else if (!st.one && r.chance(st.comments)) { o.w(r.pick(['# comment', '#', '# type Fake { a: Int }', '# "unbalanced'])); o.br(); }
    recs.push(item(o, it, hooks));
  });
  if (hooks?.end) hooks.end(o); if (st.tail && its.length) o.br();
  return { text: o.s, recs };
}
// ---- layouts --------------------------------------------------------------------
const DIRS = ['s', 'schema', 'a b', 'deep/er', 'v1', 'über'];
export const otherCase = (r, x) => { const l = x.toLowerCase(), u = x.toUpperCase(); return x !== l ? l : r.chance(0.5) ? u : x[0].toUpperCase() + x.slice(1); };
export function mkNames(r, n, o = {}) {
  // -> {dir, pattern, names[]} where pattern matches exactly the files
  const side = o.side ?? ''; const dir = '/' + r.pick(DIRS) + side; const ext = r.pick(['.graphql', '.graphqls', '.gql']);
  const base = new Set(); const mk = () => r.pick([() => r.pick(WORDS) + r.int(50), () => String.fromCharCode(97 + r.int(26)), () => 'f' + r.int(1000), () => r.pick(WORDS).toUpperCase(), () => r.pick(WORDS) + '.' + r.pick(WORDS), () => r.pick(['with space', '100%s', 'ünï', 'a:1', '-dash', '.hidden', '_x', 'x[1]', '10', '9', 'a-b', 'Z', 'é%d', 'file:3:4']) + r.int(20)])();
  while (base.size < n) base.add(mk()); if (n > 1 && r.chance(0.12)) { const x = [...base], y = otherCase(r, x[0]); if (!base.has(y)) { base.delete(x[1]); base.add(y); } } const bs = [...base]; // names that differ in letter case only
  const again = r.chance(0.3); // the same name in several directories
  const kind = o.kind ?? (n === 1 ? r.weighted([['exact', 5], ['star', 3], ['subdirs', 1], ['rel', 1]]) : r.weighted([['star', 6], ['all', 2], ['subdirs', 3], ['rel', 1], ['q', 1], ['class', 1]]));
  switch (kind) {
    case 'exact': { const f = 'schema' + r.int(100) + ext; return { kind, pattern: `${dir}/${f}`, names: [`${dir}/${f}`] }; }
    case 'star': return { kind, pattern: `${dir}/*${ext}`, names: bs.map(b => `${dir}/${b}${ext}`), decoys: [`${dir}/other.txt`, `${dir}/x${ext}.bak`] };
    case 'all': return { kind, pattern: `${dir}/*`, names: bs.map(b => `${dir}/${b}${ext}`) };
    case 'rel': return { kind, pattern: `${dir.slice(1)}/*${ext}`, names: bs.map(b => `${dir.slice(1)}/${b}${ext}`), decoys: [`${dir}/README`] };
    case 'subdirs': return { kind, pattern: `${dir}/*/*${ext}`, names: bs.map((b, i) => again ? `${dir}/svc${i}/${bs[i >> 2]}${ext}` : `${dir}/${r.pick(['svc', 'svc b', 'x'])}${r.int(4)}/${b}${ext}`), decoys: [`${dir}/top${ext}`, `${dir}/svc9/deep/z${ext}`] };
    case 'q': { const w = Math.max(2, String(bs.length - 1).length); return { kind, pattern: `${dir}/f${'?'.repeat(w)}${ext}`, names: bs.map((b, i) => `${dir}/f${String(i).padStart(w, '0')}${ext}`), decoys: [`${dir}/f1${'0'.repeat(w)}${ext}`] }; }
    default: return { kind, pattern: `${dir}/[a-m]*${ext}`, names: bs.map((b, i) => `${dir}/${'abcdefghijklm'[i % 13]}${i}${ext}`), decoys: [`${dir}/zz${ext}`] };
  }
}
// Spreads a schema over files. `split` cuts extension items into blocks first.
export function layout(S, r, o = {}) {
  let its = items(S).map(clone); if (o.split ?? r.chance(0.4)) its = its.flatMap(it => r.chance(0.6) ? splitItem(it, r) : [it]);
  if (o.shuffle ?? r.chance(0.6)) r.shuffle(its);
  if (o.members) for (const it of its) if (it.d && it.d.fields) { r.shuffle(it.d.fields); r.shuffle(it.d.values); r.shuffle(it.d.members); r.shuffle(it.d.ifaces); for (const f of it.d.fields) r.shuffle(f.args ?? []); } else if (it.t === 'dir') { r.shuffle(it.d.args); r.shuffle(it.d.locs); } else if (it.ops) r.shuffle(it.ops);
  let n = o.files ?? r.weighted([[1, 3], [2, 3], [r.range(3, 6), 3], [r.range(7, 20), 0.7]]); n = Math.max(1, Math.min(n, 99));
  const buckets = Array.from({ length: n }, () => []); const skew = r.chance(0.3); for (const it of its) buckets[skew && r.chance(0.7) ? 0 : r.int(n)].push(it);
  const nm = mkNames(r, n, { side: o.side, kind: o.kind }); const st = mkStyle(r, o.style);
  const files = buckets.map((b, i) => ({ path: nm.names[i], ...renderFile(b, st, r, o.hooks) }));
  return finishLayout(nm, files);
}
export function finishLayout(nm, files) {
  const seen = new Map(); for (const f of files) seen.set(f.path, f); // (names are unique)
  const where = {}; for (const f of files) for (const rc of f.recs) (where[rc.key] ??= []).push({ file: f.path, lo: rc.lo, hi: rc.hi });
  return { pattern: nm.pattern, files: files.map(f => ({ path: f.path, text: f.text, recs: f.recs })), where, decoys: nm.decoys ?? [] };
}
export const absPath = p => p.startsWith('/') ? p : '/' + p;
// Some of the files that hold what an earlier one holds become links to it.
export function linkSame(files) { files.forEach((f, i) => { const j = files.findIndex((g, k) => k < i && g.text === f.text && !g.link); if (j >= 0) f.link = absPath(files[j].path); }); return files; }
export function nodesOf(L, extra = true) { const out = L.files.map(f => f.link ? { path: absPath(f.path), kind: 'symlink', target: f.link } : { path: absPath(f.path), kind: 'file', data: f.text }); if (extra) for (const d of L.decoys ?? []) out.push({ path: d, kind: 'file', data: 'this is { not a schema' }); return out; }
