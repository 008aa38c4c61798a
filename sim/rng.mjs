// The only source of randomness of the simulator: a seeded 32-bit generator.
export function hash32(...parts) {
  let h = 0x811c9dc5 >>> 0;
  for (const p of parts) {
    const s = String(p);
    for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) >>> 0; }
    h ^= 0x9e; h = Math.imul(h, 0x01000193) >>> 0;
  }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}
export class Rng {
  constructor(...seed) { this.s = hash32(...seed) || 1; this.a = hash32('a', this.s); this.b = hash32('b', this.s); this.c = hash32('c', this.s); this.d = 1; for (let i = 0; i < 8; i++) this.u32(); }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0; this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9); this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11); this.c = (this.c + t) | 0; return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return n <= 0 ? 0 : Math.floor(this.f() * n); }        // 0..n-1
  range(a, b) { return a + this.int(b - a + 1); }                  // a..b
  chance(p) { return this.f() < p; }
  pick(xs) { return xs[this.int(xs.length)]; }
  weighted(pairs) { let t = 0; for (const [, w] of pairs) t += w; let x = this.f() * t; for (const [v, w] of pairs) { x -= w; if (x < 0) return v; } return pairs[pairs.length - 1][0]; }
  shuffle(xs) { for (let i = xs.length - 1; i > 0; i--) { const j = this.int(i + 1); const t = xs[i]; xs[i] = xs[j]; xs[j] = t; } return xs; }
  sample(xs, k) { return this.shuffle(xs.slice()).slice(0, k); }
  bytes(u8) { for (let i = 0; i < u8.length; i++) u8[i] = this.u32() & 255; }
}
