// Runs generated modules on the real TypeScript compiler and node.
// stdin: one job per line {kind, class, text(hex), value, bytes(hex)}; stdout: one JSON result per line.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const vm = require('vm');
const LIB = `declare module "packet" { export class Reader { constructor(b: ArrayBuffer); failed: boolean;
 read_uint8(): number; read_uint16(): number; read_uint32(): number; read_int8(): number; read_int16(): number; read_int32(): number; read_float(): number; read_string(n: number): string; }
 export class Writer { constructor(b?: ArrayBuffer); write_uint8(v: number): void; write_uint16(v: number): void; write_uint32(v: number): void; write_int8(v: number): void; write_int16(v: number): void;
 write_int32(v: number): void; write_float(v: number): void; write_string(v: string): void; finish(): ArrayBuffer; } }`;
class Reader {
  constructor(b) { this.v = new DataView(b); this.p = 0; this.failed = false; this.late = 0; }
  take(n) { if (this.failed && ++this.late > 1000000) throw new RangeError('runaway: reading goes on after the data ended'); if (this.failed || this.p + n > this.v.byteLength) { this.failed = true; return -1; } this.p += n; return this.p - n; }
  read_uint8() { const i = this.take(1); return i < 0 ? 0 : this.v.getUint8(i); }
  read_uint16() { const i = this.take(2); return i < 0 ? 0 : this.v.getUint16(i, true); }
  read_uint32() { const i = this.take(4); return i < 0 ? 0 : this.v.getUint32(i, true); }
  read_int8() { const i = this.take(1); return i < 0 ? 0 : this.v.getInt8(i); }
  read_int16() { const i = this.take(2); return i < 0 ? 0 : this.v.getInt16(i, true); }
  read_int32() { const i = this.take(4); return i < 0 ? 0 : this.v.getInt32(i, true); }
  read_float() { const i = this.take(4); return i < 0 ? F(0) : F(this.v.getUint32(i, true)); }
  read_string(n) { const i = this.take(n); if (i < 0) return ''; let s = ''; for (let k = 0; k < n; k++) s += String.fromCharCode(this.v.getUint8(i + k)); return s; }
}
class Writer {
  constructor() { this.b = []; }
  num(n, v) { if (typeof v !== 'number') throw new TypeError('not a number'); for (let i = 0; i < n; i++) this.b.push(Number((BigInt(v) >> BigInt(8 * i)) & 255n)); }
  write_uint8(v) { this.num(1, v); } write_uint16(v) { this.num(2, v); } write_uint32(v) { this.num(4, v); }
  write_int8(v) { this.num(1, v); } write_int16(v) { this.num(2, v); } write_int32(v) { this.num(4, v); }
  write_float(v) { if (!(v instanceof Flt)) throw new TypeError('not a float'); this.num(4, v.bits); }
  write_string(s) { if (typeof s !== 'string') throw new TypeError('not a string'); for (const c of s) this.b.push(c.charCodeAt(0)); }
  finish() { return new Uint8Array(this.b).buffer; }
}
// floats travel as bit patterns (NaN payloads survive)
class Flt { constructor(bits) { this.bits = bits; } }
const F = (b) => new Flt(b);
const unhex = (h) => new Uint8Array((h.match(/../g) || []).map((x) => parseInt(x, 16)));
const hex = (b) => [...new Uint8Array(b)].map((x) => x.toString(16).padStart(2, '0')).join('');
function build(w) {
  if ('i' in w) return w.i;
  if ('f' in w) return F(w.f);
  if ('s' in w) return [...unhex(w.s)].map((c) => String.fromCharCode(c)).join('');
  if ('a' in w) return w.a.map(build);
  if ('o' in w) { const o = {}; for (const [k, v] of w.o) Object.defineProperty(o, k, { value: build(v), enumerable: true, writable: true, configurable: true }); return o; }
  return undefined;
}
function show(v) {
  if (v === undefined || v === null) return { u: 0 };
  if (typeof v === 'number') return { i: v };
  if (v instanceof Flt) return { f: v.bits };
  if (typeof v === 'string') return { s: hex([...v].map((c) => c.charCodeAt(0))) };
  if (Array.isArray(v)) return { a: Array.from(v, show) };
  return { o: Object.keys(v).map((k) => [k, show(v[k])]).sort((a, b) => (a[0] < b[0] ? -1 : 1)) };
}
function norm(w) { if (w === null) return null; if ('a' in w) return { a: w.a.map(norm) }; if ('o' in w) return { o: w.o.map(([k, v]) => [k, norm(v)]).sort((a, b) => (a[0] < b[0] ? -1 : 1)) }; return w; }
const cache = new Map();
function host(files) {
  const base = ts.createCompilerHost({});
  return Object.assign({}, base, {
    getSourceFile: (f, l) => {
      if (files[f] !== undefined) return ts.createSourceFile(f, files[f], l);
      if (!cache.has(f)) cache.set(f, base.getSourceFile(f, l));
      return cache.get(f);
    },
    fileExists: (f) => files[f] !== undefined || base.fileExists(f), readFile: (f) => files[f] !== undefined ? files[f] : base.readFile(f), writeFile: () => {},
  });
}
const OPT = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, strict: true, types: [], lib: ['lib.es2020.d.ts'] };
function compile(text) {
  const files = { '/m.ts': text, '/packet.d.ts': LIB };
  const h = host(files);
  let js = '';
  h.writeFile = (n, t) => { if (n.endsWith('m.js')) js = t; };
  const p = ts.createProgram(['/m.ts', '/packet.d.ts'], OPT, h);
  const d = ts.getPreEmitDiagnostics(p).map((d) => 'TS' + d.code + ' ' + ts.flattenDiagnosticMessageText(d.messageText, ' '));
  p.emit();
  return { diags: d, js };
}
function load(js) {
  const exports = {};
  vm.runInThisContext('(function (exports, require) {' + js + '\n})')(exports, () => ({ Reader, Writer }));
  return exports;
}
function run(j) {
  const text = Buffer.from(j.text, 'hex').toString('latin1');
  const c = compile(text);
  const r = { kind: j.kind, diags: c.diags };
  if (j.kind === 'check') return r;
  try {
    if (j.kind === 'enum') {
      const e = /enum (\w+) \{([^}]*)\}/.exec(text);
      const m = ts.transpileModule('enum ' + e[1] + ' {' + e[2] + '}; var __r = ' + e[1] + ';', {}).outputText;
      r.values = vm.runInThisContext('(function () {' + m + '\n return __r; })()');
      const ns = Object.keys(r.values).filter((k) => !/^[0-9]/.test(k));
      r.ok = ns.every((k, i) => r.values[k] === 2 ** i);
      return r;
    }
    const C = load(c.js)[j.class];
    const args = j.value && j.value.o ? j.value.o.map(([k, v]) => build(v)) : [];
    if (j.kind === 'write') { r.bytes = hex(new C(...args).write()); r.ok = r.bytes === j.bytes; }
    if (j.kind === 'trip') { const v = C.read(new C(...args).write()); r.value = v === null ? null : show(v); r.ok = JSON.stringify(r.value) === JSON.stringify(norm(j.value)); }
    if (j.kind === 'rewrite') {
      const v = C.read(unhex(j.bytes).buffer);
      C.read(new Uint8Array(j.bytes.length / 2).buffer);
      r.bytes = hex(C.prototype.write.call(v));
      const w = C.read(unhex(r.bytes).buffer);
      r.ok = r.bytes === j.bytes && JSON.stringify(show(v)) === JSON.stringify(norm(j.value)) && w !== null && JSON.stringify(show(w)) === JSON.stringify(norm(j.value));
    }
    if (j.kind === 'method') { const v = C.read(unhex(j.bytes).buffer); r.ok = v === null || typeof v.write === 'function'; }
    if (j.kind === 'twice') {
      const v = new C(...args);
      const before = JSON.stringify(show(v));
      const one = hex(v.write()), two = hex(v.write(new ArrayBuffer(64))), three = hex(v.write());
      r.bytes = [one, two, three];
      r.ok = one === two && two === three && before === JSON.stringify(show(v));
    }
    if (j.kind === 'read') { const v = C.read(unhex(j.bytes).buffer); r.value = v === null ? null : show(v); r.ok = JSON.stringify(r.value) === JSON.stringify(norm(j.value)); }
  } catch (e) { r.throws = String(e); r.ok = false; }
  return r;
}
require('readline').createInterface({ input: process.stdin }).on('line', (l) => { if (l.trim()) console.log(JSON.stringify(run(JSON.parse(l)))); });
