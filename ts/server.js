// Evaluates types of the repository's TypeScript modules. JSON lines on stdin and stdout.
// request: {lex, parse, arith, exprs: [[name, source]], diag: bool, chars?: source}
// reply: {values: {name: json}, diags: [text], files: {...}} or {error}
'use strict';
const TS = process.env.VERIF_TYPESCRIPT || '/opt/veriftools/node/node_modules/typescript';
const ts = require(TS);
const fs = require('fs');
const path = require('path');
const repo = process.argv[2];

const options = {
  strict: true,
  noEmit: true,
  target: ts.ScriptTarget.ES5,
  module: ts.ModuleKind.ESNext,
  skipLibCheck: true,
  noUncheckedIndexedAccess: true,
  noLib: true,
  types: [],
};
const LIB = `
interface Array<T> { length: number; [n: number]: T; concat(...items: T[]): T[]; slice(a?: number, b?: number): T[]; }
interface ReadonlyArray<T> { readonly length: number; readonly [n: number]: T; }
interface Boolean {} interface CallableFunction extends Function {} interface Function {} interface IArguments {}
interface NewableFunction extends Function {} interface Number { toFixed(d?: number): string } interface Object {} interface RegExp {}
interface String { readonly length: number; readonly [n: number]: string; charAt(n: number): string }
type Record<K extends keyof any, T> = { [P in K]: T };
`;
const cache = new Map();
function fixed(name, text) {
  let f = cache.get(name);
  if (!f || f.text !== text) {
    f = ts.createSourceFile(name, text, ts.ScriptTarget.ES5, true);
    cache.set(name, f);
  }
  return f;
}
const read = (n) => fs.readFileSync(path.join(repo, 'ts', n), 'utf8');
const sources = {};
for (const n of ['util.ts', 'chars.ts', 'lex.ts', 'parse.ts']) sources[n] = read(n);

function toJson(checker, t, depth) {
  const F = ts.TypeFlags;
  if (depth > 120) return { $deep: true };
  if (t.flags & F.Any) return { $any: true };
  if (t.flags & F.Unknown) return { $unknown: true };
  if (t.flags & F.Never) return { $never: true };
  if (t.flags & F.StringLiteral) return t.value.toWellFormed();
  if (t.flags & F.NumberLiteral) return t.value;
  if (t.flags & F.BooleanLiteral) return t.intrinsicName === 'true';
  if (t.flags & F.Null) return null;
  if (t.flags & F.Undefined) return { $undefined: true };
  if (t.flags & F.Union) {
    const m = t.types.map((x) => toJson(checker, x, depth + 1));
    m.sort((a, b) => (JSON.stringify(a) < JSON.stringify(b) ? -1 : 1));
    return { $union: m };
  }
  if (checker.isTupleType(t)) {
    if (t.target.combinedFlags & (ts.ElementFlags.Rest | ts.ElementFlags.Variadic))
      return { $other: checker.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation) };
    return checker.getTypeArguments(t).map((x) => toJson(checker, x, depth + 1));
  }
  if (t.flags & F.Intersection) {
    return { $other: checker.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation) };
  }
  if (t.flags & F.Object && !checker.isArrayType(t) && t.getCallSignatures().length === 0 && checker.getIndexInfosOfType(t).length === 0) {
    const o = {};
    for (const p of checker.getPropertiesOfType(t)) {
      Object.defineProperty(o, p.name, { value: toJson(checker, checker.getTypeOfSymbol(p), depth + 1), enumerable: true, configurable: true, writable: true });
    }
    return o;
  }
  return { $other: checker.typeToString(t, undefined, ts.TypeFormatFlags.NoTruncation) };
}

function handle(rq) {
  const src = Object.assign({}, sources);
  if (rq.chars !== undefined) src['chars.ts'] = rq.chars;
  src['arith_table.gen.ts'] = rq.arith !== undefined ? rq.arith : sources['arith_table.gen.ts'];
  if (src['arith_table.gen.ts'] === undefined) return { error: 'no arithmetic table' };
  if (rq.setup) {
    sources['arith_table.gen.ts'] = rq.arith;
    return { ok: true };
  }
  src['lex_state.gen.ts'] = rq.lex !== undefined ? rq.lex : 'export type Tokens = {}; export type States = []; export type DFAtoNFA = {};';
  src['parse_state2.gen.ts'] = rq.parse !== undefined ? rq.parse : 'export declare module type_defs { export type Symbol = { kind: "token", token: any }; type Tokens = {}; type Production = { name: string; tokens: number[] }; type Productions = {}; type Action = {}; type Goto = {}; type TokenKindToIdx = {} }\nexport declare module actions { type EmitProduction<a, b> = never }';
  // the type aliases of parse.ts are not exported: evaluate beside them
  let text = src['parse.ts'] + '\nimport * as C from "./chars";\ntype Verif_At<T, K> = K extends keyof T ? T[K] : never;\n';
  const names = rq.exprs.map(([n]) => n);
  for (const [n, e] of rq.exprs) text += `export type ${n} = ${e};\n`;
  src['parse.ts'] = text;
  const broken = (n, f) => f && f.parseDiagnostics && f.parseDiagnostics.length ? `${n}: ${ts.flattenDiagnosticMessageText(f.parseDiagnostics[0].messageText, ' ')}` : undefined;
  if (!rq.diag) {
    for (const n of ['util.ts', 'lex.ts']) {
      const b = broken(n, fixed('/w/' + n, src[n]));
      if (b) return { error: b };
    }
    for (const n of ['parse.ts', 'lex_state.gen.ts', 'parse_state2.gen.ts']) {
      const b = broken(n, ts.createSourceFile('/w/' + n, src[n], ts.ScriptTarget.ES5, true));
      if (b) return { error: b };
    }
  }
  const volatile = new Set(['parse.ts', 'lex_state.gen.ts', 'parse_state2.gen.ts']);
  const file = (name) => {
    if (name === '/w/lib.d.ts') return fixed(name, LIB);
    const b = path.basename(name);
    if (!(b in src)) return undefined;
    if (volatile.has(b)) return ts.createSourceFile(name, src[b], ts.ScriptTarget.ES5, true);
    return fixed(name, src[b]);
  };
  const files = new Map();
  const host = {
    getSourceFile(n) {
      if (!files.has(n)) files.set(n, file(n));
      return files.get(n);
    },
    fileExists: (n) => n === '/w/lib.d.ts' || (n.startsWith('/w/') && path.basename(n) in src),
    readFile: () => undefined,
    getDefaultLibFileName: () => '/w/lib.d.ts',
    getCurrentDirectory: () => '/w',
    getCanonicalFileName: (n) => n,
    useCaseSensitiveFileNames: () => true,
    getNewLine: () => '\n',
    writeFile() {},
    directoryExists: () => true,
    getDirectories: () => [],
    resolveModuleNameLiterals: (lits) =>
      lits.map((l) => {
        const b = path.basename(l.text) + '.ts';
        return { resolvedModule: b in src ? { resolvedFileName: '/w/' + b, extension: '.ts', isExternalLibraryImport: false } : undefined };
      }),
  };
  const program = ts.createProgram({ rootNames: ['/w/lib.d.ts', '/w/parse.ts'].concat(rq.roots || []), options, host });
  const checker = program.getTypeChecker();
  const values = {};
  const sf = program.getSourceFile('/w/parse.ts');
  const want = new Set(names);
  // checking the file statement by statement gives every alias its own instantiation budget
  const deep = [];
  for (const d of program.getSemanticDiagnostics(sf)) {
    if (d.code === 2589 || d.code === 2590) deep.push(d.start);
  }
  sf.forEachChild((n) => {
    if (ts.isTypeAliasDeclaration(n) && want.has(n.name.text)) {
      values[n.name.text] = deep.some((p) => p >= n.pos && p < n.end) ? { $deep: true } : toJson(checker, checker.getTypeAtLocation(n.name), 0);
    }
  });
  const diags = [];
  if (rq.diag) {
    const seen = new Set();
    for (const b of ['lex_state.gen.ts', 'parse_state2.gen.ts']) {
      const f = program.getSourceFile('/w/' + b);
      if (!f) continue;
      for (const d of [...program.getSyntacticDiagnostics(f), ...program.getSemanticDiagnostics(f)]) {
        const line = d.start === undefined ? 0 : f.getLineAndCharacterOfPosition(d.start).line;
        diags.push({ file: b, code: d.code, line: f.text.split('\n')[line], message: ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300) });
        if (diags.length > 20) break;
      }
    }
  }
  return { values, diags };
}

let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', (d) => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    let r;
    try {
      r = handle(JSON.parse(line));
    } catch (e) {
      r = { error: String((e && e.stack) || e).slice(0, 800) };
    }
    process.stdout.write(JSON.stringify(r) + '\n');
  }
});
process.stdin.on('end', () => process.exit(0));
