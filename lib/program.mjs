// Loads /repo's library sources into one TypeScript Program (the build's own
// compiler options) and offers symbol-resolution helpers to the analyses.
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';

export const REPO = process.env.VERIF_REPO || '/repo';

function loadTs() {
  const candidates = [
    path.join(REPO, 'node_modules/typescript/lib/typescript.js'),
    '/repo/node_modules/typescript/lib/typescript.js',
    '/opt/veriftools/node/node_modules/typescript/lib/typescript.js',
  ];
  for (const c of candidates) {
    if (fs.existsSync(c)) return createRequire(import.meta.url)(c);
  }
  throw new Error('no TypeScript compiler found');
}
export const ts = loadTs();

function walk(dir, out) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) {
      if (e.name !== '__recordings__' && e.name !== 'test-utils') walk(p, out);
    } else if (/\.tsx?$/.test(e.name) && !/\.spec\.tsx?$/.test(e.name)) out.push(p);
  }
  return out;
}

export function compilerOptions() {
  const cfgPath = path.join(REPO, 'tsconfig.json');
  const raw = ts.readConfigFile(cfgPath, (f) => fs.readFileSync(f, 'utf8'));
  const cfg = ts.parseJsonConfigFileContent(raw.config, ts.sys, REPO);
  const o = { ...cfg.options };
  o.noEmit = true;
  o.types = ['node'];
  o.typeRoots = [path.join(REPO, 'node_modules/@types')];
  o.rootDir = REPO;
  delete o.configFilePath;
  return o;
}

export function loadProgram() {
  const files = walk(path.join(REPO, 'src'), []).sort();
  const program = ts.createProgram(files, compilerOptions());
  const checker = program.getTypeChecker();
  const src = program
    .getSourceFiles()
    .filter((f) => !f.isDeclarationFile && f.fileName.startsWith(path.join(REPO, 'src') + '/'));
  return { program, checker, files: src, roots: files };
}

export function isRepoNode(node) {
  const f = node.getSourceFile();
  return !f.isDeclarationFile && f.fileName.startsWith(path.join(REPO, 'src') + '/');
}

export function loc(node) {
  if (!node) return '?';
  const f = node.getSourceFile();
  const { line, character } = f.getLineAndCharacterOfPosition(node.getStart(f));
  return `${path.relative(REPO, f.fileName)}:${line + 1}:${character + 1}`;
}
