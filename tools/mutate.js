'use strict';
/**
 * Mutation campaign: finds code whose breakage no check notices.
 *   node tools/mutate.js OUT.jsonl SAMPLE FILE_REGEX [runs1,runs2] [IDS]
 * Works on scratch copies under /tmp/mut; never touches /repo.
 * MUT_OPS=refactor instead applies edits which keep the behaviour (a body or an
 * awaited expression moved into an async helper, iteration over a copy): what
 * is "killed" then is a false alarm to look into.
 */
const fs = require('fs');
const path = require('path');
const { spawn, execSync } = require('child_process');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [out, sampleArg, fileRe, runsArg, idsArg] = process.argv.slice(2);
const RUNS = (runsArg || '60,400').split(',').map(Number);
const SRC = process.env.MUT_SRC || '/repo/packages'; // use a snapshot when /repo is being edited
const K = ts.SyntaxKind;

function files() {
  const r = [];
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) walk(p);
      else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name)) r.push(path.relative(SRC, p));
    }
  };
  for (const p of fs.readdirSync(SRC)) if (fs.existsSync(path.join(SRC, p, 'src'))) walk(path.join(SRC, p, 'src'));
  return r.filter((f) => new RegExp(fileRe || '.').test(f));
}

const SKIPCALL = /^(console\.|this\.debug\(|debug\(|this\.logger|logger\.|super\()|\.(debug|verbose|warn|info)\(/;
function mutantsOf(f) {
  const text = fs.readFileSync(path.join(SRC, f), 'utf8');
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2020, true);
  const ms = [];
  const rep = (node, str, kind) => {
    const s = node.getStart(sf), e = node.getEnd();
    const old = text.slice(s, e);
    if (old === str) return;
    const line = sf.getLineAndCharacterOfPosition(s).line + 1;
    ms.push({ f, s, e, str, kind, line, old: old.slice(0, 90).replace(/\s+/g, ' '), new: str.slice(0, 90).replace(/\s+/g, ' ') });
  };
  const refactor = (n) => {
    const isFn = ts.isMethodDeclaration(n) || ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n);
    if (isFn && n.body && (n.modifiers || []).some((m) => m.kind === K.AsyncKeyword) && !n.asteriskToken) {
      const b = n.body.getText(sf);
      rep(n.body, `{ return await (async () => ${ts.isBlock(n.body) ? b : `(${b})`})(); }`, 'async-inner');
    }
    if (ts.isAwaitExpression(n)) rep(n.expression, `(async () => ${n.expression.getText(sf)})()`, 'await-helper');
    if (ts.isForOfStatement(n)) rep(n.expression, `Array.from(${n.expression.getText(sf)})`, 'iterate-copy');
    if (isFn && n.body && ts.isBlock(n.body) && !(n.modifiers || []).some((m) => m.kind === K.AsyncKeyword) && n.body.statements.length > 2 && !/\barguments\b|\bthis\b/.test(n.body.getText(sf)))
      rep(n.body, `{ return (() => ${n.body.getText(sf)})(); }`, 'inner');
    ts.forEachChild(n, refactor);
  };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    if (ts.isExpressionStatement(n)) {
      const t = n.getText(sf);
      if (SKIPCALL.test(t)) return;
      rep(n, ';', 'del-stmt');
    }
    if (ts.isIfStatement(n)) {
      const c = n.expression.getText(sf);
      rep(n.expression, `!(${c})`, 'negate-if');
      rep(n.expression, 'false', 'if-false');
      rep(n.expression, 'true', 'if-true');
    }
    if (ts.isConditionalExpression(n)) {
      rep(n, `(${n.whenTrue.getText(sf)})`, 'cond-true');
      rep(n, `(${n.whenFalse.getText(sf)})`, 'cond-false');
    }
    if (ts.isBinaryExpression(n)) {
      const L = n.left.getText(sf), R = n.right.getText(sf);
      const m = {
        [K.AmpersandAmpersandToken]: '||', [K.BarBarToken]: '&&',
        [K.EqualsEqualsEqualsToken]: '!==', [K.ExclamationEqualsEqualsToken]: '===',
        [K.LessThanToken]: '<=', [K.LessThanEqualsToken]: '<', [K.GreaterThanToken]: '>=', [K.GreaterThanEqualsToken]: '>',
        [K.PlusToken]: '-', [K.MinusToken]: '+',
      }[n.operatorToken.kind];
      if (m && !(m === '-' && /['"`]/.test(L + R))) rep(n, `(${L} ${m} ${R})`, 'op');
      if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(n.operatorToken.kind)) {
        rep(n, `(${L})`, 'left-only');
        rep(n, `(${R})`, 'right-only');
      }
      if ([K.LessThanToken, K.GreaterThanToken, K.LessThanEqualsToken, K.GreaterThanEqualsToken].includes(n.operatorToken.kind))
        rep(n, `!(${L} ${n.operatorToken.getText(sf)} ${R})`, 'neg-cmp');
    }
    if (ts.isAwaitExpression(n)) rep(n, n.expression.getText(sf), 'drop-await');
    if (ts.isNumericLiteral(n) && !ts.isEnumMember(n.parent)) rep(n, String(+n.text ? +n.text * 10 : 1), 'num');
    if (n.kind === K.TrueKeyword) rep(n, 'false', 'bool');
    if (n.kind === K.FalseKeyword) rep(n, 'true', 'bool');
    if (ts.isReturnStatement(n) && n.expression && !ts.isObjectLiteralExpression(n.expression)) rep(n, 'return;', 'ret-undef');
    if (ts.isReturnStatement(n) && !n.expression) rep(n, ';', 'no-return');
    if (n.kind === K.ContinueStatement || (n.kind === K.BreakStatement && !ts.isCaseClause(n.parent))) rep(n, ';', 'no-jump');
    if (ts.isObjectLiteralExpression(n) && n.properties.length)
      for (let i = 0; i < n.properties.length; i++) {
        const keep = n.properties.filter((_, j) => j !== i).map((p) => p.getText(sf));
        rep(n, `{${keep.join(', ')}}`, 'drop-prop:' + n.properties[i].getText(sf).slice(0, 30));
      }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const name = n.expression.name.text;
      if (['filter', 'slice', 'trim', 'toLowerCase', 'reverse', 'sort'].includes(name)) rep(n, n.expression.expression.getText(sf), 'drop-call');
      if (name === 'some') rep(n.expression.name, 'every', 'some-every');
      if (name === 'every') rep(n.expression.name, 'some', 'some-every');
    }
    ts.forEachChild(n, visit);
  };
  (process.env.MUT_OPS === 'refactor' ? refactor : visit)(sf);
  return ms;
}

function rng(seed) {
  return () => {
    seed = (seed * 1103515245 + 12345) & 0x7fffffff;
    return seed / 0x7fffffff;
  };
}

const B = 'B01,B02,B03,B04,B05,B06,B07,B08,B09,B10,B11,B12,B13,B14'.split(',');
const C = ['C01', 'C02'];
const T = Array.from({ length: 23 }, (_, i) => 'T' + String(i + 1).padStart(2, '0'));
function idsFor(f) {
  if (idsArg) return idsArg.split(',');
  if (/^experiment-tag/.test(f)) {
    if (/consent|clear-data|grant|cookie/.test(f)) return T;
    if (/behavioral/.test(f)) return ['T05', 'T06', 'T08', 'T09', 'T07', ...T.slice(0, 4), ...T.slice(9)];
    if (/messenger|preview|inject|shell|banner|loading/.test(f)) return [...T.slice(14), ...T.slice(0, 14)];
    return [...T.slice(9), ...T.slice(0, 9)];
  }
  if (/plugin-segment/.test(f)) return ['S01'];
  if (/analytics-connector/.test(f)) return [...C, 'S01', ...B];
  return [...B, ...C, 'S01', ...(/experiment-core/.test(f) ? T.slice(9) : [])];
}

let all = [];
for (const f of files()) all.push(...mutantsOf(f));
const total = all.length;
const r = rng(+process.env.MUT_SEED || 7);
for (let i = all.length - 1; i > 0; i--) {
  const j = Math.floor(r() * (i + 1));
  [all[i], all[j]] = [all[j], all[i]];
}
// MUT_FROM: only what survived an earlier campaign
if (process.env.MUT_FROM) all = fs.readFileSync(process.env.MUT_FROM, 'utf8').split('\n').filter(Boolean).map((l) => JSON.parse(l)).filter((m) => m.res && !m.res.killed && new RegExp(fileRe || '.').test(m.f));
const done = new Set(fs.existsSync(out) ? fs.readFileSync(out, 'utf8').split('\n').filter(Boolean).map((l) => { const m = JSON.parse(l); return m.f + m.s + m.e + m.kind; }) : []);
all = all.slice(0, +sampleArg || all.length).filter((m) => !done.has(m.f + m.s + m.e + m.kind));
console.log(`${total} mutants, running ${all.length}`);
const NW = +process.env.MUT_WORKERS || 7;
let next = 0, survived = 0, fin = 0;

function child(dir, ids, runs, seed, timeout) {
  return new Promise((res) => {
    const p = spawn('node', ['--max-old-space-size=1500', path.join(__dirname, 'mutrun.js'), ids.join(','), runs, seed], { env: { ...process.env, VP_REPO: dir }, stdio: ['ignore', 'pipe', 'ignore'] });
    let o = '';
    p.stdout.on('data', (d) => { o += d; if (o.length > 1e6) o = o.slice(-1e5); });
    const t = setTimeout(() => p.kill('SIGKILL'), timeout);
    p.on('close', () => {
      clearTimeout(t);
      const m = /@@(.*)\n/.exec(o.slice(o.lastIndexOf('\n@@')));
      res(m ? JSON.parse(m[1]) : { killed: 'timeout-or-crash' });
    });
  });
}

(async () => {
  const DIR = process.env.MUT_DIR || '/tmp/mut';
  fs.mkdirSync(DIR, { recursive: true });
  await Promise.all(
    Array.from({ length: NW }, async (_, wi) => {
      const dir = `${DIR}/w${wi}`;
      if (!fs.existsSync(dir)) {
        fs.mkdirSync(dir + '/packages', { recursive: true });
        fs.symlinkSync('/repo/node_modules', dir + '/node_modules');
      }
      for (const p of fs.readdirSync(SRC)) {
        execSync(`mkdir -p ${dir}/packages/${p} && cp -r ${SRC}/${p}/. ${dir}/packages/${p}/ && true`, { shell: '/bin/bash' });
      }
      for (;;) {
        const i = next++;
        if (i >= all.length) break;
        const m = all[i];
        const file = path.join(dir, 'packages', m.f);
        const orig = fs.readFileSync(path.join(SRC, m.f), 'utf8');
        fs.writeFileSync(file, orig.slice(0, m.s) + m.str + orig.slice(m.e));
        const ids = idsFor(m.f);
        let res = await child(dir, ids, RUNS[0], 10000000, 240000);
        if (!res.killed && RUNS[1]) res = await child(dir, ids, RUNS[1], 20000000, 600000);
        fs.writeFileSync(file, orig);
        fs.appendFileSync(out, JSON.stringify({ ...m, res }) + '\n');
        fin++;
        if (!res.killed) survived++;
        if (fin % 25 === 0) console.log(`${fin}/${all.length} survived ${survived}`);
      }
    }),
  );
  console.log(`done ${fin} survived ${survived}`);
})();
