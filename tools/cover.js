'use strict';
/** cover.js RUNS [ids]: lines of the real code which no simulated run has executed (V8 block coverage over the bundles). */
const path = require('path');
const fs = require('fs');
const inspector = require('inspector');
const { build } = require('../lib/bundle');
const { runOnce } = require('../lib/exec');
const V = path.resolve(__dirname, '..');
const runs = +process.argv[2] || 100;
const reg = {};
for (const f of fs.readdirSync(path.join(V, 'scenarios')))
  if (/^[a-z].*\.js$/.test(f) && !f.startsWith('lib-')) Object.assign(reg, require(path.join(V, 'scenarios', f)));
const ids = process.argv[3] ? process.argv[3].split(',') : Object.keys(reg);
const s = new inspector.Session();
s.connect();
const post = (m, p) => new Promise((res, rej) => s.post(m, p, (e, r) => (e ? rej(e) : res(r))));
(async () => {
  await post('Profiler.enable');
  await post('Debugger.enable');
  await post('Profiler.startPreciseCoverage', { callCount: true, detailed: true });
  const bundles = {};
  for (const id of ids) {
    const sc = reg[id];
    const b = {};
    for (const n of sc.bundles || ['sdk']) b[n] = bundles[n] || (bundles[n] = build(n));
    for (let i = 0; i < runs; i++) await runOnce(sc, { seed: 555000 + i, tier: 'quick', bundles: b, knownKeys: {} });
  }
  const { result } = await post('Profiler.takePreciseCoverage');
  // line of a source file -> executed in some bundle
  const hit = new Map();
  for (const r of result) {
    const { scriptSource: src } = await post('Debugger.getScriptSource', { scriptId: r.scriptId }).catch(() => ({ scriptSource: '' }));
    if (!src.includes('__vp')) continue;
    if (!src.includes('// ') || src.length < 20000) continue;
    const cov = new Int8Array(src.length).fill(1);
    for (const f of r.functions) for (const g of f.ranges) cov.fill(g.count > 0 ? 1 : 0, g.startOffset, g.endOffset);
    let file = '';
    let pos = 0;
    const seen = {};
    for (const line of src.split('\n')) {
      const m = line.match(/^  \/\/ (.*packages\/.*)$/);
      if (m) file = m[1].replace(/^.*packages\//, '');
      else if (file) {
        const t = line.trim();
        if (t && !/^[{}()\];,]*$/.test(t) && !t.startsWith('//')) {
          const k0 = file + '\0' + t;
          seen[k0] = (seen[k0] || 0) + 1;
          const k = k0 + '\0' + seen[k0];
          const first = pos + line.indexOf(t);
          let all = true;
          for (let i = first; i < first + t.length; i++) if (!cov[i]) all = false;
          hit.set(k, hit.get(k) || all);
        }
      }
      pos += line.length + 1;
    }
  }
  const out = {};
  let n = 0, c = 0;
  for (const [k, v] of hit) {
    const [file, t] = k.split('\0');
    n++;
    if (v) c++;
    else (out[file] = out[file] || []).push(t);
  }
  for (const f of Object.keys(out).sort()) console.log('\n## ' + f + '\n' + out[f].join('\n'));
  console.log(`\n${c}/${n} lines of the bundled sources executed entirely`);
  process.exit(0);
})();
