'use strict';
/** Child of mutate.js: builds bundles from VP_REPO and runs scenarios. argv: ids(csv) runs seedBase */
const path = require('path');
const fs = require('fs');
const { build } = require('../lib/bundle');
const { runOnce } = require('../lib/exec');
const V = path.resolve(__dirname, '..');
const ids = process.argv[2].split(',');
const runs = +process.argv[3];
const seedBase = +process.argv[4];
const reg = {};
for (const f of fs.readdirSync(path.join(V, 'scenarios')))
  if (/^[a-z].*\.js$/.test(f) && !f.startsWith('lib-')) Object.assign(reg, require(path.join(V, 'scenarios', f)));
(async () => {
  const bundles = {};
  let out = { killed: null };
  try {
    for (const id of ids) {
      const sc = reg[id];
      const b = {};
      for (const n of sc.bundles || ['sdk']) b[n] = bundles[n] || (bundles[n] = build(n));
      for (let i = 0; i < runs; i++) {
        const w = await runOnce(sc, { seed: seedBase + i, tier: 'quick', bundles: b, knownKeys: {} });
        if (w.violation) {
          out = { killed: id, seed: seedBase + i, run: i, cls: w.violation.cls, msg: String(w.violation.message).slice(0, 160) };
          throw 0;
        }
      }
    }
  } catch (e) {
    if (e !== 0) out = { killed: 'build', msg: String(e).slice(0, 300) };
  }
  process.stdout.write('\n@@' + JSON.stringify(out) + '\n');
  process.exit(0);
})();
