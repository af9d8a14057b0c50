#!/usr/bin/env node
'use strict';
/** Generates properties.jsonl and MANIFEST.json from tools/props-*.js (one source of truth). */
const fs = require('fs');
const path = require('path');
const V = path.resolve(__dirname, '..');
const props = [];
for (const f of fs.readdirSync(__dirname).filter((f) => /^props-.*\.js$/.test(f)).sort())
  props.push(...require(path.join(__dirname, f)));
const reg = {};
for (const f of fs.readdirSync(path.join(V, 'scenarios')))
  if (/^[a-z].*\.js$/.test(f) && !f.startsWith('lib-')) Object.assign(reg, require(path.join(V, 'scenarios', f)));
const lines = [];
const checks = [];
const na = [];
const mech = (a) => a.map((m) => ({ name: m[0], where: m[1] }));
for (const p of props) {
  if (p.title.length > 80) throw new Error('title too long ' + p.id);
  lines.push(
    JSON.stringify({
      id: p.id,
      title: p.title,
      statement: p.statement,
      quantifier: { over: p.over, text: p.quant },
      why_tests_cant: p.why,
      anchors: {
        files: p.files,
        mechanism: mech(p.mech),
        ...(p.state ? { state: p.state.map((s) => ({ name: s[0], meaning: s[1], where: s[2] })) } : {}),
        ...(p.observe ? { observe_at: p.observe } : {}),
        hook_needed: null,
      },
    }),
  );
  if (p.na) na.push({ property: p.id, reason: p.na });
  else {
    if (!reg[p.id]) {
      console.error('no scenario for ' + p.id);
      process.exit(1);
    }
    checks.push({
      property: p.id,
      quick_cmd: `node run.js check ${p.id}`,
      thorough_cmd: `node run.js check ${p.id} --tier thorough`,
      evidence_file: `evidence/${p.id}.json`,
      technique: 'deterministic simulation with fault injection: seeded search over schedules and fault sequences, oracle: ' + p.oracle,
      level: 'exploration',
      level_note: p.note,
    });
  }
}
for (const id of Object.keys(reg)) if (!props.some((p) => p.id === id)) console.error('scenario without property: ' + id);
fs.writeFileSync(path.join(V, 'properties.jsonl'), lines.join('\n') + '\n');
fs.writeFileSync(
  path.join(V, 'MANIFEST.json'),
  JSON.stringify(
    {
      version: 1,
      setup_cmd: 'node run.js setup',
      checks,
      not_applicable: na,
      notes:
        'No hooks in /repo were needed: the code reaches clocks, timers, network, storage, cookies, DOM and randomness only through browser globals, ' +
        'which the simulator shadows when it evaluates an esbuild bundle of /repo/packages/*/src built at the start of every check. ' +
        'One seed (VERIF_SEED plus run number) decides one run; replay files hold the minimised choice list: node run.js replay <file>.',
    },
    null,
    1,
  ) + '\n',
);
console.log(`${props.length} properties, ${checks.length} checks, ${na.length} not applicable`);
