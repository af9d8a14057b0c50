'use strict';
/** Writes /verif/seeded/<id>/ from the specs in tools/seeds/spec-*.js. Usage: node mk.js [id...] */
const fs = require('fs'), path = require('path'), { execSync } = require('child_process');
const only = process.argv.slice(2);
const OUT = path.resolve(__dirname, '../../seeded');
const WT = '/tmp/seedwt';
const BASE = 'bce3d46';
if (!fs.existsSync(WT)) execSync(`git clone -q /repo ${WT}`);
execSync(`git -C ${WT} fetch -q origin && git -C ${WT} checkout -q -f ${execSync('git -C /repo rev-parse HEAD').toString().trim()}`);
for (const f of fs.readdirSync(__dirname).filter((x) => x.startsWith('spec-'))) {
  const specs = require('./' + f);
  for (const s of specs) {
    if (only.length && !only.includes(s.id)) continue;
    execSync(`git -C ${WT} checkout -q -f .`);
    for (const [file, from, to] of s.edits) {
      const p = path.join(WT, 'packages', file);
      const src = fs.readFileSync(p, 'utf8');
      const n = src.split(from).length - 1;
      if (n !== 1) throw new Error(`${s.id}: edit in ${file} matches ${n} times:\n${from}`);
      fs.writeFileSync(p, src.split(from).join(to));
    }
    const diff = execSync(`git -C ${WT} diff`).toString();
    const dir = path.join(OUT, s.id);
    fs.mkdirSync(dir, { recursive: true });
    fs.writeFileSync(path.join(dir, 'patch.diff'), diff);
    // only lines of the original repository may be changed
    for (const [file] of s.edits) {
      const base = new Set(execSync(`git -C ${WT} show ${BASE}:packages/${file}`).toString().split('\n'));
      for (const l of execSync(`git -C ${WT} diff -- packages/${file}`).toString().split('\n').slice(5))
        if (l.startsWith('-') && !base.has(l.slice(1))) throw new Error(`${s.id}: not an original line: ${l}`);
    }
    const lib = s.tag ? 'demotag.cjs' : 'demolib.cjs';
    fs.copyFileSync(path.join(__dirname, lib), path.join(dir, lib));
    if (s.tag) {
      fs.rmSync(path.join(dir, 'sim'), { recursive: true, force: true });
      for (const [d, re] of [['lib', /./], ['scenarios', /^lib-(tag|sdk)\.js$/], ['stubs', /./]]) {
        fs.mkdirSync(path.join(dir, 'sim', d), { recursive: true });
        for (const x of fs.readdirSync(path.resolve(__dirname, '../..', d)))
          if (re.test(x)) fs.copyFileSync(path.resolve(__dirname, '../..', d, x), path.join(dir, 'sim', d, x));
      }
    }
    for (const x of s.files || []) fs.copyFileSync(path.join(__dirname, x), path.join(dir, x));
    fs.writeFileSync(path.join(dir, 'demo.cjs'), s.tag ? `'use strict';\nconst { main, T, L, mut, live, countRule } = require('./demotag.cjs');\n${s.pre || ''}main(async (w, { check, open, start }) => {\n${s.demo.replace(/^\n+|\s+$/g, '')}\n}${s.bundles ? `, ${JSON.stringify(s.bundles)}` : ''});\n` : `'use strict';\nconst { World, sdkSource, P, check, main${s.import ? ', ' + s.import : ''} } = require('./demolib.cjs');\n${s.pre || ''}main(async () => {\n${s.demo.replace(/^\n+|\s+$/g, '')}\n});\n`);
    fs.writeFileSync(path.join(dir, 'demo.sh'), '#!/bin/bash\nexec node "$(dirname "$0")/demo.cjs"\n', { mode: 0o755 });
    fs.writeFileSync(path.join(dir, 'meta.json'), JSON.stringify({ property: s.property, needs: s.needs, what_it_breaks: s.breaks }, null, 2) + '\n');
    console.log(s.id);
  }
}
execSync(`git -C ${WT} checkout -q -f .`);
