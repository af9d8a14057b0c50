'use strict';
/** Bundles /repo's current sources (never dist) with esbuild, in memory. */
const path = require('path');
const fs = require('fs');
const VERIF = path.resolve(__dirname, '..');
const REPO = process.env.VP_REPO || '/repo';

function loadEsbuild() {
  const cands = [
    '/opt/veriftools/node/node_modules/esbuild',
    path.join(REPO, 'node_modules/esbuild'),
  ];
  for (const c of cands) {
    try {
      return require(c);
    } catch (e) {
      /* next */
    }
  }
  throw new Error('esbuild not found');
}

const P = (p) => path.join(REPO, 'packages', p);

function build(entry) {
  const esbuild = loadEsbuild();
  const alias = {
    '@amplitude/experiment-core': P('experiment-core/src/index.ts'),
    '@amplitude/analytics-connector': P('analytics-connector/src/index.ts'),
    '@amplitude/experiment-js-client': P('experiment-browser/src/index.ts'),
    'dom-mutator': path.join(VERIF, 'stubs/dom-mutator.js'),
  };
  const entries = {
    sdk: `
      export * as browser from ${JSON.stringify(P('experiment-browser/src/index.ts'))};
      export * as connector from ${JSON.stringify(P('analytics-connector/src/index.ts'))};
      export * as core from ${JSON.stringify(P('experiment-core/src/index.ts'))};
    `,
    segment: `
      export * as segment from ${JSON.stringify(P('plugin-segment/src/index.ts'))};
      export * as browser from ${JSON.stringify(P('experiment-browser/src/index.ts'))};
    `,
    tag: fs.existsSync(path.join(VERIF, 'stubs/tag-entry.js'))
      ? fs.readFileSync(path.join(VERIF, 'stubs/tag-entry.js'), 'utf8').replace(/@TAG@/g, P('experiment-tag/src'))
      : '',
    consent: fs.existsSync(path.join(VERIF, 'stubs/consent-entry.js'))
      ? fs.readFileSync(path.join(VERIF, 'stubs/consent-entry.js'), 'utf8').replace(/@TAG@/g, P('experiment-tag/src'))
      : '',
    tagmain: `import ${JSON.stringify(P('experiment-tag/src/index.ts'))};`,
  };
  const res = esbuild.buildSync({
    stdin: {
      contents: entries[entry],
      resolveDir: P(/^(tag|consent)/.test(entry) ? 'experiment-tag' : 'experiment-browser'),
      loader: 'ts',
      sourcefile: `vp-entry-${entry}.ts`,
    },
    bundle: true,
    write: false,
    format: 'iife',
    globalName: '__vp',
    platform: 'browser',
    target: 'es2020',
    alias,
    nodePaths: [path.join(REPO, 'node_modules')],
    logLevel: 'silent',
    legalComments: 'none',
    loader: { '.json': 'json' },
    tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, experimentalDecorators: true } },
  });
  return res.outputFiles[0].text;
}

module.exports = { build, REPO, VERIF };
