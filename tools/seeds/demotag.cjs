'use strict';
/** Runs one scripted page visit in the simulated browser copied beside this file (sim/). */
process.env.VP_REPO = process.cwd();
const path = require('path');
const S = path.join(__dirname, 'sim');
const { build } = require(path.join(S, 'lib/bundle'));
const { runOnce } = require(path.join(S, 'lib/exec'));
const T = require(path.join(S, 'scenarios/lib-tag'));
const L = require(path.join(S, 'scenarios/lib-sdk'));
const { makeDom } = require(path.join(S, 'lib/dom'));

const mut = (id, scope) => ({ action: 'mutate', data: { mutations: [{ id, selector: '#a', action: 'set', ...(scope ? { metadata: { scope } } : {}) }] } });
const live = (page) => [...page.live.values()].map((m) => m.id).sort();
const countRule = (event_type, value, o) => ({ condition: { type: 'behavior', event_type, op: 'greater or equal', value, time_type: 'rolling', time_value: 30, interval: 'day' }, ...(o || {}) });

function main(fn, more = []) {
  process.exitCode = 3; // unless it gets to the end
  (async () => {
    const run = async (w) => {
      w.hooks.server = () => ({ kind: 'never' });
      await fn(w, {
        check: (c, m) => w.check(c, 'demo', () => m),
        open: (url, o, tab) => {
          const page = T.openPage(w, tab || w.browser.newTab(), { url, ...(o && o.page) });
          T.integration(w, page, (o && o.integration) || {});
          return page;
        },
        start: (page, o) => T.start(w, page, o),
      });
    };
    const r = await runOnce({ run }, { seed: 1, choices: [], bundles: Object.fromEntries(['tag', ...more].map((b) => [b, build(b)])) });
    if (r.violation) {
      console.error('FAILED: ' + r.violation.message);
      process.exit(1);
    }
    console.log('ok');
    process.exit(0);
  })();
}
module.exports = { main, T, L, mut, live, countRule, makeDom };
