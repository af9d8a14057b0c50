'use strict';
/** Executes one simulated run, and shrinks a failing choice list. */
const { World, Violation } = require('./sim');
const { Browser } = require('./browser');

let current = null;
let hooked = false;
function hookRejections() {
  if (hooked) return;
  hooked = true;
  process.on('unhandledRejection', (reason) => {
    if (reason instanceof Violation) return;
    if (current) {
      try {
        current.pageError(null, reason);
      } catch (e) {
        /* a Violation recorded by a hook */
      }
    }
  });
  process.on('uncaughtException', (e) => {
    if (e instanceof Violation) return;
    if (current) {
      try {
        current.pageError(null, e);
      } catch (e2) {
        /* recorded */
      }
    }
  });
}

/** Run scenario once. opts: {seed, choices, tier, bundles, keepTrace, knownKeys} */
async function runOnce(scenario, opts) {
  hookRejections();
  const w = new World({
    seed: opts.seed,
    choices: opts.choices,
    tier: opts.tier,
    keepTrace: opts.keepTrace,
    maxSteps: scenario.maxSteps,
  });
  w.bundles = opts.bundles;
  w.knownKeys = opts.knownKeys || {};
  w.knownFinding = (key, cls, message) => {
    if (w.knownKeys[key]) {
      w.known[key] = (w.known[key] || 0) + 1;
      return true;
    }
    w.fail(cls, message);
    return false;
  };
  w.browser = new Browser(w);
  current = w;
  let harnessError = null;
  try {
    await scenario.run(w);
    await w.drain();
  } catch (e) {
    if (!(e instanceof Violation)) {
      if (!w.violation) {
        if (e && e.fromCode) w.violation = { cls: 'exception', message: String(e.stack || e) };
        else harnessError = e;
      }
    }
  }
  current = null;
  for (const p of w.pages) p.alive = false;
  if (harnessError && !w.violation) {
    // an exception that escaped from an API call the scenario made
    w.violation = {
      cls: 'exception',
      message: 'unexpected exception: ' + String((harnessError && harnessError.stack) || harnessError),
      harness: true,
    };
  }
  return w;
}

/** Delta-debugs the choice list, keeping the violation class. */
async function shrink(scenario, opts, choices, cls, budget) {
  let best = choices.slice();
  let tries = 0;
  const deadline = Date.now() + (budget.ms || 15000);
  const seen = new Set();
  const test = async (cand) => {
    if (tries >= budget.runs || Date.now() > deadline) return false;
    const key = cand.join(',');
    if (seen.has(key)) return false;
    seen.add(key);
    tries++;
    const w = await runOnce(scenario, { ...opts, choices: cand, keepTrace: false });
    if (w.violation && w.violation.cls === cls) {
      const used = w.choices.slice();
      while (used.length && used[used.length - 1] === 0) used.pop();
      if (used.length < best.length || sum(used) < sum(best) || used.length <= cand.length) {
        best = used.length <= cand.length ? used : cand;
      }
      return true;
    }
    return false;
  };
  const sum = (a) => a.reduce((x, y) => x + y, 0);
  let improved = true;
  while (improved && tries < budget.runs && Date.now() < deadline) {
    improved = false;
    // 1. delete chunks
    for (let size = Math.max(1, best.length >> 1); size >= 1; size = size >> 1) {
      for (let i = best.length - size; i >= 0; i -= size) {
        const cand = best.slice(0, i).concat(best.slice(i + size));
        if (cand.length < best.length && (await test(cand))) improved = true;
        if (tries >= budget.runs) break;
        if (i > best.length) i = best.length;
      }
    }
    // 2. zero chunks
    for (let size = Math.max(1, best.length >> 2); size >= 1; size = size >> 1) {
      for (let i = 0; i + size <= best.length; i += size) {
        if (best.slice(i, i + size).every((x) => x === 0)) continue;
        const cand = best.slice();
        for (let j = i; j < i + size; j++) cand[j] = 0;
        if (await test(cand)) improved = true;
        if (tries >= budget.runs) break;
      }
    }
    // 3. lower values
    for (let i = 0; i < best.length; i++) {
      if (best[i] > 1) {
        for (const v of [1, best[i] >> 1, best[i] - 1]) {
          if (v >= best[i]) continue;
          const cand = best.slice();
          cand[i] = v;
          if (await test(cand)) {
            improved = true;
            break;
          }
        }
      }
      if (tries >= budget.runs) break;
    }
  }
  return { choices: best, tries };
}

module.exports = { runOnce, shrink };
