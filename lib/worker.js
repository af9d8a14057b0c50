'use strict';
const { parentPort, workerData } = require('worker_threads');
const { runOnce, shrink } = require('./exec');
const scenario = require(workerData.scenarioFile)[workerData.property];
const { bundles, tier, seedBase, total, chunk, shared, knownKeys, deadlineAt } = workerData;
const ctl = new Int32Array(shared); // [nextChunk, stopIndex, ...progress per worker]
const wi = workerData.index;

(async () => {
  const agg = {
    runs: 0,
    steps: 0,
    simMs: 0,
    faults: {},
    probes: {},
    ops: {},
    known: {},
    nontrivial: 0,
    detChecked: 0,
    detMismatch: 0,
    samples: [],
    truncated: false,
  };
  const shapes = new Set();
  const ntShapes = new Set();
  const add = (d, s) => {
    for (const k of Object.keys(s)) d[k] = (d[k] || 0) + s[k];
  };
  try {
    for (;;) {
      const c = Atomics.add(ctl, 0, 1);
      const lo = c * chunk;
      if (lo >= total) break;
      for (let i = lo; i < Math.min(total, lo + chunk); i++) {
        if (Atomics.load(ctl, 1) < i) break;
        if (Date.now() > deadlineAt) {
          agg.truncated = true;
          break;
        }
        Atomics.store(ctl, 2 + wi * 2, i + 1);
        Atomics.add(ctl, 3 + wi * 2, 1);
        const seed = seedBase + i;
        const keep = i < 4;
        const w = await runOnce(scenario, { seed, tier, bundles, knownKeys, keepTrace: keep });
        agg.runs++;
        agg.steps += w.steps;
        agg.simMs += w.now - w.startTime;
        add(agg.faults, w.faults);
        add(agg.probes, w.probes);
        add(agg.ops, w.ops);
        add(agg.known, w.known);
        shapes.add(w.shape);
        if (w.nontrivial > 0 || w.interleaved) {
          agg.nontrivial++;
          ntShapes.add(w.shape);
        }
        if (keep) agg.samples.push({ seed, trace: w.trace.slice(0, 60) });
        if (i % 50 === 0 && !w.violation) {
          const w2 = await runOnce(scenario, { seed, tier, bundles, knownKeys, keepTrace: false });
          agg.detChecked++;
          if (w2.digest !== w.digest) {
            agg.detMismatch++;
            agg.detSeed = seed;
          }
        }
        if (w.violation) {
          // lowest violating index wins, deterministically
          let cur = Atomics.load(ctl, 1);
          while (i < cur) {
            const prev = Atomics.compareExchange(ctl, 1, cur, i);
            if (prev === cur) break;
            cur = prev;
          }
          parentPort.postMessage({
            type: 'violation',
            index: i,
            seed,
            violation: w.violation,
            choices: w.choices,
          });
          break;
        }
      }
      if (agg.truncated) break;
    }
  } catch (e) {
    parentPort.postMessage({ type: 'error', error: String((e && e.stack) || e) });
  }
  parentPort.postMessage({ type: 'done', agg, shapes: [...shapes], ntShapes: [...ntShapes] });
  parentPort.on('message', async (m) => {
    if (m.type === 'shrink') {
      const r = await shrink(scenario, { seed: m.seed, tier, bundles, knownKeys }, m.choices, m.cls, {
        runs: 2500,
        ms: 20000,
      });
      const w = await runOnce(scenario, {
        seed: m.seed,
        tier,
        bundles,
        knownKeys,
        choices: r.choices,
        keepTrace: true,
      });
      parentPort.postMessage({
        type: 'shrunk',
        choices: r.choices,
        tries: r.tries,
        violation: w.violation,
        trace: w.trace,
        digest: w.digest,
      });
    } else if (m.type === 'exit') process.exit(0);
  });
})();
