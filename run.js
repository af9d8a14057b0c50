#!/usr/bin/env node
'use strict';
/**
 *   node run.js check <PROPERTY> [--tier quick|thorough] [--runs N] [--seed N]
 *   node run.js replay <replay.json>
 *   node run.js one <PROPERTY> <seed>            (prints the trace)
 *   node run.js list
 */
const fs = require('fs');
const os = require('os');
const path = require('path');
const { Worker } = require('worker_threads');
const { spawnSync } = require('child_process');
const { build, REPO } = require('./lib/bundle');
const VERIF = __dirname;

function registry() {
  const m = {};
  for (const f of fs.readdirSync(path.join(VERIF, 'scenarios')).sort()) {
    if (!/^[a-z].*\.js$/.test(f) || f.startsWith('lib-')) continue;
    const file = path.join(VERIF, 'scenarios', f);
    for (const id of Object.keys(require(file))) m[id] = file;
  }
  return m;
}

function knownFindings(property) {
  const file = path.join(VERIF, 'known-findings.txt');
  const known = {};
  if (!fs.existsSync(file)) return known;
  for (const line of fs.readFileSync(file, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line.trim());
    if (m && m[1] === property) known[m[2]] = m[3];
  }
  return known;
}

function bundlesFor(scenario) {
  const out = {};
  for (const b of scenario.bundles || ['sdk']) out[b] = build(b);
  return out;
}

function arg(name, dflt) {
  const i = process.argv.indexOf('--' + name);
  return i > 0 ? process.argv[i + 1] : dflt;
}

async function check(id) {
  const t0 = Date.now();
  const reg = registry();
  if (!reg[id]) {
    console.error('unknown property ' + id);
    process.exit(2);
  }
  const scenario = require(reg[id])[id];
  const tier = arg('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
  const vseed = parseInt(arg('seed', process.env.VERIF_SEED || '1'), 10) || 1;
  const total = parseInt(arg('runs', String((scenario.runs && scenario.runs[tier]) || (tier === 'quick' ? 4000 : 60000))), 10);
  const seedBase = vseed * 10000000;
  console.log(`seed base ${seedBase}, ${total} runs, tier ${tier}, property ${id}`);
  const bundles = bundlesFor(scenario);
  const knownKeys = knownFindings(id);
  const nw = Math.max(1, Math.min(8, os.cpus().length));
  const shared = new SharedArrayBuffer(4 * (2 + nw * 2));
  const ctl = new Int32Array(shared);
  ctl[1] = 0x7fffffff;
  const maxWall = tier === 'quick' ? 240000 : 3000000;
  const workers = [];
  const aggs = [];
  const shapes = new Set();
  const ntShapes = new Set();
  const violations = [];
  const errors = [];
  let hang = null;
  await new Promise((resolve) => {
    let open = nw;
    const lastSeen = [];
    const done = () => {
      if (--open === 0) {
        clearInterval(iv);
        resolve();
      }
    };
    for (let i = 0; i < nw; i++) {
      const wk = new Worker(path.join(VERIF, 'lib/worker.js'), {
        workerData: {
          scenarioFile: reg[id],
          property: id,
          bundles,
          tier,
          seedBase,
          total,
          chunk: 20,
          shared,
          index: i,
          knownKeys,
          deadlineAt: t0 + maxWall,
        },
        stdout: false,
      });
      wk.vpState = 'run';
      workers.push(wk);
      lastSeen.push({ n: -1, at: Date.now() });
      wk.on('message', (m) => {
        if (m.type === 'violation') violations.push({ ...m, worker: i });
        else if (m.type === 'error') errors.push(m.error);
        else if (m.type === 'done') {
          wk.vpState = 'done';
          aggs.push(m.agg);
          for (const s of m.shapes) shapes.add(s);
          for (const s of m.ntShapes) ntShapes.add(s);
          done();
        }
      });
      wk.on('error', (e) => {
        errors.push(String(e.stack || e));
        if (wk.vpState === 'run') {
          wk.vpState = 'dead';
          done();
        }
      });
      wk.on('exit', () => {
        if (wk.vpState === 'run') {
          wk.vpState = 'dead';
          done();
        }
      });
    }
    // a run that never yields is a hang of the code under test
    const iv = setInterval(() => {
      for (let i = 0; i < nw; i++) {
        if (workers[i].vpState !== 'run') continue;
        const n = Atomics.load(ctl, 3 + i * 2);
        if (n !== lastSeen[i].n) lastSeen[i] = { n, at: Date.now() };
        else if (n > 0 && Date.now() - lastSeen[i].at > 60000) {
          const index = Atomics.load(ctl, 2 + i * 2) - 1;
          if (!hang || index < hang.index) hang = { index, seed: seedBase + index };
          Atomics.store(ctl, 1, Math.min(Atomics.load(ctl, 1), index));
          workers[i].vpState = 'dead';
          workers[i].terminate();
          done();
        }
      }
    }, 500);
  });
  const agg = {};
  const merge = (d, s) => {
    for (const k of Object.keys(s)) {
      if (typeof s[k] === 'number') d[k] = (d[k] || 0) + s[k];
      else if (Array.isArray(s[k])) d[k] = (d[k] || []).concat(s[k]);
      else if (s[k] && typeof s[k] === 'object') merge((d[k] = d[k] || {}), s[k]);
      else if (s[k] === true) d[k] = true;
    }
  };
  for (const a of aggs) merge(agg, a);
  violations.sort((a, b) => a.index - b.index);
  const first = violations[0];
  let report = null;
  if (hang && (!first || hang.index <= first.index)) {
    report = {
      property: id,
      tier,
      seed: hang.seed,
      choices: null,
      violation: { cls: 'hang', message: 'the run never yields back to the event loop (60 s of real time)' },
      trace: [],
    };
  } else if (first) {
    let r = null;
    const wk = workers.find((x) => x.vpState === 'done');
    if (wk) {
      r = await new Promise((resolve) => {
        const t = setTimeout(() => resolve(null), 60000);
        wk.on('message', (m) => {
          if (m.type === 'shrunk') {
            clearTimeout(t);
            resolve(m);
          }
        });
        wk.postMessage({ type: 'shrink', seed: first.seed, choices: first.choices, cls: first.violation.cls });
      });
    }
    const ok = r && r.violation && r.violation.cls === first.violation.cls;
    report = {
      property: id,
      tier,
      seed: first.seed,
      choices: ok ? r.choices : first.choices,
      original_choices: first.choices.length,
      shrink_runs: r ? r.tries : 0,
      violation: ok ? r.violation : first.violation,
      trace: ok ? r.trace : [],
      digest: ok ? r.digest : undefined,
    };
  }
  for (const wk of workers) wk.terminate();

  const wall = (Date.now() - t0) / 1000;
  let replayPath = null;
  if (report) {
    fs.mkdirSync(path.join(VERIF, 'replays'), { recursive: true });
    replayPath = path.join(VERIF, 'replays', `${id}-${report.seed}.json`);
    fs.writeFileSync(replayPath, JSON.stringify(report, null, 1));
    if (report.violation.cls !== 'hang') {
      const rr = spawnSync(process.execPath, [__filename, 'replay', replayPath, '--quiet'], { encoding: 'utf8', timeout: 120000 });
      report.replay_verified = rr.status === 1;
      fs.writeFileSync(replayPath, JSON.stringify(report, null, 1));
    }
  }
  const ev = {
    property: id,
    tier,
    seed: vseed,
    level: 'exploration',
    coverage: {
      evaluations: agg.runs || 0,
      distinct_nontrivial: ntShapes.size,
      rule:
        (scenario.rule || '') +
        ' One case is one simulated run fully decided by its seed. Two runs count as distinct when the order of their ' +
        'events (operations, deliveries, timer firings, storage writes, faults; not their times or payloads) hashes differently; ' +
        'a run is non-trivial when at least one fault fired in it or an operation ran while another was in flight.',
      samples: (agg.samples || []).slice(0, 2).map((s) => ({ seed: s.seed, trace: s.trace })),
      distinct_interleavings: shapes.size,
      nontrivial_runs: agg.nontrivial || 0,
      simulated_events: agg.steps || 0,
      simulated_hours: +((agg.simMs || 0) / 3600000).toFixed(2),
      runs_per_hour: Math.round(((agg.runs || 0) / Math.max(wall, 0.001)) * 3600),
      seeds_per_hour: Math.round(((agg.runs || 0) / Math.max(wall, 0.001)) * 3600),
      seed_range: [seedBase, seedBase + total - 1],
      faults_injected: agg.faults || {},
      operations: agg.ops || {},
      probes: agg.probes || {},
      determinism_reruns: agg.detChecked || 0,
      determinism_mismatches: agg.detMismatch || 0,
      known_findings_hit: agg.known || {},
      real_components: scenario.real || [],
      stubbed_components: scenario.stubs || [],
      truncated_by_wall_clock: !!agg.truncated,
    },
    assumptions: scenario.assumptions || [],
    wall_s: +wall.toFixed(2),
    violations: report ? 1 : 0,
  };
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(VERIF, 'evidence', `${id}.json`), JSON.stringify(ev, null, 1));
  for (const k of Object.keys(knownKeys)) console.log(`KNOWN-FINDING: property=${id} ${k}: ${knownKeys[k]}`);
  console.log(
    `${id}: ${agg.runs} runs, ${ntShapes.size} distinct non-trivial, ${agg.steps} events, ${ev.coverage.simulated_hours} simulated h, ${wall.toFixed(1)} s`,
  );
  if (process.argv.includes('--verbose')) {
    console.log('faults', JSON.stringify(agg.faults), '\nops', JSON.stringify(agg.ops), '\nprobes', JSON.stringify(agg.probes));
  }
  if (errors.length) {
    console.error(errors.slice(0, 3).join('\n'));
    process.exit(3);
  }
  if (agg.detMismatch) {
    console.error(`non-deterministic run (seed ${agg.detSeed})`);
    if (!report) process.exit(3);
  }
  if (report) {
    console.log(`violation class ${report.violation.cls}: ${report.violation.message}`);
    console.log(`seed ${report.seed}, minimised to ${report.choices ? report.choices.length : 0} choices (from ${report.original_choices})`);
    for (const l of report.trace.slice(-40)) console.log('   ' + l);
    console.log(`VIOLATION property=${id} replay=${replayPath}`);
    process.exit(1);
  }
  process.exit(0);
}

async function replay(file) {
  const rep = JSON.parse(fs.readFileSync(file, 'utf8'));
  const reg = registry();
  const scenario = require(reg[rep.property])[rep.property];
  const { runOnce } = require('./lib/exec');
  const w = await runOnce(scenario, {
    seed: rep.seed,
    choices: rep.choices || undefined,
    tier: rep.tier,
    bundles: bundlesFor(scenario),
    knownKeys: knownFindings(rep.property),
    keepTrace: true,
  });
  if (!process.argv.includes('--quiet')) {
    for (const l of w.trace) console.log(l);
  }
  if (w.violation) {
    const same = rep.violation && rep.violation.cls === w.violation.cls;
    console.log(`violation class ${w.violation.cls}: ${w.violation.message}`);
    console.log(same ? 'reproduced' : 'a DIFFERENT violation than recorded');
    console.log(`VIOLATION property=${rep.property} replay=${file}`);
    process.exit(1);
  }
  console.log('no violation');
  process.exit(0);
}

async function one(id, seed) {
  const reg = registry();
  const scenario = require(reg[id])[id];
  const { runOnce } = require('./lib/exec');
  const w = await runOnce(scenario, {
    seed,
    bundles: bundlesFor(scenario),
    tier: arg('tier', 'quick'),
    knownKeys: knownFindings(id),
    keepTrace: true,
  });
  for (const l of w.trace) console.log(l);
  console.log('faults', w.faults, 'probes', w.probes, 'ops', w.ops);
  if (w.violation) console.log('VIOLATION', w.violation);
}

const cmd = process.argv[2];
if (cmd === 'check') check(process.argv[3]);
else if (cmd === 'replay') replay(process.argv[3]);
else if (cmd === 'one') one(process.argv[3], Number(process.argv[4]));
else if (cmd === 'setup') {
  // nothing to install; prove that the toolchain can bundle the current sources
  for (const b of ['sdk', 'segment']) console.log(`bundle ${b}: ${build(b).length} bytes`);
} else if (cmd === 'list') console.log(Object.keys(registry()).join(' '));
else {
  console.error('usage: run.js check|replay|one|list');
  process.exit(2);
}
