'use strict';
const EC = 'packages/experiment-core/src/';
const note = 'Not decided here: no schedule, clock, fault or history can change the outcome.';
module.exports = [
  {
    id: 'N01',
    title: 'Version comparison and matching operators follow their documented order',
    statement:
      'The evaluation operators (semantic version order with pre-release parts, numeric and string comparison, set and regular-expression matching) give the documented result for every pair of operands.',
    over: ['inputs'],
    quant: 'Every pair of operand strings and every operator.',
    why: 'Operand space is unbounded; tests sample a handful of pairs.',
    files: [EC + 'evaluation/semantic-version.ts', EC + 'evaluation/evaluation.ts'],
    mech: [['operator table', EC + 'evaluation/evaluation.ts: matchString, matchSet, compare'], ['version parse and compare', EC + 'evaluation/semantic-version.ts']],
    observe: ['EvaluationEngine.evaluate'],
    oracle: 'none in this family',
    note,
    na: 'Pure functions of their operands: no time, I/O, concurrency, fault or history is involved, so simulated schedules and faults cannot influence them. Evaluation as a whole, including the operators a flag normally uses, is exercised through the client in B10 and B11.',
  },
  {
    id: 'N02',
    title: 'URL helpers keep what they are not asked to change',
    statement:
      'Concatenating, matching and stripping query parameters of URLs keep every other component of the URL unchanged, for every pair of URLs.',
    over: ['inputs'],
    quant: 'Every pair of URL strings.',
    why: 'Input space is unbounded; tests sample a handful of URLs.',
    files: ['packages/experiment-tag/src/util/url.ts'],
    mech: [['query merging, matching and stripping', 'packages/experiment-tag/src/util/url.ts']],
    observe: ['return values'],
    oracle: 'none in this family',
    note,
    na: 'Pure functions of their arguments with no schedule, clock or fault to simulate. Their use in redirects, page targeting and preview is decided by T10, T13, T14 and T16 over generated URLs.',
  },
];
