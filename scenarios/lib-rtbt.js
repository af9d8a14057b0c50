'use strict';
/** Behavioural targeting: rule generation, reference evaluation, the site under test. */
const T = require('./lib-tag');

const KEY = `EXP_${T.SLICE}_rtbt_events`;
const HOUR = 3600e3;
const CAP = 500;
const TYPES = ['view', 'add', 'buy'];
const OPS = {
  'greater or equal': (a, b) => a >= b,
  greater: (a, b) => a > b,
  is: (a, b) => a === b,
  less: (a, b) => a < b,
  'less or equal': (a, b) => a <= b,
  'is not': (a, b) => a !== b,
};

function genCondition(w) {
  const c = {
    type: 'behavior',
    event_type: w.pick(TYPES),
    op: w.pick(Object.keys(OPS)),
    value: w.int(0, 3),
    time_type: w.weighted([[3, 'rolling'], [2, 'current_session']]),
    time_value: 1,
  };
  if (c.time_type === 'rolling') {
    c.interval = w.pick(['day', 'hour']);
    c.time_value = c.interval === 'hour' && w.chance(0.3) ? w.pick([24, 25, 36, 72]) : w.int(1, 3);
  }
  if (w.chance(0.4)) {
    const pro = { op: 'is', selector: ['context', 'plan'], values: ['pro'] };
    const qty = w.pick([
      { op: 'is', selector: ['context', 'qty'], values: ['1', '2'] },
      { op: 'greater', selector: ['context', 'qty'], values: ['0'] },
      { op: 'is not', selector: ['context', 'cart', 'gift'], values: ['true'] },
      { op: 'is', selector: ['context', 'cart', 'gift'], values: ['(none)'] },
    ]);
    c.event_props = w.weighted([[4, [pro]], [2, [pro, qty]], [2, [qty]], [1, [{ op: 'is not', selector: ['context', 'plan'], values: ['pro'] }, qty]], [1, []]]);
  }
  return c;
}
function genRule(w) {
  const groups = [];
  for (let i = w.int(1, 2); i > 0; i--) {
    const g = [];
    for (let j = w.int(1, 2); j > 0; j--) g.push({ condition: genCondition(w), ...(w.chance(0.25) ? { negated: true } : {}) });
    groups.push(g);
  }
  return groups;
}
/** Properties of the n-th event: a number which may be missing, an object with a boolean. */
const propsOf = (n, plan) => ({ n, plan, ...(n % 4 === 3 ? {} : { qty: n % 4 }), ...(n % 3 ? { cart: { gift: n % 3 === 1 } } : {}) });
const PROP_OPS = { is: (v, x) => x.includes(v), 'is not': (v, x) => !x.includes(v), greater: (v, x) => v !== '(none)' && +v > +x[0] };
const hasProps = (c, props) =>
  (c.event_props || []).every((p) => {
    const v = p.selector.slice(1).reduce((o, k) => (o === undefined ? o : o[k]), props);
    return PROP_OPS[p.op](v === undefined ? '(none)' : String(v), p.values);
  });
const typesOf = (rule) => new Set(rule.flat().map((s) => s.condition.event_type));

/** Reference evaluation of one rule over a history. now/session: at evaluation. */
function refEval(rule, events, now, session) {
  const cond = (c) => {
    const n = events.filter(
      (e) =>
        e.type === c.event_type &&
        (c.time_type === 'current_session' ? e.tok === session : e.ts >= now - c.time_value * (c.interval === 'day' ? 24 * HOUR : HOUR)) &&
        hasProps(c, e.props),
    ).length;
    return OPS[c.op](n, c.value);
  };
  return rule.some((g) => g.every((s) => cond(s.condition) !== !!s.negated));
}

/** Flags: fa follows a1 then a2, fb (optional) follows b1. */
function genSite(w) {
  const mut = (id) => ({ action: 'mutate', data: { mutations: [{ id, selector: '#a', action: 'set' }] } });
  const code = (id) => ({ action: 'inject', data: { id, js: 'window.__code && window.__code(id, utils)' } });
  const rules = { fa: { a1: genRule(w) } };
  if (w.chance(0.5)) rules.fa.a2 = genRule(w);
  if (w.chance(0.5)) rules.fb = { b1: genRule(w) };
  const flags = [
    T.flag('fa', {
      segments: [
        { variant: 'treatment', conditions: T.behaves(['a1']) },
        { variant: 'second', conditions: T.behaves(['a2']) },
      ],
      payloads: { treatment: [mut('m-a1'), code('i-a1')], second: [mut('m-a2'), code('i-a2')] },
    }),
    T.flag('fb', { segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('m-b1')] } }),
  ];
  const pages = { fa: { pa: T.pageObj('pa', 'url_change', {}, T.TRUE_COND) }, fb: { pb: T.pageObj('pb', 'url_change', {}, T.TRUE_COND) } };
  const ids = {};
  for (const f of Object.keys(rules)) for (const id of Object.keys(rules[f])) ids[id] = rules[f][id];
  const allow = new Set();
  for (const id of Object.keys(ids)) for (const t of typesOf(ids[id])) allow.add(t);
  return { flags, pages, rules, ids, allow };
}
const expectedMutations = (matched) => {
  const out = [];
  if (matched.has('a1')) out.push('m-a1');
  else if (matched.has('a2')) out.push('m-a2');
  if (matched.has('b1')) out.push('m-b1');
  return out;
};

module.exports = { KEY, HOUR, CAP, TYPES, genCondition, genRule, propsOf, typesOf, refEval, genSite, expectedMutations };
