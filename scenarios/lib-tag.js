'use strict';
/** Shared helpers for the experiment-tag scenarios. */
const L = require('./lib-sdk');
const { makeDom } = require('../lib/dom');
const { EventSim } = require('../lib/browser');

const API = 'client-tagtagtag0001';
const SLICE = API.slice(0, 10);

const TRUE_COND = [[{ op: 'is', selector: [], values: ['(none)'] }]];
const urlCond = (s) => [[{ op: 'contains', selector: ['context', 'page', 'url'], values: [s] }]];
const behaves = (ids) => [[{ op: 'set contains any', selector: ['context', 'user', 'behavioral_targeting'], values: ids }]];

/**
 * A web-experiment flag.
 * o: {mode:'local'|'remote', blocking, on: variant key everybody gets, segments:[{variant,conditions}],
 *     payloads: {variantKey: payload[]}, dependencies}
 */
function flag(key, o) {
  const variants = { off: { key: 'off', metadata: { default: true } } };
  for (const [k, payload] of Object.entries(o.payloads || {})) variants[k] = { key: k, value: k, payload };
  for (const k of ['control', 'treatment']) if (!variants[k]) variants[k] = { key: k, value: k };
  const f = {
    key,
    metadata: {
      deployed: true,
      evaluationMode: o.mode || 'local',
      flagType: 'experiment',
      deliveryMethod: 'web',
      blockingEvaluation: o.mode === 'remote' && !!o.blocking,
      ...(o.metadata || {}),
    },
    segments: [...(o.segments || []), { metadata: { segmentName: 'All Other Users' }, variant: o.on || 'off' }],
    variants,
  };
  if (o.dependencies) f.dependencies = o.dependencies;
  return f;
}

function pageObj(id, type, value, conditions) {
  return { id, name: id, conditions: conditions || [], trigger_type: type, trigger_value: value || {} };
}

let mutSeq = 0;
/** Load a page with the DOM, the mutation recorder and (optionally) an integration. */
function openPage(w, tab, o) {
  const page = w.browser.load(tab, { makeDocument: makeDom, ...o });
  const g = page.g;
  page.live = new Map(); // handle -> mutation
  g.__domMutator = {
    apply(m) {
      const h = ++mutSeq;
      page.live.set(h, m);
      w.log('mut:apply', `${page.name} ${m.id || m.selector || ''}`);
      if (w.hooks.mutation) w.hooks.mutation(page, 'apply', m);
      return h;
    },
    revert(h, m, live) {
      page.live.delete(h);
      w.log('mut:revert', `${page.name} ${m.id || m.selector || ''}`);
      if (w.hooks.mutation) w.hooks.mutation(page, live ? 'revert' : 'revert-again', m);
    },
  };
  page.warnings = [];
  g.console.warn = (...a) => page.warnings.push(String(a[0]));
  return page;
}

/** A recording integration. accept(event) decides what track() returns. */
function integration(w, page, o) {
  o = o || {};
  const it = {
    type: 'integration',
    events: [],
    getUser: () => (o.user ? o.user() : {}),
    track: (ev) => {
      const ok = o.accept ? o.accept(ev, page) : true;
      if (ok) it.events.push({ ev, at: w.now, url: page.url.href });
      if (ok && o.onTrack) o.onTrack(ev, page);
      return ok;
    },
  };
  if (o.setup) it.setup = o.setup;
  page.g.experimentIntegration = it;
  page.integration = it;
  return it;
}

function start(w, page, o) {
  const x = page.run(w.bundles.tag);
  page.x = x;
  page.init = (oo) => {
    const c = oo || o;
    return x.tag.initialize(
      c.apiKey || API,
      {
        initialFlags: JSON.stringify(c.flags || []),
        pageObjects: JSON.stringify(c.pages || {}),
        ...(c.rules ? { behavioralTargetingRules: JSON.stringify(c.rules) } : {}),
      },
      c.config || {},
    );
  };
  if (!o.noInit) page.init();
  return x;
}

function parse(req) {
  const r = L.parseReq(req);
  if (new URL(req.url).pathname.endsWith('/web/v1/configs')) r.kind = 'configs';
  return r;
}

const hidden = (page) =>
  page.g.document.adoptedStyleSheets.some((s) => /visibility: hidden/.test(s.text)) ||
  !!page.g.document.getElementById('amp-exp-css');

/** Navigate within a single-page app the way a router does. */
const spa = (page, url) => page.g.history.pushState({}, '', url);

const ev = (type, o) => Object.assign(new EventSim(type, { bubbles: true, ...(o || {}) }), { isTrusted: true });

const TAG_REAL = [
  'experiment-tag (all of src, through its public initialize / setConsentStatus / createPlugin / window.webExperiment)',
  'experiment-browser, experiment-core and analytics-connector (all of src)',
  '@amplitude/analytics-core cookie storage and campaign parser',
];
const TAG_STUB = [
  'browser: timers, Date, Math.random, fetch, web storage, cookie jar, location/history, DOM tree, observers, stylesheets (simulated)',
  'dom-mutator (not installed: replaced by a recorder of live mutations)',
  'Amplitude servers and, where used, the relay iframe (scripted)',
];

// an event reaches a running client itself, by trackEvent or by the analytics plugin it hands out
function deliver(w, client, type, props) {
  if (w.chance(0.7) || typeof client.plugin !== 'function') return client.trackEvent(type, props);
  const plugin = client.plugin();
  const event = { event_type: type, event_properties: props, insert_id: 'x' };
  const before = JSON.stringify(event);
  w.check(plugin.type === 'enrichment' && !!plugin.name, 'plugin-malformed', `the plugin is ${plugin.type} ${plugin.name}`);
  w.probe('client-plugin');
  plugin.execute(event).then(
    (back) => {
      if (back !== event || JSON.stringify(event) !== before) w.flag('event-altered', 'the plugin did not pass the event on as it was');
    },
    (e) => w.flag('event-refused', `the plugin failed: ${e}`),
  );
  return undefined;
}

module.exports = {
  deliver, API, SLICE, TRUE_COND, urlCond, behaves, flag, pageObj, openPage, integration, start, parse, hidden, spa, ev, TAG_REAL, TAG_STUB };
