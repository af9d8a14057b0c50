'use strict';
/** The client where parts of a browser are missing: servers, workers, sandboxed frames, bare engines (B15). */
const L = require('./lib-sdk');
const { DOMExceptionSim } = require('../lib/browser');

const localFlag = (key, value) => ({ key, variants: { on: { key: 'on', value } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } });
const BROWSER_ONLY = ['document', 'localStorage', 'sessionStorage', 'history', 'History', 'screen', 'innerWidth', 'innerHeight', 'devicePixelRatio', 'XMLHttpRequest'];

async function b15(w) {
  const env = w.pick(['server', 'worker', 'sandboxed', 'no-timers', 'no-fetch', 'partial', 'globalthis-null', 'no-scope']);
  w.fault('env-' + env);
  const tab = w.browser.newTab();
  const page = w.browser.load(tab, { storageMode: env === 'sandboxed' ? 'securityerror' : 'ok' });
  const g = page.g;
  const send = g.fetch;
  const later = g.setTimeout;
  const drop = (...names) => names.forEach((n) => Object.defineProperty(g, n, { value: undefined, configurable: true, writable: true }));
  let timers = true;
  let ownClient = w.chance(0.25);
  if (env === 'server') drop(...BROWSER_ONLY, 'window', 'self', 'location', ...(w.chance(0.5) ? ['navigator'] : []));
  else if (env === 'worker') drop(...BROWSER_ONLY, 'window');
  else if (env === 'sandboxed')
    w.hooks.cookie = () => {
      throw new DOMExceptionSim('The document is sandboxed', 'SecurityError');
    };
  else if (env === 'no-timers') {
    drop('setTimeout', 'setInterval', 'clearTimeout', 'clearInterval');
    timers = false;
  } else if (env === 'no-fetch') {
    drop('fetch', 'XMLHttpRequest');
    ownClient = true;
  } else if (env === 'partial') {
    for (const n of ['document', 'localStorage', 'sessionStorage', 'location', 'navigator', 'history']) if (w.chance(0.4)) drop(n);
    if (w.chance(0.3)) drop('clearInterval', 'clearTimeout');
  } else if (env === 'globalthis-null') {
    Object.defineProperty(g, 'globalThis', { value: null, configurable: true, writable: true });
    if (w.chance(0.5)) drop(...BROWSER_ONLY, 'location'); // a server, or a worker, in its own words
  } else if (env === 'no-scope') {
    // Nothing to hang on to: neither globalThis nor any of its other names.
    Object.defineProperty(g, 'globalThis', { value: null, configurable: true, writable: true });
    drop('window', 'self', 'global');
    timers = false;
    ownClient = true;
  }
  const mix = L.netMix(w, { p: 0.3 });
  const amplitude = w.chance(0.4);
  const throwOnError = !mix.on && w.chance(0.5);
  let flags = null; // of the last delivered response
  let M = {};
  const initial = w.chance(0.5);
  let delivered = 0;
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    w.probe('request-' + r.kind);
    if (r.kind === 'flags') {
      const plan = L.netPlan(w, mix, JSON.stringify([localFlag('local-r', 'r@' + req.id)]), 10000);
      plan.onDeliver = () => {
        if (L.planOk(plan) && !(timers && w.now >= req.sentAt + 10000 && !ownClient)) flags = 'r@' + req.id;
      };
      return plan;
    }
    const vs = L.serverVariants(w, req.id, r.flagKeys);
    const plan = L.netPlan(w, mix, JSON.stringify(vs), 10000);
    plan.onDeliver = () => {
      if (!L.planOk(plan) || (timers && w.now >= req.sentAt + 10000 && !ownClient)) return;
      M = {};
      for (const k of Object.keys(vs)) M[k] = L.expectVariant(vs[k]);
      delivered++;
    };
    return plan;
  };
  const api_ = (what, fn) => {
    try {
      const r = fn();
      if (r && typeof r.then === 'function') r.then(undefined, (e) => w.flag('api-rejected', `${what} rejected (${env}): ${(e && e.stack) || e}`));
      return r;
    } catch (e) {
      w.fail('api-threw', `${what} threw (${env}): ${(e && e.stack) || e}`);
    }
  };
  w.hooks.pageError = (pg, e) => w.flag('uncaught-error', `an error escaped the SDK (${env}): ${(e && e.stack) || e}`);
  const x = api_('loading the SDK', () => page.run(w.bundles.sdk));
  const got = [];
  const cfg = {
    throwOnError,
    automaticExposureTracking: true,
    pollOnStart: w.chance(0.5),
    retryFetchOnFailure: false,
    ...(initial ? { initialFlags: JSON.stringify([localFlag('local-i', 'init')]) } : {}),
    ...(ownClient
      ? {
          httpClient: {
            request: async (url, method, headers, data) => {
              const res = await send(url, { method, headers, body: data });
              return { status: res.status, body: await res.text() };
            },
          },
        }
      : {}),
  };
  const E = x.browser.Experiment;
  const client = api_('initialize', () => (amplitude ? E.initializeWithAmplitudeAnalytics('0123456789abcdef', cfg) : E.initialize('0123456789abcdef', cfg)));
  if (amplitude) {
    const conn = api_('AnalyticsConnector.getInstance', () => x.connector.AnalyticsConnector.getInstance('$default_instance'));
    conn.identityStore.editIdentity().setUserId('u').setDeviceId('d').commit();
    conn.eventBridge.setEventReceiver((e) => got.push(e));
  } else api_('addPlugin', () => client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => (got.push(e), true) }));
  w.check(client === api_('initialize', () => (amplitude ? E.initializeWithAmplitudeAnalytics('0123456789abcdef', cfg) : E.initialize('0123456789abcdef', cfg))), 'not-singleton', 'a second initialize makes another client');
  const expected = () => {
    const out = { ...M };
    if (initial) out['local-i'] = { key: 'on', value: 'init', metadata: { evaluationMode: 'local' } };
    if (flags) out['local-r'] = { key: 'on', value: flags, metadata: { evaluationMode: 'local' } };
    return out;
  };
  const check = () => {
    const all = api_('all', () => client.all());
    if (!L.same(all, expected())) w.flag('state-wrong', `(${env}) variants are ${L.canon(all)}, expected ${L.canon(expected())}`);
  };
  w.hooks.afterStep = check;
  const due = [];
  const seen = {};
  const n = 3 + w.choose(10);
  let started = false;
  for (let i = 0; i < n; i++) {
    const kind = w.pick(['variant', 'variant', 'fetch', 'exposure', 'start', 'all', 'clear', 'setTracks', 'setUser', 'stop', 'user', 'provider']);
    await w.drain();
    w.op(kind);
    if (kind === 'variant' || kind === 'exposure') {
      const k = w.pick([...L.KEYS, 'local-i', 'local-r']);
      const want = expected()[k];
      const real = want && !(want.metadata && want.metadata.default);
      if (kind === 'variant') {
        const v = api_('variant', () => client.variant(k, 'fb'));
        w.check(L.same(v, real ? want : { key: 'fb', value: 'fb' }), 'wrong-variant', () => `(${env}) variant(${k}) = ${L.canon(v)}, expected ${L.canon(want)}`);
      } else api_('exposure', () => client.exposure(k));
      if (real && want.key && seen[k] !== want.key) {
        due.push(`${k}:${want.key}`);
        seen[k] = want.key;
      } else if (real) w.probe('repeated');
    } else if (kind === 'fetch') api_('fetch', () => client.fetch({ user_id: 'u' }));
    else if (kind === 'start') {
      started = true;
      api_('start', () => client.start({ user_id: 'u' }));
    } else if (kind === 'stop') api_('stop', () => client.stop());
    else if (kind === 'clear') {
      api_('clear', () => client.clear());
      M = {};
    } else if (kind === 'setTracks') api_('setTracksAssignment', () => client.setTracksAssignment(w.chance(0.5)));
    else if (kind === 'setUser') api_('setUser', () => client.setUser({ user_id: 'u' }));
    else if (kind === 'user') {
      const u = api_('getUser', () => client.getUser());
      w.check(u === undefined || u === null || Object.keys(u).every((k) => k === 'user_id'), 'user-wrong', () => `the user is ${L.canon(u)}`);
    } else if (kind === 'provider') api_('setUserProvider', () => client.setUserProvider({ getUser: () => ({ device_id: 'p' }) }));
    w.interleaved = true;
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await L.breathe(w, 8000);
  }
  await w.runFor(15000);
  // once the network works, a fetch brings the variants, whatever is missing
  mix.on = false;
  const before = delivered;
  let done = false;
  const p = api_('fetch', () => client.fetch({ user_id: 'u' }));
  p.then(() => (done = true), () => undefined);
  await w.runFor(12500);
  w.check(done && delivered > before, 'fetch-stuck', () => `(${env}) fetch ${done ? 'resolved' : 'did not settle'} with ${delivered - before} responses`);
  check();
  if (w.violation) w.fail(w.violation.cls, w.violation.message);
  for (const k of Object.keys(seen)) w.check(got.some((e) => e.eventProperties && e.eventProperties.flag_key === k), 'exposure-lost', () => `(${env}) the exposure of ${k} never reached the integration`);
  w.probe('env-' + env + (amplitude ? '-amplitude' : ''));
  if (started) w.probe('started');
}

module.exports = {
  B15: {
    bundles: ['sdk'],
    run: b15,
    runs: { quick: 16000, thorough: 160000 },
    real: L.SDK_REAL,
    stubs: L.SDK_STUB,
    rule: 'Random public API calls where facilities are missing: server, worker, sandboxed frame, no timers, no fetch, random parts absent, no globalThis, no global scope; custom HTTP client or fetch, network faults.',
  },
};
