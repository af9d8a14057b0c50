'use strict';
/**
 * B13: whom the SDK and the tag talk to. Several clients with their own regions,
 * server URLs and deployments share a page; every request and frame is checked.
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const HOSTS = {
  us: { flags: 'https://flag.lab.amplitude.com', vardata: 'https://api.lab.amplitude.com', configs: 'https://api.lab.amplitude.com', relay: 'https://cdn.amplitude.com' },
  eu: { flags: 'https://flag.lab.eu.amplitude.com', vardata: 'https://api.lab.eu.amplitude.com', configs: 'https://api.lab.eu.amplitude.com', relay: 'https://cdn.eu.amplitude.com' },
};
const ZONES = [undefined, 'US', 'EU', 'eu', 'us', 'Eu'];
const zoneOf = (z) => (z && z.toLowerCase() === 'eu' ? 'eu' : 'us');
const flagDoc = (key) => [{ key, variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local', deployed: true } }];

async function b13(w) {
  const mix = L.netMix(w, { p: 0.6 });
  const byKey = new Map(); // deployment key -> where its requests may go
  w.hooks.server = (req) => {
    const u = new URL(req.url);
    const r = T.parse(req);
    const key = /^Api-Key (.*)$/.exec(r.auth || '');
    const c = key && byKey.get(key[1]);
    if (!c) {
      w.flag('unknown-deployment', `${req.method} ${req.url} is authorized by ${r.auth}`);
      return { kind: 'ok', status: 200, body: '{}', delay: 5 };
    }
    const want = c[r.kind];
    if (!want) w.flag('unknown-request', `${req.method} ${req.url}`);
    else if (!req.url.startsWith(want + '/')) w.flag('other-region', `${r.kind} request of a client for ${c.what} went to ${u.origin}${u.pathname}, expected ${want}`);
    w.probe(`${r.kind}:${want}`);
    c.seen = (c.seen || 0) + 1;
    if (c.seen > 1) w.probe('repeated');
    const body = r.kind === 'flags' ? JSON.stringify(c.tag ? [] : flagDoc('k')) : r.kind === 'configs' ? JSON.stringify(c.latest) : JSON.stringify(L.serverVariants(w, req.id));
    return L.netPlan(w, mix, body, 1000);
  };
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  const tab = w.browser.newTab();
  const loads = w.int(1, 2);
  for (let v = 0; v < loads; v++) {
    const tagged = w.chance(0.5);
    const preview = tagged && w.chance(0.4);
    const page = T.openPage(w, tab, { url: 'https://www.shop.com/' + (preview ? '?PREVIEW=true&f=treatment' : '') });
    const frames = [];
    w.hooks.iframe = (p, n) => {
      if (p === page) frames.push(n.getAttribute('src'));
    };
    const x = page.run(w.bundles.sdk);
    const clients = [];
    const make = (i) => {
      const zone = w.pick(ZONES);
      const config = { fetchTimeoutMillis: 1000, instanceName: 'i' + w.choose(2), ...(zone ? { serverZone: zone } : w.chance(0.2) ? { serverZone: null } : {}) };
      const h = HOSTS[zoneOf(zone)];
      const c = { ...h, what: `zone ${zone}` };
      if (w.chance(0.2)) c.vardata = config.serverUrl = 'https://proxy.shop.com/amp' + w.choose(2);
      if (w.chance(0.2)) c.flags = config.flagsServerUrl = 'https://flags.shop.com';
      if (w.chance(0.5)) config.pollOnStart = w.chance(0.5);
      if (w.chance(0.3)) config.retryFetchOnFailure = w.chance(0.5);
      const key = `client-${v}${i}zonezone`;
      byKey.set(key, c);
      w.op('initialize', `${key} ${JSON.stringify(config)}`);
      const how = w.chance(0.8) ? 'initialize' : 'initializeWithAmplitudeAnalytics';
      clients.push(x.browser.Experiment[how](key, config));
    };
    make(0);
    let tagClient = null;
    const startTag = () => {
      const zone = w.pick(ZONES);
      const key = `client-tag${v}zonezone`;
      const mutate = [{ action: 'mutate', data: { mutations: [{ id: 'm', selector: '#a', action: 'set' }] } }];
      const flags = [T.flag('f', { mode: w.pick(['remote', 'local']), blocking: w.chance(0.5), on: 'treatment', payloads: { treatment: mutate } })];
      const pages = { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } };
      const rules = w.chance(0.7) ? { f: { b: [[{ condition: { type: 'behavior', event_type: 'buy', op: 'greater or equal', value: 1, time_type: 'rolling', interval: 'day', time_value: 1 } }]] } } : undefined;
      const c = { ...HOSTS[zoneOf(zone)], what: `the tag in zone ${zone}`, tag: true, latest: { flags, pageObjects: pages, behavioralTargetingRules: rules || {} } };
      byKey.set(key, c);
      const config = { ...(zone ? { serverZone: zone } : {}) };
      const viaWindow = w.chance(0.3);
      if (viaWindow) page.g.experimentConfig = config;
      w.op('tag', `${zone} ${preview ? 'preview' : ''}`);
      T.integration(w, page, {});
      T.start(w, page, { apiKey: key, flags, pages, rules, config: viaWindow ? {} : config });
      return { c, key };
    };
    let n = w.int(2, 8);
    const user = { user_id: 'u' };
    while (n--) {
      const k = w.weighted([[2, 'new'], [4, 'fetch'], [3, 'start'], [1, 'stop'], [2, 'wait'], [1, 'poll'], [tagged && !tagClient ? 3 : 0, 'tag'], [tagClient ? 1 : 0, 'spa']]);
      const c = w.pick(clients);
      if (k === 'new') make(clients.length);
      else if (k === 'fetch') {
        w.op('fetch');
        c.fetch(user, w.chance(0.3) ? { flagKeys: ['flag-a'] } : undefined).catch(() => undefined);
      } else if (k === 'start') {
        w.op('start');
        c.start(user).catch(() => undefined);
      } else if (k === 'stop') c.stop();
      else if (k === 'tag') tagClient = startTag();
      else if (k === 'spa') {
        T.spa(page, '/p' + w.choose(3));
        if (page.g.webExperiment && page.g.webExperiment.trackEvent) page.g.webExperiment.trackEvent('buy', {});
      } else if (k === 'poll') await w.runFor(301e3);
      await L.breathe(w, 4000);
      w.interleaved = true;
    }
    if (tagged && !tagClient) tagClient = startTag();
    await w.runFor(13000);
    if (tagClient) {
      for (const src of frames) w.check(src === `${tagClient.c.relay}/script/${tagClient.key}.relay.html`, 'other-region', () => `${tagClient.c.what} opened the frame ${src}`);
      if (frames.length) w.probe('frame:' + new URL(frames[0]).origin);
    }
    page.kill('left');
    await w.runFor(100);
  }
}

module.exports = {
  B13: {
    run: b13,
    bundles: ['sdk', 'tag'],
    runs: { quick: 9000, thorough: 80000 },
    rule: '1-2 page loads with several SDK clients and the tag, each with its own region, URLs and deployment; fetches, polls, retries, previews under network faults',
    real: [...T.TAG_REAL],
    stubs: [...T.TAG_STUB],
  },
};
