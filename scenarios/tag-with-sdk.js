'use strict';
/**
 * The web experimentation tag and a feature experimentation client of the same
 * site, deployment and analytics on one page: neither disturbs the other (T24).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const WWW = 'https://www.shop.com';
const PATHS = ['/home', '/cart', '/other'];
const FEATURES = ['f0', 'f1'];

async function t24(w) {
  // ---- the site: web experiments, features, and who loads first
  const sameKey = w.chance(0.75);
  const name = w.chance(0.7) ? undefined : 'shop'; // instance name of the client
  const tagName = name && w.chance(0.3) ? name : undefined;
  const withAnalytics = name === undefined ? w.chance(0.75) : w.chance(0.5);
  const ownIntegration = !withAnalytics && w.chance(0.8); // instead of the one for Amplitude Analytics
  const tracks = withAnalytics || ownIntegration;
  const web = ['g0', 'g1', 'g2'].slice(0, w.int(1, 3));
  const spec = {};
  const flags = [];
  const server = [];
  const pages = {};
  for (const k of web) {
    const s = (spec[k] = { at: w.pick(['/home', '/cart', '.com']), remote: w.chance(0.4) });
    const o = { on: 'treatment', payloads: { treatment: [{ action: 'mutate', data: { mutations: [{ id: k + '/m', selector: '#a', action: 'set' }] } }] } };
    flags.push(T.flag(k, { ...o, mode: s.remote ? 'remote' : 'local', blocking: s.remote && w.chance(0.5) }));
    if (s.remote) server.push(T.flag(k, { ...o, mode: 'local' }));
    pages[k] = { ['p' + k]: T.pageObj('p' + k, 'url_change', {}, T.urlCond(s.at)) };
  }
  const consent = w.chance(0.25);
  const config = consent ? { consentOptions: { consentRequired: true, consentStatus: 'granted' } } : {};
  const mix = L.netMix(w, { p: 0.35 });
  const feature = { key: 'loc', variants: { on: { key: 'on', value: 'loc' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } };
  const answers = new Map(); // value of a response -> what it says
  let serial = 0;
  w.hooks.server = (req) => {
    const r = T.parse(req);
    if (r.kind === 'flags' && r.query.get('delivery_method') === 'web') {
      // what the client does is none of the tag's business
      const u = r.user || {};
      w.check(u.user_id === undefined || u.user_id === 'u1', 'foreign-user', () => `the tag requests with ${L.canon(u)}`);
      return L.netPlan(w, mix, JSON.stringify(server), 1000);
    }
    if (r.kind === 'flags') return L.netPlan(w, mix, JSON.stringify([feature]), 1000);
    if (r.kind === 'vardata') {
      const u = r.user || {};
      w.check(u.user_id === 'u1' && u.user_properties && u.user_properties.of === 'client', 'foreign-user', () => `the client requests with ${L.canon(u)}`);
      w.check(!Object.keys(u).some((k) => /^web_exp|behavioral/.test(k)), 'foreign-user', () => `the client requests with the tag's ${L.canon(u)}`);
      const n = ++serial;
      const vs = {};
      for (const k of FEATURES) if (!w.chance(0.2)) vs[k] = { key: w.pick(['on', 'off']), value: `${k}@${n}` };
      answers.set(n, vs);
      return L.netPlan(w, mix, JSON.stringify(vs), 1000);
    }
    w.flag('unknown-request', `a request goes to ${req.url}`);
    return { kind: 'ok', status: 200, body: '{}', delay: 1 };
  };
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  w.hooks.navigate = (p, u) => w.flag('sent-away', `the visitor is sent to ${u.href}`);

  // ---- what analytics has received, across page loads
  const exposures = [];
  const impressions = new Map(); // flag and URL -> how often
  const due = []; // exposures of the client in the order made
  let kept = 0; // made before the page load
  let refused = 0; // at which page load
  let last = null; // what the client had at the end of the load before
  const tab = w.browser.newTab();
  let url = 0;
  const fresh = () => `${WWW}${w.pick(PATHS)}/${++url}`;
  const loads = w.int(1, 3);
  for (let v = 1; v <= loads; v++) {
    w.op('load');
    kept = due.length;
    const page = T.openPage(w, tab, { url: fresh() });
    const g = page.g;
    let x = null;
    let client = null;
    let arrived = false;
    let plugged = false;
    const exposedAs = {}; // of this page
    const tag = () => (g.webExperiment && !g.webExperiment.isStub ? g.webExperiment : null);
    const loadTag = () => {
      w.op('load-tag');
      T.start(w, page, { flags, pages, config: { ...config, ...(tagName ? { instanceName: tagName } : {}) } });
    };
    const loadClient = () => {
      w.op('load-client');
      x = page.run(w.bundles.sdk);
      client = x.browser.Experiment[withAnalytics ? 'initializeWithAmplitudeAnalytics' : 'initialize'](sameKey ? T.API : 'client-other00000001', {
        ...(name ? { instanceName: name } : {}),
        fetchTimeoutMillis: 1000,
        retryFetchOnFailure: false,
        automaticExposureTracking: tracks,
        pollOnStart: w.chance(0.5),
      });
      client.setUser({ user_id: 'u1', user_properties: { of: 'client' } });
      w.check(client !== (tag() && tag().getExperimentClient && tag().getExperimentClient()), 'shared-client', 'the site got the client of the tag');
      // it starts from what it had, whatever the tag has stored or erased meanwhile
      if (last !== null) w.check(L.same(features(), last), 'client-state-lost', () => `the client starts from ${L.canon(features())}, it had ${L.canon(last)}`);
      if (last !== null && Object.keys(last).length) w.probe('client-restored');
    };
    const features = () => {
      const all = client.all();
      return Object.fromEntries(FEATURES.filter((k) => all[k]).map((k) => [k, all[k]]));
    };
    const arrive = () => {
      if (arrived) return;
      arrived = true;
      w.op('analytics');
      for (const n of new Set(['$default_instance', name || '$default_instance'])) {
        const c = (x || page.x).connector.AnalyticsConnector.getInstance(n);
        c.identityStore.setIdentity({ userId: 'u1', deviceId: 'dev' });
        c.eventBridge.setEventReceiver(receive);
      }
    };
    const receive = (e) => {
      if (!page.alive) return; // it was left
      const p = e.eventProperties || {};
      if (e.eventType === '$exposure' && (FEATURES.includes(p.flag_key) || p.flag_key === 'loc')) {
        exposures.push(`${p.flag_key}:${p.variant}`);
      } else if (e.eventType === '$impression' && web.includes(p.flag_key)) {
        const at = p.flag_key + ' ' + ((p.metadata && p.metadata.url) || page.url.href);
        w.log('impression', at);
        impressions.set(at, (impressions.get(at) || 0) + 1);
        if (impressions.get(at) > 1) w.flag('impression-twice', `${at} is tracked ${impressions.get(at)} times`);
        if (refused) w.flag('tracked-after-refusal', `${at} is tracked after the refusal`);
      } else w.flag('mixed-up', `analytics is given ${L.canon(e)}`);
    };
    const plug = () => {
      if (plugged || !client || !ownIntegration) return;
      plugged = true;
      w.op('integration');
      const ms = w.chance(0.5) ? w.int(0, 600) : 0;
      client.addPlugin({
        type: 'integration',
        name: 'own',
        setup: () => new Promise((r) => (ms ? page.g.setTimeout(r, ms) : r())),
        getUser: () => ({}),
        track: (e) => (receive(JSON.parse(JSON.stringify(e))), true),
      });
      w.probe('own-integration');
    };
    // ---- at every instant each has only what is its own
    w.hooks.afterStep = () => {
      if (!page.alive) return;
      if (client) {
        const all = client.all();
        for (const k of Object.keys(all))
          if (k === 'loc' ? all[k].value !== 'loc' : !FEATURES.includes(k) || !String(all[k].value).startsWith(k + '@')) w.flag('foreign-variant', `the client reads ${k} as ${L.canon(all[k])}`);
        // (and that is one whole response)
        const now = features();
        const n = Object.keys(now).length ? +String(now[Object.keys(now)[0]].value).split('@')[1] : 0;
        if (n && !L.same(now, Object.fromEntries(Object.entries(answers.get(n)).map(([k, a]) => [k, L.expectVariant(a)])))) w.flag('foreign-variant', `the client has ${L.canon(now)}, the response was ${L.canon(answers.get(n))}`);
        const u = client.getUser();
        if (!u || u.user_id !== 'u1' || u.user_properties.of !== 'client' || Object.keys(u).length !== 2) w.flag('foreign-user', `the user of the client is ${L.canon(u)}`);
      }
      const t = tag();
      if (t && t.isRunning) {
        const vs = t.getVariants();
        for (const k of Object.keys(vs)) if (!web.includes(k)) w.flag('foreign-variant', `the tag has the variant of ${k}`);
      }
    };
    const read = () => {
      const k = w.pick([...FEATURES, 'loc']);
      const v = client.variant(k);
      if (!tracks || v.key === undefined) return;
      if (exposedAs[k] !== v.key) {
        due.push(`${k}:${v.key}`);
        exposedAs[k] = v.key;
      }
    };
    const settle = async () => {
      await w.runFor(13000);
      if (page.x && !refused) {
        w.check(tag() && tag().isRunning, 'not-running', 'the tag is not running');
        w.check(!T.hidden(page), 'page-hidden', 'the page is still hidden');
        const live = [...page.live.values()].map((m) => m.id);
        for (const k of web) {
          const on = page.url.href.includes(spec[k].at);
          const n = live.filter((i) => i === k + '/m').length;
          w.check(n === (on ? 1 : 0), 'tag-disturbed', () => `the change of ${k} (at ${spec[k].at}) is live ${n} times on ${page.url.href}`);
          if (on && arrived) w.check(impressions.get(`${k} ${page.url.href}`) === 1, 'impression-lost', () => `${k} is shown on ${page.url.href} without an impression, tracked are ${[...impressions.keys()]}`);
          if (on) w.probe(spec[k].remote ? 'remote-shown' : 'shown');
        }
      }
      if ((ownIntegration ? plugged : arrived) && client) {
        const since = due.slice(kept);
        if (!refused) w.check(L.same(exposures, due), 'exposures-differ', () => `the client made ${due}, analytics has ${exposures}`);
        else if (refused === v) {
          // (what waits is dropped with the refusal, whoever has made it)
          let i = 0;
          for (const e of due) if (e === exposures[i]) i++;
          w.check(i === exposures.length, 'exposures-differ', () => `the client made ${due}, analytics has ${exposures}`);
        } else w.check(!since.length || L.same(exposures.slice(-since.length), since), 'exposures-differ', () => `since the page load after the refusal the client made ${since}, analytics has ${exposures}`);
        if (due.length) w.probe('exposures-compared');
      }
    };
    const act = async (k) => {
      w.op(k);
      if (k === 'fetch') {
        if (!client) return;
        client.fetch().catch(() => undefined);
      } else if (k === 'start') client && client.start({ user_id: 'u1', user_properties: { of: 'client' } }).catch(() => undefined);
      else if (k === 'stop') client && client.stop();
      else if (k === 'clear') client && client.clear();
      else if (k === 'read') client && read();
      else if (k === 'spa') {
        T.spa(page, fresh());
      } else if (k === 'event') tag() && tag().isRunning && tag().trackEvent('view', {});
      else if (k === 'arrive') (x || page.x) && arrive();
      else if (k === 'plug') plug();
      else if (k === 'refuse') {
        if (!consent || !page.x || refused) return;
        const was = client && L.canon(client.all());
        g.webExperiment.setConsentStatus('denied');
        refused = v;
        // clients of one instance name share what has been tracked in this tab, and it is gone
        if (tagName === name) for (const f of Object.keys(exposedAs)) delete exposedAs[f];
        w.probe('refused');
        if (client) w.check(L.canon(client.all()) === was, 'client-state-lost', () => `a refusal changes what the client has from ${was} to ${L.canon(client.all())}`);
      } else if (k === 'tag') !page.x && loadTag();
      else if (k === 'client') !client && loadClient();
    };
    const firsts = w.chance(0.5) ? ['tag', 'client'] : ['client', 'tag'];
    if (refused) firsts.splice(firsts.indexOf('tag'), 1); // the visitor said no: the site leaves the tag out
    await act(firsts[0]);
    let n = w.int(2, 12);
    let second = firsts[1] ? w.int(0, 3) : -1;
    while (n-- > 0) {
      if (second-- === 0) await act(firsts[1]);
      await act(w.weighted([[4, 'fetch'], [2, 'start'], [1, 'stop'], [1, 'clear'], [6, 'read'], [3, 'spa'], [1, 'event'], [2, 'arrive'], [ownIntegration ? 2 : 0, 'plug'], [consent ? 1 : 0, 'refuse']]));
      w.interleaved = true;
      if (w.chance(0.15)) await settle();
      else await L.breathe(w, 2500);
    }
    if (second >= 0) await act(firsts[1]);
    if (v === loads || w.chance(0.6)) {
      if (x || page.x) arrive();
      plug();
      await settle();
    }
    if (client) last = features();
    w.hooks.afterStep = undefined;
    page.kill('left');
    await w.runFor(50);
  }
}

module.exports = {
  T24: {
    run: t24,
    bundles: ['tag', 'sdk'],
    runs: { quick: 8000, thorough: 120000 },
    rule: 'A tag with 1-3 web experiments and a feature experimentation client, each its own bundle, of the same or another deployment and instance name, share analytics and storage over 1-3 page loads: fetches, starts, clears, exposures, navigation, late analytics, refusals and network faults interleave in either order of loading.',
    real: T.TAG_REAL,
    stubs: [...T.TAG_STUB, 'Amplitude Analytics (identity and event receiver on the connector)'],
  },
};
