'use strict';
const L = require('./lib-sdk');

const API = 'client-deadbeef01';

// ---------------------------------------------------------------------------
/** B08: starting, stopping and polling of flag configurations. */
async function b08(w) {
  const mix = L.netMix(w);
  const timeout = w.pick([10000, 500, 2000]);
  const cfgInterval = w.pick([undefined, 60000, 90000, 300000, 30000, 1, 0, null, 61000]);
  const interval = cfgInterval === undefined || cfgInterval === null ? 300000 : Math.max(60000, cfgInterval);
  const pollOnStart = w.chance(0.15) ? false : w.pick([undefined, true]);
  const fetchOnStart = w.pick([true, undefined, false]);
  const throwOnError = w.chance(0.25);
  const polls = pollOnStart !== false;
  const initKeys = w.chance(0.5) ? L.KEYS.filter(() => w.chance(0.5)) : null;
  const flag = (k, id) => ({
    key: k,
    metadata: { evaluationMode: 'local' },
    variants: { on: { key: 'on', value: `${k}@${id}` } },
    segments: [{ variant: 'on' }],
  });
  const initialFlags = initKeys ? JSON.stringify(initKeys.map((k) => flag(k, 'initial'))) : undefined;
  const tab = w.browser.newTab();
  let page, client;
  let F = {};
  const withInitial = (f) => {
    const o = { ...f };
    for (const k of initKeys || []) if (!(k in o)) o[k] = `${k}@initial`;
    return o;
  };
  F = withInitial({});
  let running = false;
  let polling = false;
  let next = 0;
  let gen = 0;
  let starts = [];
  let fresh = { flags: 0, vardata: 0 }; // requests not yet accounted for
  let owe = { flags: 0, vardata: 0 };
  let inflight = 0;
  /** the requests whose outcome decides that of the latest start() */
  const forStart = (kind, plan) => {
    const s = starts[starts.length - 1];
    if (s && s.need[kind]) {
      s.need[kind] = false;
      if (!L.planOk(plan) || plan.delay >= timeout) s.bad = true;
    }
    return plan;
  };
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (r.kind === 'vardata') {
      fresh.vardata++;
      return forStart('vardata', L.netPlan(w, mix, '{}', timeout));
    }
    w.check(r.kind === 'flags', 'unexpected-request', () => `request to ${req.url}`);
    w.check(/^experiment-js-client\/\d+\.\d+\.\d+/.test(req.headers['x-amp-exp-library']), 'library-header', () => `the flags request identifies its sender as ${req.headers['x-amp-exp-library']}`);
    w.check(r.auth === `Api-Key ${API}`, 'authorization', () => `the flags request is authorized by ${r.auth}`);
    fresh.flags++;
    const keys = L.KEYS.filter(() => w.chance(0.6));
    const plan = L.netPlan(w, mix, JSON.stringify(keys.map((k) => flag(k, req.id))), timeout);
    if (mix.on && !mix.healed && plan.kind === 'ok' && plan.status === 200 && w.chance(mix.malformed)) {
      plan.body = w.pick(['{}', 'null', '[null]', '"x"', '{"a":1}']);
      plan.malformed = true;
      w.fault('net-wrong-shape');
    }
    forStart('flags', plan);
    inflight++;
    const pg = page;
    plan.onDeliver = () => {
      inflight--;
      if (pg !== page || !pg.alive || w.now >= req.sentAt + timeout || !L.planOk(plan)) return;
      const f = {};
      for (const k of keys) f[k] = `${k}@${req.id}`;
      F = withInitial(f);
      w.probe('flags-replaced');
    };
    return plan;
  };
  const load = () => {
    page = w.browser.load(tab, {});
    client = page.run(w.bundles.sdk).browser.Experiment.initialize(API, {
      fetchTimeoutMillis: timeout,
      flagConfigPollingIntervalMillis: cfgInterval,
      pollOnStart,
      fetchOnStart,
      throwOnError,
      initialFlags,
      retryFetchOnFailure: false,
      automaticExposureTracking: false,
    });
    running = polling = false;
    starts = [];
    inflight = 0;
    owe = { flags: 0, vardata: 0 };
    fresh = { flags: 0, vardata: 0 };
  };
  const verify = (where) => {
    let mayPoll = false;
    for (const s of starts) {
      if (!s.done || s.handled) continue;
      s.handled = true;
      if (!s.ok) {
        w.check(throwOnError, 'start-rejected', () => `start() rejected although errors are not to be thrown: ${s.error}`);
        w.check(s.bad, 'start-rejected', () => `start() rejected although its requests succeeded: ${s.error}`);
        client.stop();
        running = polling = false;
        gen++;
        w.probe('start-failed');
        continue;
      }
      w.check(!(throwOnError && s.bad), 'start-not-rejected', 'errors are to be thrown but start() resolved although a request of it failed');
      if (!running || !polls || polling) continue;
      if (s.gen === gen) {
        polling = true;
        next = w.now;
      } else mayPoll = true; // an earlier start() which was stopped meanwhile
    }
    if (fresh.vardata !== owe.vardata)
      w.flag('start-fetch', `${where}: ${fresh.vardata} variant requests, expected ${owe.vardata}`);
    let n = fresh.flags - owe.flags;
    if (n < 0) w.flag('flags-request-missing', `${where}: start() sent no flags request`);
    if (mayPoll && !polling && n === 1) {
      polling = true;
      next = w.now;
    }
    if (polling && w.now >= next) {
      if (n < 1)
        w.flag('poll-missed', `${where}: no flags request at +${next - w.startTime} (every ${interval} ms while started)`);
      n--;
      next += interval;
      w.probe('polled');
    }
    if (n > 0)
      w.flag(
        'unexpected-flags-request',
        `${where}: ${n} flags request(s) not due (${running ? 'started' : 'stopped'}, ${polling ? 'polling, next +' + (next - w.startTime) : 'not polling'})`,
      );
    fresh = { flags: 0, vardata: 0 };
    owe = { flags: 0, vardata: 0 };
    const got = {};
    const all = client.all();
    for (const k of Object.keys(all)) got[k] = all[k].value;
    if (!L.same(got, F)) w.flag('flags-differ', `${where}: flags are ${L.canon(got)}, expected ${L.canon(F)}`);
  };
  load();
  w.hooks.afterStep = () => verify('after event');
  const n = 2 + w.choose(14);
  for (let i = 0; i < n; i++) {
    if (inflight > 0) w.interleaved = true;
    const kind = w.weighted([[30, 'start'], [25, 'stop'], [30, 'wait'], [4, 'reload'], [6, 'clock'], [3, 'clear']]);
    w.op(kind);
    if (kind === 'start') {
      const first = !running;
      if (first) {
        running = true;
        gen++;
        owe.flags++;
        if (fetchOnStart !== false) owe.vardata++;
      }
      const need = { flags: first, vardata: first && fetchOnStart !== false };
      if (first) starts.push({ need });
      const s = Object.assign(L.watch(w, client.start({ user_id: 'u' })), { gen, need });
      if (first) starts[starts.length - 1] = Object.assign(s, { bad: starts[starts.length - 1].bad });
    } else if (kind === 'stop') {
      if (running && starts.some((s) => !s.done)) {
        w.probe('stopped-while-starting');
        w.interleaved = true;
      }
      client.stop();
      if (running) gen++;
      running = polling = false;
    } else if (kind === 'reload') load();
    else if (kind === 'clear') client.clear();
    else if (kind === 'clock') {
      page.clockSkew = w.pick([-3600e3, 86400e3, -5e3, 400e3]);
      w.fault('clock-jump');
    }
    // two calls in the same turn, every so often
    if (!w.chance(0.2)) {
      await w.drain();
      verify('after ' + kind);
      if (w.violation) w.fail(w.violation.cls, w.violation.message);
      await w.runFor(w.pick([0, 10, 300, 5000, 59000, 60000, 120000, 299990, 900000]) + w.choose(30));
    }
  }
  await w.drain();
  verify('at the end of the workload');
  if (w.violation) w.fail(w.violation.cls, w.violation.message);
  mix.healed = true;
  await w.runFor(interval + timeout + 2000);
}

// ---------------------------------------------------------------------------
/** B09: the identity and the options each request carries. */
async function b09(w) {
  const mix = L.netMix(w, { p: 0.4 });
  const web = w.chance(0.25);
  const stBad = w.chance(0.2);
  let stamp = 0;
  const genUser = (holes) => {
    const u = {};
    for (const k of ['user_id', 'device_id', 'country', 'language', 'platform']) {
      const c = w.choose(5);
      if (c === 1 || c === 2) u[k] = `${k}-${++stamp}`;
      else if (c === 3 && holes) u[k] = w.pick([undefined, null]);
    }
    if (w.chance(0.6)) {
      u.user_properties = {};
      for (const k of ['p1', 'p2', 'p3']) if (w.chance(0.5)) u.user_properties[k] = ++stamp;
    }
    return u;
  };
  const clone = (x) => (x === undefined || x === null ? x : { ...x, ...(x.user_properties ? { user_properties: { ...x.user_properties } } : {}) });
  const keep = (x) => Object.fromEntries(Object.entries(x || {}).filter((e) => e[1] !== undefined && e[1] !== null));
  const withProvider = w.chance(0.6);
  let prov = genUser(true);
  // data residency: the zone and custom hosts decide where user data may go
  const zone = w.pick([undefined, undefined, 'US', 'us', 'EU', 'eu']);
  const ownHost = w.chance(0.15);
  const hosts = ownHost
    ? { vardata: 'api.example.org', flags: 'flags.example.org' }
    : String(zone).toLowerCase() === 'eu'
    ? { vardata: 'api.lab.eu.amplitude.com', flags: 'flag.lab.eu.amplitude.com' }
    : { vardata: 'api.lab.amplitude.com', flags: 'flag.lab.amplitude.com' };
  const integMode = w.pick(['none', 'none', 'resolves', 'rejects', 'no-setup']);
  let integ = genUser(true);
  let page, client, explicit, integReadyAt, track;
  const tab = w.browser.newTab();
  const sess = new Map(); // tab -> {pages, landing}
  const tracks = new Map();
  let firstSeen;
  let pend = []; // requests owed: {kind, explicit, opts, at}
  let marker = 0;
  let swapped = false; // the page set a provider of its own in place of the detecting one
  w.hooks.storage = (p, k, op, kk) => {
    if (stBad && kk && kk.includes('DEFAULT_USER_PROVIDER') && op === 'set' && w.chance(0.5)) {
      w.fault('storage-quota');
      throw L.quota();
    }
  };
  const expectUser = (ex) => {
    const p = withProvider || swapped ? prov : {};
    const g = integMode === 'none' ? {} : integ;
    const props = { ...p.user_properties, ...g.user_properties, ...(ex || {}).user_properties };
    if (swapped) return { ...keep(p), ...keep(g), ...keep(ex), user_properties: props };
    const u = {
      language: 'en-US',
      platform: 'Web',
      device_category: 'desktop',
      browser: 'Chrome',
      os: 'Chrome 120',
      device_model: 'Windows',
      user_agent: page.g.navigator.userAgent,
      referring_url: page.referrer.replace(/\/$/, ''),
      ...keep(p),
      ...keep(g),
      ...keep(ex),
      user_properties: props,
    };
    const q = {};
    for (const [n, v] of page.url.searchParams) {
      const all = [].concat(q[n] === undefined ? [] : q[n], v.split(','));
      q[n] = all.length === 1 ? all[0] : all;
    }
    u.url_param = q;
    return u;
  };
  const bad = (cls, m) => w.flag(cls, m);
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (req.page !== page) return { kind: 'never' };
    if (hosts[r.kind] && r.host !== hosts[r.kind]) bad('wrong-host', `${r.kind} request goes to ${r.host}, for zone ${zone} it is ${hosts[r.kind]}`);
    if (r.auth !== `Api-Key ${API}`) bad('wrong-key', `authorization is ${r.auth}`);
    // a retry repeats its fetch, so several entries may match; prefer one not sent yet
    const cand = pend.filter(
      (p) =>
        p.kind === r.kind &&
        (p.call === undefined || (r.user && r.user.user_properties && r.user.user_properties.call === p.call)),
    );
    const fit = cand.filter((p) => p.kind !== 'vardata' || L.same(p.flagKeys, r.flagKeys));
    const i = pend.indexOf(fit.find((p) => !p.sent) || fit[0] || cand.find((p) => !p.sent) || cand[0]);
    if (i < 0) {
      bad('unexpected-request', `${r.kind} request at +${w.now - w.startTime} which nothing asked for: ${L.canon(r.user)}`);
      return { kind: 'never' };
    }
    const o = pend[i];
    if (r.kind === 'vardata') o.sent = true;
    else pend.splice(i, 1);
    if (integReadyAt > w.now && o.waits)
      bad('before-integration', `${r.kind} request sent at +${w.now - w.startTime}, the integration is ready at +${integReadyAt - w.startTime}`);
    if (r.kind === 'flags') {
      const e = expectUser(o.explicit);
      const want = web && (e.user_id || e.device_id) ? { user_id: e.user_id, device_id: e.device_id } : undefined;
      if (!L.same(r.user && swapped ? keep(r.user) : r.user, want)) bad('flags-user', `flags request carries user ${L.canon(r.user)}, expected ${L.canon(want)}`);
      if ((r.query.get('delivery_method') === 'web') !== web) bad('delivery-method', `delivery method is ${r.query.get('delivery_method')}`);
    } else {
      const e = expectUser(o.explicit);
      const got = swapped ? keep(r.user) : { ...r.user };
      if ('cookie' in got) bad('cookie-leaked', 'the user of a request carries the cookies of the page');
      if (!/^experiment-js-client\//.test(got.library)) bad('library', `library is ${got.library}`);
      delete got.library;
      const { landing_url, first_seen } = got;
      delete got.landing_url;
      delete got.first_seen;
      if (!L.same(got, e)) bad('request-user', `request user is ${L.canon(got)}, expected ${L.canon(e)}`);
      if (!stBad && !swapped) {
        // any page of this tab until the first request may have been taken as the landing page
        const s = sess.get(page.tab);
        if (s.landing === undefined && s.pages.includes(landing_url)) s.landing = landing_url;
        if (landing_url !== s.landing)
          bad('landing-url', `landing url is ${landing_url}, the session was at ${s.landing || s.pages.join(' ')}`);
        if (firstSeen === undefined) firstSeen = first_seen;
        if (first_seen !== firstSeen || !first_seen) bad('first-seen', `first seen is ${first_seen}, was ${firstSeen}`);
      }
      if (!L.same(r.flagKeys, o.flagKeys)) bad('flag-keys', `request asks for ${L.canon(r.flagKeys)}, expected ${L.canon(o.flagKeys)}`);
      if (!L.same(r.track, o.sent === 'retry' ? track : o.track))
        if (!L.same(r.track, track)) bad('track-option', `tracking option is ${r.track}, expected ${o.track}`);
    }
    w.probe(r.kind);
    const plan = L.netPlan(w, mix, r.kind === 'flags' ? '[]' : '{}', 10000);
    return plan;
  };
  let url = 'https://www.shop.com/';
  const load = (t, u) => {
    pend = [];
    explicit = undefined;
    swapped = false;
    url = u;
    if (!sess.has(t)) sess.set(t, { pages: [], landing: undefined });
    sess.get(t).pages.push(new URL(url).href.replace(/\/$/, ''));
    page = w.browser.load(t, { url, referrer: w.pick(['', 'https://ref.com/x/', 'https://ref.com']) });
    if (w.chance(0.5)) page.g.document.cookie = 'secret=1; path=/';
    client = page.run(w.bundles.sdk).browser.Experiment.initialize(API, {
      automaticExposureTracking: false,
      pollOnStart: false,
      fetchOnStart: false,
      retryFetchOnFailure: true,
      ...(zone ? { serverZone: zone } : {}),
      ...(ownHost ? { serverUrl: 'https://api.example.org', flagsServerUrl: 'https://flags.example.org' } : {}),
      userProvider: withProvider ? { getUser: () => clone(prov) } : undefined,
      ...(web ? { internalInstanceNameSuffix: 'web' } : {}),
    });
    // the option of web clients lives in the tab's session
    track = tracks.get(web ? t : 'all');
    integReadyAt = 0;
    if (integMode !== 'none') {
      const at = integMode === 'no-setup' ? 0 : w.delay(3000);
      integReadyAt = w.now + at;
      const p = page;
      const plugin = {
        type: 'integration',
        getUser: () => clone(integ),
        track: () => true,
      };
      if (integMode !== 'no-setup')
        plugin.setup = () =>
          new Promise((res, rej) =>
            w.schedule(at, () => (integMode === 'rejects' ? rej(new Error('x')) : res()), { page: p, lane: 'user' }),
          );
      if (integMode === 'rejects') w.fault('integration-setup-rejects');
      client.addPlugin(plugin);
    }
  };
  load(tab, url);
  let lastSet = null;
  const n = 2 + w.choose(12);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([
      [35, 'fetch'],
      [15, 'refetch'],
      [12, 'setUser'],
      [8, 'mutate'],
      [8, 'provider'],
      [3, 'setUserProvider'],
      [8, 'integration'],
      [6, 'track'],
      [8, 'start'],
      [8, 'reload'],
      [10, 'wait'],
    ]);
    w.op(kind);
    if (pend.some((p) => !p.sent)) w.interleaved = true;
    const waits = integMode !== 'none';
    if (kind === 'fetch') {
      const u = genUser(true);
      const call = ++marker;
      u.user_properties = { ...(u.user_properties || {}), call };
      const flagKeys = w.chance(0.4) ? L.KEYS.filter(() => w.chance(0.5)) : undefined;
      pend.push({ kind: 'vardata', explicit: clone(u), call, flagKeys, waits, at: w.now, track });
      explicit = clone(u);
      lastSet = u;
      client.fetch(u, flagKeys ? { flagKeys } : undefined);
    } else if (kind === 'refetch') {
      if (!explicit || !explicit.user_properties || !explicit.user_properties.call) continue;
      pend.push({ kind: 'vardata', explicit: clone(explicit), call: explicit.user_properties.call, flagKeys: undefined, waits, at: w.now, track, re: true });
      client.fetch();
    } else if (kind === 'setUser') {
      await w.drain();
      const u = genUser(true);
      u.user_properties = { ...(u.user_properties || {}), call: ++marker };
      explicit = clone(u);
      lastSet = u;
      client.setUser(u);
      const got = client.getUser();
      w.check(L.same(got, u), 'get-user', () => `getUser() is ${L.canon(got)}, set was ${L.canon(u)}`);
      if (w.chance(0.5)) {
        got.user_id = 'MUTATED';
        if (got.user_properties) got.user_properties.p1 = 'MUTATED';
      }
    } else if (kind === 'mutate') {
      if (w.chance(0.5)) await w.drain();
      if (lastSet) {
        if (pend.some((p) => p.kind === 'vardata')) w.probe('mutated-after-fetch');
        lastSet.user_id = 'MUTATED';
        if (lastSet.user_properties) lastSet.user_properties.p2 = 'MUTATED';
        w.probe('caller-object-mutated');
      }
    } else if (kind === 'provider') {
      await w.drain();
      prov = genUser(true);
    } else if (kind === 'setUserProvider') {
      await w.drain();
      const provider = { getUser: () => clone(prov) };
      swapped = true;
      client.setUserProvider(provider);
      w.check(client.getUserProvider() === provider, 'user-provider', 'getUserProvider() is not the provider set last');
    } else if (kind === 'integration') {
      await w.drain();
      integ = genUser(true);
    } else if (kind === 'track') {
      await w.drain();
      track = w.chance(0.5) ? 'track' : 'no-track';
      tracks.set(web ? page.tab : 'all', track);
      await client.setTracksAssignment(track === 'track');
    } else if (kind === 'start') {
      await w.drain();
      client.stop();
      const u = explicit && w.chance(0.5) ? clone(explicit) : { ...genUser(true) };
      u.user_properties = { ...(u.user_properties || {}), call: (u.user_properties && u.user_properties.call) || ++marker };
      explicit = clone(u);
      pend.push({ kind: 'flags', explicit: clone(u), waits: waits && web, at: w.now });
      client.start(u);
    } else if (kind === 'reload') {
      await w.drain();
      if (w.chance(0.25)) {
        load(w.browser.newTab(), 'https://www.shop.com/other?c=3');
      } else load(page.tab, w.pick(['https://www.shop.com/', 'https://www.shop.com/a?x=1&y=b', 'https://www.shop.com/a?x=1,2&y=b&y=c']));
    }
    await L.breathe(w, 4000);
    await w.drain();
    check();
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
  }
  function check() {
    if (w.now <= integReadyAt && (integMode === 'resolves' || integMode === 'rejects')) return;
    const miss = pend.find((p) => !p.sent && (p.kind === 'vardata' || p.kind === 'flags'));
    if (miss) bad('request-not-sent', `${miss.kind} request asked for at +${miss.at - w.startTime} was not sent although the integration is ready`);
  }
  await w.runFor(4000);
  check();
}

// ---------------------------------------------------------------------------
/** B10: which source answers, at every instant of a history. */
async function b10(w) {
  const source = w.pick(['localStorage', 'initialVariants']);
  const mix = L.netMix(w, { p: 0.4 });
  const keys = L.KEYS;
  const initial = {};
  for (const k of keys) {
    const c = w.choose(4);
    if (c === 1) initial[k] = { key: 'init', value: `${k}-initial` };
    if (c === 2) initial[k] = `${k}-initstr`;
  }
  const fallbackVariant = w.pick([undefined, {}, { key: 'fb', value: 'fallback' }]);
  const modelInitial = {};
  for (const k of Object.keys(initial))
    modelInitial[k] = typeof initial[k] === 'string' ? { key: initial[k], value: initial[k] } : { ...initial[k] };
  let page, client;
  let M = {};
  let F = {};
  let user = {};
  const tab = w.browser.newTab();
  const mkFlag = (k, id) => {
    const kind = w.pick(['on', 'targeted', 'nomatch', 'off', 'dependent']);
    const mode = w.pick(['local', 'local', 'remote']);
    const pro = [[{ selector: ['context', 'user', 'user_properties', 'plan'], op: 'is', values: ['pro'] }]];
    const f = {
      key: k,
      metadata: { evaluationMode: mode },
      variants: {
        on: { key: 'on', value: `${k}@f${id}` },
        off: { key: 'off', metadata: { default: true } },
      },
      segments: {
        on: [{ variant: 'on' }],
        targeted: [{ conditions: pro, variant: 'on' }, { variant: 'off' }],
        nomatch: [{ conditions: pro, variant: 'on' }],
        off: [{ variant: 'off' }],
        dependent: [
          { conditions: [[{ selector: ['result', 'flag-a', 'key'], op: 'is', values: ['on'] }]], variant: 'on' },
          { variant: 'off' },
        ],
      }[kind === 'dependent' && k === 'flag-a' ? 'on' : kind],
    };
    let dep = false;
    if (kind === 'dependent' && k !== 'flag-a') {
      f.dependencies = ['flag-a'];
      dep = true;
    }
    return { json: f, m: { kind: kind === 'dependent' && k === 'flag-a' ? 'on' : kind, mode, id, dep } };
  };
  const ev = (k) => {
    const m = F[k];
    const on = { key: 'on', value: `${k}@f${m.id}` };
    const off = { key: 'off', def: true };
    const pro = (user.user_properties || {}).plan === 'pro';
    if (m.kind === 'on') return on;
    if (m.kind === 'off') return off;
    if (m.kind === 'targeted') return pro ? on : off;
    if (m.kind === 'nomatch') return pro ? on : null;
    const a = F['flag-a'] ? ev('flag-a') : null;
    return a && a.key === 'on' ? on : off;
  };
  const strip = (v) => {
    const o = {};
    if (v && v.key !== undefined) o.key = v.key;
    if (v && v.value !== undefined) o.value = v.value;
    return o;
  };
  const conv = (f) => (typeof f === 'string' ? { key: f, value: f } : f);
  const isSet = (x) => x !== undefined && x !== null;
  /** the documented order */
  const answer = (k, fallback) => {
    const local = F[k] && F[k].mode === 'local';
    const viaLocal = () => {
      const r = ev(k);
      if (r && !r.def) return r;
      if (isSet(fallback)) return conv(fallback);
      if (modelInitial[k]) return modelInitial[k];
      if (fallbackVariant && Object.keys(fallbackVariant).length) return fallbackVariant;
      return r || {};
    };
    if (local) return viaLocal();
    const st = M[k];
    const stDef = st && st.metadata && st.metadata.default;
    let res = null;
    if (source === 'initialVariants' && modelInitial[k]) res = modelInitial[k];
    if (!res && st && !stDef) res = st;
    if (!res && isSet(fallback)) res = conv(fallback);
    if (!res && source === 'localStorage' && modelInitial[k]) res = modelInitial[k];
    if (!res && fallbackVariant && Object.keys(fallbackVariant).length) res = fallbackVariant;
    if (!res && st) res = st;
    if (!res && F[k]) return viaLocal();
    return res || {};
  };
  const allAnswer = () => {
    const o = source === 'localStorage' ? { ...modelInitial, ...M } : { ...M, ...modelInitial };
    for (const k of Object.keys(F)) {
      if (F[k].mode !== 'local') continue;
      const r = ev(k);
      if (r) o[k] = r;
    }
    const out = {};
    for (const k of Object.keys(o)) out[k] = strip(o[k]);
    return out;
  };
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const pg = page;
    if (r.kind === 'vardata') {
      const vs = L.serverVariants(w, req.id, r.flagKeys);
      const plan = L.netPlan(w, mix, JSON.stringify(vs), 10000);
      plan.onDeliver = () => {
        if (!pg.alive || w.now >= req.sentAt + 10000 || !L.planOk(plan)) return;
        const out = r.flagKeys && r.flagKeys.length ? { ...M } : {};
        for (const k of Object.keys(vs)) out[k] = L.expectVariant(vs[k]);
        for (const k of r.flagKeys || []) if (!(k in vs)) delete out[k];
        M = out;
      };
      return plan;
    }
    const fs = {};
    for (const k of keys) if (w.chance(0.6)) fs[k] = mkFlag(k, req.id);
    const plan = L.netPlan(w, mix, JSON.stringify(Object.values(fs).map((f) => f.json)), 10000);
    plan.onDeliver = () => {
      if (!pg.alive || w.now >= req.sentAt + 10000 || !L.planOk(plan)) return;
      F = {};
      for (const k of Object.keys(fs)) F[k] = fs[k].m;
    };
    return plan;
  };
  const verify = (where) => {
    for (const k of keys) {
      for (const fb of [undefined, 'inline', { key: 'inl', value: 'inlobj' }, null]) {
        const got = strip(client.variant(k, fb));
        const want = strip(answer(k, fb));
        if (!L.same(got, want))
          w.flag(
            'wrong-source',
            `${where}: variant(${k}, ${L.canon(fb)}) = ${L.canon(got)}, expected ${L.canon(want)}; source ${source}, stored ${L.canon(M[k])}, flag ${L.canon(F[k])}, initial ${L.canon(modelInitial[k])}, configured fallback ${L.canon(fallbackVariant)}, user ${L.canon(user)}`,
          );
      }
    }
    const g = client.all();
    const got = {};
    for (const k of Object.keys(g)) got[k] = strip(g[k]);
    if (!L.same(got, allAnswer())) w.flag('wrong-all', `${where}: all() = ${L.canon(got)}, expected ${L.canon(allAnswer())}`);
  };
  const load = () => {
    page = w.browser.load(tab, {});
    user = {};
    client = page.run(w.bundles.sdk).browser.Experiment.initialize(API, {
      source,
      initialVariants: JSON.parse(JSON.stringify(initial)),
      fallbackVariant,
      automaticExposureTracking: false,
      pollOnStart: false,
      fetchOnStart: false,
      retryFetchOnFailure: false,
    });
  };
  load();
  verify('after load');
  if (w.violation) w.fail(w.violation.cls, w.violation.message);
  w.hooks.afterStep = () => verify('after event');
  const n = 2 + w.choose(9);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([[35, 'flags'], [30, 'fetch'], [15, 'setUser'], [5, 'clear'], [8, 'reload'], [8, 'wait']]);
    w.op(kind);
    if (w.pending() > 0) w.interleaved = true;
    const u = { user_id: 'u', user_properties: { plan: w.pick(['free', 'pro']) } };
    if (kind === 'flags') {
      client.stop();
      client.start(u);
      user = u;
    } else if (kind === 'fetch') {
      user = u;
      client.fetch(u, w.chance(0.3) ? { flagKeys: keys.filter(() => w.chance(0.5)) } : undefined);
    } else if (kind === 'setUser') {
      user = u;
      client.setUser(u);
    } else if (kind === 'clear') {
      await w.drain();
      client.clear();
      M = {};
    } else if (kind === 'reload') {
      await w.drain();
      load();
    }
    await L.breathe(w, 3000);
    await w.drain();
    verify('after ' + kind);
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
  }
  mix.healed = true;
  await w.runFor(25000);
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: L.SDK_STUB };
module.exports = {
  B08: {
    ...common,
    run: b08,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random start/stop/reload/wait against failing, late and malformed flag responses and clock jumps; every flags request instant and every flag value is compared with a reference poller.',
  },
  B09: {
    ...common,
    run: b09,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random identities from provider, integration and caller changing under requests that wait for a late or failing integration; every request on the simulated wire is compared with a reference merge.',
  },
  B10: {
    ...common,
    run: b10,
    runs: { quick: 15000, thorough: 150000 },
    rule: 'Random fetches, flag refreshes, user changes, clears and reloads with network faults; after every event each key is read with several fallbacks and compared with the documented order.',
  },
};
