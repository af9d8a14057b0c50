'use strict';
const L = require('./lib-sdk');

const API = 'client-deadbeef01';

function makeClient(w, page, extra) {
  const x = page.run(w.bundles.sdk);
  return x.browser.Experiment.initialize(API, {
    automaticExposureTracking: false,
    pollOnStart: false,
    ...extra,
  });
}

/** The response rule: what the stored variants become when a response is accepted. */
function applyResponse(M, variants, flagKeys) {
  const out = flagKeys && flagKeys.length ? { ...M } : {};
  for (const k of Object.keys(variants)) out[k] = L.expectVariant(variants[k]);
  for (const k of flagKeys || []) if (!(k in variants)) delete out[k];
  return out;
}

// ---------------------------------------------------------------------------
/** B01: accepted responses are applied atomically, failures change nothing. */
async function b01(w) {
  const mix = L.netMix(w);
  const timeout = w.pick([10000, 300, 1000]);
  const retry = w.chance(0.5);
  const viaClient = w.chance(0.25);
  let M = {};
  let page, client;
  const tab = w.browser.newTab();
  let inflight = 0;
  const first = new Map(); // call marker -> seen
  const asked = new Map(); // call marker -> the flags the caller asked for

  const serve = (req) => {
    const r = L.parseReq(req);
    if (r.kind !== 'vardata') return { kind: 'ok', status: 200, body: '[]', delay: 5 };
    const vs = L.serverVariants(w, req.id, r.flagKeys);
    const marker = r.user.user_properties.call;
    const isRetry = first.has(marker);
    first.set(marker, true);
    const to = viaClient ? 0 : isRetry ? 10000 : timeout;
    const plan = L.netPlan(w, mix, JSON.stringify(vs), to);
    inflight++;
    const pg = page;
    plan.onDeliver = () => {
      inflight--;
      const inTime = !to || w.now < req.sentAt + to;
      if (pg.alive && inTime && L.planOk(plan)) {
        M = applyResponse(M, vs, asked.get(marker));
        w.log('model:accept', `#${req.id}`);
        w.probe(r.flagKeys && r.flagKeys.length ? 'accepted-subset' : 'accepted-full');
        if (isRetry) w.probe('accepted-from-retry');
      } else if (!inTime) w.probe('late-response-ignored');
    };
    return plan;
  };
  w.hooks.server = serve;
  const httpClient = viaClient
    ? {
        request: (url, method, headers) => {
          const h = {};
          for (const k of Object.keys(headers)) h[k.toLowerCase()] = headers[k];
          return w.browser.net.send(page, { url, method, headers: h }).then(async (res) => ({
            status: res.status,
            body: await res.text(),
          }));
        },
      }
    : undefined;
  const load = () => {
    page = w.browser.load(tab, { url: 'https://www.shop.com/' });
    client = makeClient(w, page, { fetchTimeoutMillis: timeout, retryFetchOnFailure: retry, httpClient });
  };
  const verify = (where) => {
    const got = client.all();
    if (!L.same(got, M))
      w.flag('fetch-not-atomic', `${where}: variants are ${L.canon(got)} but the accepted responses give ${L.canon(M)}`);
    for (const k of L.KEYS) {
      const v = client.variant(k);
      const want = M[k] && !(M[k].metadata && M[k].metadata.default) ? M[k] : M[k] || {};
      if (!L.same(v, want)) w.flag('variant-differs', `${where}: variant(${k}) = ${L.canon(v)}, expected ${L.canon(want)}`);
    }
  };
  const peek = () => {
    const t = w.browser.newTab();
    const p = w.browser.load(t, { url: 'https://www.shop.com/', name: 'peek' });
    const c = makeClient(w, p, {});
    const got = c.all();
    p.kill('closed');
    w.check(
      L.same(got, M),
      'persisted-differs',
      () => `a fresh client on the same origin reads ${L.canon(got)} but the last state was ${L.canon(M)}`,
    );
  };
  load();
  w.hooks.afterStep = () => verify('after event');
  let call = 0;
  const n = 2 + w.choose(11);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([
      [40, 'fetch'],
      [25, 'subset'],
      [8, 'clear'],
      [8, 'peek'],
      [6, 'reload'],
      [6, 'setUser'],
      [20, 'wait'],
    ]);
    if (inflight > 0 && kind !== 'wait') w.interleaved = true;
    if (kind === 'fetch' || kind === 'subset') {
      const user = { user_id: w.pick(['u1', 'u2']), user_properties: { call: ++call } };
      let opts;
      if (kind === 'subset') {
        const ks = L.KEYS.filter(() => w.chance(0.5));
        opts = { flagKeys: ks };
        asked.set(call, ks);
      }
      w.op(kind, `call ${call} ${opts ? opts.flagKeys : ''}`);
      client.fetch(user, opts).catch((e) => w.flag('fetch-rejected', String(e)));
    } else if (kind === 'clear') {
      // let queued microtasks run first so that the order of effects is unambiguous
      await w.drain();
      w.op('clear');
      client.clear();
      M = {};
    } else if (kind === 'peek') {
      await w.drain();
      w.op('peek');
      peek();
    } else if (kind === 'setUser') {
      w.op('setUser');
      client.setUser({ user_id: 'u3' });
    } else if (kind === 'reload') {
      await w.drain();
      w.op('reload');
      inflight = 0;
      load();
    } else w.op('wait');
    if (w.chance(0.3)) {
      await w.drain();
      verify('after op');
      if (w.violation) w.fail(w.violation.cls, w.violation.message);
    }
    await L.breathe(w, 30000);
  }
  await w.runFor(120000);
  verify('at the end');
  if (!w.violation) peek();
  if (w.violation) w.fail(w.violation.cls, w.violation.message);
}

// ---------------------------------------------------------------------------
/** B02: the retry policy, request by request. */
async function b02(w) {
  const mix = L.netMix(w, { p: 0.95 });
  if (mix.on && w.chance(0.5)) {
    mix.err = 0.9; // a long outage
    mix.c4 = 0;
  }
  const timeout = w.pick([10000, 700, 2500]);
  const retry = w.chance(0.85);
  const calls = new Map();
  let n = 0;
  const tab = w.browser.newTab();
  const page = w.browser.load(tab, {});
  const MIN = 500,
    MAX = 10000,
    SCALE = 1.5,
    ATTEMPTS = 8;
  const outcome = (c, ok, retryable, why) => {
    // the outcome of the request in flight for call c
    c.inflight = null;
    if (ok) {
      c.next = null;
      c.finished = 'success';
      if (c.sent > 1) w.probe('recovered-by-retry');
      return;
    }
    if (!retry || c.cancelled) {
      c.next = null;
      return;
    }
    if (c.sent === 1) {
      if (!retryable) {
        c.next = null;
        w.probe('client-error-not-retried');
        return;
      }
      c.delay = MIN;
      w.probe('retries-started');
    } else {
      if (c.sent - 1 >= ATTEMPTS) {
        c.next = null;
        c.finished = 'gave-up';
        w.probe('retries-exhausted');
        return;
      }
      c.delay = Math.min(c.delay * SCALE, MAX);
    }
    c.next = w.now + c.delay;
  };
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const id = r.user.user_properties.call;
    const c = calls.get(id);
    const where = `call ${id} request ${c.sent + 1}`;
    if (c.sent > 0) {
      if (!retry) w.flag('retry-disabled', `${where}: retries are disabled`);
      else if (c.cancelled) w.flag('retry-after-new-fetch', `${where}: sent although a later fetch was started`);
      else if (c.finished) w.flag('retry-after-end', `${where}: sent after the sequence ended with ${c.finished}`);
      else if (c.next === null) w.flag('retry-not-allowed', `${where}: this failure must not be retried`);
      else if (Math.abs(w.now - c.next) > 1)
        w.flag('retry-timing', `${where}: sent at +${w.now - w.startTime}, expected +${c.next - w.startTime}`);
      if (c.sent > ATTEMPTS) w.flag('too-many-retries', where);
      if (!L.same(r.flagKeys, c.flagKeys)) w.flag('retry-changed-options', `${where}: ${r.flagKeys} vs ${c.flagKeys}`);
      if (r.user.user_id !== c.user_id) w.flag('retry-changed-user', `${where}: ${r.user.user_id} vs ${c.user_id}`);
    }
    c.sent++;
    c.next = null;
    const to = c.sent === 1 ? timeout : 10000;
    const plan = L.netPlan(w, mix, JSON.stringify(L.serverVariants(w, req.id, r.flagKeys)), to);
    const me = { timedOut: false };
    c.inflight = me;
    plan.onDeliver = () => {
      if (c.inflight !== me) return;
      outcome(c, L.planOk(plan), L.planRetryable(plan));
    };
    w.schedule(to, () => {
      if (c.inflight === me) outcome(c, false, true);
    }, { lane: page.name + ':t' });
    return plan;
  };
  const client = makeClient(w, page, { fetchTimeoutMillis: timeout, retryFetchOnFailure: retry });
  const overdue = () => {
    for (const [id, c] of calls)
      if (c.next !== null && w.now > c.next + 2)
        w.flag('retry-missing', `call ${id}: retry ${c.sent} was due at +${c.next - w.startTime} and never sent`);
  };
  w.hooks.afterStep = overdue;
  const ops = 1 + w.choose(7);
  for (let i = 0; i < ops; i++) {
    const id = ++n;
    const flagKeys = w.chance(0.3) ? [w.pick(L.KEYS)] : undefined;
    const user_id = w.pick(['u1', 'u2', 'u3']);
    if (retry)
      for (const c of calls.values()) {
        if (c.sent > 1 || c.next !== null) {
          // a sequence of retries is active: a new fetch ends it
          if (!c.finished && !c.cancelled) w.probe('retries-cancelled');
          c.cancelled = true;
          c.next = null;
        }
      }
    if ([...calls.values()].some((c) => c.inflight)) w.interleaved = true;
    calls.set(id, { sent: 0, next: null, inflight: null, flagKeys, user_id, delay: 0 });
    w.op('fetch', `call ${id} ${user_id} ${flagKeys || ''}`);
    client
      .fetch({ user_id, user_properties: { call: id } }, flagKeys ? { flagKeys } : undefined)
      .catch((e) => w.flag('fetch-rejected', String(e)));
    await w.drain();
    if (mix.on && w.chance(0.15)) {
      mix.healed = true;
      w.op('network-heals');
    }
    await L.breathe(w, 60000);
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
  }
  // faults stop: within the longest back-off every surviving sequence recovers
  mix.healed = true;
  w.op('network-heals');
  await w.runFor(60000);
  for (const [id, c] of calls) {
    w.check(c.sent >= 1, 'fetch-not-sent', `call ${id} never reached the network`);
    w.check(
      c.next === null,
      'retry-missing',
      () => `call ${id}: a retry is still due at +${c.next - w.startTime} one minute after the network healed`,
    );
  }
}

// ---------------------------------------------------------------------------
/** B03: fetch() and start() settle within their bound; late responses are ignored. */
async function b03(w) {
  const mix = L.netMix(w, { p: 0.9 });
  const timeout = w.pick([10000, 200, 1500, 4000]);
  const throwOnError = w.chance(0.4);
  const fetchOnStart = w.chance(0.7);
  const integ = w.pick(['none', 'resolves', 'rejects', 'amplitude', 'amplitude-late']);
  const tab = w.browser.newTab();
  const page = w.browser.load(tab, {});
  const reqs = [];
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const body = r.kind === 'flags' ? '[]' : JSON.stringify(L.serverVariants(w, req.id, r.flagKeys));
    const plan = L.netPlan(w, mix, body, timeout);
    reqs.push({ r, plan, req });
    return plan;
  };
  w.hooks.pageError = (pg, e) => w.flag('uncaught-error', `an error escaped the SDK: ${(e && e.stack) || e}`);
  const x = page.run(w.bundles.sdk);
  const cfg = {
    fetchTimeoutMillis: timeout,
    throwOnError,
    fetchOnStart,
    pollOnStart: w.chance(0.5),
    retryFetchOnFailure: w.chance(0.5),
    automaticExposureTracking: false,
  };
  let readyAt = w.now;
  let client;
  if (integ === 'amplitude' || integ === 'amplitude-late') {
    client = x.browser.Experiment.initializeWithAmplitudeAnalytics(API, cfg);
    readyAt = w.now + 10000;
    if (integ === 'amplitude') {
      const at = w.pick([0, 30, 2500, 9990]);
      w.schedule(at, () => {
        x.connector.AnalyticsConnector.getInstance('$default_instance').identityStore.editIdentity().setDeviceId('d1').commit();
      }, { page, lane: 'user' });
      readyAt = w.now + at;
      w.fault('identity-late');
    } else w.fault('identity-never');
  } else {
    client = x.browser.Experiment.initialize(API, cfg);
    if (integ !== 'none') {
      const at = w.delay(9000);
      readyAt = w.now + at;
      client.addPlugin({
        type: 'integration',
        setup: () =>
          new Promise((res, rej) =>
            w.schedule(at, () => (integ === 'rejects' ? rej(new Error('setup failed')) : res()), { page, lane: 'user' }),
          ),
        getUser: () => ({ user_id: 'iu' }),
        track: () => true,
      });
      if (integ === 'rejects') w.fault('integration-setup-rejects');
    }
  }
  const promises = [];
  const add = (what, fn) => {
    const t0 = w.now;
    const s = L.watch(w, fn());
    s.what = what;
    s.deadline = Math.max(t0, readyAt) + timeout;
    s.from = reqs.length;
    promises.push(s);
    return s;
  };
  w.hooks.afterStep = () => {
    for (const s of promises)
      if (!s.done && w.now > s.deadline)
        w.flag('not-settled', `${s.what}() is still pending at +${w.now - w.startTime}, its bound was +${s.deadline - w.startTime}`);
  };
  let started = false;
  let call = 0;
  const n = 1 + w.choose(6);
  for (let i = 0; i < n; i++) {
    if (promises.some((p) => !p.done)) w.interleaved = true;
    const kind = w.weighted([[50, 'fetch'], [20, 'start'], [10, 'stop'], [10, 'wait']]);
    if (kind === 'fetch') {
      const id = ++call;
      w.op('fetch', id);
      const s = add('fetch', () => client.fetch({ user_id: 'u', user_properties: { call: id } }));
      s.call = id;
    } else if (kind === 'start') {
      w.op('start');
      add('start', () => client.start({ user_id: 's', user_properties: { call: 'start' } }));
      started = true;
    } else if (kind === 'stop') {
      w.op('stop');
      client.stop();
    } else w.op('wait');
    await L.breathe(w, 25000);
  }
  await w.runFor(10000 + timeout + 50);
  // every promise has settled, and with the right outcome
  for (const s of promises) {
    w.check(s.done, 'not-settled', () => `${s.what}() never settled`);
    if (!throwOnError)
      w.check(s.ok, 'rejected', () => `${s.what}() rejected although errors are not to be thrown: ${s.error}`);
    if (s.what === 'fetch') {
      const first = reqs.find((q) => q.r.kind === 'vardata' && q.r.user.user_properties.call === s.call);
      w.check(first, 'fetch-not-sent', () => `fetch ${s.call} sent no request`);
      const lateOrNever =
        first.plan.kind === 'never' || (first.plan.kind === 'ok' || first.plan.kind === 'error' ? first.plan.delay > timeout : false);
      const ok = L.planOk(first.plan) && !lateOrNever;
      if (throwOnError) {
        w.check(
          s.ok === ok,
          'wrong-outcome',
          () => `fetch ${s.call} ${s.ok ? 'resolved' : 'rejected'} but its request ${ok ? 'succeeded' : 'failed'}`,
        );
        if (!s.ok) w.probe('rejected-with-error');
      }
      if (s.ok) w.check(s.value === client, 'wrong-value', 'fetch() must resolve with the client');
      if (lateOrNever) {
        w.probe('timed-out');
        w.check(
          Math.abs(s.at - (first.req.sentAt + timeout)) <= 1,
          'timeout-instant',
          () => `fetch ${s.call} settled at +${s.at - w.startTime}, its time-out was +${first.req.sentAt + timeout - w.startTime}`,
        );
      } else {
        w.check(
          s.at === first.req.sentAt + first.plan.delay,
          'settles-late',
          () => `fetch ${s.call} settled at +${s.at - w.startTime}, its response arrived +${first.req.sentAt + first.plan.delay - w.startTime}`,
        );
      }
    }
  }
  if (started) w.probe('started');
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: L.SDK_STUB };
module.exports = {
  B01: {
    ...common,
    run: b01,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random fetches (full and per-flag), clears, reloads and second-tab reads against a server with random latency and faults.',
  },
  B02: {
    ...common,
    run: b02,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random overlapping fetches against outages, error statuses, silence and healing; every request instant is compared with a reference retry schedule.',
  },
  B03: {
    ...common,
    run: b03,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random fetch/start/stop with late, failing or silent servers and late, failing or silent integrations.',
  },
};
