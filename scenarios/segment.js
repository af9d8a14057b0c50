'use strict';
const L = require('./lib-sdk');

const API = 'client-dddddd000004';

/** S01: the Segment integration while Segment loads early, late, oddly or never. */
async function s01(w) {
  const mode = w.pick(['snippet', 'npm', 'instance']);
  const key = mode === 'instance' ? 'nowhere' : w.pick(['analytics', 'custom']);
  const skip = w.chance(0.25);
  const blocked = w.chance(0.1);
  const tab = w.browser.newTab();
  const ls = w.browser.localArea('https://www.shop.com').map;
  const initialVariants = {};
  for (let i = 0; i < 40; i++) initialVariants['k' + i] = { key: 'on', value: 'on' };
  let nextKey = 0;
  let stamp = 0;
  let stored = {};
  const fields = { user_id: 'ajs_user_id', device_id: 'ajs_anonymous_id', user_properties: 'ajs_user_traits' };
  const persist = (u, faulty) => {
    for (const f of Object.keys(fields)) {
      if (faulty && w.chance(0.3)) {
        ls.set(fields[f], w.pick(['{oops', '', 'plain-text', 'undefined']));
        w.fault('corrupt-identity');
        delete stored[f];
      } else if (u[f] === undefined) {
        if (w.chance(0.5)) ls.set(fields[f], 'null');
        else ls.delete(fields[f]);
        delete stored[f];
      } else {
        ls.set(fields[f], JSON.stringify(u[f]));
        stored[f] = u[f];
      }
    }
  };
  const genUser = () => ({
    user_id: w.chance(0.6) ? 'u' + ++stamp : undefined,
    device_id: 'anon' + ++stamp,
    user_properties: { k: ++stamp },
  });
  if (w.chance(0.7)) persist(genUser(), w.chance(0.4));
  let page, client, seg, owed, sent, Q, done;
  Q = [];
  done = new Set();
  const slack = mode === 'npm' ? 50 : 0;
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (req.page !== page) return { kind: 'never' };
    if (r.kind !== 'vardata') {
      w.flag('unexpected-request', req.url);
      return { kind: 'never' };
    }
    sent++;
    if (!skip && !seg.ready) w.flag('sent-before-ready', `request sent at +${w.now - w.startTime}, Segment is not ready`);
    const got = { user_id: r.user.user_id, device_id: r.user.device_id, user_properties: r.user.user_properties };
    const fromSeg = { ...seg.user };
    const fromLs = blocked ? { user_properties: {} } : { user_properties: {}, ...stored };
    const can = [];
    if (seg.ready) can.push(fromSeg);
    if (!seg.ready || w.now <= seg.readyAt + slack) can.push(fromLs);
    if (!can.some((c) => L.same(c, got)))
      w.flag('wrong-identity', `request carries ${L.canon(got)}, expected ${can.map(L.canon).join(' or ')}; Segment ${seg.ready ? 'is' : 'is not'} ready`);
    return { kind: 'ok', status: 200, body: '{}', delay: 5 };
  };
  /** a stand-in for the real analytics.js object */
  const mkSegment = (pg) => {
    const s = { ready: false, readyAt: Infinity, user: genUser(), cbs: [] };
    s.api = {
      initialized: false,
      initialize: () => Promise.resolve(s.api),
      ready: (fn) => {
        if (s.ready) fn();
        else if (mode !== 'npm') s.cbs.push(fn);
        // an npm-installed Segment does not know this caller's callback
      },
      user: () => {
        if (!s.ready) w.flag('touched-early', 'the user of Segment was read before it was ready');
        return { id: () => s.user.user_id ?? null, anonymousId: () => s.user.device_id, traits: () => ({ ...s.user.user_properties }) };
      },
      track: (type, props) => {
        if (!pg.alive) return;
        if (!s.ready) w.flag('touched-early', 'Segment was handed an event before it was ready');
        const k = props.flag_key;
        if (done.has(k)) return w.flag('exposure-twice', `exposure of ${k} was tracked twice`);
        const i = Q.findIndex((q) => q.k === k);
        if (i < 0) return w.flag('unknown-exposure', L.canon(props));
        if (i > 0) w.flag('exposure-order', `exposure of ${k} before ${Q[0].k}`);
        if (type !== '$exposure' || props.variant !== 'on') w.flag('exposure-content', L.canon(props));
        Q.splice(i, 1);
        done.add(k);
        w.probe('exposure-delivered');
      },
    };
    s.becomeReady = () => {
      if (s.ready || !pg.alive) return;
      s.ready = true;
      s.readyAt = w.now;
      s.api.initialized = true;
      w.log('segment:ready');
      persist(s.user, false);
      for (const fn of s.cbs.splice(0)) fn();
    };
    s.appear = () => {
      if (s.appeared || !pg.alive) return;
      s.appeared = true;
      const q = pg.g[key];
      pg.g[key] = s.api;
      // the snippet's contract: calls queued on the array are replayed
      if (mode === 'snippet' && Array.isArray(q)) for (const [fn, ...args] of q) if (s.api[fn]) s.api[fn](...args);
    };
    return s;
  };
  const load = () => {
    if (blocked) {
      Q = [];
      done = new Set();
    }
    page = w.browser.load(tab, { storageMode: blocked ? 'securityerror' : 'ok' });
    owed = sent = 0;
    seg = mkSegment(page);
    const early = mode === 'instance' ? false : w.chance(0.3);
    if (early) seg.appear();
    if ((early || mode === 'instance') && w.chance(0.5)) seg.becomeReady();
    if (blocked) w.fault('storage-blocked');
    if (mode === 'snippet' && !early && w.chance(0.4)) {
      // the full snippet is on the page: every method is a queueing stub
      const q = [];
      const oldSnippet = w.chance(0.5); // older snippets do not forward calls made on a stale reference
      for (const m of ['track', 'ready', 'user', 'identify', 'page'])
        q[m] = (...a) => {
          if (m === 'track' && !seg.ready) w.flag('touched-early', 'an event was queued on the Segment snippet before Segment was ready');
          if (!oldSnippet && page.g[key] && page.g[key].initialized) return page.g[key][m](...a);
          q.push([m, ...a]);
          return q;
        };
      page.g[key] = q;
      w.probe('full-snippet');
    }
    const x = page.run(w.bundles.segment);
    const opts = { skipSetup: skip || undefined };
    if (mode === 'instance') opts.instance = seg.api;
    else if (key !== 'analytics') opts.instanceKey = key;
    client = x.browser.Experiment.initialize(API, {
      source: 'initialVariants',
      initialVariants,
      retryFetchOnFailure: false,
      automaticExposureTracking: true,
    });
    client.addPlugin(x.segment.segmentIntegrationPlugin(opts));
    const s = seg;
    if (mode !== 'instance' && !early) {
      const at = w.delay(6000);
      w.schedule(at, () => s.appear(), { page, lane: 'seg', label: 'segment-appears' });
      if (w.chance(0.85)) w.schedule(at + w.delay(3000), () => s.becomeReady(), { page, lane: 'seg', label: 'segment-ready' });
      else w.fault('segment-never-ready');
    } else if (!s.ready) {
      if (w.chance(0.85)) w.schedule(w.delay(6000), () => s.becomeReady(), { page, lane: 'seg', label: 'segment-ready' });
      else w.fault('segment-never-ready');
    }
  };
  // a snippet replayed before the plugin exists never calls back by itself, the poll does
  const due = () => seg.readyAt + 51;
  const verify = () => {
    if (sent > owed) w.flag('extra-request', `${sent} requests, ${owed} asked for`);
    const ready = skip || (seg.ready && seg.appeared !== false && w.now >= due());
    if (ready && (mode === 'instance' || seg.appeared || skip) && sent < owed)
      w.flag('request-missing', `${owed} requests are due, ${sent} were sent`);
    if (seg.ready && (mode === 'instance' || seg.appeared) && Q.length) {
      const since = Math.max(seg.readyAt + 51, Q[0].at, page.loadTime);
      if (w.now - since > 1001) w.flag('exposure-stuck', `exposure of ${Q[0].k} not handed to Segment, ready since +${seg.readyAt - w.startTime}`);
    }
  };
  load();
  w.hooks.afterStep = verify;
  const n = 2 + w.choose(12);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([[25, 'fetch'], [30, 'expose'], [12, 'identify'], [8, 'store'], [8, 'reload'], [12, 'wait']]);
    w.op(kind);
    if (sent < owed || Q.length) w.interleaved = true;
    if (kind === 'fetch') {
      owed++;
      client.fetch();
    } else if (kind === 'expose') {
      const k = 'k' + (nextKey++ % 40);
      if (Q.some((q) => q.k === k) || done.has(k)) continue;
      Q.push({ k, at: w.now });
      client.variant(k);
    } else if (kind === 'identify') {
      if (seg.ready) {
        seg.user = genUser();
        persist(seg.user, false);
      }
    } else if (kind === 'store') {
      if (!seg.ready) persist(genUser(), w.chance(0.5));
    } else if (kind === 'reload') {
      await w.drain();
      w.fault('page-reload');
      load();
    }
    await w.drain();
    verify();
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await w.runFor(w.pick([0, 3, 49, 51, 900, 3000]));
  }
  if (mode !== 'instance') seg.appear();
  seg.becomeReady();
  await w.runFor(1200);
  w.check(Q.length === 0, 'exposure-lost', () => `${Q.length} exposures were never handed to Segment`);
  w.check(sent === owed, 'request-missing', () => `${owed} requests were asked for, ${sent} were sent`);
}

module.exports = {
  S01: {
    bundles: ['segment'],
    run: s01,
    runs: { quick: 18000, thorough: 200000 },
    real: ['plugin-segment (all of src)', 'experiment-browser (client, integration manager, exposure queue)'],
    stubs: [...L.SDK_STUB, 'Segment analytics.js (stub that appears and becomes ready at simulated times)'],
    rule: 'Random Segment arrival (snippet, npm, given instance; early, late, never), identity writes valid or corrupt, exposures, fetches and reloads; compared with a model of readiness and of the exposure queue.',
  },
};
