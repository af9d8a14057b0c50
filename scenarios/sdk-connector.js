'use strict';
const L = require('./lib-sdk');

const APIKEY = 'abcdef1234567890abcdef1234567890';

// ---------------------------------------------------------------------------
/** C01: the channel between analytics and experiment SDKs on one page. */
async function c01(w) {
  w.hooks.server = () => ({ kind: 'never' });
  const tab = w.browser.newTab();
  const page = w.browser.load(tab, {});
  // two separately bundled SDKs share one page
  const bundles = [page.run(w.bundles.sdk).connector, page.run(w.bundles.sdk).connector];
  const names = ['$default_instance', 'other'].slice(0, 1 + w.choose(2));
  const chans = names.map((name) => ({
    name,
    log: new Map(), // id -> {accepted, got, queued, seq}
    nextId: 0,
    receiver: null,
    flushing: false,
    lastQueuedGot: -1,
    queued: 0,
    owed: false,
    id: { userProperties: {} },
    listeners: [],
    editors: [],
  }));
  const conn = (c) => w.pick(bundles).AnalyticsConnector.getInstance(c.name);
  const clean = (o) => JSON.parse(JSON.stringify(o));
  const leaf = () => w.pick([0, 1, -1, true, false, null, '', '1', 'v0']);
  const deep = (d = 0) => {
    const k = w.choose(d > 1 ? 1 : 3);
    if (k === 0) return leaf();
    const n = w.choose(3);
    if (k === 1) return Array.from({ length: n }, () => deep(d + 1));
    return Object.fromEntries(Array.from({ length: n }, () => [w.pick(['a', 'b']), deep(d + 1)]));
  };
  const log = (c, x) => {
    const id = c.nextId++;
    const e = { id, got: 0, accepted: true, queued: false };
    if (!c.receiver) {
      e.queued = true;
      if (c.queued >= 512) {
        e.accepted = false;
        w.probe('dropped-beyond-512');
      } else c.queued++;
    } else e.to = c.receiver;
    c.log.set(id, e);
    try {
      x.eventBridge.logEvent({ eventType: 'e' + id, eventProperties: { id } });
    } catch (err) {
      if (!/receiver down/.test(err.message)) throw err;
    }
  };
  let depth = 0;
  const mkReceiver = (c) => {
    const r = { mode: w.weighted([[50, 'ok'], [15, 'throws'], [15, 'relog'], [8, 'swap']]) };
    r.fn = (ev) => {
      const e = c.log.get(ev.eventProperties.id);
      if (!e || ev.eventType !== 'e' + e.id) return w.flag('unknown-event', L.canon(ev));
      if (!e.accepted) w.flag('dropped-delivered', `event ${e.id} was beyond the queue's capacity but was delivered`);
      if (++e.got > 1) w.flag('delivered-twice', `event ${e.id} was received twice`);
      if (e.queued) {
        if (e.id < c.lastQueuedGot) w.flag('out-of-order', `queued event ${e.id} received after ${c.lastQueuedGot}`);
        c.lastQueuedGot = e.id;
      }
      if (e.to && e.to !== c.receiver) w.flag('wrong-receiver', `event ${e.id} went to a receiver that was replaced`);
      w.log('recv', e.id);
      if (r.mode === 'throws' && w.chance(0.3)) {
        w.fault('receiver-throws');
        w.interleaved = true;
        if (c.flushing) c.owed = true;
        throw new Error('receiver down');
      }
      if (r.mode === 'relog' && depth < 3 && w.chance(0.4)) {
        w.fault('reentrant-log');
        w.interleaved = true;
        depth++;
        log(c, conn(c));
        depth--;
      }
      if (r.mode === 'swap' && w.chance(0.3)) {
        w.fault('reentrant-receiver');
        w.interleaved = true;
        r.mode = 'ok';
        setReceiver(c);
      }
    };
    return r;
  };
  const setReceiver = (c) => {
    const r = mkReceiver(c);
    c.receiver = r;
    const was = c.flushing;
    c.flushing = true;
    if (!was) c.owed = false;
    try {
      conn(c).eventBridge.setEventReceiver(r.fn);
    } catch (err) {
      if (!/receiver down/.test(err.message)) throw err;
    }
    c.flushing = was;
  };
  const verify = () => {
    for (const c of chans) {
      if (c.receiver && !c.owed)
        for (const e of c.log.values())
          if (e.accepted && !e.got) w.flag('lost', `event ${e.id} was never received although a receiver is set`);
      if (!c.receiver) for (const e of c.log.values()) if (e.got) w.flag('early', 'received before a receiver was set');
      for (const b of bundles) {
        const got = b.AnalyticsConnector.getInstance(c.name).identityStore.getIdentity();
        if (!L.same(clean(got), clean(c.id)))
          w.flag('identity-differs', `${c.name}: identity is ${L.canon(got)}, committed was ${L.canon(c.id)}`);
      }
    }
  };
  const n = 4 + w.choose(40);
  for (let i = 0; i < n; i++) {
    const c = w.pick(chans);
    const x = conn(c);
    const kind = w.weighted([
      [30, 'log'],
      [9, 'receiver'],
      [2, 'flood'],
      [14, 'edit'],
      [16, 'update'],
      [14, 'commit'],
      [4, 'set'],
      [8, 'listen'],
      [5, 'unlisten'],
    ]);
    w.op(kind);
    if (kind === 'log') log(c, x);
    else if (kind === 'flood') {
      const k = w.pick([20, 500, 530]);
      for (let j = 0; j < k; j++) log(c, x);
    } else if (kind === 'receiver') setReceiver(c);
    else if (kind === 'edit') {
      c.editors.push({ e: x.identityStore.editIdentity(), m: clean(c.id) });
      if (c.editors.length > 1) w.interleaved = true;
    } else if (kind === 'update' || kind === 'commit') {
      if (!c.editors.length) continue;
      const ed = w.pick(c.editors);
      if (kind === 'update') {
        const what = w.choose(8);
        const v = 'v' + w.choose(3);
        // properties may be any JSON value, nested ones included
        const pv = w.weighted([[5, () => v], [5, () => deep()]])();
        if (what === 0) {
          ed.e.setUserId(v);
          ed.m.userId = v;
        } else if (what === 1) {
          ed.e.setDeviceId(v);
          ed.m.deviceId = v;
        } else if (what === 2) {
          const k = 'k' + w.choose(3);
          ed.e.updateUserProperties({ $set: { [k]: pv } });
          ed.m.userProperties[k] = clean(pv);
        } else if (what === 3) {
          const k = 'k' + w.choose(3);
          ed.e.updateUserProperties({ $unset: { [k]: '-' } });
          delete ed.m.userProperties[k];
        } else if (what === 4) {
          ed.e.updateUserProperties({ $clearAll: {} });
          ed.m.userProperties = {};
        } else if (what === 5) {
          const out = w.chance(0.5);
          ed.e.setOptOut(out);
          ed.m.optOut = out;
        } else if (what === 7) {
          // several actions at once, in their order; an action it does not know changes nothing
          const acts = {};
          for (let j = 0; j < 3; j++) {
            const op = w.pick(['$set', '$unset', '$clearAll', '$add', '$append']);
            if (!acts[op]) acts[op] = { ['k' + w.choose(3)]: op === '$set' ? pv : op === '$add' ? 1 : '-' };
          }
          ed.e.updateUserProperties(acts);
          for (const op of Object.keys(acts)) {
            if (op === '$set') Object.assign(ed.m.userProperties, clean(acts[op]));
            if (op === '$unset') for (const k of Object.keys(acts[op])) delete ed.m.userProperties[k];
            if (op === '$clearAll') ed.m.userProperties = {};
          }
          w.probe('actions-together');
        } else {
          const p = { k0: pv };
          ed.e.setUserProperties({ ...p });
          ed.m.userProperties = clean(p);
        }
      } else {
        commit(c, ed.m, () => ed.e.commit());
        if (w.chance(0.5)) c.editors.splice(c.editors.indexOf(ed), 1);
        else w.probe('editor-reused');
      }
    } else if (kind === 'set') {
      const m = { userId: w.pick(['v0', 'v1']), userProperties: { k0: w.chance(0.5) ? w.pick(['v0', 'v1']) : deep() } };
      commit(c, m, () => x.identityStore.setIdentity(clean(m)));
    } else if (kind === 'listen') {
      const l = { got: [], once: w.chance(0.3), gone: false, edits: w.chance(0.15) };
      l.fn = (id) => {
        if (l.gone) w.flag('notified-after-removal', 'a listener was told of a change after it was removed');
        l.got.push(clean(id));
        const now = x.identityStore.getIdentity();
        if (!L.same(clean(now), clean(id)))
          w.flag('notified-before-change', `a listener is told ${L.canon(id)} while the identity reads ${L.canon(now)}`);
        if (l.edits && c.committing) {
          // it completes the identity itself
          l.edits = false;
          w.fault('reentrant-commit');
          c.nested = true;
          const ed = x.identityStore.editIdentity();
          const m = clean(c.id);
          m.deviceId = w.pick(['v0', 'v1', m.deviceId || 'v2']);
          c.id = m;
          ed.setDeviceId(m.deviceId).commit();
        }
        if (l.once && !l.gone) {
          x.identityStore.removeIdentityListener(l.fn);
          c.listeners.splice(c.listeners.indexOf(l), 1);
          l.gone = true;
        }
      };
      c.listeners.push(l);
      x.identityStore.addIdentityListener(l.fn);
      if (w.chance(0.2)) x.identityStore.addIdentityListener(l.fn); // adding twice is adding once
    } else if (kind === 'unlisten') {
      if (!c.listeners.length) continue;
      const l = w.pick(c.listeners);
      c.listeners.splice(c.listeners.indexOf(l), 1);
      x.identityStore.removeIdentityListener(l.fn);
      l.gone = true;
    }
    verify();
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    if (w.chance(0.1)) await w.drain();
  }
  function commit(c, m, fn) {
    const changed = !L.same(clean(c.id), clean(m));
    const ls = c.listeners.slice();
    const before = ls.map((l) => l.got.length);
    c.id = clean(m);
    c.nested = false;
    c.committing = true;
    fn();
    c.committing = false;
    ls.forEach((l, i) => {
      if (c.nested) {
        if (!l.gone && !L.same(l.got[l.got.length - 1], c.id))
          w.flag('notified-with', `a listener was last notified of ${L.canon(l.got[l.got.length - 1])}, the identity is ${L.canon(c.id)}`);
        return;
      }
      const k = l.got.length - before[i];
      if (k !== (changed ? 1 : 0))
        w.flag('notified', `a listener was notified ${k} times of a commit which ${changed ? 'changed' : 'did not change'} the identity`);
      else if (changed && !L.same(l.got[l.got.length - 1], c.id))
        w.flag('notified-with', `a listener was notified of ${L.canon(l.got[l.got.length - 1])}, the identity is ${L.canon(c.id)}`);
    });
  }
  // a last, healthy receiver gets whatever a failing one left
  for (const c of chans) {
    const r = mkReceiver(c);
    r.mode = 'ok';
    c.receiver = r;
    conn(c).eventBridge.setEventReceiver(r.fn);
    c.owed = false;
  }
  verify();
  if (w.violation) w.fail(w.violation.cls, w.violation.message);
}

// ---------------------------------------------------------------------------
/** C02: the experiment client on a page where the analytics SDK loads late, never, or repeatedly. */
async function c02(w) {
  const auto = w.chance(0.5);
  const cookieBlocked = w.chance(0.12);
  const storageMode = w.chance(0.1) ? w.pick(['securityerror', 'null']) : 'ok';
  if (cookieBlocked) w.fault('cookies-blocked');
  if (storageMode !== 'ok') w.fault('storage-' + storageMode);
  w.hooks.cookie = () => (cookieBlocked ? 'blocked' : undefined);
  const apiKey = w.chance(0.85) ? APIKEY : 'client-' + APIKEY;
  const initialVariants = {};
  for (let i = 0; i < 40; i++) initialVariants['k' + i] = { key: 'on', value: 'on' };
  let nextKey = 0;
  const tab = w.browser.newTab();
  const origin = 'https://www.shop.com';
  const ls = () => w.browser.localArea(origin).map;
  const ss = () => w.browser.sessionArea(tab, origin).map;
  const LOC = ['cookie', 'legacy', 'local', 'session'];
  const KEY10 = 'AMP_' + apiKey.slice(0, 10);
  const KEY6 = 'amp_' + apiKey.slice(0, 6);
  const setCookie = (n, v) => w.browser.jar.write(new URL(origin), `${n}=${v}; path=/`);
  const persisted = {}; // loc -> identity or undefined (absent or unreadable)
  const persist = (loc, id, bad) => {
    const json = JSON.stringify({ deviceId: id.deviceId, userId: id.userId });
    if (loc === 'cookie')
      setCookie(KEY10, bad ? w.pick(['%E0%A4%A', 'x', '*', Buffer.from('{bad').toString('base64'), '']) : Buffer.from(encodeURIComponent(json)).toString('base64'));
    else if (loc === 'legacy') {
      // device id and user id (UTF-8, base64), then session data
      let b = id.userId ? Buffer.from(id.userId, 'utf8').toString('base64') : '';
      if (w.chance(0.5)) b = b.replace(/=+$/, '');
      setCookie(KEY6, bad ? w.pick(['%', 'dev.%25', '']) : !b && w.chance(0.5) ? id.deviceId : `${id.deviceId}.${b}..x.y`);
    }
    else if (loc === 'local') ls().set(KEY10, bad ? w.pick(['{', '', '"s"', 'null']) : json);
    else ss().set(KEY10, bad ? w.pick(['{', '', '7', 'null']) : json);
    persisted[loc] = bad ? undefined : { deviceId: id.deviceId, ...(id.userId ? { userId: id.userId } : {}) };
    if (bad) w.fault('corrupt-identity');
  };
  let stamp = 0;
  const exotic = w.chance(0.2) ? w.pick(['é', '日本', 'a b+c@x.y;', '"']) : '';
  const newUser = () => 'u' + exotic + ++stamp;
  for (const loc of LOC)
    if (w.chance(0.3))
      persist(loc, { deviceId: 'd' + ++stamp, userId: w.chance(0.6) ? newUser() : undefined }, w.chance(0.35));
  // what other projects, and cookies of similar names, say is not this project's
  for (const [m, name] of [['c', KEY10 + 'X'], ['c', KEY10 + '_MKTG'], ['c', 'X' + KEY10], ['c', KEY6 + '0'], ['c', KEY6.toUpperCase()], ['s', KEY10 + '0']])
    if (w.chance(0.12)) {
      const other = JSON.stringify({ deviceId: 'other-d', userId: 'other-u' });
      if (m === 's') w.pick([ls, ss])().set(name, other);
      else setCookie(name, name === KEY6 + '0' ? 'other-d.' + Buffer.from('other-u').toString('base64') + '..x' : Buffer.from(encodeURIComponent(other)).toString('base64'));
      w.probe('similar-name');
    }
  const readable = () => {
    if (apiKey.startsWith('client-')) return undefined;
    for (const loc of LOC) {
      if ((loc === 'cookie' || loc === 'legacy') && cookieBlocked) continue;
      if ((loc === 'local' || loc === 'session') && storageMode !== 'ok') continue;
      if (persisted[loc]) return persisted[loc];
    }
    return undefined;
  };
  let page, client, connector, id, readyAt, readyNow, owed, sent, receiver, recvAt;
  let Q = [];
  let done = new Set();
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (req.page !== page) return { kind: 'never' };
    if (r.kind !== 'vardata') {
      w.flag('unexpected-request', req.url);
      return { kind: 'never' };
    }
    sent++;
    if (!readyNow && w.now < readyAt)
      w.flag('sent-before-identity', `request sent at +${w.now - w.startTime} before any identity was known (time-out at +${readyAt - w.startTime})`);
    for (const f of ['userId', 'deviceId']) {
      const g = r.user[f === 'userId' ? 'user_id' : 'device_id'];
      if (g !== id[f]) w.flag('wrong-identity', `request carries ${f} ${g}, the analytics identity is ${L.canon(id)}`);
    }
    if (!L.same(r.user.user_properties, id.userProperties || {}))
      w.flag('wrong-properties', `request carries properties ${L.canon(r.user.user_properties)}, expected ${L.canon(id.userProperties)}`);
    return { kind: 'ok', status: 200, body: '{}', delay: 1 + w.choose(300) };
  };
  const commit = (next) => {
    const changed = !L.same(JSON.parse(JSON.stringify(id)), JSON.parse(JSON.stringify(next)));
    id = next;
    if (changed && client) {
      readyNow = true;
      if (auto) owed++;
    }
    const e = connector().identityStore.editIdentity();
    if (next.userId !== undefined) e.setUserId(next.userId);
    e.setDeviceId(next.deviceId).setUserProperties({ ...next.userProperties });
    e.commit();
  };
  let x;
  const load = () => {
    if (storageMode !== 'ok') {
      Q = [];
      done = new Set();
    }
    page = w.browser.load(tab, { storageMode });
    x = page.run(w.bundles.sdk);
    connector = () => x.connector.AnalyticsConnector.getInstance('$default_instance');
    client = null;
    id = { userProperties: {} };
    receiver = null;
    owed = sent = 0;
    readyNow = false;
    analytics = false;
    if (w.chance(0.3)) startAnalytics(); // analytics first
    const p = readable();
    if (p) {
      id = { ...id, deviceId: p.deviceId };
      if (p.userId) id.userId = p.userId;
      w.probe('identity-from-storage');
    }
    client = x.browser.Experiment.initializeWithAmplitudeAnalytics(apiKey, {
      source: 'initialVariants',
      initialVariants,
      automaticExposureTracking: true,
      automaticFetchOnAmplitudeIdentityChange: auto,
      retryFetchOnFailure: false,
    });
    w.check(
      x.browser.Experiment.initializeWithAmplitudeAnalytics(apiKey, {}) === client,
      'not-singleton',
      'initializing the same instance again must return the same client',
    );
    readyAt = w.now + 10000;
    if (id.userId || id.deviceId) readyNow = true;
  };
  let analytics = false;
  const startAnalytics = () => {
    analytics = true;
    const p = readable() || {};
    commit({ ...id, deviceId: p.deviceId || 'd' + ++stamp, userId: p.userId });
    if (w.chance(0.7)) setReceiver();
  };
  const setReceiver = () => {
    const pg = page;
    receiver = true;
    recvAt = w.now;
    connector().eventBridge.setEventReceiver((ev) => {
      if (!pg.alive) return;
      if (ev.eventType === 'foreign') return;
      const k = ev.eventProperties.flag_key;
      if (done.has(k)) return w.flag('exposure-twice', `exposure of ${k} was received twice`);
      const i = Q.findIndex((q) => q.k === k);
      if (i < 0) return w.flag('unknown-exposure', L.canon(ev));
      if (i > 0) w.flag('exposure-order', `exposure of ${k} received before ${Q[0].k}`);
      if (ev.eventType !== '$exposure' || ev.eventProperties.variant !== 'on') w.flag('exposure-content', L.canon(ev));
      done.add(k);
      Q.splice(i, 1);
      w.probe('exposure-delivered');
    });
  };
  const verify = () => {
    const ready = readyNow || w.now > readyAt;
    if (sent > owed) w.flag('extra-request', `${sent} requests sent, ${owed} asked for`);
    if (ready && sent < owed) w.flag('request-missing', `${owed} requests are due, ${sent} were sent, identity ${L.canon(id)}`);
    if (!readyNow && w.now > readyAt && w.now < readyAt + 5) w.probe('identity-timed-out');
    if (ready && receiver && Q.length) {
      const since = Math.max(Q[0].at, recvAt, readyNow ? 0 : readyAt, page.readyMark || 0);
      if (w.now - since > 1001) w.flag('exposure-stuck', `exposure of ${Q[0].k} not received although analytics listens since +${recvAt - w.startTime}`);
    }
  };
  load();
  w.hooks.afterStep = verify;
  const n = 2 + w.choose(14);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([
      [22, 'fetch'],
      [22, 'expose'],
      [18, 'analytics'],
      [16, 'identify'],
      [8, 'receiver'],
      [6, 'foreign'],
      [8, 'reload'],
      [10, 'wait'],
    ]);
    w.op(kind);
    if (sent < owed || Q.length) w.interleaved = true;
    const wasReady = readyNow;
    if (kind === 'fetch') {
      owed++;
      client.fetch();
    } else if (kind === 'expose') {
      const k = 'k' + (nextKey++ % 40);
      if (Q.some((q) => q.k === k) || done.has(k)) continue;
      Q.push({ k, at: w.now });
      client.variant(k);
    } else if (kind === 'analytics') {
      if (!analytics) startAnalytics();
    } else if (kind === 'identify') {
      if (!analytics) continue;
      const nx = { ...id, userProperties: { ...id.userProperties } };
      const c = w.choose(4);
      if (c === 0) nx.userId = newUser();
      if (c === 1) nx.userProperties['p' + w.choose(2)] = w.choose(3);
      if (c === 2) nx.deviceId = 'd' + ++stamp;
      commit(nx);
      persist(w.pick(LOC), nx, false);
    } else if (kind === 'foreign') {
      // another SDK on the page uses the same channel
      connector().eventBridge.logEvent({ eventType: 'foreign' });
    } else if (kind === 'receiver') {
      if (analytics && !receiver) setReceiver();
    } else if (kind === 'reload') {
      await w.drain();
      w.fault('page-reload');
      load();
    }
    if (readyNow && !wasReady) page.readyMark = w.now;
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await w.drain();
    verify();
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await w.runFor(w.pick([0, 3, 40, 900, 4000, 9999, 10001]));
  }
  if (!analytics) startAnalytics();
  if (!receiver) setReceiver();
  await w.runFor(11100);
  w.check(Q.length === 0, 'exposure-lost', () => `${Q.length} exposures were never received`);
  w.check(sent === owed, 'request-missing', () => `${owed} requests were asked for, ${sent} were sent`);
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: L.SDK_STUB };
module.exports = {
  C01: {
    ...common,
    run: c01,
    runs: { quick: 24000, thorough: 300000 },
    rule: 'Random interleavings of two separately bundled SDKs logging events, setting (failing, re-entrant) receivers, editing identities concurrently and listening, on shared and separate instances.',
  },
  C02: {
    ...common,
    run: c02,
    stubs: [...L.SDK_STUB, 'Amplitude analytics SDK (stub: commits identities to the connector, sets its event receiver)'],
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random analytics SDK arrival (first, late, never), identity changes, persisted identities valid or corrupt, blocked storage, reloads; request instants, identities and exposure delivery are compared with a model.',
  },
};
