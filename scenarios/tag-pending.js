'use strict';
/**
 * What is gathered before the visitor decides (T26): the gated storage, cookies
 * and impressions of the tag, used as a client running under a pending decision
 * uses them.
 */
const T = require('./lib-tag');
const { DOMExceptionSim } = require('../lib/browser');

const EXP = 'EXP_client-tag';
const USER = 'EXP_client-tag_DEFAULT_USER_PROVIDER';
const ID = 'EXP_client-tag_identity';
const EVENTS = 'EXP_client-tag_rtbt_events';
const KEYS = ['K0', 'K1', EXP, USER, 'amp-preview-mode', 'visual-editor-state'];
const EXEMPT = ['amp-preview-mode', 'visual-editor-state'];
const COOKIES = ['C0', 'C1', ID];
const TYPES = ['localStorage', 'sessionStorage'];
const clone = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
const same = (a, b) => {
  const norm = (v) => (v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, norm(v[k])])) : v === undefined ? null : v);
  return JSON.stringify(norm(a)) === JSON.stringify(norm(b));
};
const over = (mine, theirs, names) => {
  const out = { ...mine };
  for (const n of names) if (theirs[n] !== undefined) out[n] = theirs[n];
  return out;
};

async function T26(w) {
  const page = T.openPage(w, w.browser.newTab(), { url: 'https://www.shop.com/home' });
  const g = page.g;
  const x = page.run(w.bundles.consent);
  const gate = x.gate.consentGate;

  // ---- what an earlier visit left
  const raw = (type) => ({ localStorage: g.localStorage, sessionStorage: g.sessionStorage }[type]);
  const identity = () => {
    const o = {};
    for (const n of ['web_exp_id', 'web_exp_id_v2', 'device_id', 'first_seen', 'extra']) if (w.chance(0.5)) o[n] = `${n}-${w.int(1, 3)}`;
    return o;
  };
  const value = (key) => (key === EXP || key === USER ? identity() : { v: ++seq });
  let seq = 0;
  const dev = {}; // the device as it should be: type:key -> value
  for (const type of TYPES) {
    for (const key of KEYS) {
      if (w.chance(0.6)) continue;
      const v = value(key);
      raw(type).setItem(key, JSON.stringify(v));
      dev[type + ':' + key] = v;
    }
  }
  const cookieDev = {};
  const enc = (v) => Buffer.from(encodeURIComponent(JSON.stringify(v))).toString('base64');
  for (const key of COOKIES) {
    if (w.chance(0.5)) continue;
    const v = key === ID ? JSON.stringify(identity()) : { c: ++seq };
    g.document.cookie = `${key}=${enc(v)}; path=/`;
    cookieDev[key] = v;
  }
  let syncDev;
  if (w.chance(0.5)) {
    syncDev = { s: ++seq };
    g.document.cookie = `SYNC=${encodeURIComponent(JSON.stringify(syncDev))}; path=/`;
  }

  // behavioural events of the earlier visit, some from before events had a uuid
  const evDev = []; // what the device holds
  for (let n = w.int(0, 3); n > 0; n--) evDev.push({ n: 'd' + n, ts: g.Date.now() - n * 1000 });
  if (evDev.length) {
    const old = evDev.map((e, i) => ({ ...(w.chance(0.7) ? { uuid: 'u' + e.n } : {}), id: i + 1, event_type: 'view', timestamp: e.ts, session_id: 's', properties: { n: e.n } }));
    g.localStorage.setItem(EVENTS, JSON.stringify({ events: old, nextId: 4 }));
  }
  gate.required = true;
  const status = () => gate.manager.getStatus();
  const cookies = x.cookies.createCookieStorage({ sameSite: 'Lax' });
  const sync = new x.sync.SyncJsonCookie('SYNC', () => '', {});

  // ---- nothing reaches the device without consent
  let inFlight = 0; // cookie operations begun under a grant may complete
  const eventStore = new x.events.EventStorageManager('client-tagtagtag', new x.sessions.SessionManager('client-tagtagtag'));
  let evMem = [];
  let evAt = null; // when the last event was added, until it is written
  const evWrite = () => {
    if (evAt === null || w.now < evAt + 500) return;
    if (status() === 'granted') evDev.splice(0, evDev.length, ...evMem);
    evAt = null;
  };
  w.hooks.storageWrote = (p, kind, key, v) => {
    if (!(KEYS.includes(key) || key === EVENTS) || EXEMPT.includes(key)) return;
    if (status() === 'pending') w.flag('device-touched', `${kind} ${key} is ${v === null ? 'removed' : 'written'} before the visitor decided`);
    if (status() === 'denied' && v !== null) w.flag('device-touched', `${kind} ${key} is written after a refusal`);
  };
  w.hooks.cookieWrote = (p, c, text) => {
    const key = text.split('=')[0];
    if (!COOKIES.includes(key) && key !== 'SYNC') return;
    const removed = /expires=/i.test(text) && Date.parse(/expires=([^;]*)/i.exec(text)[1]) < g.Date.now();
    if (status() === 'pending') w.flag('device-touched', `cookie ${key} is ${removed ? 'removed' : 'written'} before the visitor decided`);
    if (status() === 'denied' && !removed && !inFlight) w.flag('device-touched', `cookie ${key} is written after a refusal`);
  };
  const unsure = new Set(); // a write that failed
  let failing = null;
  w.hooks.storage = (p, kind, op, key) => {
    if (op !== 'set' || !failing || !KEYS.includes(key)) return undefined;
    if (!w.chance(failing)) return undefined;
    w.fault('quota');
    unsure.add((kind === 'local' ? 'localStorage' : 'sessionStorage') + ':' + key);
    throw new DOMExceptionSim('quota', 'QuotaExceededError');
  };

  // ---- analytics
  const delivered = [];
  let ready = w.chance(0.5);
  let throws = false;
  const integration = {
    type: 'integration',
    getUser: () => ({}),
    track: (e) => {
      if (status() !== 'granted') w.flag('sent-without-consent', `impression ${e.n} is sent while ${status()}`);
      if (throws) throw new Error('analytics');
      if (ready) delivered.push({ n: e.n, time: e.eventProperties && e.eventProperties.time });
      return ready;
    },
  };
  x.impressions.wrapIntegrationTrack(integration);
  if (w.chance(0.3)) x.impressions.wrapIntegrationTrack(integration); // (a second client, the same integration)
  const held = []; // impressions made before the decision
  const never = new Set(); // impressions made under a refusal
  const direct = [];
  let events = 0;

  // ---- the model of what is held
  let buf = {};
  let bufCookies = {};
  let syncMem;
  let syncHeld = false;
  let decided = null;
  let revoked = false;
  const decide = (to) => {
    const before = status();
    if (to === before) return void x.tag.setConsentStatus(to);
    evWrite();
    if (decided === null && to === 'granted') {
      if (evMem.length + evDev.length) {
        evMem = [...evMem, ...evDev].sort((a, b) => a.ts - b.ts);
        evDev.splice(0, evDev.length, ...evMem);
        evAt = null;
      }
    } else {
      evMem = [];
      evAt = null;
    }
    if (before === 'granted') revoked = true;
    if (decided === null) {
      decided = to;
      if (to === 'granted') {
        for (const [tk, json] of Object.entries(buf)) {
          const key = tk.slice(tk.indexOf(':') + 1);
          const was = unsure.has(tk) ? undefined : dev[tk];
          dev[tk] = !was ? json : key === USER ? over(json, was, ['first_seen']) : key === EXP ? over(json, was, ['web_exp_id', 'web_exp_id_v2', 'device_id']) : json;
        }
        for (const [k, v] of Object.entries(bufCookies)) {
          const was = cookieDev[k];
          cookieDev[k] = k === ID && was ? JSON.stringify(over(JSON.parse(v), JSON.parse(was), ['web_exp_id_v2', 'first_seen'])) : v;
        }
        if (syncHeld && syncMem !== undefined) syncDev = syncMem;
        w.probe('grant');
      } else w.probe('refusal');
      buf = {};
      bufCookies = {};
    }
    x.tag.setConsentStatus(to);
  };

  const storageOp = () => {
    const type = w.pick(TYPES);
    const key = w.pick(KEYS);
    const tk = type + ':' + key;
    const free = EXEMPT.includes(key);
    const s = free ? 'granted' : status();
    switch (w.pick(['set', 'set', 'get', 'remove'])) {
      case 'set': {
        const v = value(key);
        const asked = clone(v);
        if (s === 'granted') {
          unsure.delete(tk);
          dev[tk] = asked;
        } else if (s === 'pending') buf[tk] = asked;
        x.storage.setStorageItem(type, key, v);
        v.changed = 'afterwards';
        return;
      }
      case 'get': {
        if (s === 'granted' && unsure.has(tk)) return;
        const got = x.storage.getStorageItem(type, key);
        const due = s === 'granted' ? dev[tk] : s === 'pending' ? buf[tk] : undefined;
        w.check(same(got, due), 'wrong-read', () => `${tk} reads ${JSON.stringify(got)} while ${status()}, due ${JSON.stringify(due)}`);
        if (got && typeof got === 'object') got.changed = 'by the reader';
        return;
      }
      default:
        if (s === 'pending') delete buf[tk];
        else {
          delete dev[tk];
          unsure.delete(tk);
        }
        x.storage.removeStorageItem(type, key);
    }
  };
  const cookieOp = async () => {
    const key = w.pick(COOKIES);
    const s = status();
    let p;
    if (s === 'granted') inFlight++;
    switch (w.pick(['set', 'set', 'get', 'remove'])) {
      case 'set': {
        const v = key === ID ? JSON.stringify(identity()) : { c: ++seq };
        if (s === 'granted') cookieDev[key] = clone(v);
        else if (s === 'pending') bufCookies[key] = clone(v);
        p = cookies.set(key, v);
        if (key !== ID && s === 'pending') v.changed = 'afterwards';
        break;
      }
      case 'get': {
        const due = clone(s === 'granted' ? cookieDev[key] : s === 'pending' ? bufCookies[key] : undefined);
        p = cookies.get(key).then((got) => {
          w.check(same(got, due), 'wrong-read', () => `cookie ${key} reads ${JSON.stringify(got)} while ${s}, due ${JSON.stringify(due)}`);
          if (got && typeof got === 'object') got.changed = 'by the reader';
        });
        break;
      }
      default:
        if (s === 'pending') delete bufCookies[key];
        else delete cookieDev[key];
        p = cookies.remove(key);
    }
    await p;
    if (s === 'granted') inFlight--;
  };
  const syncOp = () => {
    const s = status();
    switch (w.pick(['write', 'write', 'read', 'clear'])) {
      case 'write': {
        const v = { s: ++seq };
        syncMem = v;
        if (s === 'granted') syncDev = v;
        else if (s === 'pending') syncHeld = true;
        sync.write(v);
        return;
      }
      case 'read': {
        const due = s === 'granted' ? syncDev || syncMem : syncMem;
        const got = sync.read();
        w.check(same(got, due), 'wrong-read', () => `the synchronous cookie reads ${JSON.stringify(got)} while ${s}, due ${JSON.stringify(due)}`);
        return;
      }
      default:
        syncMem = undefined;
        if (s !== 'pending') syncDev = undefined;
        sync.clear();
    }
  };
  const track = () => {
    const n = ++events;
    const e = { n, eventType: '$impression', eventProperties: { flag_key: 'f' + n, ...(w.chance(0.3) ? { time: g.Date.now() - 5 } : {}) } };
    const due = { n, time: e.eventProperties.time !== undefined ? e.eventProperties.time : g.Date.now() };
    const s = status();
    if (s === 'pending') held.push(due);
    else if (s === 'denied') never.add(n);
    let r;
    try {
      r = integration.track(e);
    } catch (err) {
      w.check(s === 'granted' && throws, 'track-throws', String(err));
      return;
    }
    if (s === 'granted') {
      w.check(r === ready, 'wrong-answer', `track answers ${r}, analytics ${ready}`);
      if (r) direct.push(n);
    } else w.check(r === true, 'wrong-answer', `track answers ${r} while ${s}: the SDK would keep the impression on the device`);
  };
  const event = () => {
    const n = ++events;
    evWrite();
    const ts = w.chance(0.2) ? g.Date.now() - w.int(1, 3000) : undefined;
    evMem.push({ n, ts: ts === undefined ? g.Date.now() : ts });
    evAt = w.now;
    eventStore.addEvent('view', { n }, ts);
  };
  const compare = () => {
    evWrite();
    const kept = eventStore.getAllEvents().map((e) => e.properties.n);
    w.check(kept.join() === evMem.map((e) => e.n).join() && eventStore.getEventCount('view') === kept.length, 'wrong-events', () => `the events kept are [${kept}] while ${status()} (first decision ${decided}), due [${evMem.map((e) => e.n)}]`);
    const stored = JSON.parse(g.localStorage.getItem(EVENTS) || '{"events":[]}').events;
    w.check(stored.map((e) => e.properties.n).join() === evDev.map((e) => e.n).join(), 'wrong-on-device', () => `the events on the device are [${stored.map((e) => e.properties.n)}] while ${status()} (first decision ${decided}), due [${evDev.map((e) => e.n)}]`);
    for (const type of TYPES) {
      for (const key of KEYS) {
        const tk = type + ':' + key;
        if (unsure.has(tk)) continue;
        const text = raw(type).getItem(key);
        const got = text === null ? undefined : JSON.parse(text);
        w.check(same(got, dev[tk]), 'wrong-on-device', () => `${tk} is ${text} while ${status()} (first decision ${decided}), due ${JSON.stringify(dev[tk])}`);
      }
    }
    const jar = Object.fromEntries(g.document.cookie.split('; ').filter(Boolean).map((c) => [c.slice(0, c.indexOf('=')), c.slice(c.indexOf('=') + 1)]));
    if (!inFlight && !flushing) {
      for (const key of COOKIES) {
        const got = jar[key] ? JSON.parse(decodeURIComponent(Buffer.from(jar[key], 'base64').toString())) : undefined;
        const eq = key === ID && got && cookieDev[key] ? same(JSON.parse(got), JSON.parse(cookieDev[key])) : same(got, cookieDev[key]);
        w.check(eq, 'wrong-on-device', () => `cookie ${key} is ${JSON.stringify(got)} while ${status()} (first decision ${decided}), due ${JSON.stringify(cookieDev[key])}`);
      }
    }
    const got = jar.SYNC ? JSON.parse(decodeURIComponent(jar.SYNC)) : undefined;
    w.check(same(got, syncDev), 'wrong-on-device', () => `the synchronous cookie is ${JSON.stringify(got)} while ${status()}, due ${JSON.stringify(syncDev)}`);
  };
  let flushing = false;
  let cookieWork = Promise.resolve();
  for (let n = w.int(3, 25); n > 0; n--) {
    failing = w.chance(0.15) ? 0.5 : null;
    const op = w.weighted([[6, 'storage'], [5, 'cookie'], [2, 'sync'], [4, 'track'], [3, 'event'], [2, 'analytics'], [decided ? 2 : 1.2, 'decide'], [1, 'time']]);
    w.op(op);
    if (op === 'storage') storageOp();
    else if (op === 'cookie') {
      cookieWork = cookieOp();
      if (w.chance(0.7) || status() !== 'pending') {
        await w.runFor(0);
        await cookieWork;
        flushing = false;
      } else w.interleaved = true;
    } else if (op === 'sync') syncOp();
    else if (op === 'track') track();
    else if (op === 'event') event();
    else if (op === 'analytics') w.chance(0.3) ? (throws = !throws) : (ready = !ready);
    else if (op === 'decide') {
      const to = w.weighted([[5, 'granted'], [3, 'denied'], [1, 'pending'], [1, 'maybe']]);
      await w.runFor(0);
      const expected = to === 'granted' || to === 'denied' ? to : status();
      if (to === 'granted' || to === 'denied') decide(to);
      else x.tag.setConsentStatus(to);
      w.check(status() === expected, 'wrong-status', `the status is ${status()} after ${to}`);
      flushing = true;
      // reads and writes made at once after a grant see the whole of it
      if (to === 'granted' && w.chance(0.5)) {
        w.interleaved = true;
        cookieWork = cookieOp();
        await w.runFor(0);
        await cookieWork;
      } else await w.runFor(0);
      flushing = false;
    } else await w.runFor(w.pick([10, 400, 1000, 5000]));
    compare();
    for (const d of delivered) w.check(!never.has(d.n), 'sent-without-consent', `impression ${d.n} made under a refusal is sent`);
  }
  // ---- a grant sends what was held, once, in order, and when it happened
  failing = null;
  ready = true;
  throws = false;
  await w.runFor(3000);
  const ns = delivered.map((d) => d.n);
  w.check(new Set(ns).size === ns.length, 'sent-twice', () => `impressions sent: ${ns}`);
  const mine = delivered.filter((d) => held.some((h) => h.n === d.n));
  w.check(mine.every((d, i) => !i || mine[i - 1].n < d.n), 'wrong-order', () => `held impressions sent: ${mine.map((d) => d.n)}`);
  for (const d of mine) {
    const h = held.find((q) => q.n === d.n);
    w.check(h.time === d.time, 'wrong-time', `impression ${d.n} is sent as of ${d.time}, it was made at ${h.time}`);
  }
  if (decided === 'granted' && !revoked) w.check(mine.length === held.length, 'impression-lost', () => `held ${held.map((h) => h.n)}, sent ${mine.map((d) => d.n)}`);
  if (decided !== 'granted') w.check(!mine.length, 'sent-without-consent', () => `held ${held.map((h) => h.n)}, sent ${mine.map((d) => d.n)} after ${decided}`);
  for (const n of direct) w.check(ns.includes(n), 'impression-lost', `impression ${n} made under consent was not sent`);
  if (mine.length) w.probe('held-sent');
  compare();
}

module.exports = {
  T26: {
    run: T26,
    bundles: ['consent'],
    runs: { quick: 14000, thorough: 120000 },
    rule: 'storage, asynchronous and synchronous cookies, impressions and behavioural events used in 3-25 steps before, between and after decisions; data of an earlier visit; values changed by their owner after hand-over; full storage, analytics that is not ready or throws',
    real: ['experiment-tag: behavioral-targeting/event-storage, session-manager, consent/consent-gate, consent-manager, consent-cookie-storage, consent-impression-buffer, util/storage, util/cookie (SyncJsonCookie), util/grant-flush-merge; analytics-core CookieStorage'],
    stubs: ['browser (storage, cookies, timers, clock)', 'analytics integration', 'the client that would use these parts while a decision is pending (the scenario makes its calls)'],
  },
};
