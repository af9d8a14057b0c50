'use strict';
/**
 * Behavioural targeting: the visitor's event history on the device, the rolling
 * session, rule evaluation, and the replay of events received before start.
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const { KEY, HOUR, CAP, TYPES, propsOf, typesOf, refEval, genSite, expectedMutations } = require('./lib-rtbt');

function rtbt(prop) {
  const T05 = prop === 'T05';
  const T06 = prop === 'T06';
  const T08 = prop === 'T08';
  const T09 = prop === 'T09';
  return async (w) => {
    const site = genSite(w);
    const timeout = w.weighted([[2, undefined], [2, 20e3]]);
    const TIMEOUT = timeout || 30 * 60e3;
    const cookiesBlocked = w.chance(0.15);
    const quotaP = T05 && w.chance(0.25) ? w.pick([0.1, 0.5]) : 0;
    const remote = w.chance(T09 ? 0.7 : 0.2);
    const mix = remote ? L.netMix(w, { p: 0.7 }) : {};
    if (remote) {
      site.flags.push(T.flag('fr', { mode: 'remote', on: 'off' }));
      site.pages.fr = { pr: T.pageObj('pr', 'url_change', {}, T.TRUE_COND) };
    }
    // a page that becomes active on one analytics event
    if (T09) {
      site.flags.push(T.flag('fe', { on: 'treatment', payloads: { treatment: [{ action: 'mutate', data: { mutations: [{ id: 'm-e', selector: '#e', action: 'set' }] } }] } }));
      site.pages.fe = { pe: T.pageObj('pe', 'analytics_event', [[{ op: 'is', selector: ['context', 'data', 'event'], values: ['view'] }]], []) };
    }
    const hosts = ['https://www.shop.com', 'https://app.shop.com'];
    const durable = {}; // origin -> [{n, uuid}] as last written
    let seq = 0;
    const known = new Map(); // n -> event record (model)
    const uuids = new Map(); // uuid -> n
    const tokId = new Map(); // session token -> observed id
    const idTok = new Map();
    let act = { last: -Infinity, tok: 0 };
    let tokSeq = 0;
    let P = null; // the current page's model
    const tab = w.browser.newTab();
    let ops = 0;
    let crashAt = -1;
    let skew = 0; // of the device's clock

    w.hooks.cookie = (p, op) => {
      if (!cookiesBlocked) return undefined;
      if (op === 'set') w.fault('cookies-blocked');
      return 'blocked';
    };
    w.hooks.storage = (p, k, op, key) => {
      if (op !== 'set' || !P || p !== P.page) return undefined;
      if (++ops === crashAt) {
        w.fault('crash-at-storage-write');
        p.kill('crashed');
        return 'dead';
      }
      if (key === KEY && quotaP && w.chance(quotaP)) {
        w.fault('storage-quota');
        P.lost = true;
        throw L.quota();
      }
      return undefined;
    };
    w.hooks.storageWrote = (p, k, key, v) => {
      if (key !== KEY || !P || (p !== P.page && !T08)) return;
      if (v === null) return w.flag('history-removed', 'the stored event history was removed');
      const st = JSON.parse(v);
      const got = st.events.map((e) => e.properties.n);
      const want = P.M.map((e) => e.n);
      w.probe('history-written');
      if ((T05 || T09) && p === P.page) {
        if (got.join() !== want.join())
          return w.flag('history-differs', `stored [${brief(got)}] but the history is [${brief(want)}]`);
        for (const e of st.events) {
          const m = known.get(e.properties.n);
          if (e.event_type !== m.type || e.timestamp !== m.ts || JSON.stringify(e.properties) !== JSON.stringify(m.props))
            return w.flag('event-altered', `event ${JSON.stringify(e)} was ${JSON.stringify(m)}`);
          if (typeof e.uuid !== 'string' || !e.uuid) return w.flag('event-without-identity', JSON.stringify(e));
          if (m.uuid === undefined) m.uuid = e.uuid;
          if (m.uuid !== e.uuid) return w.flag('event-identity-changed', `event ${m.n} was ${m.uuid}, is ${e.uuid}`);
          if (!uuids.has(e.uuid)) uuids.set(e.uuid, m.n);
          if (uuids.get(e.uuid) !== m.n) return w.flag('event-identity-shared', `events ${m.n} and ${uuids.get(e.uuid)} share ${e.uuid}`);
        }
      }
      if (T08)
        for (const e of st.events) {
          const m = known.get(e.properties.n);
          if (typeof e.session_id !== 'string' || !e.session_id) return w.flag('session-malformed', `event ${JSON.stringify(e)} is of the session ${JSON.stringify(e.session_id)}`);
          if (!m || m.tok < 0) continue;
          if (!tokId.has(m.tok)) tokId.set(m.tok, e.session_id);
          if (tokId.get(m.tok) !== e.session_id)
            return w.flag('session-split', `event ${m.n} at ${m.ts} has session ${e.session_id}, activity since the previous event never paused for more than ${TIMEOUT} ms (${tokId.get(m.tok)})`);
          if (!idTok.has(e.session_id)) idTok.set(e.session_id, m.tok);
          if (idTok.get(e.session_id) !== m.tok)
            return w.flag('session-not-rotated', `event ${m.n} at ${m.ts} continues session ${e.session_id} after more than ${TIMEOUT} ms without activity`);
        }
      durable[p.url.origin] = got.slice();
      P.lost = false;
      return undefined;
    };
    const edits = w.chance(0.3);
    const brief = (a) => (a.length > 12 ? `${a.slice(0, 3).join()},...(${a.length}),${a.slice(-3).join()}` : a.join());
    w.hooks.server = (req) => {
      const r = T.parse(req);
      return L.netPlan(w, mix, r.kind === 'flags' ? JSON.stringify([T.flag('fr', { mode: 'remote', on: 'off' })]) : '{}', 1000);
    };
    w.hooks.pageError = (p, e) => {
      if (/quota/i.test(String(e && e.message))) return;
      w.flag('uncaught-error', String(e && e.stack));
    };

    /** the model of one tracked event reaching the client */
    const session = (now) => {
      const a = cookiesBlocked ? P.act : act;
      return now - a.last <= TIMEOUT ? a.tok : -1;
    };
    const modelTrack = (type, props) => {
      const now = P.page.dateNow();
      const a = cookiesBlocked ? P.act : act;
      if (!(now - a.last <= TIMEOUT)) {
        a.tok = ++tokSeq;
        w.probe('session-started');
      }
      a.last = now;
      if (!site.allow.has(type)) return;
      const e = { n: props.n, type, props, ts: now, tok: a.tok };
      known.set(e.n, e);
      P.M.push(e);
      if (P.M.length > CAP) {
        P.M = P.M.slice(-CAP);
        w.probe('history-full');
      }
      P.lastAdd = w.now;
      for (const id of Object.keys(site.ids)) if (typesOf(site.ids[id]).has(type)) P.exact[id] = refEval(site.ids[id], P.M, now, a.tok);
    };
    const flushModel = () => {
      if (!P || P.running || !P.page.alive) return;
      const c = P.page.g.webExperiment;
      if (!c || !c.isRunning) return;
      P.running = true;
      for (const e of P.buffer) modelTrack(e.type, e.props);
      P.buffer = [];
    };
    w.hooks.afterStep = flushModel;

    const track = (burst) => {
      const type = w.weighted([[6, w.pick(TYPES)], [2, 'other']]);
      const props = propsOf(++seq, w.pick(['free', 'pro']));
      const c = P.page.g.webExperiment;
      flushModel();
      const direct = !burst && c && !c.isStub && typeof c.trackEvent === 'function' && w.chance(T09 ? 0.1 : 0.3);
      const late = P.running || direct;
      w.op('event', `${type}#${props.n}${direct ? ' direct' : ''}${P.running ? '' : ' starting'}`);
      // the model first: the storage hook consults it
      if (late) modelTrack(type, props);
      else {
        P.buffer.push({ type, props });
        if (P.buffer.length > CAP) {
          P.buffer.shift();
          w.probe('buffer-full');
        }
        w.probe('buffered');
      }
      if (type === 'view') P.sawView = true;
      const given = edits ? JSON.parse(JSON.stringify(props)) : props;
      if (direct) T.deliver(w, c, type, given);
      else P.plugin.execute({ event_type: type, event_properties: given });
      // a plugin after the tag's edits the event in place
      if (edits && given !== props) {
        w.fault('event-edited');
        const edit = () => {
          given.plan = 'edited';
          given.qty = 9;
          if (given.cart) given.cart.gift = 'edited';
          else given.cart = { gift: true };
        };
        if (w.chance(0.7)) Promise.resolve().then(() => {}).then(() => {}).then(edit);
        else w.schedule(w.pick([0, 1, 100]), edit, { page: P.page, lane: P.page.name + ':edit', label: 'edited' });
      }
    };

    const settle = async () => {
      await w.drain();
      flushModel();
      if (!P.page.alive || !P.running) return;
      const c = P.page.g.webExperiment;
      const now = P.page.dateNow();
      const seen = c.getExperimentClient().getUser().behavioral_targeting || [];
      if (T06) {
        w.check(new Set(seen).size === seen.length, 'behaviour-twice', () => JSON.stringify(seen));
        for (const id of Object.keys(site.ids)) {
          const on = seen.includes(id);
          const fresh = refEval(site.ids[id], P.M, now, session(now));
          if (on !== P.exact[id] && on !== fresh)
            w.fail('behaviour-wrong', `${id} is ${on ? 'matched' : 'not matched'} but ${JSON.stringify(site.ids[id])} is ${P.exact[id]} over [${P.M.map((e) => `${e.type}${e.props.plan === 'pro' ? '*' : ''}@${e.ts - now}`).slice(-12).join(' ')}]`);
        }
        const live = [...P.page.live.values()].map((m) => m.id).filter((m) => m !== 'm-e').sort();
        const want = expectedMutations(new Set(seen)).sort();
        w.check(live.join() === want.join(), 'variant-not-following', () => `behaviours [${seen}] but live mutations [${live}], expected [${want}]`);
        const liveI = [...P.code].filter(([, n]) => n).map(([id, n]) => id + (n === 1 ? '' : `x${n}`));
        const wantI = want.filter((x) => x.startsWith('m-a')).map((x) => x.replace(/^m-/, 'i'));
        w.check(liveI.join() === wantI.join(), 'variant-not-following', () => `behaviours [${seen}] but live injections [${liveI}], expected [${wantI}]`);
        if (seen.length) w.probe('behaviour-matched');
      }
      if (T09) {
        const live = [...P.page.live.values()].some((m) => m.id === 'm-e');
        w.check(live === P.sawView, 'event-trigger', () => `event "view" ${P.sawView ? 'was' : 'was not'} received on this page but the page it activates is ${live ? 'active' : 'inactive'}`);
      }
    };
    /** let half a second pass after the last event that reached the client */
    const quiet = async () => {
      await w.runFor(600);
      while (P.page.alive && w.now < P.lastAdd + 510) await w.runFor(510);
    };
    const checkDurable = (why) => {
      if (!T05 || !P.page.alive || P.lost) return;
      const d = durable[P.page.url.origin] || [];
      const want = P.M.map((e) => e.n);
      w.check(d.join() === want.join(), 'history-not-durable', () => `${why}: stored [${brief(d)}] but the history is [${brief(want)}]`);
      w.probe('durable');
    };

    // what an earlier version left behind: events without identity
    if (T05 && w.chance(0.15)) {
      const old = [];
      for (let i = w.int(1, 3); i > 0; i--) {
        const n = ++seq;
        const e = { n, type: TYPES[0], props: propsOf(n, 'free'), ts: w.now - HOUR, tok: -1 };
        known.set(n, e);
        old.push(e);
      }
      w.browser.localArea(hosts[0]).map.set(KEY, JSON.stringify({ events: old.map((e, i) => ({ id: i + 1, event_type: e.type, timestamp: e.ts, session_id: 's0', properties: e.props })), nextId: w.pick([9, 1, 2, 3, 1e6]) }));
      durable[hosts[0]] = old.map((e) => e.n);
    }
    if (w.chance(0.06)) {
      w.fault('malformed-history');
      w.browser.localArea(hosts[1]).map.set(KEY, w.pick(['{', 'null', '[]', '{"events":{}}', '{"events":[]}', '{"events":[],"nextId":"1"}', '7']));
    }

    // the session of an earlier visit
    const SESSION = `EXP_${T.SLICE}_rtbt_session`;
    if (T08 && !cookiesBlocked && w.chance(0.2)) {
      const last = w.now - w.pick([0, 1000, TIMEOUT - 1, TIMEOUT, TIMEOUT + 1, HOUR]);
      const s = w.pick([
        { sessionId: 'earlier', sessionStartTime: last - 5000, lastEventTime: last },
        { sessionId: 'earlier', lastEventTime: last },
        { sessionId: 7, lastEventTime: last },
        { sessionId: 'earlier' },
        { sessionId: 'earlier', lastEventTime: String(last) },
        null,
        'earlier',
      ]);
      w.op('session of an earlier visit', JSON.stringify(s));
      w.browser.jar.write(new URL('https://www.shop.com/'), `${SESSION}=${encodeURIComponent(w.chance(0.2) ? '{' : JSON.stringify(s))}; domain=.shop.com; path=/`);
      const c = w.browser.jar.list.find((x) => x.name === SESSION);
      if (s && s.sessionId === 'earlier' && s.lastEventTime === last && c.value !== '%7B') {
        act = { last, tok: ++tokSeq };
        tokId.set(act.tok, 'earlier');
        idTok.set('earlier', act.tok);
        w.probe('earlier-session');
      } else w.fault('malformed-session');
    }
    // several tabs of the site
    const others = [];
    const switchTab = () => {
      const to = others.filter((o) => o.page.alive && o.running);
      if (!to.length || !P.running) return;
      const o = w.pick(to);
      others.splice(others.indexOf(o), 1, P);
      P = o;
      w.op('switch tab', P.page.name);
      w.probe('other-tab');
    };
    const manyTabs = T08 && w.chance(0.4);

    const visits = w.int(1, T09 ? 3 : 4);
    for (let v = 0; v < visits; v++) {
      const origin = w.pick(hosts);
      const page = T.openPage(w, manyTabs ? w.browser.newTab() : tab, { url: `${origin}/p${v}` });
      page.clockSkew = skew;
      crashAt = w.chance(0.15) ? ops + 1 + w.choose(30) : -1;
      T.integration(w, page, {});
      P = { page, M: (durable[origin] || []).map((n) => known.get(n)), buffer: [], running: false, lastAdd: -Infinity, lost: false, exact: {}, act: { last: -Infinity, tok: 0 }, sawView: false };
      w.op('visit', origin);
      const x = T.start(w, page, { ...site, config: timeout ? { rtbtSessionTimeout: timeout } : {}, noInit: true });
      const early = w.chance(T09 ? 0.4 : 0.1);
      P.plugin = x.tag.createPlugin();
      // the code of a variant may itself track events
      let nested = w.chance(0.25) ? w.int(1, 3) : 0;
      P.code = new Map();
      page.g.__code = (id, utils) => {
        P.code.set(id, (P.code.get(id) || 0) + 1);
        utils.remove = () => P.code.set(id, P.code.get(id) - 1);
        if (nested && page.alive && page === P.page) {
          nested--;
          w.fault('event-from-injected-code');
          track();
        }
      };
      if (early) for (let i = w.int(1, 3); i > 0; i--) track();
      const t0 = page.dateNow();
      for (const id of Object.keys(site.ids)) P.exact[id] = refEval(site.ids[id], P.M, t0, session(t0));
      page.init();
      const burst = (T05 || T09) && w.chance(0.04) ? w.int(CAP - 5, CAP + 12) : 0;
      let n = w.int(1, 8);
      if (burst && w.chance(T09 ? 0.7 : 0.3)) for (let i = 0; i < burst && page.alive; i++) track(true);
      else if (burst) {
        await settle();
        await w.runFor(3000);
        await settle();
        for (let i = 0; i < burst && page.alive; i++) track(true);
      }
      await settle();
      while (n-- && page.alive) {
        await w.runFor(w.weighted([[3, 0], [3, 100], [2, 600], [1, 2500], [1, timeout ? timeout + w.pick([-1, 0, 1, 500]) : 5000]]));
        await settle();
        if (!page.alive) break;
        const k = w.weighted([[8, 'track'], [1, 'hide'], [1, 'spa'], [1, 'idle']]);
        if (manyTabs && w.chance(0.4)) switchTab();
        if (T08 && w.chance(0.08)) {
          w.fault('clock-jump');
          skew += w.pick([1000, TIMEOUT - 1, TIMEOUT + 1, HOUR]); // (set back, a session may already have ended in the future)
          for (const o of [P, ...others]) o.page.clockSkew = skew;
        }
        if (k === 'track') {
          for (let i = w.weighted([[4, 1], [1, 2], [1, 4]]); i > 0 && page.alive; i--) track();
          await settle();
        } else if (k === 'hide') {
          w.op('hide');
          P.page.g.document.visibilityState = 'hidden';
          P.page.g.document.dispatchEvent(T.ev('visibilitychange'));
          checkDurable('the tab was hidden');
          P.page.g.document.visibilityState = 'visible';
        } else if (k === 'spa') {
          w.op('spa');
          const to = `/s${w.choose(3)}`;
          if (P.page.url.pathname !== to) P.sawView = false;
          T.spa(P.page, to);
          // an event still waiting for start counts for the page on which it is replayed
          if (P.buffer.some((e) => e.type === 'view')) P.sawView = true;
          await settle();
        } else if (P.lastAdd > -Infinity) {
          await quiet();
          checkDurable('600 ms after the last event');
        }
      }
      if (page.alive) {
        await w.runFor(w.pick([0, 3000]));
        await settle();
      }
      if (manyTabs && P.running && w.chance(0.7)) {
        w.op('leave open');
        others.push(P);
      } else if (P.page.alive) {
        const page = P.page;
        const how = w.weighted([[4, 'unload'], [2, 'idle'], [2, 'crash'], [1, 'hidden']]);
        w.op('leave', how);
        if (how === 'unload') {
          page.g.dispatchEvent(T.ev('beforeunload'));
          checkDurable('the page was unloaded');
        } else if (how === 'hidden') {
          page.g.document.visibilityState = 'hidden';
          page.g.document.dispatchEvent(T.ev('visibilitychange'));
          checkDurable('the tab was hidden');
          w.fault('killed-in-background');
        } else if (how === 'idle') {
          await quiet();
          checkDurable('600 ms after the last event');
        } else w.fault('crash');
        page.kill('left');
      }
      w.interleaved = true;
      if (T08 && !cookiesBlocked && !others.length && w.chance(0.1)) {
        w.fault('cookies-cleared');
        w.browser.jar.list.length = 0;
        act = { last: -Infinity, tok: 0 };
      }
      // crashed in the middle of the replay of waiting events: whether the session was extended is not known
      if (!P.running && P.buffer.length && crashAt === ops) break;
      await w.runFor(w.weighted([[3, 200], [2, 10e3], [2, TIMEOUT + w.pick([-1, 0, 1, 5000])], [1, HOUR], [1, 20 * HOUR], [1, 50 * HOUR]]));
    }
  };
}

const meta = (id, rule, runs) => ({ run: rtbt(id), bundles: ['tag'], runs, rule, real: T.TAG_REAL, stubs: T.TAG_STUB });
module.exports = {
  T05: meta('T05', '1-4 visits to two origins with random rules and events, hides, unloads, crashes at storage writes, quota errors, bursts over the cap, malformed and old-format history', { quick: 12000, thorough: 100000 }),
  T06: meta('T06', 'as T05 with random DNF rules over sessions and rolling windows', { quick: 12000, thorough: 100000 }),
  T08: meta('T08', 'as T05; session ids of all events on both origins', { quick: 12000, thorough: 100000 }),
  T09: meta('T09', 'as T05 with slow, failing remote flags delaying start, events before and during start, bursts over 500', { quick: 9000, thorough: 80000 }),
};
