'use strict';
/**
 * The cross-subdomain relay: a hidden frame on another origin holds the events
 * of all subdomains. The frame is scripted here (store, latencies, losses,
 * errors, duplicates, silence), and other windows forge its messages.
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');
const { EventSim } = require('../lib/browser');
const { KEY, HOUR, CAP, TYPES, propsOf, typesOf, refEval, genSite, genRule, expectedMutations } = require('./lib-rtbt');

const RPC = 2000;
const READY = 'AMP_RELAY_READY';
const brief = (a) => (a.length > 12 ? `${a.slice(0, 3).join()},...(${a.length}),${a.slice(-3).join()}` : a.join());

async function t07(w) {
  const site = genSite(w);
  const remote = w.chance(0.3);
  const mix = remote ? L.netMix(w, { p: 0.5 }) : {};
  const mutR = [{ action: 'mutate', data: { mutations: [{ id: 'm-r1', selector: '#a', action: 'set' }] } }];
  const serverFlag = T.flag('fr', { mode: 'local', segments: [{ variant: 'treatment', conditions: T.behaves(['r1']) }], payloads: { treatment: mutR } });
  if (remote) {
    site.flags.push(T.flag('fr', { mode: 'remote', on: 'off', payloads: { treatment: mutR } }));
    site.pages.fr = { pr: T.pageObj('pr', 'url_change', {}, T.TRUE_COND) };
    site.rules.fr = { r1: genRule(w) };
    site.ids.r1 = site.rules.fr.r1;
    for (const t of typesOf(site.ids.r1)) site.allow.add(t);
  }
  const cookiesBlocked = w.chance(0.1);
  const consent = w.chance(0.35);
  const timeout = w.weighted([[2, undefined], [1, 20e3]]);
  const TIMEOUT = timeout || 30 * 60e3;
  const where = w.weighted([[3, 'us'], [1, 'eu'], [1, 'custom']]);
  const relayOrigin = { us: 'https://cdn.amplitude.com', eu: 'https://cdn.eu.amplitude.com', custom: 'https://relay.shop.com:8443' }[where];
  const relayCfg = where === 'eu' ? { serverZone: 'EU' } : where === 'custom' ? { relayUrl: relayOrigin + w.pick(['', '/', '//']) } : {};
  const relaySrc = `${relayOrigin}/script/${T.API}.relay.html`;
  const hosts = ['https://www.shop.com', 'https://app.shop.com'];

  const durable = {};
  // a refusal on one subdomain reaches another when that is loaded next, unless
  // the visitor has opted in and got a new identity meanwhile
  const erasedElsewhere = (origin) => {
    const names = w.browser.jar.names(new URL(origin).hostname);
    return names.includes(`EXP_${T.SLICE}_erased`) && !names.includes(`EXP_${T.SLICE}_identity`);
  };
  const known = new Map(); // n -> event
  const uuidOf = new Map(); // n -> uuid
  const relay = { map: new Map(), migrated: new Set() }; // uuid -> record
  let seq = 0;
  let tokSeq = 0;
  let act = { last: -Infinity, tok: 0 };
  const tokId = new Map();
  const idTok = new Map();
  let P = null;
  const tab = w.browser.newTab();

  w.hooks.cookie = (p, op) => (cookiesBlocked ? 'blocked' : undefined);
  w.hooks.server = (req) => {
    const r = T.parse(req);
    const plan = L.netPlan(w, mix, r.kind === 'flags' ? JSON.stringify([serverFlag]) : '{}', 1000);
    if (r.kind === 'flags' && P) {
      // the remote flag follows again once this request is over, if any has succeeded
      if (L.planOk(plan) && plan.delay < 1000) P.remoteOk = w.now + plan.delay;
      P.remoteBusy = w.now + 1001;
    }
    return plan;
  };
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));

  // ------------------------------------------------------------ local history
  w.hooks.storageWrote = (p, k, key, v) => {
    if (key !== KEY || !P || p !== P.page) return;
    if (v === null) {
      if (!P.withheld && !P.erase) w.flag('history-removed', 'the stored event history was removed');
      return;
    }
    if (P.withheld) return w.flag('stored-after-refusal', 'event history written after consent was refused');
    const st = JSON.parse(v);
    const got = st.events.map((e) => e.properties && e.properties.n);
    const want = P.M.map((e) => e.n);
    w.probe('history-written');
    const tie = P.cut !== null && P.M.length && P.M[0].ts === P.cut;
    if (tie ? got.length !== want.length : got.slice().sort((a, b) => a - b).join() !== want.slice().sort((a, b) => a - b).join())
      return w.flag('history-differs', `stored [${brief(got)}] but the union of this origin's and the relay's events is [${brief(want)}]`);
    for (let i = 0; i < st.events.length; i++) {
      const e = st.events[i];
      const m = known.get(e.properties.n);
      if (!m) return w.flag('foreign-event-adopted', JSON.stringify(e));
      if (e.event_type !== m.type || e.timestamp !== m.ts || JSON.stringify(e.properties) !== JSON.stringify(m.props))
        return w.flag('event-altered', `event ${JSON.stringify(e)} was ${JSON.stringify(m)}`);
      if (!uuidOf.has(m.n)) uuidOf.set(m.n, e.uuid);
      if (uuidOf.get(m.n) !== e.uuid) return w.flag('event-identity-changed', `event ${m.n} was ${uuidOf.get(m.n)}, is ${e.uuid}`);
      if (i && e.timestamp < st.events[i - 1].timestamp) return w.flag('history-unordered', `events ${brief(got)} are not in order of time`);
    }
    durable[p.url.origin] = got.slice();
    return undefined;
  };

  // ------------------------------------------------------------ relay frame
  w.hooks.iframe = (p, n) => {
    if (!P || p !== P.page) return;
    if (n.getAttribute('src') !== relaySrc) return w.flag('unexpected-frame', `frame ${n.getAttribute('src')} inserted, expected ${relaySrc}`);
    P.frames++;
    if (P.frames > 1) return w.flag('second-relay-frame', 'a second relay frame was inserted');
    P.frame = n;
    P.win = n.contentWindow;
    P.frameAt = w.now;
    const d = P.faulty ? w.pick([20, 0, 500, 1999, 2001, 3500, 3999, 4001, 6000, -1]) : w.pick([20, 0, 300]);
    if (d < 0) return w.fault('relay-silent');
    if (d > 1000) w.fault('relay-ready-late');
    const dup = P.faulty && w.chance(0.15);
    const msg = () => (w.chance(0.5) ? { type: READY } : READY);
    const go = () => {
      if (!P || P.page !== p || P.frame !== n || n.contentWindow === null) return;
      P.ready = true;
      if (P.sync === 'waiting') P.sync = w.now - P.frameAt < 2 * RPC ? 'syncing' : 'failed';
      deliver(p, msg(), relayOrigin, P.win);
    };
    w.schedule(d, go, { page: p, lane: 'relay', label: 'relay ready' });
    if (dup) {
      w.fault('relay-ready-twice');
      w.schedule(d + w.pick([0, 100, 2500]), go, { page: p, lane: 'relay', label: 'relay ready again' });
    }
    return undefined;
  };
  const deliver = (p, data, origin, source) => {
    const e = new EventSim('message', {});
    e.data = data;
    e.origin = origin;
    e.source = source;
    e.isTrusted = true;
    p.g.dispatchEvent(e);
  };
  const snapshot = () => ({ events: [...relay.map.values()].map((e) => ({ ...e })), nextId: relay.map.size + 1 });

  w.hooks.postToFrame = (p, n, m, origin) => {
    if (!P || p !== P.page || n !== P.frame) return;
    m = JSON.parse(JSON.stringify(m));
    w.log('relay:post', `${m.type}`);
    if (!P.ready) return w.flag('posted-before-ready', `${m.type} was posted before the relay was ready`);
    if (origin !== relayOrigin) return w.flag('posted-to-any-origin', `${m.type} was posted to ${origin}`);
    if (m.apiKey !== T.API) return w.flag('wrong-api-key', JSON.stringify(m.apiKey));
    const me = p.g.webExperiment.getExperimentClient().getUser().web_exp_id_v2;
    if (!m.web_exp_id_v2 || m.web_exp_id_v2 !== me) return w.flag('wrong-visitor', `relay asked for visitor ${m.web_exp_id_v2}, the visitor is ${me}`);
    if (typeof m.requestId !== 'string' || P.reqIds.has(m.requestId)) return w.flag('request-id-reused', JSON.stringify(m.requestId));
    P.reqIds.add(m.requestId);
    if (P.sync === 'failed') return w.flag('posted-after-failure', `${m.type} was posted although the relay had failed`);
    const carries = m.type === 'WRITE_EVENT' ? [m.payload.event] : m.type === 'MIGRATE_EVENTS' ? m.payload.store.events : [];
    if (P.withheld && carries.length) return w.flag('relayed-after-refusal', `${m.type} was posted after consent was refused`);
    for (const e of carries) {
      const k = e.properties && known.get(e.properties.n);
      if (!k || k.type !== e.event_type || k.ts !== e.timestamp) return w.flag('bogus-event-relayed', JSON.stringify(e));
      if (!uuidOf.has(k.n)) uuidOf.set(k.n, e.uuid);
      if (uuidOf.get(k.n) !== e.uuid) return w.flag('event-identity-changed', `event ${k.n} was ${uuidOf.get(k.n)}, is relayed as ${e.uuid}`);
    }
    if ((m.type === 'CHECK_MIGRATED' || m.type === 'MIGRATE_EVENTS') && m.payload.sourceOrigin !== p.url.origin)
      return w.flag('wrong-source-origin', JSON.stringify(m.payload.sourceOrigin));
    const essential = m.type !== 'WRITE_EVENT';
    const at = w.now;
    const f = P.faulty ? w.weighted([[9, 'ok'], [1, 'drop'], [1, 'drop-response'], [1, 'error'], [1, 'dup'], [1, 'malformed'], [1, 'slow']]) : 'ok';
    if (f !== 'ok') w.fault('relay-' + f);
    const d1 = w.pick([0, 10, 700]);
    const d2 = f === 'slow' ? w.pick([1500, 1999, 2001, 2600]) : w.pick([5, 0, 300]);
    if (essential && (f === 'drop' || f === 'drop-response' || d1 + d2 > RPC))
      w.schedule(RPC, () => P && P.page === p && P.sync === 'syncing' && (P.sync = 'failed'), { lane: 'relay', label: 'rpc lost' });
    if (f === 'drop') return undefined;
    w.schedule(
      d1,
      () => {
        let payload = {};
        if (f !== 'error') {
          if (m.type === 'WRITE_EVENT') put(m.payload.event);
          else if (m.type === 'MIGRATE_EVENTS') {
            m.payload.store.events.forEach(put);
            relay.migrated.add(m.payload.sourceOrigin);
          } else if (m.type === 'CHECK_MIGRATED') payload = { migrated: relay.migrated.has(m.payload.sourceOrigin) };
          else if (m.type === 'READ_EVENTS') payload = snapshot();
          else return w.flag('unknown-request', m.type);
        }
        if (f === 'drop-response') return undefined;
        let bad = false;
        if (f === 'malformed' && essential) {
          bad = m.type === 'READ_EVENTS';
          payload = w.pick(bad ? [null, {}, { events: null }, { events: [null], nextId: 1 }, 'x', { events: [] }, { events: [], nextId: 'x' }, { events: [], nextId: null }] : [null, {}, 'x']);
        }
        const answer = () => {
          if (!P || P.page !== p || P.frame.contentWindow === null) return;
          const first = !P.answered.has(m.requestId) && w.now - at < RPC;
          P.answered.add(m.requestId);
          if (first && essential && P.sync === 'syncing') {
            if (f === 'error') P.sync = 'failed';
            else if (m.type === 'READ_EVENTS') {
              if (bad) P.sync = 'unknown';
              else {
                P.sync = 'ok';
                merge(payload.events);
              }
            }
          }
          deliver(p, f === 'error' ? { requestId: m.requestId, ok: false, error: 'quota' } : { requestId: m.requestId, ok: true, payload }, relayOrigin, P.win);
        };
        w.schedule(d2, answer, { page: p, lane: 'relay', label: `relay answers ${m.type}` });
        if (f === 'dup') w.schedule(d2 + w.pick([0, 100, 2500]), answer, { page: p, lane: 'relay', label: `relay answers ${m.type} again` });
        return undefined;
      },
      { page: p, lane: 'relay', label: `relay handles ${m.type}` },
    );
    return undefined;
  };
  const put = (e) => {
    if (!relay.map.has(e.uuid)) relay.map.set(e.uuid, e);
  };
  const merge = (events) => {
    const have = new Set(P.M.map((e) => e.n));
    for (const e of events) if (!have.has(e.properties.n)) P.M.push(known.get(e.properties.n));
    P.M.sort((a, b) => a.ts - b.ts);
    if (P.M.length > CAP) {
      P.cut = P.M[P.M.length - CAP - 1].ts;
      P.M = P.M.slice(-CAP);
    }
    P.merged = true;
    P.dirty = true;
    P.lastAdd = w.now;
    evalAll();
  };
  const session = (now) => {
    const a = cookiesBlocked ? P.act : act;
    return now - a.last <= TIMEOUT ? a.tok : -1;
  };
  const evalAll = () => {
    const now = P.page.dateNow();
    for (const id of Object.keys(site.ids)) P.exact[id] = refEval(site.ids[id], P.M, now, session(now));
  };

  // ------------------------------------------------------------ events
  const modelTrack = (type, props) => {
    const now = P.page.dateNow();
    const a = cookiesBlocked ? P.act : act;
    if (!(now - a.last <= TIMEOUT)) a.tok = ++tokSeq;
    a.last = now;
    if (!site.allow.has(type)) return;
    const e = { n: props.n, type, props, ts: now, tok: a.tok };
    known.set(e.n, e);
    P.M.push(e);
    if (P.M.length > CAP) P.M = P.M.slice(-CAP);
    P.lastAdd = w.now;
    P.dirty = true;
    for (const id of Object.keys(site.ids)) if (typesOf(site.ids[id]).has(type)) P.exact[id] = refEval(site.ids[id], P.M, now, a.tok);
  };
  const flushModel = () => {
    if (!P || P.running || !P.page.alive) return;
    const c = P.page.g.webExperiment;
    if (!c || !c.isRunning) return;
    P.running = true;
    for (const e of P.buffer) modelTrack(e.type, e.props);
    P.buffer = [];
    if (P.sync === 'none' && P.frame) P.sync = 'waiting';
  };
  w.hooks.afterStep = () => {
    flushModel();
    if (P && P.sync === 'waiting' && w.now - P.frameAt >= 2 * RPC) P.sync = 'failed';
  };
  const track = () => {
    const type = w.weighted([[6, w.pick(TYPES)], [1, 'other']]);
    const props = propsOf(++seq, w.pick(['free', 'pro']));
    flushModel();
    w.op('event', `${type}#${props.n}${P.running ? '' : ' starting'}`);
    if (P.running) modelTrack(type, props);
    else P.buffer.push({ type, props });
    P.plugin.execute({ event_type: type, event_properties: props });
  };
  const forge = () => {
    const evil = { postMessage: () => w.flag('posted-to-wrong-window', 'a message was posted to another window') };
    const right = w.chance(0.5);
    // never both right: that would be the relay itself
    const origin = right ? w.pick(['https://evil.example', P.page.url.origin, relayOrigin + '.evil.example', 'null', relayOrigin.replace('https', 'http')]) : relayOrigin;
    const source = right && P.win ? P.win : w.pick([evil, P.page.g, null]);
    const bogus = { uuid: 'forged-' + seq, id: 1, event_type: w.pick(TYPES), timestamp: P.page.dateNow(), session_id: '1', properties: { n: 'forged', plan: 'pro' } };
    const reqId = P.reqIds.size ? [...P.reqIds][w.choose(P.reqIds.size)] : 'x';
    const data = w.pick([READY, { type: READY }, { requestId: reqId, ok: true, payload: { events: [bogus], nextId: 2 } }, { requestId: reqId, ok: false, error: 'no' }, { requestId: reqId, ok: true, payload: { migrated: true } }]);
    w.fault('forged-message');
    deliver(P.page, data, origin, source);
  };

  const settle = async () => {
    await w.drain();
    flushModel();
    if (!P.page.alive || !P.running) return;
    if (P.sync === 'unknown') P.sync = P.frame.parentNode ? 'ok' : 'failed';
    w.check(P.frame || P.withheld || P.erase, 'relay-not-asked', 'the client runs but has not inserted the relay frame');
    if (P.sync === 'waiting' || P.sync === 'syncing') {
      const t = w.now - P.frameAt;
      w.check(t <= (P.everFaulty ? 10100 : 3500), 'relay-not-asked', `the relay ${P.everFaulty ? '' : 'works but '}has not been read ${t} ms after its frame was inserted`);
    }
    if (P.sync === 'failed') {
      w.probe('sync-failed');
      w.check(!P.frame.parentNode, 'dead-relay-kept', 'the relay failed but its frame is still in the document');
    }
    if (P.sync === 'ok') {
      w.probe('synced');
      w.check(!!P.frame.parentNode, 'relay-dropped', 'the relay works but its frame was removed');
    }
    if (P.withheld) return;
    const c = P.page.g.webExperiment;
    const now = P.page.dateNow();
    const seen = c.getExperimentClient().getUser().behavioral_targeting || [];
    for (const id of Object.keys(site.ids)) {
      const on = seen.includes(id);
      const fresh = refEval(site.ids[id], P.M, now, session(now));
      if (on !== P.exact[id] && on !== fresh)
        w.fail('behaviour-wrong', `${id} is ${on ? 'matched' : 'not matched'} but ${JSON.stringify(site.ids[id])} is ${P.exact[id]} over [${P.M.map((e) => `${e.type}${e.props.plan === 'pro' ? '*' : ''}@${e.ts - now}`).slice(-12).join(' ')}]`);
    }
    const live = [...P.page.live.values()].map((m) => m.id).filter((m) => m !== 'm-r1').sort();
    const want = expectedMutations(new Set(seen)).sort();
    w.check(live.join() === want.join(), 'variant-not-following', () => `behaviours [${seen}] but live mutations [${live}], expected [${want}]`);
    if (remote && w.now > P.remoteOk && w.now > P.remoteBusy) {
      const r = [...P.page.live.values()].some((m) => m.id === 'm-r1');
      w.check(r === seen.includes('r1'), 'variant-not-following', () => `behaviours [${seen}] but the remote flag's mutation is ${r ? '' : 'not '}live`);
    }
    if (P.merged && seen.length) w.probe('behaviour-after-merge');
  };

  // what sibling subdomains already left in the relay
  const pre = w.weighted([[3, 0], [3, w.int(1, 4)], [1, w.int(CAP - 8, CAP + 8)]]);
  for (let i = 0; i < pre; i++) {
    const n = ++seq;
    const type = w.weighted([[4, w.pick(TYPES)], [1, 'sibling']]);
    const e = { n, type, props: propsOf(n, w.pick(['free', 'pro'])), ts: w.now - (pre - i) * (pre > 9 ? 700 : 20 * 60e3), tok: -2 };
    known.set(n, e);
    uuidOf.set(n, 'sib-' + n);
    relay.map.set('sib-' + n, { uuid: 'sib-' + n, id: i + 1, event_type: type, timestamp: e.ts, session_id: 's1', properties: e.props });
  }
  if (pre) w.probe('relay-prefilled');
  if (w.chance(0.15)) relay.migrated.add(hosts[0]);
  // what earlier versions left at an origin: events without an identity of their own
  for (const h of hosts) {
    if (!w.chance(0.25)) continue;
    const events = [];
    for (let i = w.int(1, 4); i > 0; i--) {
      const n = ++seq;
      const type = w.pick(TYPES);
      const e = { n, type, props: propsOf(n, w.pick(['free', 'pro'])), ts: w.now - i * w.pick([60e3, HOUR]) , tok: -3 };
      known.set(n, e);
      events.push({ id: events.length + 1, event_type: type, timestamp: e.ts, session_id: 's0', properties: e.props, ...(w.chance(0.3) ? { uuid: '' } : {}) });
    }
    events.sort((a, b) => a.timestamp - b.timestamp);
    durable[h] = events.map((e) => e.properties.n);
    w.browser.localArea(h).map.set(KEY, JSON.stringify({ events, nextId: events.length + 1 }));
    w.probe('history-without-ids');
  }

  const visits = w.int(1, 4);
  for (let v = 0; v < visits; v++) {
    const origin = w.pick(hosts);
    const erase = !cookiesBlocked && erasedElsewhere(origin);
    if (erase) durable[origin] = [];
    const page = T.openPage(w, tab, { url: `${origin}/p${v}` });
    T.integration(w, page, {});
    P = {
      page, M: (durable[origin] || []).map((n) => known.get(n)), cut: null, buffer: [], running: false, exact: {}, act: { last: -Infinity, tok: 0 }, lastAdd: -Infinity,
      frame: null, win: null, frames: 0, ready: false, sync: 'none', reqIds: new Set(), answered: new Set(), faulty: w.chance(0.6), withheld: false, remoteOk: Infinity, remoteBusy: Infinity, merged: false, erase,
    };
    P.everFaulty = P.faulty;
    w.op('visit', origin);
    const config = { ...relayCfg, ...(timeout ? { rtbtSessionTimeout: timeout } : {}), ...(consent ? { consentOptions: { consentRequired: true, consentStatus: 'granted' } } : {}) };
    const x = T.start(w, page, { ...site, config, noInit: true });
    P.plugin = x.tag.createPlugin();
    if (w.chance(0.2)) track();
    evalAll();
    const t0 = w.now;
    page.init();
    await settle();
    for (let n = w.int(2, 9); n > 0; n--) {
      await w.runFor(w.weighted([[3, 0], [3, 30], [3, 400], [2, 1100], [2, 2500]]));
      await settle();
      if (w.now - t0 > 1100) w.check(P.running, 'start-blocked', 'the client is not running 1.1 s after initialization');
      const k = w.weighted([[7, 'track'], [2, 'forge'], [1, 'hide'], [1, 'spa'], [consent && !P.withheld ? 0.7 : 0, 'refuse']]);
      if (k === 'track') {
        for (let i = w.weighted([[4, 1], [1, 3]]); i > 0; i--) track();
        await settle();
      } else if (k === 'forge') {
        forge();
        await settle();
      } else if (k === 'hide') {
        w.op('hide');
        page.g.document.visibilityState = 'hidden';
        page.g.document.dispatchEvent(T.ev('visibilitychange'));
        page.g.document.visibilityState = 'visible';
      } else if (k === 'spa') {
        w.op('spa');
        T.spa(page, `/s${w.choose(3)}`);
        await settle();
      } else if (k === 'refuse') {
        w.op('refuse');
        P.withheld = true;
        P.sync = 'withheld';
        P.M = [];
        durable[page.url.origin] = [];
        act = { last: -Infinity, tok: 0 };
        x.tag.setConsentStatus('denied');
        await settle();
      }
    }
    // the network heals; what the client still owes is delivered when the tab is hidden
    const rest = w.pick([0, 4100, 9000]);
    await w.runFor(rest);
    await settle();
    const lostNow = () => {
      const have = new Set([...relay.map.values()].map((e) => e.properties.n));
      return P.M.filter((e) => !have.has(e.n));
    };
    if (rest === 9000 && !P.faulty && P.sync === 'ok' && !P.withheld && page.alive) {
      // a relay which works needs no help: siblings see the events although this page never gets to say goodbye
      w.check(lostNow().length === 0, 'event-not-relayed', () => `events ${lostNow().map((e) => e.n)} have not reached a relay which answers everything at once`);
      w.probe('relayed-at-once');
    }
    if (w.chance(0.7)) {
      P.faulty = false;
      await w.runFor(600);
      await settle();
      w.op('hide', 'healed');
      page.g.document.visibilityState = 'hidden';
      page.g.document.dispatchEvent(T.ev('visibilitychange'));
      const owed = P.M.slice();
      const ok = P.sync === 'ok' && !P.withheld;
      if (!P.withheld) {
        const d = durable[page.url.origin] || [];
        w.check(d.slice().sort((a, b) => a - b).join() === owed.map((e) => e.n).sort((a, b) => a - b).join() || P.cut !== null, 'history-not-durable', () => `hidden: stored [${brief(d)}] but the history is [${brief(owed.map((e) => e.n))}]`);
      }
      await w.runFor(1500);
      await settle();
      if (ok) {
        const have = new Set([...relay.map.values()].map((e) => e.properties.n));
        const lost = owed.filter((e) => !have.has(e.n));
        w.check(lost.length === 0, 'event-never-relayed', () => `events ${lost.map((e) => e.n)} never reached the relay`);
        w.probe('all-relayed');
      }
    }
    w.op('leave');
    if (w.chance(0.5)) page.g.dispatchEvent(T.ev('beforeunload'));
    else w.fault('crash');
    page.kill('left');
    w.interleaved = true;
    await w.runFor(w.weighted([[3, 200], [2, 10e3], [2, TIMEOUT + 5000], [1, HOUR], [1, 30 * HOUR]]));
  }
}

module.exports = {
  T07: { run: t07, bundles: ['tag'], runs: { quick: 12000, thorough: 100000 }, rule: '1-4 visits to two subdomains sharing a relay frame with late, silent, lossy, failing, duplicating, malformed answers, forged messages, refusals', real: T.TAG_REAL, stubs: T.TAG_STUB },
};
