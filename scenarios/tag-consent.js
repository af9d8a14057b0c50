'use strict';
const L = require('./lib-sdk');
const T = require('./lib-tag');

const OTHER = 'client-otherotherother9';
/** data of other owners that a sweep must leave alone */
const FOREIGN_LOCAL = { site_pref: 'dark', 'EXP_client-oth': '{"web_exp_id":"z"}', EXP_unsent_second: '[]' };
const FOREIGN_SESSION = { cart: '1', 'amp-exp-$default_instance-web-other9': '{"a":1}' };
const FOREIGN_COOKIES = ['theme=dark; path=/; domain=.shop.com', 'AMP_MKTG_client-tag=eyJ; path=/; domain=.shop.com'];
/** written by experiment-browser itself, which the tag does not gate (see clear-data.ts) */
const SDK_OWN = /^(amp-exp-|EXP_sent|EXP_unsent_)|_DEFAULT_USER_PROVIDER$/;
const MARKER = /_erased$/;
const PROBE = /^(EXP_test|AMP_TLD_?TEST.*)$/;

/** Reference model of the consent gate of one page. */
class Gate {
  constructor() {
    this.status = 'pending';
    this.explicit = false;
    this.gated = false;
    this.started = false;
    this.deferred = null;
    this.launched = null;
    this.sweeps = 0;
  }
  apply(s) {
    if (s === this.status || s === 'pending') return;
    this.status = s;
    if (s === 'denied' && this.armed) this.sweeps++;
  }
  launch(args) {
    this.started = true;
    this.launched = args;
  }
  init(required, status, args) {
    if (this.started) return;
    const gated = required || this.deferred !== null;
    this.gated = this.gated || gated;
    if (!gated) return this.launch(args);
    if (!this.explicit) this.apply(['granted', 'denied', 'pending'].includes(status) ? status : 'pending');
    if (!this.armed) {
      this.armed = true;
      if (this.status === 'denied') this.sweeps++;
    }
    if (this.status !== 'granted') {
      this.deferred = args;
      return undefined;
    }
    this.deferred = null;
    return this.launch(args);
  }
  set(s) {
    if (!['granted', 'denied', 'pending'].includes(s)) return;
    this.explicit = true;
    this.apply(s);
    if (this.status === 'granted' && this.deferred && !this.started) {
      const d = this.deferred;
      this.deferred = null;
      this.launch(d);
    }
  }
  get withheld() {
    return this.gated && this.status !== 'granted';
  }
}

/** A site: the experiments of version v. */
function siteConfig(v, o) {
  const mut = (id) => ({ action: 'mutate', data: { mutations: [{ id, selector: '#a', action: 'set' }] } });
  const flags = [T.flag(`f-mut-${v}`, { on: 'treatment', payloads: { treatment: [mut(`m-${v}`)] } })];
  const pages = { [`f-mut-${v}`]: { p1: T.pageObj('p1', 'url_change', {}, T.TRUE_COND) } };
  let rules;
  if (o.behaviors) {
    flags.push(
      T.flag(`f-bhv-${v}`, {
        segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }],
        payloads: { treatment: [mut(`mb-${v}`)] },
      }),
    );
    pages[`f-bhv-${v}`] = { p2: T.pageObj('p2', 'url_change', {}, T.TRUE_COND) };
    rules = { [`f-bhv-${v}`]: { b1: [[{ condition: { type: 'behavior', event_type: 'purchase', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 30, interval: 'day' } }]] } };
  }
  if (o.remote) {
    flags.push(T.flag(`f-rem-${v}`, { mode: 'remote', blocking: o.blocking, on: 'treatment', payloads: { treatment: [mut(`mr-${v}`)] } }));
    pages[`f-rem-${v}`] = { p3: T.pageObj('p3', 'url_change', {}, T.TRUE_COND) };
  }
  if (o.redirect) {
    flags.push(
      T.flag(`f-red-${v}`, { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://www.shop.com/landed?x=1' } }] } }),
    );
    pages[`f-red-${v}`] = { p4: T.pageObj('p4', 'url_change', {}, T.urlCond('/go')) };
  }
  return { flags, pages, rules };
}

function seedForeign(w) {
  for (const h of ['www', 'app']) {
    const a = w.browser.localArea(`https://${h}.shop.com`);
    for (const k of Object.keys(FOREIGN_LOCAL)) a.map.set(k, FOREIGN_LOCAL[k]);
  }
  for (const c of FOREIGN_COOKIES) w.browser.jar.write(new URL('https://www.shop.com/'), c);
}
function checkForeign(w, tab) {
  for (const h of ['www', 'app']) {
    const a = w.browser.localArea(`https://${h}.shop.com`);
    for (const k of Object.keys(FOREIGN_LOCAL))
      w.check(a.map.get(k) === FOREIGN_LOCAL[k], 'foreign-data-touched', () => `localStorage ${k} on ${h} is ${a.map.get(k)}`);
    if (tab.session.has(`https://${h}.shop.com`)) {
      const s = tab.session.get(`https://${h}.shop.com`);
      for (const k of Object.keys(FOREIGN_SESSION))
        if (s.foreign) w.check(s.map.get(k) === FOREIGN_SESSION[k], 'foreign-data-touched', () => `sessionStorage ${k} on ${h} is ${s.map.get(k)}`);
    }
  }
  const names = w.browser.jar.names('www.shop.com');
  for (const c of FOREIGN_COOKIES)
    w.check(names.includes(c.split('=')[0]), 'foreign-data-touched', () => `cookie ${c.split('=')[0]} is gone`);
}

/**
 * One simulated history of a visitor: page loads on two subdomains, a consent
 * banner answering at any moment, repeated initialize calls, analytics events.
 * prop selects which guarantees are asserted.
 */
function history(prop) {
  return async (w) => {
    const tab = w.browser.newTab();
    const opt = {
      behaviors: w.chance(0.6),
      remote: w.chance(0.4),
      blocking: w.chance(0.5),
      redirect: w.chance(0.4),
    };
    const instanceName = w.weighted([[3, undefined], [1, 'shop']]);
    const quotaP = w.chance(0.25) ? w.pick([0.1, 0.5]) : 0;
    const mix = L.netMix(w, { p: 0.3 });
    seedForeign(w);
    const deep = w.chance(0.2);
    let page = null;
    let gate = null;
    let nextUrl = null;
    let crashAt = -1;
    let sets = 0;
    let crashOps = 0;
    let denialSeq = 0; // how many refusals so far
    const written = new Map(); // place -> Map(key -> denialSeq at write)
    const place = (p, k) => `${k}@${p.url.origin}`;
    const noteWrite = (pl, key) => {
      if (!written.has(pl)) written.set(pl, new Map());
      written.get(pl).set(key, denialSeq);
    };
    // cookies which earlier visits left at whichever domain level accepted them then
    if (w.chance(0.25))
      for (const [u, d] of [['https://www.shop.com/', '.shop.com'], ['https://www.shop.com/', ''], ['https://x.app.shop.com/', '.app.shop.com'], ['https://x.app.shop.com/', '.shop.com']])
        for (const n of [`EXP_${T.SLICE}_identity`, `EXP_${T.SLICE}_rtbt_session`, `AMP_MKTG_ORIGINAL_${T.SLICE}`, `EXP_${T.SLICE}_REDIRECT`]) {
          if (!w.chance(0.25)) continue;
          const url = new URL(u);
          w.browser.jar.write(url, `${n}=x; path=/${d ? `; domain=${d}` : ''}`);
          noteWrite('cookie', `${n}|${d ? d.slice(1) : url.hostname}`);
          w.probe('older-cookies');
        }
    w.hooks.storage = (p, k, op, key) => {
      if (p !== page) return undefined;
      if (op === 'remove' || op === 'set') {
        crashOps++;
        if (crashOps === crashAt) {
          w.fault('crash-at-storage-op');
          p.kill('crashed');
          return 'dead';
        }
      }
      if (!gate.started && prop === 'T01' && !(op === 'remove' && gate.status === 'denied'))
        w.flag('storage-before-consent', `${k}.${op}(${key}) while the client has not started (status ${gate.status})`);
      if (op === 'set') {
        sets++;
        if (prop === 'T03' && gate.withheld && gate.started && !SDK_OWN.test(key) && !PROBE.test(key))
          w.flag('stored-after-refusal', `${k} ${key} written after consent was refused`);
        if (quotaP && !PROBE.test(key) && w.chance(quotaP)) {
          w.fault('storage-quota');
          throw L.quota();
        }
      }
      return undefined;
    };
    w.hooks.storageWrote = (p, k, key, v) => {
      if (v !== null && !PROBE.test(key)) noteWrite(place(p, k), key);
      // what waits there would be sent after a later grant, or by another client of the site
      if (prop === 'T03' && p === page && v && v !== '[]' && /^EXP_unsent_/.test(key) && gate.withheld && gate.started) w.flag('kept-after-refusal', `an impression made after the refusal is kept for later: ${v.slice(0, 200)}`);
    };
    w.hooks.cookie = (p, op, v) => {
      if (p !== page || op === 'get') return undefined;
      const name = v.split('=')[0];
      const exp = /expires=([^;]+)/.exec(v);
      const dele = !!exp && Date.parse(exp[1]) <= w.now;
      if (!gate.started && prop === 'T01' && !(gate.status === 'denied' && (dele || MARKER.test(name))))
        w.flag('cookie-before-consent', `cookie ${v.slice(0, 50)} written while the client has not started (status ${gate.status})`);
      if (prop === 'T03' && gate.withheld && gate.started && !dele && !MARKER.test(name) && !PROBE.test(name))
        w.flag('stored-after-refusal', `cookie ${name} written after consent was refused`);
      return undefined;
    };
    w.hooks.cookieWrote = (p, c) => {
      if (!c.deleted && !MARKER.test(c.name) && !PROBE.test(c.name)) noteWrite('cookie', `${c.name}|${c.domain}`);
    };
    w.hooks.server = (req) => {
      if (req.page === page && !gate.started && prop === 'T01')
        w.flag('request-before-consent', `${req.method} ${req.url} while the client has not started`);
      const r = T.parse(req);
      return L.netPlan(w, mix, r.kind === 'flags' ? '[]' : '{}', 1000);
    };
    w.hooks.mutation = (p, what, m) => {
      if (p === page && !gate.started && prop === 'T01') w.flag('variant-before-consent', `mutation ${m.id} applied while the client has not started`);
    };
    w.hooks.navigate = (p, u) => {
      if (p !== page) return;
      if (!gate.started && prop === 'T01') w.flag('redirect-before-consent', `navigated to ${u.href}`);
      nextUrl = u.href;
    };
    w.hooks.pageError = (p, e) => {
      if (/quota/i.test(String(e && e.message))) return;
      w.flag('uncaught-error', String(e && e.stack));
    };

    const allowed = {}; // per origin: purchases made with consent since the last refusal there
    const purchase = () => page.x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });

    /** everything ever stored before the refusal must be gone from this origin */
    const checkErased = (why) => {
      const origin = page.url.origin;
      const left = [];
      for (const k of ['local', 'session']) {
        const area = k === 'local' ? w.browser.localArea(origin) : tab.session.get(origin);
        const ks = written.get(`${k}@${origin}`);
        if (ks && area) for (const key of ks.keys()) if (area.map.has(key)) left.push(`${k}:${key}`);
      }
      const ck = written.get('cookie');
      if (ck)
        for (const id of ck.keys()) {
          const [n, d] = id.split('|');
          if (page.url.hostname === d || page.url.hostname.endsWith('.' + d))
            if (w.browser.jar.list.some((c) => c.name === n && c.domain === d)) left.push(`cookie:${n}@${d}`);
        }
      w.check(left.length === 0, 'data-survives-refusal', () => `${why}: still stored ${left.join(', ')}`);
      checkForeign(w, tab);
    };

    let version = 0; // every initialize call carries its own flag keys
    const visits = w.int(1, 4);
    for (let vi = 0; vi < visits; vi++) {
      const url = nextUrl || w.pick(deep ? ['https://x.app.shop.com/', 'https://www.shop.com/'] : ['https://www.shop.com/', 'https://www.shop.com/go', 'https://app.shop.com/?utm_source=mail']);
      nextUrl = null;
      gate = new Gate();
      crashAt = -1;
      page = null;
      const pg = T.openPage(w, tab, { url, referrer: vi ? '' : 'https://ref.example/' });
      page = pg;
      const sess = w.browser.sessionArea(tab, pg.url.origin);
      if (!sess.foreign) {
        sess.foreign = true;
        for (const k of Object.keys(FOREIGN_SESSION)) sess.map.set(k, FOREIGN_SESSION[k]);
      }
      const it = T.integration(w, pg, {
        onTrack: (ev) => {
          if (!gate.started && prop === 'T01') w.flag('tracked-before-consent', `event ${ev.eventType}`);
          if (gate.withheld && gate.started && prop === 'T03') w.flag('tracked-after-refusal', `event ${ev.eventType} reached the integration after refusal`);
        },
        accept: () => !rejecting,
        // analytics may take its time, and what is tracked meanwhile waits
        ...(prop === 'T03' && w.chance(0.3) ? { setup: () => new Promise((done) => pg.g.setTimeout(done, 600)) } : {}),
      });
      let rejecting = w.chance(0.2);
      const nodes = () => pg.g.document.getElementsByTagName ? pg.g.document.querySelectorAll('*').length : 0;
      const x = T.start(w, pg, { noInit: true });
      const baseNodes = nodes();
      let firstClient = null;
      // purchases this page's running client took part in; a running client does not follow the
      // consent status, so a refusal does not undo what it has seen on this page
      let liveSeen = 0;
      let liveHere = 0;
      let waiting = 0; // purchases before anything was initialised
      const begun = () => {
        allowed[pg.url.origin] = (allowed[pg.url.origin] || 0) + waiting;
        liveSeen += allowed[pg.url.origin];
        waiting = 0;
      };
      let refusedHere = false;
      const windowCfg = w.chance(0.25);
      const settle = async () => {
        await w.drain();
        if (!gate.started && prop === 'T01') {
          w.check(nodes() === baseNodes, 'dom-before-consent', 'the document was changed before consent');
          w.check(!T.hidden(pg), 'hidden-before-consent', 'the page is hidden before consent');
          w.check(!pg.g.webExperiment || pg.g.webExperiment.isStub, 'client-before-consent', 'a client exists before consent');
        }
        if (prop === 'T02' && gate.started && pg.alive) {
          const c = pg.g.webExperiment;
          if (c && !c.isStub) {
            if (!firstClient) firstClient = c;
            w.check(c === firstClient, 'second-client', 'a second client was constructed');
          }
        }
      };
      const doInit = () => {
        const required = w.weighted([[5, true], [1, false]]);
        const status = w.weighted([[5, undefined], [3, 'granted'], [2, 'denied'], [1, 'pending'], [1, 'yes']]);
        const cs = {};
        if (required) cs.consentRequired = true;
        if (status) cs.consentStatus = status;
        version++;
        const site = siteConfig(version, opt);
        w.op('initialize', `${required} ${status}`);
        const before = gate.sweeps;
        const cfg = { consentOptions: cs, ...(instanceName ? { instanceName } : {}) };
        if (windowCfg) pg.g.experimentConfig = cfg;
        // the model first: the hooks consult it while the call runs
        const was = gate.started;
        gate.init(required, status, version);
        if (gate.started && !was) begun();
        if (gate.withheld) waiting = 0;
        if (gate.sweeps > before) {
          denialSeq++;
        }
        T_init(x, site, windowCfg ? {} : cfg);
        if (gate.sweeps > before && pg.alive && prop === 'T03') checkErased('refused in the configuration');
        if (gate.sweeps > before) erased();
      };
      const T_init = (xx, site, config) =>
        xx.tag.initialize(
          T.API,
          {
            initialFlags: JSON.stringify(site.flags),
            pageObjects: JSON.stringify(site.pages),
            ...(site.rules ? { behavioralTargetingRules: JSON.stringify(site.rules) } : {}),
          },
          config,
        );
      const erased = () => {
        refusedHere = true;
        if (!pg.alive) return; // crashed while erasing
        allowed[pg.url.origin] = 0;
      };
      const doSet = () => {
        const s = w.weighted([[5, 'granted'], [4, 'denied'], [1, 'pending'], [1, 'GRANTED']]);
        const before = gate.sweeps;
        w.op('setConsentStatus', s);
        const was = gate.started;
        gate.set(s);
        if (gate.started && !was) begun();
        if (gate.withheld) waiting = 0;
        if (gate.sweeps > before) denialSeq++;
        const f = w.chance(0.5) && pg.g.webExperiment ? (v) => pg.g.webExperiment.setConsentStatus(v) : x.tag.setConsentStatus;
        f(s);
        if (gate.sweeps > before) {
          if (pg.alive && prop === 'T03') checkErased('refused at runtime');
          erased();
        }
      };
      const doEvent = () => {
        const running = pg.g.webExperiment && pg.g.webExperiment.isRunning;
        w.op('event', running ? 'running' : gate.deferred !== null && !gate.started ? 'deferred' : 'starting');
        if (!running && !gate.started && gate.deferred !== null) w.probe('event-while-deferred');
        else if (!gate.withheld && !gate.started) {
          waiting++;
          w.probe('event-before-initialize');
        } else if (!gate.withheld) allowed[pg.url.origin] = (allowed[pg.url.origin] || 0) + 1;
        if (gate.started) {
          liveSeen++;
          if (running) liveHere++;
        }
        purchase();
      };
      if (w.chance(0.2)) crashAt = crashOps + 1 + w.choose(40);
      const n = w.int(1, 7);
      if (w.chance(0.2)) doEvent();
      for (let i = 0; i < n && pg.alive && !nextUrl; i++) {
        const act = w.weighted([[4, doInit], [4, doSet], [3, doEvent]]);
        if (i === 0 && w.chance(0.8)) doInit();
        else act();
        await settle();
        await w.runFor(w.weighted([[3, 0], [2, 30], [2, 700], [1, 2500]]));
        await settle();
        if (w.chance(0.2)) rejecting = false;
        if (pg.alive && w.chance(0.15)) {
          w.op('hide');
          pg.g.document.visibilityState = 'hidden';
          pg.g.document.dispatchEvent(T.ev('visibilitychange'));
          pg.g.document.visibilityState = 'visible';
        }
      }
      if (!pg.alive) continue;
      rejecting = false;
      if (nextUrl) {
        await w.runFor(5);
        continue;
      }
      await w.runFor(9000);
      await settle();
      if (nextUrl || !pg.alive) continue;
      if (prop === 'T02') {
        const c = pg.g.webExperiment;
        if (gate.started) {
          w.probe('started');
          w.check(c && !c.isStub && c.isRunning, 'granted-not-started', 'consent is granted but the client is not running 9 s later');
          const ids = [...pg.live.values()].map((m) => m.id);
          const vs = new Set(ids.map((s) => s.split('-')[1]));
          w.check(
            ids.length === new Set(ids).size && vs.size <= 1,
            'started-twice',
            () => `live mutations ${ids.join(', ')}`,
          );
          w.check(ids.includes(`m-${gate.launched}`), 'wrong-arguments', () => `started with live mutations [${ids}] but the arguments in force were version ${gate.launched}`);
          const seen = {};
          for (const e of it.events) {
            const k = e.ev.eventProperties.flag_key + ' ' + e.ev.eventProperties.variant;
            if (quotaP || !k.includes(`-${gate.launched} `)) continue; // queued by an earlier page; a queue that could not be stored is sent again
            seen[k] = (seen[k] || 0) + 1;
            w.check(seen[k] === 1, 'tracked-twice', `impression of ${k} tracked ${seen[k]} times on one page`);
          }
          if (opt.behaviors && !quotaP) {
            const has = ids.includes(`mb-${gate.launched}`);
            if (!allowed[pg.url.origin] && !liveSeen) w.check(!has, 'pre-consent-event-replayed', 'a purchase seen while consent was withheld counts for targeting');
            else if (liveHere && !refusedHere) {
              w.probe('purchase-counts');
              w.check(has, 'consented-event-lost', 'a purchase made with consent on this page does not count for targeting');
            }
          }
        } else {
          w.check(!c || c.isStub, 'started-without-grant', 'a client started without a grant');
          w.check(pg.live.size === 0, 'started-without-grant', 'variants are applied without a grant');
          w.probe('not-started');
        }
      }
      if (gate.withheld && gate.status === 'denied' && !gate.started && prop === 'T03') checkErased('at the end of a visit refused throughout');
      if (w.chance(0.5)) {
        pg.g.dispatchEvent(T.ev('beforeunload'));
        await w.drain();
      }
      if (prop === 'T03' && opt.behaviors && !quotaP) {
        // only what a consenting visitor did since the last refusal may be on the device
        const raw = w.browser.localArea(pg.url.origin).map.get(`EXP_${T.SLICE}_rtbt_events`);
        if (raw) {
          const got = JSON.parse(raw).events.length;
          w.check(got <= (allowed[pg.url.origin] || 0), 'refused-events-stored', () => `${got} events are stored, only ${allowed[pg.url.origin] || 0} were recorded with consent since the last refusal`);
        }
      }
      w.interleaved = true;
    }
  };
}

/** T04: one visitor identity per registrable domain, until the visitor refuses. */
async function t04(w) {
  // the suffix of the site: known to the client, or only to the browser
  const apex = w.weighted([[4, 'shop.com'], [1, 'shop.co.uk'], [2, 'shop.com.ph']]);
  if (apex === 'shop.com.ph') w.probe('suffix-known-to-the-browser-only');
  const hosts = ['www.' + apex, 'app.' + apex, apex];
  const tabs = [w.browser.newTab(), w.browser.newTab()];
  const cookiesBlocked = w.chance(0.2);
  const blockSome = w.chance(0.2);
  const quotaP = w.chance(0.2) ? 0.2 : 0;
  let crashAt = -1;
  let ops = 0;
  // what was observed since the last refusal
  let epoch = 0;
  let shared = null; // {v2, first_seen} established with working cookies
  let retired = new Set(); // ids in use before a refusal
  let used = new Set();
  let byOrigin = {}; // with blocked cookies: origin -> v2
  let seenAt = {}; // origin -> first_seen
  let dirty = new Set(); // origins whose storage writes were faulted
  let uncertain = false; // a refusal that could not be carried across
  const site = { flags: [T.flag('f', { on: 'treatment', payloads: {} })], pages: {} };
  const blocked = (p) => cookiesBlocked || p.noCookies;
  w.hooks.cookie = (p, op) => {
    if (!blocked(p)) return undefined;
    if (op === 'set') w.fault('cookies-blocked');
    return 'blocked';
  };
  w.hooks.storage = (p, k, op, key) => {
    if (op !== 'set') return undefined;
    if (++ops === crashAt) {
      w.fault('crash-at-storage-write');
      dirty.add(p.url.origin);
      p.kill('crashed');
      return 'dead';
    }
    if (quotaP && !PROBE.test(key) && w.chance(quotaP)) {
      w.fault('storage-quota');
      dirty.add(p.url.origin);
      throw L.quota();
    }
    return undefined;
  };
  w.hooks.server = () => ({ kind: 'ok', status: 200, body: '[]', delay: 10 });
  // what earlier versions left behind
  const legacy = w.chance(0.3);
  if (legacy) w.browser.localArea(`https://www.${apex}`).map.set(`EXP_${T.SLICE}`, JSON.stringify(w.pick([
      { device_id: 'legacy-device' },
      { web_exp_id: 'legacy-device' },
      { device_id: 'older', web_exp_id: 'legacy-device' },
      { device_id: 'older', web_exp_id: 'older', web_exp_id_v2: 'legacy-device' },
      { web_exp_id: 'older', web_exp_id_v2: 'legacy-device' },
    ])));
  if (w.chance(0.15)) {
    w.fault('malformed-identity-cookie');
    w.browser.jar.write(new URL(`https://www.${apex}/`), `EXP_${T.SLICE}_identity=${w.pick(['%7B', 'bm90anNvbg==', 'MQ==', 'IntcIndlYl9leHBfaWRfdjJcIjoxfSI='])}; path=/; domain=.${apex}`);
  }
  let n = w.int(2, 8);
  let first = true;
  let unobserved = false; // a page may have shared an identity nobody saw
  while (n--) {
    const tab = w.pick(tabs);
    const host = w.pick(hosts);
    const page = T.openPage(w, tab, { url: `https://${host}/p${w.choose(2)}` });
    page.noCookies = blockSome && w.chance(0.4);
    const crashed = w.chance(0.12);
    crashAt = crashed ? ops + 1 + w.choose(6) : -1;
    T.integration(w, page, {});
    const consent = w.weighted([[5, 'off'], [2, 'granted'], [2, 'denied'], [1, 'late'], [1, 'withdrawn']]);
    w.op('visit', `${host} ${consent}`);
    const refuse = () => {
      epoch++;
      for (const id of used) retired.add(id);
      used = new Set();
      delete byOrigin[page.url.origin];
      if (blocked(page)) uncertain = true;
      else {
        shared = null;
        byOrigin = {};
        uncertain = cookiesBlocked;
      }
      w.probe('refused');
    };
    const config = consent === 'off' ? {} : { consentOptions: { consentRequired: true, ...(consent === 'granted' || consent === 'withdrawn' ? { consentStatus: 'granted' } : consent === 'denied' ? { consentStatus: 'denied' } : {}) } };
    T.start(w, page, { ...site, config });
    await w.drain();
    if (consent === 'denied' && page.alive) refuse();
    if (consent === 'late') {
      await w.runFor(w.pick([0, 50]));
      if (page.alive) page.x.tag.setConsentStatus('granted');
    }
    await w.runFor(w.weighted([[4, 1500], [1, 3]]));
    crashAt = -1;
    if (!page.alive) {
      // a crash between the two stores leaves them disagreeing; nothing was observed
      first = false;
      if (!blocked(page)) unobserved = true;
      continue;
    }
    const c = page.g.webExperiment;
    if (consent !== 'denied' && c && c.isRunning) {
      const u = c.getExperimentClient().getUser();
      const o = page.url.origin;
      w.probe('identity-observed');
      w.check(typeof u.web_exp_id_v2 === 'string' && u.web_exp_id_v2.length > 0, 'no-identity', () => JSON.stringify(u));
      if (first && legacy && host === hosts[0]) w.check(u.web_exp_id_v2 === 'legacy-device', 'legacy-identity-lost', () => `identity is ${u.web_exp_id_v2}`);
      w.check(u.device_id === undefined, 'device-id-remains', () => `the user has the device id ${u.device_id} of an earlier version`);
      // A page whose own cookies are blocked cannot see that another origin erased the visitor.
      const revived = blocked(page) && retired.has(u.web_exp_id_v2) && byOrigin[o] === undefined;
      if (revived) {
        w.probe('refusal-not-visible');
        uncertain = true;
      }
      if (!uncertain) w.check(!retired.has(u.web_exp_id_v2), 'identity-survives-refusal', () => `${o} uses ${u.web_exp_id_v2}, which was in use before the visitor refused`);
      if (!blocked(page)) {
        if (shared) {
          w.check(u.web_exp_id_v2 === shared.v2, 'identity-changed', () => `${o} uses ${u.web_exp_id_v2}, the visitor is ${shared.v2}`);
          w.check(u.first_seen === shared.seen, 'first-seen-changed', () => `${o} has first_seen ${u.first_seen}, the visitor's is ${shared.seen}`);
        } else if (byOrigin[o] !== undefined && !dirty.has(o) && !uncertain && !epoch && !unobserved) {
          w.check(u.web_exp_id_v2 === byOrigin[o], 'identity-not-carried-over', () => `${o} uses ${u.web_exp_id_v2}, it was ${byOrigin[o]} while cookies were blocked`);
          w.check(seenAt[o] === undefined || u.first_seen === seenAt[o], 'first-seen-changed', () => `${o} has first_seen ${u.first_seen}, it was ${seenAt[o]}`);
        }
        shared = { v2: u.web_exp_id_v2, seen: u.first_seen };
      } else {
        if (byOrigin[o] !== undefined && !dirty.has(o)) {
          w.check(u.web_exp_id_v2 === byOrigin[o], 'identity-changed', () => `${o} uses ${u.web_exp_id_v2}, it was ${byOrigin[o]}`);
          w.check(u.first_seen === seenAt[o], 'first-seen-changed', () => `${o} has first_seen ${u.first_seen}, it was ${seenAt[o]}`);
        }
      }
      seenAt[o] = u.first_seen;
      if (!dirty.has(o)) byOrigin[o] = u.web_exp_id_v2;
      else delete byOrigin[o];
      dirty.delete(o);
      used.add(u.web_exp_id_v2);
    } else if (consent !== 'denied' && !blocked(page)) unobserved = true;
    first = false;
    if (consent === 'withdrawn') {
      page.x.tag.setConsentStatus('denied');
      await w.drain();
      refuse();
      if (w.chance(0.4)) {
        await w.runFor(w.pick([0, 400]));
        page.x.tag.setConsentStatus('granted');
        await w.runFor(500);
      }
    }
    if (w.chance(0.08) && !epoch && !cookiesBlocked) {
      // the browser drops the cookies, the origin's own storage remains
      w.fault('cookies-cleared');
      w.browser.jar.list = [];
      shared = null;
    } else if (w.chance(0.08)) {
      w.fault('storage-cleared');
      const o = `https://${w.pick(hosts)}`;
      w.browser.localArea(o).map.clear();
      delete byOrigin[o];
      delete seenAt[o];
      first = false;
    }
    w.interleaved = true;
    await w.runFor(w.weighted([[3, 100], [1, 20e3]]));
    if (tabs.some((t) => t.page && t.page.alive && t !== tab) ) w.probe('two-tabs');
  }
}

const meta = (id, rule, runs) => ({
  run: history(id),
  bundles: ['tag'],
  runs,
  rule,
  real: T.TAG_REAL,
  stubs: T.TAG_STUB,
});

module.exports = {
  T04: { run: t04, bundles: ['tag'], runs: { quick: 9000, thorough: 80000 }, rule: '2-8 visits from two tabs to three hosts of one domain, with consent given, refused, withdrawn; cookies blocked, storage quota, crashes, malformed cookies', real: T.TAG_REAL, stubs: T.TAG_STUB },
  T01: meta('T01', 'initialize/setConsentStatus/analytics events in any order over 1-4 page loads on two subdomains, with storage quota, crashes and network faults', { quick: 9000, thorough: 60000 }),
  T02: meta('T02', 'as T01', { quick: 9000, thorough: 60000 }),
  T03: meta('T03', 'as T01; every key ever written is the erasure oracle', { quick: 9000, thorough: 60000 }),
};
