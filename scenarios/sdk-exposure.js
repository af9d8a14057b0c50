'use strict';
const L = require('./lib-sdk');
const { DOMExceptionSim } = require('../lib/browser');

const API = 'client-cccccc000003';

// ---------------------------------------------------------------------------
/** B06: exposure deduplication. */
async function b06(w) {
  const storageMode = w.chance(0.2) ? 'null' : 'ok';
  if (storageMode === 'null') w.fault('storage-null');
  // the session storage of a tab can be full: small writes still fit, larger ones do not
  const wantFull = storageMode === 'ok' && w.chance(0.2);
  let full = false;
  w.hooks.storage = (p, kind, op, key, value) => {
    if (!full || kind !== 'session' || op !== 'set' || key === 'EXP_test') return undefined;
    const had = p.browser.sessionArea(p.tab, p.url.origin).map.get(key);
    if (value.length <= (had || '').length) return undefined;
    w.fault('session-storage-full');
    throw new DOMExceptionSim('full', 'QuotaExceededError');
  };
  const withInteg = w.chance(0.8);
  const withProvider = w.chance(0.8);
  const withLegacy = w.pick([false, false, false, 'amplitude', 'own']);
  const auto = w.chance(0.7);
  const withUserProvider = w.chance(0.4);
  const settled = w.chance(0.4); // the visitor stays who they are
  const web = w.chance(0.3); // the client of the web experiment tag
  const quotaRun = wantFull && !web; // that one also keeps its variants there
  const tab = w.browser.newTab();
  let kept = []; // events handed over, and what they said then
  const keep = (list) => (e) => {
    list().push(e);
    kept.push([e, L.canon(e)]);
    return true;
  };
  let M = {};
  let ver = 0;
  const VARS = ['on', 'control', 'treatment'];
  const mkVariants = () => {
    const out = {};
    for (const k of L.KEYS) {
      const c = w.choose(8);
      if (c === 7) continue;
      const key = w.pick(VARS);
      const v = { key, value: c === 5 ? key + '-v' : key };
      if (c === 2) v.metadata = { experimentKey: 'exp-' + w.choose(2) };
      if (c === 3) {
        v.key = 'off';
        delete v.value;
        v.metadata = { default: true };
      }
      if (c === 4) v.metadata = { trackExposure: false };
      if (c === 6) v.metadata = { deliveryMethod: 'web' };
      if (c === 1 && w.chance(0.3)) delete v.key; // only a value
      out[k] = v;
    }
    return out;
  };
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (r.kind === 'flags') return { kind: 'ok', status: 200, body: '[]', delay: 3 };
    const vs = mkVariants();
    return {
      kind: 'ok',
      status: 200,
      body: JSON.stringify(vs),
      delay: 1 + w.delay(400),
      onDeliver: () => {
        M = {};
        for (const k of Object.keys(vs)) M[k] = L.expectVariant(vs[k]);
        ver++;
      },
    };
  };
  // where variants may come from besides the server
  const source = w.weighted([[3, 'localStorage'], [1, 'initialVariants']]);
  const initials = {};
  for (const k of [...L.KEYS, 'loc'])
    if (w.chance(0.04)) initials[k] = w.pick(['init', { value: 'init' }]);
    else if (w.chance(0.15)) initials[k] = { key: 'init', value: 'init', ...(w.chance(0.3) ? { expKey: 'exp-init' } : {}), ...(w.chance(0.2) ? { metadata: { trackExposure: false } } : {}) };
  const fallbackVariant = w.chance(0.2) ? { key: 'cfg', value: 'cfg' } : undefined;
  const localOn = w.pick(['on', 'off']);
  const localMeta = { evaluationMode: 'local', ...(w.chance(0.3) ? { experimentKey: 'exp-loc' } : {}), ...(w.chance(0.15) ? { trackExposure: false } : {}) };
  const localFlag = w.chance(0.5) && {
    key: 'loc',
    variants: { on: { key: 'on', value: 'on' }, off: { key: 'off', metadata: { default: true } } },
    segments: [{ metadata: { segmentName: 'All' }, variant: localOn }],
    metadata: localMeta,
  };
  const localWant = localFlag
    ? L.expectVariant({ key: localOn, value: localOn === 'on' ? 'on' : undefined, metadata: { ...localMeta, segmentName: 'All', ...(localOn === 'off' ? { default: true } : {}) } })
    : undefined;
  let page, client, x;
  let integUser = {};
  let provUser = {};
  let explicit = undefined;
  let seenP, seenI, seenL;
  // reference models
  let P, I, LG;
  let priorSession = {}; // flag -> set of variants already sent in earlier loads of this tab
  const identity = () => ({
    userId: (explicit && explicit.user_id) || integUser.user_id || provUser.user_id,
    deviceId: (explicit && explicit.device_id) || integUser.device_id || provUser.device_id,
  });
  const load = () => {
    page = w.browser.load(tab, { storageMode, ...(web ? { url: 'https://www.shop.com/a?utm=x#top' } : {}) });
    x = page.run(w.bundles.sdk);
    seenP = [];
    seenI = [];
    seenL = [];
    if (I) for (const k of Object.keys(I.all)) priorSession[k] = I.all[k];
    full = false;
    P = { tracked: {}, id: {} };
    I = { tracked: {}, id: {}, all: {}, first: true };
    LG = { set: {}, unset: {} };
    integUser = {};
    explicit = undefined;
    client = x.browser.Experiment.initialize(API, {
      automaticExposureTracking: auto,
      retryFetchOnFailure: false,
      source,
      initialVariants: initials,
      ...(fallbackVariant ? { fallbackVariant } : {}),
      ...(localFlag ? { initialFlags: JSON.stringify([localFlag]) } : {}),
      ...(web ? { internalInstanceNameSuffix: 'web' } : {}),
      exposureTrackingProvider: withProvider ? { track: keep(() => seenP) } : undefined,
      analyticsProvider: withLegacy === 'amplitude'
        ? new x.browser.AmplitudeAnalyticsProvider({
            logEvent: (name, props) => seenL.push([name === '[Experiment] Exposure' && props.source ? 'track' : 'BAD', props.key, props.variant]),
            setUserProperties: (ps) => seenL.push(['set', ...Object.entries(ps).map((e) => [e[0].replace('[Experiment] ', ''), e[1]])[0]]),
            _logEvent: (name, a, b, ps) => seenL.push(['unset', Object.keys(ps.$unset)[0].replace('[Experiment] ', '')]),
          })
        : withLegacy
        ? {
            track: (e) =>
              seenL.push([
                e.name === '[Experiment] Exposure' && e.properties.variant === e.variant.value && e.userProperties['[Experiment] ' + e.key] === e.variant.value ? 'track' : 'BAD',
                e.properties.key,
                e.variant.value,
              ]),
            setUserProperty: (e) => seenL.push(['set', e.key, e.variant.value]),
            unsetUserProperty: (e) => seenL.push(['unset', e.key]),
          }
        : undefined,
      userProvider: withUserProvider ? { getUser: () => provUser } : undefined,
    });
    if (withInteg)
      client.addPlugin({
        type: 'integration',
        getUser: () => integUser,
        track: keep(() => seenI),
      });
    if (storageMode === 'null') {
      M = {};
      priorSession = {};
    }
    // what is stored without a key goes by its value
    for (const k of Object.keys(M)) if (!M[k].key && M[k].value) M[k] = { ...M[k], key: M[k].value };
  };
  const expectExposure = (k, fallback) => {
    const s = k === 'loc' ? localWant : M[k];
    const isDef = !!(s && s.metadata && s.metadata.default);
    const evaluated = s && !isDef && { variant: s };
    const inline = fallback && { variant: { key: fallback, value: fallback }, isFb: true, hasDef: isDef };
    const initial = initials[k] && { variant: initials[k], isFb: true, hasDef: isDef };
    const configured = fallbackVariant && { variant: fallbackVariant, isFb: true, hasDef: isDef };
    const byDefault = isDef && { variant: s };
    const found =
      (source === 'initialVariants' && k !== 'loc'
        ? (initials[k] && { variant: initials[k] }) || evaluated || inline || configured
        : evaluated || inline || initial || configured) || byDefault || { variant: {}, isFb: true };
    const { variant, isFb, hasDef } = found;
    if (k === 'loc') w.probe('local-exposure');
    if (isFb && hasDef) w.probe('fallback-over-default');
    const md = variant.metadata;
    if (md && md.trackExposure === false) return { none: true };
    const legacy = { value: isFb ? undefined : variant.value };
    if (isFb && !hasDef) return { legacy };
    const e = { flag_key: k };
    if (variant.expKey) e.experiment_key = variant.expKey;
    if (!isFb && !(md && md.default)) {
      if (variant.key) e.variant = variant.key;
      else if (variant.value) e.variant = variant.value;
    }
    if (md) e.metadata = md;
    if (web) {
      // web experiments say when and where
      e.time = page.dateNow();
      e.metadata = { ...md, url: page.url.href.split('?')[0] };
      w.probe('web-exposure');
    }
    return { e, legacy };
  };
  const doExposure = (k, fallback, viaVariant) => {
    seenP.length = 0;
    seenI.length = 0;
    seenL.length = 0;
    const id = identity();
    if (viaVariant) client.variant(k, fallback);
    else client.exposure(k);
    let exp = expectExposure(k, viaVariant ? fallback : undefined);
    if (viaVariant && !auto) exp = { none: true };
    const { e, legacy } = exp;
    // --- tracking provider
    let wantP = [];
    if (e && withProvider) {
      if (P.id.userId !== id.userId || P.id.deviceId !== id.deviceId) P.tracked = {};
      P.id = id;
      if (!(k in P.tracked) || P.tracked[k] !== e.variant) {
        P.tracked[k] = e.variant;
        wantP = [e];
      } else w.probe('provider-deduplicated');
    }
    w.check(
      L.same(seenP, wantP),
      seenP.length > wantP.length ? 'provider-duplicate' : seenP.length < wantP.length ? 'provider-missing' : 'provider-content',
      () => `provider got ${L.canon(seenP)}, expected ${L.canon(wantP)} (identity ${L.canon(id)})`,
    );
    // --- integration
    let wantI = [];
    let optional = false;
    if (e && withInteg) {
      const type = (e.metadata && e.metadata.deliveryMethod) === 'web' ? '$impression' : '$exposure';
      const ev = { eventType: type, eventProperties: e };
      if (type === '$impression') wantI = [ev];
      else {
        const sameId =
          I.id.userId && id.userId
            ? I.id.userId === id.userId
            : !I.id.userId && !id.userId
            ? I.id.deviceId === id.deviceId
            : false;
        if (!sameId) {
          I.tracked = {};
          if (!I.first) {
            priorSession = {};
            w.probe('identity-changed');
          }
        }
        I.first = false;
        I.id = id;
        const nv = e.variant === undefined ? null : e.variant;
        if (!(k in I.tracked) || I.tracked[k] !== nv) {
          // sent earlier in this browser session by a previous page load: either is fine
          // (and which one was stored last is not known when storage was full)
          if ((priorSession[k] === nv || (quotaRun && k in priorSession)) && !(k in I.tracked)) optional = true;
          I.tracked[k] = nv;
          I.all[k] = nv;
          wantI = [ev];
        } else w.probe('integration-deduplicated');
      }
    }
    if (!(optional && seenI.length === 0))
      w.check(
        L.same(seenI, wantI),
        seenI.length > wantI.length ? 'integration-duplicate' : seenI.length < wantI.length ? 'integration-missing' : 'integration-content',
        () => `integration got ${L.canon(seenI)}, expected ${L.canon(wantI)} (identity ${L.canon(id)})`,
      );
    // --- legacy analytics provider
    if (withLegacy) {
      let want = [];
      if (!exp.none) {
        const v = legacy.value;
        if (!v) {
          if (!LG.unset[k]) {
            LG.unset[k] = true;
            delete LG.set[k];
            want = [['unset', k]];
          }
        } else if (LG.set[k] !== v) {
          LG.set[k] = v;
          delete LG.unset[k];
          want = [['set', k, v], ['track', k, v]];
        }
      }
      w.check(L.same(seenL, want), 'legacy-provider', () => `legacy provider got ${L.canon(seenL)}, expected ${L.canon(want)}`);
    }
    if (wantP.length || wantI.length) w.probe('exposed');
    for (const [ev, was] of kept) w.check(L.canon(ev) === was, 'event-changed-later', () => `an event handed over as ${was} reads ${L.canon(ev)} later`);
    // tracking changes nothing a reader of the variants sees
    const all = client.all();
    for (const f of L.KEYS) {
      const want = source === 'initialVariants' ? initials[f] || M[f] : M[f] || initials[f];
      w.check(L.same(all[f], want), 'variant-changed', () => `${f} reads ${L.canon(all[f])} after an exposure, expected ${L.canon(want)}`);
    }
  };
  load();
  const n = 6 + w.choose(22);
  let pendingFetch = 0;
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([
      [40, 'variant'],
      [15, 'exposure'],
      [14, 'fetch'],
      [settled ? 1 : 8, 'identity-explicit'],
      [settled ? 1 : 8, 'identity-integration'],
      [settled ? 1 : 6, 'identity-provider'],
      [6, 'reload'],
      [web ? 8 : 0, 'navigate'],
      [quotaRun ? 8 : 0, 'quota'],
    ]);
    if (w.browser.net.requests.some((r) => r.state === 'sent')) w.interleaved = true;
    const uid = () => w.pick([undefined, 'u1', 'u2']);
    const did = () => w.pick(['d1', undefined, 'd2']);
    const mk = () => {
      const u = {};
      const a = uid(),
        b = did();
      if (a) u.user_id = a;
      if (b) u.device_id = b;
      return u;
    };
    await w.drain();
    if (kind === 'variant') {
      const k = w.pick(localFlag ? [...L.KEYS, 'loc'] : L.KEYS);
      const fb = w.chance(0.25) ? 'fb' : undefined;
      w.op('variant', `${k} ${fb || ''} [v${ver}] ${L.canon(identity())}`);
      doExposure(k, fb, true);
    } else if (kind === 'exposure') {
      const k = w.pick(localFlag ? [...L.KEYS, 'loc'] : L.KEYS);
      w.op('exposure', `${k} [v${ver}] ${L.canon(identity())}`);
      doExposure(k, undefined, false);
    } else if (kind === 'fetch') {
      if (!settled || !explicit) explicit = mk();
      w.op('fetch', L.canon(explicit));
      client.fetch(explicit);
      pendingFetch++;
    } else if (kind === 'identity-explicit') {
      explicit = mk();
      w.op('setUser', L.canon(explicit));
      client.setUser(explicit);
    } else if (kind === 'identity-integration') {
      if (withInteg) integUser = mk();
      w.op('integrationUser', L.canon(integUser));
    } else if (kind === 'identity-provider') {
      if (withUserProvider) provUser = mk();
      w.op('providerUser', L.canon(provUser));
    } else if (kind === 'quota') {
      full = !full;
      w.op('quota', full ? 'full' : 'room');
    } else if (kind === 'navigate') {
      const to = w.pick(['/a?q=1#x', '/b', '/b?y=2', '/c#part', '/c?']);
      w.op('navigate', to);
      page.g.history.pushState({}, '', to);
    } else {
      w.op('reload');
      w.fault('page-reload');
      load();
    }
    await L.breathe(w, 1000);
  }
}

// ---------------------------------------------------------------------------
/** B07: the exposure delivery queue. */
async function b07(w) {
  const big = w.chance(0.006);
  // local storage can be full: what is queued then is only in the page
  const quotaRun = !big && w.chance(0.15);
  let full = false;
  const nTabs = quotaRun ? 1 : 1 + w.choose(3);
  const crashy = !quotaRun && w.chance(0.4);
  const NK = big ? 700 : 40;
  let nextKey = 0;
  let Q = []; // [{id, optional}]
  const delivered = new Map();
  const tabs = [];
  const second = !big && w.chance(0.25);
  const reentrant = !big && w.chance(0.3);
  const others = new Map();
  let curOp = null; // synchronous section that may be cut short by a crash
  w.hooks.server = () => ({ kind: 'ok', status: 200, body: '{}', delay: 5 });
  let crash = null;
  w.hooks.storage = (p, k, op, key, value) => {
    if (full && k === 'local' && op === 'set' && key !== 'EXP_test') {
      const had = p.browser.localArea(p.url.origin).map.get(key);
      if (value.length > (had || '').length) {
        w.fault('local-storage-full');
        throw new DOMExceptionSim('full', 'QuotaExceededError');
      }
    }
    if (crash && crash.page === p && op === 'set' && key !== 'EXP_test' && --crash.in <= 0) {
      crash = null;
      w.fault('crash-at-storage-write');
      p.kill('crashed');
      return 'dead';
    }
    return undefined;
  };
  const onTrack = (t, ev) => {
    const page = t.page;
    if (!page.alive) return true;
    const id = ev.eventProperties && ev.eventProperties.flag_key;
    const idx = Q.findIndex((q) => q.id === id);
    if (idx < 0) {
      w.flag(
        delivered.has(id) ? 'delivered-twice' : 'unknown-event',
        `event ${id} handed to the integration of ${t.name} but it is ${delivered.has(id) ? 'already delivered' : 'not queued'}`,
      );
      return true;
    }
    const before = Q.slice(0, idx).filter((q) => !q.optional);
    if (before.length)
      w.flag('out-of-order', `event ${id} attempted before ${before.map((q) => q.id).join(',')}`);
    const wantType = ev.eventProperties.metadata && ev.eventProperties.metadata.exposureEvent ? 'custom' : '$exposure';
    if (ev.eventType !== wantType || ev.eventProperties.variant !== 'on-' + id)
      w.flag('event-content', L.canon(ev));
    t.lastAttempt = w.now;
    t.attempts = (t.attempts || 0) + 1;
    if (t.mode === 'ok') {
      const gone = Q.splice(0, idx + 1).filter((q) => q.id === id || !q.optional);
      void gone;
      delivered.set(id, (delivered.get(id) || 0) + 1);
      if (curOp && curOp.t === t) curOp.popped.push(id);
      else t.popped.push(id);
      t.rejectedAt = null;
      w.log('delivered', `${id} by ${t.name}`);
      // the integration itself (or the site, through it) may expose another flag at once
      if (reentrant && nextKey < NK && w.chance(0.2)) {
        const id2 = 'k' + nextKey++;
        w.fault('reentrant-exposure');
        w.op('expose', `${id2} in ${t.name} inside a delivery`);
        Q.push({ id: id2, optional: false, at: w.now });
        (curOp && curOp.t === t ? curOp : t).nested.push(id2);
        if (w.chance(0.5)) t.client.variant(id2);
        else t.client.exposure(id2);
      }
      return true;
    }
    t.rejectedAt = w.now;
    w.faults['tracker-' + t.mode] = (w.faults['tracker-' + t.mode] || 0) + 1;
    w.nontrivial++;
    w.log('rejected', `${id} by ${t.name}`);
    if (t.mode === 'throws') throw new Error('tracker down');
    return false;
  };
  const initialVariants = {};
  for (let i = 0; i < NK; i++) {
    const id = 'k' + i;
    initialVariants[id] = { key: 'on-' + id, value: 'on' };
    if (i % 7 === 3) initialVariants[id].metadata = { exposureEvent: 'custom' };
  }
  const open = (t) => {
    t.page = w.browser.load(t.tab, { name: `${t.name}.${++t.loads}` });
    t.ready = false;
    t.popped = [];
    t.nested = [];
    t.rejectedAt = null;
    t.plugged = false;
    t.mode = w.pick(['ok', 'ok', 'false', 'throws']);
    const x = t.page.run(w.bundles.sdk);
    t.client = x.browser.Experiment.initialize(API, {
      source: 'initialVariants',
      initialVariants,
      automaticExposureTracking: true,
    });
    t.second = null;
    if (second) {
      // another instance on the page: its exposures are its own integration's only
      const page = t.page;
      t.second = x.browser.Experiment.initialize(API, {
        instanceName: 'second',
        source: 'initialVariants',
        initialVariants,
        automaticExposureTracking: true,
      });
      t.second.addPlugin({
        type: 'integration',
        getUser: () => ({ user_id: 'u' }),
        track: (ev) => {
          if (!page.alive) return true;
          const id = ev.eventProperties.flag_key;
          const o = others.get(id);
          if (!o) w.flag('wrong-instance', `exposure of ${id} reached the integration of an instance where it was not made`);
          else if (o.n++ && !o.optional) w.flag('delivered-twice', `exposure of ${id} was delivered twice to the second instance`);
          return true;
        },
      });
    }
  };
  const plug = (t) => {
    const page = t.page;
    const kind = w.pick(['nosetup', 'resolve', 'reject', 'resolve']);
    const plugin = {
      type: 'integration',
      getUser: () => ({ user_id: 'u' }),
      track: (ev) => onTrack(t, ev),
    };
    t.plugged = true;
    if (kind !== 'nosetup') {
      const d = w.delay(15000);
      if (d > 500) w.fault('integration-setup-late');
      if (kind === 'reject') w.fault('integration-setup-rejects');
      plugin.setup = () =>
        new Promise((res, rej) =>
          w.schedule(d, () => {
            t.ready = true;
            t.readyAt = w.now;
            if (kind === 'reject') rej(new Error('no'));
            else res();
          }, { page, lane: 'user' }),
        );
    } else {
      t.ready = true;
      t.readyAt = w.now;
    }
    curOp = { t, popped: [], nested: [] };
    t.client.addPlugin(plugin);
    endOp();
  };
  const endOp = (pushed) => {
    const o = curOp;
    curOp = null;
    if (o && !o.t.page.alive) {
      // the page died inside this operation: what it had just delivered may be delivered again,
      // what it had just queued may be gone
      for (const id of o.popped.slice().reverse()) Q.unshift({ id, optional: true, at: w.now });
      for (const q of Q) if (o.nested.includes(q.id)) q.optional = true;
      if (pushed) for (const q of Q) if (q.id === pushed) q.optional = true;
    }
    trim();
  };
  const trim = () => {
    // an optional entry may or may not really be queued: entries that only fit
    // if it is not become optional themselves
    if (Q.length <= 512) return;
    w.fault('queue-overflow');
    let required = 0;
    const out = [];
    for (let i = Q.length - 1; i >= 0; i--) {
      if (required >= 512) break;
      const q = Q[i];
      out.push(q);
      if (!q.optional) required++;
      if (Q.length - i > 512) q.optional = true;
    }
    Q = out.reverse();
  };
  w.hooks.afterStep = () => {
    for (const t of tabs) {
      if (t.page && !t.page.alive && t.popped.length) {
        // died inside a timer-driven flush of this step
        for (const id of t.popped.reverse()) Q.unshift({ id, optional: true, at: w.now });
      }
      if (t.page && !t.page.alive) for (const q of Q) if (t.nested.includes(q.id)) q.optional = true;
      t.nested = [];
      t.popped = [];
      if (t.page && t.page.alive && t.ready && t.rejectedAt !== null && Q.some((q) => !q.optional)) {
        const since = Math.max(t.lastAttempt, Q.find((q) => !q.optional).at);
        if (w.now - since > 1001 && t.page.stallUntil <= w.now - 1001)
          w.flag('delivery-stalled', `${t.name} last attempted delivery at +${t.lastAttempt - w.startTime}, nothing for over a second although events are queued`);
      }
    }
    trim();
  };
  for (let i = 0; i < nTabs; i++) {
    const t = { name: 'tab' + i, tab: w.browser.newTab(), loads: 0, popped: [], nested: [] };
    tabs.push(t);
    open(t);
  }
  const n = big ? 12 : 6 + w.choose(24);
  for (let i = 0; i < n; i++) {
    const t = w.pick(tabs);
    await w.drain();
    if (!t.page.alive) {
      w.op('reopen', t.name);
      open(t);
      continue;
    }
    if (crashy && !crash && w.chance(0.15)) crash = { page: t.page, in: 1 + w.choose(4) };
    const kind = w.weighted([
      [50, 'expose'],
      [14, 'plug'],
      [10, 'mode'],
      [quotaRun ? 0 : 8, 'reload'],
      [quotaRun ? 0 : 6, 'close'],
      [4, 'stall'],
      [quotaRun ? 14 : 0, 'quota'],
    ]);
    if (t.second && w.chance(0.3)) {
      // mostly flags the first instance also uses
      const id = 'k' + w.choose(Math.min(NK, nextKey + 3));
      if (!others.has(id)) {
        const o = { n: 0, optional: !!crash };
        others.set(id, o);
        t.second.variant(id);
        if (!t.page.alive) o.optional = true;
        else if (o.n !== 1) w.flag('second-instance', `exposure of ${id} on the second instance was delivered ${o.n} times at once`);
        w.probe('second-instance');
        if (!t.page.alive) continue;
      }
    }
    if (kind === 'expose') {
      const burst = big ? 60 + w.choose(60) : w.weighted([[60, 1], [20, 2], [20, 4]]);
      for (let b = 0; b < burst && t.page.alive && nextKey < NK; b++) {
        const id = 'k' + nextKey++;
        w.op('expose', `${id} in ${t.name}`);
        Q.push({ id, optional: false, at: w.now });
        curOp = { t, popped: [], nested: [] };
        if (w.chance(0.7)) t.client.variant(id);
        else t.client.exposure(id);
        endOp(id);
      }
    } else if (kind === 'plug') {
      if (!t.plugged) {
        w.op('plug', t.name);
        plug(t);
      }
    } else if (kind === 'mode') {
      t.mode = w.pick(['ok', 'false', 'throws']);
      w.op('mode', `${t.name} ${t.mode}`);
    } else if (kind === 'reload') {
      w.op('reload', t.name);
      w.fault('page-reload');
      open(t);
    } else if (kind === 'quota') {
      full = !full;
      w.op('quota', full ? 'full' : 'room');
    } else if (kind === 'close') {
      w.op('close', t.name);
      w.fault('page-close');
      t.page.kill('closed');
    } else {
      t.page.stallUntil = w.now + w.delay(5000);
      w.fault('page-stalled');
    }
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await L.breathe(w, 4000);
  }
  // faults stop: one page with a working integration drains everything
  crash = null;
  await w.drain();
  if (!big && w.chance(0.15)) {
    // an integration may be down for minutes before it works again
    w.op('long-outage');
    w.fault('long-outage');
    await w.runFor(30000 + w.delay(300000));
  }
  for (const t of tabs) {
    t.mode = 'ok';
    if (t.page.alive) t.page.stallUntil = 0;
  }
  if (quotaRun) {
    // whether or not there is room again, the page still has what was queued in it
    const t = tabs[0];
    if (!t.plugged) plug(t);
    await w.runFor(16000);
    const left = Q.filter((q) => !q.optional);
    w.check(left.length === 0, 'not-delivered', () => `${left.map((q) => q.id).slice(0, 5)} are not delivered in the page they were made in`);
    full = false;
  }
  // any page whose last attempt was rejected must now deliver within a second by itself
  const waiting = tabs.filter((t) => t.page.alive && t.ready && t.rejectedAt !== null);
  if (waiting.length && Q.length) {
    w.op('faults-stop');
    await w.runFor(1002);
    const left = Q.filter((q) => !q.optional);
    w.check(
      left.length === 0,
      'not-delivered',
      () => `${left.length} events (${left.map((q) => q.id).slice(0, 5)}) are still queued one second after the integration recovered`,
    );
    w.probe('recovered-in-page');
  }
  const t = tabs[0];
  w.op('fresh-load', t.name);
  open(t);
  t.mode = 'ok';
  t.plugged = true;
  t.ready = true;
  t.readyAt = w.now;
  curOp = { t, popped: [], nested: [] };
  t.client.addPlugin({ type: 'integration', getUser: () => ({}), track: (ev) => onTrack(t, ev) });
  endOp();
  await w.runFor(1002);
  const left = Q.filter((q) => !q.optional);
  w.check(
    left.length === 0,
    'not-delivered',
    () => `${left.length} events (${left.map((q) => q.id).slice(0, 5)}) were never delivered`,
  );
  if (big) w.probe('overflow-run');
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: [...L.SDK_STUB, 'integration plugin (scripted tracker)'] };
module.exports = {
  B06: {
    ...common,
    run: b06,
    runs: { quick: 18000, thorough: 200000 },
    rule: 'Random exposures interleaved with fetches that change variants, identity changes from three sources and page reloads; every call is compared with reference dedupe models.',
  },
  B07: {
    ...common,
    run: b07,
    maxSteps: 60000,
    runs: { quick: 18000, thorough: 150000 },
    rule: 'One to three tabs sharing storage queue exposures while integrations set up late, refuse, throw and recover, and pages reload, close, stall or crash at storage writes.',
  },
};
