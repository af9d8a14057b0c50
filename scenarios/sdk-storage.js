'use strict';
const L = require('./lib-sdk');
const { DOMExceptionSim } = require('../lib/browser');

const localFlag = (id, key) => ({
  key: key || 'lf',
  metadata: { evaluationMode: 'local' },
  variants: { on: { key: 'on', value: `${key || 'lf'}@${id}` } },
  segments: [{ variant: 'on' }],
});

// ---------------------------------------------------------------------------
/** B04: what was last stored is what a later page load starts from. */
async function b04(w) {
  const mix = L.netMix(w, { p: 0.4 });
  const specs = [
    { api: 'client-aaaaaa000001', inst: undefined },
    { api: 'client-aaaaaa000001', inst: 'second' },
    { api: 'client-bbbbbb000002', inst: undefined },
    { api: 'client-aaaaaa000001', inst: undefined, web: true },
    { api: 'client-bbbbbb000002', inst: undefined, web: true },
    { api: 'client-aaaaaa000001', inst: 'second', web: true },
  ];
  for (let i = w.choose(6); i > 0; i--) specs.splice(w.choose(specs.length), 1);
  const quotaP = w.chance(0.4) ? w.pick([0.1, 0.4]) : 0;
  const crashy = w.chance(0.6);
  const tab = w.browser.newTab();
  let page = null;
  const insts = specs.map((s, i) => ({
    ...s,
    i,
    // possible persisted states; the first is the one expected
    variants: { mem: {}, cand: [{}] },
    flags: { mem: null, cand: [null] },
    track: { mem: undefined, cand: [undefined] },
    keys: {},
    client: null,
  }));
  let wrote = [];
  let faultedThisStep = false;
  let crashAt = -1;
  let sets = 0;
  w.hooks.storageWrote = (p, k, key, v) => wrote.push([k, key, v]);
  w.hooks.storage = (p, k, op, key) => {
    if (op !== 'set' || key === 'EXP_test') return undefined;
    sets++;
    if (sets === crashAt) {
      w.fault('crash-at-storage-write');
      p.kill('crashed');
      return 'dead';
    }
    if (quotaP && key.startsWith('amp-exp') && w.chance(quotaP)) {
      w.fault('storage-quota');
      faultedThisStep = true;
      throw L.quota();
    }
    return undefined;
  };
  /** record that `val` replaced the in-memory state; called right before the code applies it */
  let touched = [];
  const touch = (slot, val, name) => {
    slot.mem = val;
    touched.push({ slot, val, name });
  };
  const settle = () => {
    for (const t of touched) {
      if (!page.alive || faultedThisStep) {
        if (!t.slot.cand.some((c) => L.same(c, t.val))) t.slot.cand.push(t.val);
      } else t.slot.cand = [t.val];
      if (page.alive && !faultedThisStep) {
        const ks = wrote.filter((x) => x[1].startsWith('amp-exp'));
        if (touched.length === 1 && ks.length === 1) t.slot.key = [ks[0][0], ks[0][1]];
      }
    }
    touched = [];
    wrote = [];
    faultedThisStep = false;
  };
  w.hooks.afterStep = settle;
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const c = insts.find(
      (s) => r.auth === `Api-Key ${s.api}` && r.host === `h${s.i}.test`,
    );
    const pg = page;
    const to = 1000;
    if (r.kind === 'vardata') {
      const vs = L.serverVariants(w, req.id, r.flagKeys);
      const plan = L.netPlan(w, mix, JSON.stringify(vs), to);
      w.check(
        L.same(r.track, c.track.mem),
        'assignment-tracking-option',
        () => `instance ${c.i} sent tracking option ${r.track}, expected ${c.track.mem}`,
      );
      plan.onDeliver = () => {
        if (!pg.alive || w.now >= req.sentAt + to || !L.planOk(plan)) return;
        const out = {};
        for (const k of Object.keys(vs)) out[k] = L.expectVariant(vs[k]);
        touch(c.variants, out, 'variants');
      };
      return plan;
    }
    const plan = L.netPlan(w, mix, JSON.stringify([localFlag(req.id)]), to);
    plan.onDeliver = () => {
      if (!pg.alive || w.now >= req.sentAt + to || !L.planOk(plan)) return;
      touch(c.flags, `lf@${req.id}`, 'flags');
    };
    return plan;
  };
  let boots = 0;
  const load = () => {
    crashAt = -1;
    page = w.browser.load(tab, {});
    const x = page.run(w.bundles.sdk);
    for (const c of insts) {
      // the site's build changes: flags given at initialization are not what is stored
      c.boot = w.weighted([[3, null], [2, `v${++boots}`]]);
      c.bootLf = c.boot && w.chance(0.5) ? `lf@${c.boot}` : null;
      if (c.boot) w.probe('initial-flags');
      c.client = x.browser.Experiment.initialize(c.api, {
        instanceName: c.inst,
        ...(c.boot ? { initialFlags: JSON.stringify([localFlag(c.boot, 'boot')].concat(c.bootLf ? [localFlag(c.boot)] : [])) } : {}),
        serverUrl: `https://h${c.i}.test`,
        flagsServerUrl: `https://h${c.i}.test`,
        automaticExposureTracking: false,
        fetchTimeoutMillis: 1000,
        retryFetchOnFailure: false,
        pollOnStart: false,
        fetchOnStart: false,
        ...(c.web ? { internalInstanceNameSuffix: 'web' } : {}),
      });
      const all = c.client.all();
      const fl = all.lf ? all.lf.value : null;
      delete all.lf;
      const bt = all.boot ? all.boot.value : null;
      delete all.boot;
      w.check(bt === (c.boot && `boot@${c.boot}`), 'initial-flags', () => `instance ${c.i} restarted with the initial flags of ${bt}, given: ${c.boot}`);
      const vi = c.variants.cand.findIndex((s) => L.same(s, all));
      w.check(
        vi >= 0,
        'variants-not-durable',
        () => `instance ${c.i} restarted with ${L.canon(all)}, last stored: ${c.variants.cand.map(L.canon).join(' or ')}`,
      );
      c.variants.mem = all;
      c.variants.cand = [all];
      w.check(
        c.flags.cand.some((s) => (s || c.bootLf) === fl),
        'flags-not-durable',
        () => `instance ${c.i} restarted with flags ${fl}, last stored: ${c.flags.cand.join(' or ')}`,
      );
      c.flags.cand = c.flags.cand.filter((s) => (s || c.bootLf) === fl).slice(0, 1);
      c.flags.mem = c.flags.cand[0];
      // the tracking option shows on the next request; keep the expected one
      if (c.track.cand.length > 1) c.track.cand = [c.track.cand[0]];
    }
    wrote = [];
    touched = [];
  };
  load();
  let loads = 0;
  const n = 3 + w.choose(14);
  for (let i = 0; i < n; i++) {
    const c = w.pick(insts);
    const kind = w.weighted([
      [30, 'fetch'],
      [20, 'flags'],
      [10, 'track'],
      [8, 'clear'],
      [20, 'reload'],
      [12, 'corrupt'],
      [10, 'wait'],
    ]);
    await w.drain();
    settle();
    if (crashy && page.alive && crashAt < 0 && w.chance(0.3)) crashAt = sets + 1 + w.choose(6);
    if (!page.alive || kind === 'reload' || kind === 'corrupt') {
      if (page.alive) {
        if (w.browser.net.requests.some((r) => r.state === 'sent' && r.page === page)) {
          w.fault('reload-with-requests-in-flight');
        }
        page.kill('unloaded');
      }
      if (kind === 'corrupt') {
        const slots = [];
        for (const d of insts) for (const s of ['variants', 'flags', 'track']) if (d[s].key) slots.push([d, s]);
        if (slots.length) {
          const [d, s] = w.pick(slots);
          const [area, key] = d[s].key;
          const a = area === 'local' ? w.browser.localArea('https://www.shop.com') : w.browser.sessionArea(tab, 'https://www.shop.com');
          const old = a.map.get(key) || '';
          if (s === 'variants' && w.chance(0.5)) {
            // what an older version of the SDK left behind
            const was = {};
            const means = {};
            for (const k of L.KEYS) {
              const value = `${k}@old`;
              const f = w.choose(8);
              if (f === 0) continue;
              if (f === 1) [was[k], means[k]] = [value, { key: value, value }];
              if (f === 2) [was[k], means[k]] = [{ value, payload: { p: 1 } }, { key: value, value, payload: { p: 1 } }];
              if (f === 3) [was[k], means[k]] = [{ value, expKey: 'exp-1' }, { key: value, value, expKey: 'exp-1', metadata: { experimentKey: 'exp-1' } }];
              if (f === 4) [was[k], means[k]] = [{ key: 'on', value, expKey: 'exp-1', metadata: { experimentKey: 'exp-2', default: true } }, { key: 'on', value, expKey: 'exp-2', metadata: { experimentKey: 'exp-2', default: true } }];
              if (f === 5) was[k] = w.pick([null, 7, true]); // nothing a variant can be made of
              if (f === 6) [was[k], means[k]] = [{ key: 'on', metadata: { x: 1 } }, { key: 'on', metadata: { x: 1 } }];
              if (f === 7) [was[k], means[k]] = [{ value, metadata: { experimentKey: 'exp-3' } }, { key: value, value, expKey: 'exp-3', metadata: { experimentKey: 'exp-3' } }];
            }
            a.map.set(key, JSON.stringify(was));
            w.probe('older-format-stored');
            d[s].cand = [means];
            d[s].mem = means;
            load();
            loads++;
            continue;
          }
          a.map.set(key, w.pick(['{', 'not json', '\u0000\u0001', old.slice(0, Math.max(1, old.length - 1)) + '\u0000']));
          w.fault('storage-corrupted');
          const empty = s === 'variants' ? {} : s === 'flags' ? null : undefined;
          d[s].cand = [empty];
          d[s].mem = empty;
          w.log('corrupt', `${d.i} ${s}`);
        }
      }
      load();
      loads++;
      continue;
    }
    w.op(kind, c.i);
    if (kind === 'fetch') c.client.fetch({ user_id: 'u' });
    else if (kind === 'flags') {
      c.client.stop();
      c.client.start({ user_id: 'u' });
    } else if (kind === 'track') {
      const on = w.chance(0.5);
      const val = on ? 'track' : 'no-track';
      // with a storage fault the in-memory option still applies
      touch(c.track, val, 'track');
      c.client.setTracksAssignment(on).catch((e) => {
        if (!page.alive) return;
        w.flag('api-rejected', `setTracksAssignment rejected: ${e}`);
      });
      await w.drain();
      if (faultedThisStep || !page.alive) {
        // either may come back; make it deterministic by writing again later
        c.track.unsure = true;
      }
      settle();
      if (c.track.cand.length > 1) {
        // resolve the ambiguity: a successful second write
        const q = w.hooks.storage;
        if (page.alive) {
          w.hooks.storage = undefined;
          c.client.setTracksAssignment(on).catch(() => {});
          await w.drain();
          w.hooks.storage = q;
          c.track.cand = [val];
          wrote = [];
        } else {
          const a = w.browser.localArea('https://www.shop.com');
          void a;
          c.track.cand = [c.track.cand[0]];
          c.track.mem = c.track.cand[0];
        }
      }
    } else if (kind === 'clear') {
      touch(c.variants, {}, 'variants');
      c.client.clear();
      await w.drain();
      settle();
    } else w.op('wait');
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await L.breathe(w, 2500);
  }
  await w.runFor(3000);
  settle();
  if (page.alive) page.kill('unloaded');
  load();
  for (const c of insts) c.client.fetch({ user_id: 'u' });
  await w.runFor(2000);
  w.probe('page-loads-' + Math.min(4, loads));
}

// ---------------------------------------------------------------------------
/** B05: broken browser storage never breaks the SDK. */
async function b05(w) {
  const mode = w.pick(['ok', 'securityerror', 'null', 'quota', 'flaky', 'flaky', 'corrupt']);
  // in a sandboxed frame cookies may not be read either
  const cookies = w.weighted([[4, 'ok'], [1, 'denied'], [1, 'sandboxed']]);
  w.hooks.cookie = () => {
    if (cookies === 'denied') return 'blocked';
    if (cookies === 'sandboxed') throw new DOMExceptionSim("Failed to read the 'cookie' property from 'Document': The document is sandboxed.", 'SecurityError');
    return undefined;
  };
  if (cookies !== 'ok') w.fault('cookies-' + cookies);
  const mix = L.netMix(w, { p: 0.3 });
  const amplitude = w.chance(0.4);
  const withProvider = w.chance(0.5);
  const throwOnError = !mix.on && w.chance(0.5);
  const localFlag = (key, value) => ({
    key,
    variants: { on: { key: 'on', value } },
    segments: [{ variant: 'on' }],
    metadata: { evaluationMode: 'local' },
  });
  // local evaluation: flags given at initialization and flags from the server
  const withFlags = w.chance(0.5);
  let F = {};
  const Fv = () => {
    const out = {};
    for (const k of Object.keys(F)) out[k] = { key: 'on', value: F[k], metadata: { evaluationMode: 'local' } };
    return out;
  };
  const api = w.pick(['client-aaaaaa000001', '0123456789abcdef']);
  const tab = w.browser.newTab();
  const area = w.browser.localArea('https://www.shop.com');
  if (mode === 'corrupt') {
    w.fault('storage-corrupted');
    const junk = () => w.pick(['{', 'null', '"x"', '5', '[1,', '\u0000', '{"a":', 'true']);
    const inst = '$default_instance';
    for (const k of [
      `amp-exp-${inst}-000001`,
      `amp-exp-${inst}-000001-flags`,
      `amp-exp-${inst}-000001-variants-options`,
      `amp-exp-${inst}-abcdef`,
      `EXP_unsent_${inst}`,
      `EXP_client-aaa_DEFAULT_USER_PROVIDER`,
      `EXP_0123456789_DEFAULT_USER_PROVIDER`,
      `AMP_0123456789`,
    ])
      if (w.chance(0.6)) area.map.set(k, /flags|unsent/.test(k) ? w.pick(['{', '[1,', 'nope']) : junk());
    const sa = w.browser.sessionArea(tab, 'https://www.shop.com');
    for (const k of [`EXP_sent_v3_${inst}`, `EXP_client-aaa_DEFAULT_USER_PROVIDER`, `AMP_0123456789`])
      if (w.chance(0.6)) sa.map.set(k, w.pick(['{', 'nope', '[1,']));
  } else if (mode !== 'ok') w.fault('storage-' + mode);
  const p = mode === 'flaky' ? w.pick([0.05, 0.3, 0.8]) : 0;
  w.hooks.storage = (pg, k, op) => {
    if (mode === 'quota' && op === 'set') {
      w.faults['storage-write-refused'] = (w.faults['storage-write-refused'] || 0) + 1;
      throw L.quota();
    }
    if (p && w.chance(p)) {
      w.fault('storage-op-throws');
      throw L.quota();
    }
    return undefined;
  };
  let M = {};
  let seen = {};
  const page = w.browser.load(tab, { storageMode: mode === 'securityerror' || mode === 'null' ? mode : 'ok' });
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (r.kind === 'flags')
      return {
        kind: 'ok',
        status: 200,
        body: JSON.stringify(withFlags ? [localFlag('local-r', 'r@' + req.id)] : []),
        delay: 3,
        onDeliver: () => {
          if (withFlags) F = { 'local-i': 'init', 'local-r': 'r@' + req.id };
        },
      };
    const vs = L.serverVariants(w, req.id, r.flagKeys);
    const plan = L.netPlan(w, mix, JSON.stringify(vs), 10000);
    plan.onDeliver = () => {
      if (w.now >= req.sentAt + 10000 || !L.planOk(plan)) return;
      M = {};
      for (const k of Object.keys(vs)) M[k] = L.expectVariant(vs[k]);
    };
    return plan;
  };
  const api_ = (what, fn) => {
    try {
      const r = fn();
      if (r && typeof r.then === 'function') r.then(undefined, (e) => w.flag('api-rejected', `${what} rejected: ${(e && e.stack) || e}`));
      return r;
    } catch (e) {
      w.fail('api-threw', `${what} threw: ${(e && e.stack) || e}`);
    }
  };
  w.hooks.pageError = (pg, e) => w.flag('uncaught-error', `an error escaped the SDK: ${(e && e.stack) || e}`);
  const x = api_('loading the SDK', () => page.run(w.bundles.sdk));
  const exposures = [];
  const provided = [];
  const cfg = {
    throwOnError,
    automaticExposureTracking: true,
    pollOnStart: w.chance(0.5),
    initialFlags: withFlags ? JSON.stringify([localFlag('local-i', 'init')]) : undefined,
    exposureTrackingProvider: withProvider ? { track: (e) => provided.push(e) } : undefined,
  };
  let receiverSet = false;
  const E = x.browser.Experiment;
  if (withFlags) F = { 'local-i': 'init' };
  const client = api_('initialize', () => (amplitude ? E.initializeWithAmplitudeAnalytics(api, cfg) : E.initialize(api, cfg)));
  const conn = () => x.connector.AnalyticsConnector.getInstance('$default_instance');
  if (amplitude) conn().identityStore.editIdentity().setUserId('u').setDeviceId('d').commit();
  else if (w.chance(0.7))
    api_('addPlugin', () =>
      client.addPlugin({
        type: 'integration',
        getUser: () => ({}),
        track: (e) => {
          exposures.push(e);
          return true;
        },
      }),
    );
  const memoryWorks = mode === 'securityerror' || mode === 'null' || mode === 'quota' || mode === 'ok';
  w.hooks.afterStep = () => {
    if (mode === 'corrupt' && !Object.keys(M).length) return;
    const got = api_('all', () => client.all());
    const want = { ...M, ...Fv() };
    if (!L.same(got, want)) w.flag('memory-state-lost', `variants are ${L.canon(got)}, expected ${L.canon(want)} whatever the storage does`);
  };
  const n = 3 + w.choose(10);
  for (let i = 0; i < n; i++) {
    const kind = w.pick(['variant', 'fetch', 'exposure', 'start', 'all', 'clear', 'setTracks', 'setUser', 'receiver', 'stop']);
    await w.drain();
    w.op(kind);
    if (kind === 'variant') {
      const k = w.pick(L.KEYS);
      const v = api_('variant', () => client.variant(k, 'fb'));
      const want = M[k] && !(M[k].metadata && M[k].metadata.default) ? M[k] : { key: 'fb', value: 'fb' };
      if (mode !== 'corrupt' || Object.keys(M).length)
        w.check(L.same(v, want), 'wrong-variant', () => `variant(${k}) = ${L.canon(v)}, expected ${L.canon(want)}`);
      if (M[k]) seen[k] = true;
    } else if (kind === 'fetch') api_('fetch', () => client.fetch({ user_id: 'u' }));
    else if (kind === 'exposure') api_('exposure', () => client.exposure(w.pick(L.KEYS)));
    else if (kind === 'start') api_('start', () => client.start({ user_id: 'u' }));
    else if (kind === 'stop') api_('stop', () => client.stop());
    else if (kind === 'all') api_('all', () => client.all());
    else if (kind === 'clear') {
      api_('clear', () => client.clear());
      M = {};
    } else if (kind === 'setTracks') api_('setTracksAssignment', () => client.setTracksAssignment(w.chance(0.5)));
    else if (kind === 'setUser') api_('setUser', () => client.setUser({ user_id: 'u' }));
    else if (kind === 'receiver' && amplitude && !receiverSet) {
      receiverSet = true;
      conn().eventBridge.setEventReceiver((e) => exposures.push(e));
    }
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await L.breathe(w, 15000);
  }
  await w.runFor(20000);
  if (memoryWorks && withProvider)
    for (const k of Object.keys(seen))
      w.check(
        provided.some((e) => e.flag_key === k),
        'exposure-lost',
        () => `the exposure of ${k} never reached the tracking provider`,
      );
  w.probe('mode-' + mode);
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: L.SDK_STUB };
module.exports = {
  B04: {
    ...common,
    run: b04,
    runs: { quick: 24000, thorough: 200000 },
    rule: 'One to four client instances on one origin fetch, poll, clear and reload while pages crash at chosen storage writes, writes are refused and stored values are corrupted between loads.',
  },
  B05: {
    ...common,
    run: b05,
    runs: { quick: 24000, thorough: 200000 },
    rule: 'Random public API calls while browser storage is denied, null, full, throwing at random or pre-filled with garbage.',
  },
};
