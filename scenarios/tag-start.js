'use strict';
/**
 * Start-up of the tag: it always completes, applies what it should when it
 * should, and hides the page only as long as it may (T15); events tracked
 * meanwhile are counted exactly once (T18).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const PROJECT = 'a1b2c3d4e5f6a7b8c9d0';
const GARBAGE = ['', '{', '{"web_exp_id":"x', 'undefined', '%%%', '[1,2', 'not json'];
const mut = (id) => ({ action: 'mutate', data: { mutations: [{ id, selector: '#a', action: 'set' }] } });

function world(prop) {
  const T15 = prop === 'T15';
  const T18 = prop === 'T18';
  return async (w) => {
    const apiKey = w.chance(0.4) ? PROJECT : T.API;
    const slice = apiKey.slice(0, 10);
    // ---- the site's experiments
    const flags = [];
    const pages = {};
    const server = {};
    const spec = {};
    const nFlags = w.int(0, 4);
    for (let i = 0; i < nFlags; i++) {
      const k = i === 3 && w.chance(0.4) ? w.pick(['holdout-g', 'mutex-g']) : `f${i}`;
      const remote = w.chance(0.4);
      const s = (spec[k] = { remote, blocking: remote && w.chance(0.6), here: w.chance(0.75), on: w.weighted([[5, 'treatment'], [1, 'off'], [1, 'control']]) });
      const payloads = { treatment: [mut(`${k}/treatment`)], control: [] };
      // a flag may depend on an earlier one; if that one is (or waits for) a remote flag, it waits too
      const parent = T15 && i && w.chance(0.4) ? w.pick(Object.keys(spec).filter((x) => x !== k)) : null;
      const deps = parent
        ? { dependencies: [parent], segments: [{ variant: 'treatment', conditions: [[{ op: 'is', selector: ['result', parent, 'key'], values: [w.pick(['treatment', 'off', 'control'])] }]] }] }
        : {};
      s.waits = remote || !!(parent && spec[parent].waits);
      if (!remote && w.chance(0.3)) {
        deps.metadata = { blockingEvaluation: true };
        s.blocking = s.waits;
      }
      flags.push(T.flag(k, { mode: remote ? 'remote' : 'local', blocking: s.blocking, on: s.on, payloads, ...deps }));
      if (remote) server[k] = T.flag(k, { mode: 'local', on: w.pick(['treatment', 'off', 'control']), payloads });
      pages[k] = { ['p' + i]: T.pageObj('p' + i, 'url_change', {}, T.urlCond(s.here ? '/home' : '/elsewhere')) };
    }
    if (T15) for (let i = flags.length - 1; i > 0; i--) flags.splice(i, 1, ...flags.splice(w.int(0, i), 1, flags[i]));
    const keys = Object.keys(spec);
    const holdout = keys.some((k) => /^(holdout|mutex)-/.test(k));
    const anyRemote = keys.some((k) => spec[k].remote); // only these are fetched
    const blockingHere = keys.some((k) => spec[k].blocking && spec[k].here);
    const N = 6; // thresholds
    const rules = T18 ? { counter: {} } : undefined;
    if (T18) {
      for (let i = 1; i <= N; i++) rules.counter['n' + i] = [[{ condition: { type: 'behavior', event_type: 'view', op: 'greater or equal', value: i, time_type: 'rolling', interval: 'day', time_value: 1 } }]];
      flags.push(T.flag('counter', { segments: [], on: 'off' }));
    }
    // ---- what the world does to it
    const mix = L.netMix(w, { p: 0.6 });
    const configMix = L.netMix(w, { p: 0.5 });
    let configsAt = null;
    let flagRequests = 0; // of this visit
    let shown = () => false; // this visit shows a preview
    w.hooks.server = (req) => {
      if (T.parse(req).kind === 'configs') {
        const plan = L.netPlan(w, configMix, JSON.stringify({ flags, pageObjects: pages, ...(rules ? { behavioralTargetingRules: rules } : {}) }), 10000);
        if (L.planOk(plan) && w.chance(0.1)) {
          plan.body = w.pick(['{}', 'null', '[]', '"x"', '{"flags":[]}', '{"pageObjects":{}}']);
          w.fault('net-wrong-shape');
        }
        configsAt = w.now;
        return plan;
      }
      flagRequests++;
      return L.netPlan(w, mix, JSON.stringify(Object.values(server)), 1000);
    };
    w.hooks.mutation = (p, what, m) => {
      const k = m.id.split('/')[0];
      if (what !== 'apply' || spec[k].remote || !spec[k].waits) return;
      if (flagRequests === 0 && !shown()) w.flag('applied-too-early', `the change of ${k} is applied before the remote flags it depends on were asked for`);
      else w.probe('promoted-applied');
    };
    w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
    const badStore = w.weighted([[4, 'no'], [1, 'session'], [1, 'quota'], [1, 'both']]);
    w.hooks.storage = (p, kind, op, key) => {
      if (op === 'set' && key !== 'EXP_test' && ((kind === 'session' && badStore !== 'no' && badStore !== 'quota') || (kind === 'local' && (badStore === 'quota' || badStore === 'both')))) {
        w.fault('storage-full');
        throw L.quota();
      }
      if (op === 'get' && kind === 'session' && badStore === 'both') {
        w.fault('storage-unreadable');
        throw L.quota();
      }
    };
    const blockCookies = w.chance(0.2);
    if (blockCookies) w.hooks.cookie = () => (w.fault('cookies-blocked'), 'blocked');

    const tab = w.browser.newTab();
    let previewed = false; // this tab shows a preview
    let counted = 0; // events that must have been counted so far
    const visits = w.int(1, 2);
    for (let v = 0; v < visits; v++) {
      const preview = w.chance(0.2);
      const extension = w.chance(0.12);
      const gated = w.chance(0.2);
      const anySetup = w.weighted([[3, 'default'], [2, 'none'], [2, 'slow'], [1, 'rejects']]);
      const setupDelay = w.pick([0, 5, 400, 1500, 6000]);
      const url = 'https://www.shop.com/home' + (preview ? '?PREVIEW=true' + (keys.length && w.chance(0.6) ? `&${w.pick(keys)}=treatment` : '') : w.pick(['', '?utm_source=ad', '?x=%E0%A4%A', '#top']));
      const page = T.openPage(w, tab, { url });
      const g = page.g;
      const doc = g.document;
      // ---- what earlier visits left behind, damaged
      if (w.chance(0.3)) {
        const k = w.pick([`EXP_${slice}`, `EXP_${slice}_DEFAULT_USER_PROVIDER`, `EXP_MKTG_${slice}`, `EXP_unsent_$default_instance-web`, `AMP_${slice}`]);
        w.fault('storage-damaged');
        w.browser.localArea('https://www.shop.com').map.set(k, w.pick(GARBAGE));
      }
      if (w.chance(0.15)) {
        const k = w.pick([`EXP_${slice}_REDIRECT`, `EXP_${slice}_REDIRECT_MARKER`, `EXP_sent_v3_$default_instance-web`, `EXP_$default_instance-web-${apiKey.slice(-6)}-flags`, 'visual-editor-state']);
        w.fault('storage-damaged');
        w.browser.sessionArea(tab, 'https://www.shop.com').map.set(k, w.pick(GARBAGE));
      }
      if (!blockCookies && w.chance(0.3)) {
        w.fault('cookie-damaged');
        const k = w.pick([`AMP_${slice}`, `amp_${apiKey.slice(0, 6)}`, `EXP_${slice}_identity`, `AMP_MKTG_${slice}`]);
        doc.cookie = `${k}=${w.pick(['', '%', 'AAAA', '%7B', 'x.y.z', '"', 'e30%3D'])}; path=/`;
      }
      if (extension) g.WebExperiment = { injectedByExtension: true };
      if (anySetup !== 'default')
        T.integration(w, page, {
          user: () => ({}),
          setup:
            anySetup === 'none'
              ? undefined
              : () =>
                  new Promise((resolve, reject) => {
                    const end = anySetup === 'rejects' ? () => reject(new Error('integration failed')) : resolve;
                    if (setupDelay) g.setTimeout(end, setupDelay);
                    else end();
                  }),
        });
      const snippet = w.chance(0.4);
      if (snippet) {
        const s = doc.createElement('style');
        s.id = 'amp-exp-css';
        doc.head.appendChild(s);
      }
      const config = gated ? { consentOptions: { consentRequired: true, consentStatus: 'pending' } } : {};
      T.start(w, page, { flags, pages, rules, apiKey, config, noInit: true });

      // ---- watch every step
      const sessionWorks = badStore === 'no' || badStore === 'quota';
      const fetches = preview || extension || (previewed && sessionWorks);
      flagRequests = 0;
      shown = () => preview || previewed;
      if (preview) previewed = url.includes('=treatment');
      let launchedAt = null;
      let runAt = null;
      let stalls = 0;
      const sheets = new Map(); // sheet -> since
      let unhide = 0;
      const client = () => (g.webExperiment && !g.webExperiment.isStub ? g.webExperiment : null);
      w.hooks.afterStep = () => {
        if (!page.alive) return;
        const now = w.now;
        const up = new Set([...doc.adoptedStyleSheets].filter((s) => /visibility: hidden/.test(s.text)));
        for (const s of up) {
          if (!sheets.has(s)) {
            sheets.set(s, now);
            w.probe('hidden');
            w.check(launchedAt !== null, 'hidden-before-start', 'the page is hidden before the tag may start');
            w.check(fetches || blockingHere, 'hidden-for-nothing', 'the page is hidden although nothing shown here depends on a request');
          }
          w.check(now - sheets.get(s) <= 1000 + stalls, 'hidden-too-long', () => `the page has been hidden for ${now - sheets.get(s)} ms`);
          w.check(runAt === null || now === runAt, 'hidden-while-running', 'the page is hidden although the client is running');
        }
        for (const s of sheets.keys()) if (!up.has(s) && sheets.get(s) !== -1) {
          unhide++;
          sheets.set(s, -1);
        }
        w.check(sheets.size <= (fetches ? 2 : 1), 'hidden-again', () => `the page was hidden ${sheets.size} times`);
        const c = client();
        if (c && c.isRunning && runAt === null) runAt = now;
      };
      const hiddenNow = () => [...doc.adoptedStyleSheets].some((s) => /visibility: hidden/.test(s.text));

      // ---- events around the start
      const plugin = page.x.tag.createPlugin();
      let delivered = 0; // of this visit
      let dropped = false;
      const track = async () => {
        const deferred = gated && launchedAt === null;
        w.op('track', deferred ? 'view (no consent yet)' : 'view');
        if (!deferred) delivered++;
        const p = plugin.execute({ event_type: 'view', event_properties: {} });
        const ctx = await p;
        w.check(ctx && ctx.event_type === 'view', 'event-altered', 'the plugin did not pass the event on');
      };
      w.op('visit', `${page.url.href} ${fetches ? 'fetches configs ' : ''}${gated ? 'gated ' : ''}setup ${anySetup}`);

      // ---- start
      if (T18 && !gated) for (let i = w.choose(3); i > 0; i--) await track();
      if (T18 && gated && w.chance(0.5)) {
        // before the tag says consent is required, events wait; then they are dropped
        plugin.execute({ event_type: 'view', event_properties: {} });
      }
      const launch = () => {
        launchedAt = w.now;
      };
      if (!gated) launch();
      page.init();
      if (gated) {
        for (let i = w.choose(3); i > 0; i--) {
          if (T18 && w.chance(0.6)) await track();
          await w.runFor(w.pick([0, 10, 500, 3000]));
          w.check(!client(), 'started-without-consent', 'the client exists before consent');
        }
        launch();
        w.op('grant');
        page.x.tag.setConsentStatus('granted');
      }
      w.hooks.afterStep();
      if (fetches) w.check(hiddenNow(), 'flash', 'the page is not hidden while the latest configuration is fetched');

      // local changes need no network
      const localNow = () => {
        const live = new Set([...page.live.values()].map((m) => m.id));
        for (const k of keys) {
          if (spec[k].waits || spec[k].on !== 'treatment' || !spec[k].here) continue;
          w.check(live.has(`${k}/treatment`), 'local-late', () => `the change of local experiment ${k} is not applied ${w.now - launchedAt} ms after the start`);
          w.probe('local-applied');
        }
      };
      const setupWait = anySetup === 'default' ? 1000 : anySetup === 'none' ? 0 : setupDelay;
      if (!fetches && w.chance(0.6)) {
        await w.drain();
        if (T15 && !holdout) localNow();
        if (T15 && !holdout && !blockingHere) w.check(!hiddenNow() && !doc.getElementById('amp-exp-css'), 'hidden-for-nothing', 'the page is still hidden although everything that decides its looks has been applied');
        if (runAt === null && blockingHere && !v) w.check(hiddenNow(), 'flash', 'the page is shown before its blocking remote experiment is decided');
      }

      // ---- while it starts
      for (let n = w.choose(7); n > 0; n--) {
        const k = w.weighted([[3, 'wait'], [1, 'stall'], [1, 'jump'], [1, 'again'], [T18 ? 5 : 1, 'track'], [1, 'grant']]);
        if (k === 'wait') await w.runFor(w.pick([0, 1, 30, 300, 950, 4000]));
        else if (k === 'stall') {
          const d = w.pick([40, 900, 3000]);
          w.fault('stall');
          page.stallUntil = Math.max(page.stallUntil || 0, w.now + d);
          stalls += d;
        } else if (k === 'jump') {
          w.fault('clock-jump');
          page.clockSkew += w.pick([-3600e3, -50, 1500, 3600e3, T18 ? 0 : 86400e3 * 400]);
        } else if (k === 'again') {
          w.op('initialize again');
          page.init();
        } else if (k === 'grant' && gated) page.x.tag.setConsentStatus('granted');
        else if (k === 'track' && !dropped) await track();
        await w.ticks(w.choose(3));
        w.hooks.afterStep();
        if (w.chance(0.5)) {
          await w.drain();
          w.hooks.afterStep();
          w.interleaved = true;
        }
      }
      const bound = (fetches ? 10000 : 0) + (holdout || anyRemote ? setupWait : 0) + (anyRemote ? 1000 : 0) + stalls + 60;
      const deadline = launchedAt + bound;
      if (w.now < deadline) await w.runFor(deadline - w.now);
      await w.drain();
      w.hooks.afterStep();
      w.check(runAt !== null, 'not-started', () => `the client is not running ${w.now - launchedAt} ms after the start`);
      w.check(!hiddenNow(), 'hidden-while-running', 'the page is still hidden');
      w.check(!doc.getElementById('amp-exp-css'), 'snippet-left', "the site's anti-flicker snippet is still in place");
      if (snippet) w.probe('snippet-removed');
      await w.runFor(300);
      const c = client();
      if (T15) {
        const want = [];
        for (const k of keys) if (spec[k].here && (c.previewFlags[k] || c.getExperimentClient().variant(k).key) === 'treatment') want.push(`${k}/treatment`);
        const live = [...page.live.values()].map((m) => m.id).sort();
        w.check(live.join() === want.sort().join(), 'changes-differ', () => `live [${live}] expected [${want}]`);
      }
      if (T18) {
        if (w.chance(0.5)) {
          await track();
          await w.runFor(200);
        }
        counted = (badStore === 'no' || badStore === 'session' ? counted : 0) + delivered;
        const got = (c.getExperimentClient().getUser().behavioral_targeting || []).length;
        const most = Math.min(counted, N);
        w.check(got === most, 'events-miscounted', () => `${got} of ${counted} events were counted (thresholds up to ${N})`);
        if (delivered) w.probe('events-counted');
      }
      if (T18) await w.runFor(1500 + Math.max(0, (page.stallUntil || 0) - w.now)); // history is written with a delay
      page.kill('left');
      await w.runFor(100);
    }
  };
}

const meta = (id, rule, runs) => ({ run: world(id), bundles: ['tag'], runs, rule, real: T.TAG_REAL, stubs: T.TAG_STUB });
module.exports = {
  T15: meta('T15', '1-2 visits to a site with 0-4 random experiments; previews, consent, integrations, server and storage faults, damaged stored data, stalls and clock jumps', { quick: 12000, thorough: 150000 }),
  T18: meta('T18', 'as T15, with events tracked before, during and after the start', { quick: 12000, thorough: 150000 }),
};
