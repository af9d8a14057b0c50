'use strict';
/**
 * Page targeting: triggers against a reference model (T10), what is live on the
 * page as a function of variants and active pages (T11), impressions (T12).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');
const P = require('./lib-pages');

const IMPRESSION = '$impression';
const VAR = ['treatment', 'control', 'off', 'second'];
/** a condition that holds once the visitor has an identity */
const IDENTIFIED = [[{ op: 'is not', selector: ['context', 'user', 'web_exp_id'], values: ['(none)'] }]];

function genPayload(w, flagKey, variant, pageIds) {
  const scope = () => (w.chance(0.5) ? undefined : pageIds.filter(() => w.chance(0.6)));
  const out = [];
  const nm = w.weighted([[4, 1], [2, 2], [1, 0]]);
  if (nm) {
    const mutations = [];
    for (let i = 0; i < nm; i++) {
      const s = scope();
      mutations.push({ id: `${flagKey}/${variant}/m${i}`, selector: '#a', action: 'set', ...(s ? { metadata: { scope: s } } : {}) });
    }
    out.push({ action: 'mutate', data: { mutations } });
  }
  for (let i = w.weighted([[3, 0], [3, 1], [1, 2]]); i > 0; i--) {
    const s = scope();
    const id = `${flagKey}-${variant}-i${i}`;
    const bare = w.chance(0.15); // styles only
    out.push({
      action: 'inject',
      data: {
        id,
        ...(s ? { scope: s } : {}),
        ...(bare ? {} : { js: w.chance(0.1) ? `window.__inj(id, utils);throw new Error('site code')` : w.chance(0.08) ? `window.__inj(id, utils, true)` : `window.__inj(id, utils)` }),
        ...(bare || w.chance(0.5) ? { css: `.${id} { color: red }` } : {}),
        ...(w.chance(0.4) ? { html: `<div class="${id}">x</div>` } : {}),
      },
    });
  }
  return out;
}

/** several pages of the same few types: their triggers share state */
function focus(w) {
  if (w.chance(0.5)) return P.ALL_TYPES;
  const out = [];
  for (let i = w.int(1, 2); i > 0; i--) out.push(w.pick(P.ALL_TYPES));
  return out;
}

function pageScenario(prop) {
  const T10 = prop === 'T10';
  const T11 = prop === 'T11';
  const T12 = prop === 'T12';
  const T16 = prop === 'T16';
  const T19 = prop === 'T19';
  return async (w) => {
    const keys = ['fa', 'fb', 'fc'].slice(0, w.int(1, 3));
    const { pages, list } = P.genPages(w, keys, T10 ? { types: focus(w) } : { max: 2, types: w.chance(0.7) ? ['manual', 'url_change', 'manual', 'analytics_event', 'element_appeared'] : P.ALL_TYPES });
    const flags = [];
    const serverOn = {};
    const payloadOf = {}; // flag -> variant -> payload
    const rules = {}; // flags whose variant follows what the visitor does
    for (const k of keys) {
      const ids = Object.keys(pages[k]);
      payloadOf[k] = {};
      const payloads = {};
      for (const v of ['treatment', 'second'])
        payloads[v] = payloadOf[k][v] = T10 ? [{ action: 'mutate', data: { mutations: [{ id: `${k}/${v}/m0`, selector: '#a', action: 'set' }] } }] : genPayload(w, k, v, ids);
      if (!T10 && w.chance(0.15)) payloads.control = payloadOf[k].control = genPayload(w, k, 'control', ids);
      const remote = !T10 && w.chance(0.35);
      const on = w.weighted([[5, 'treatment'], [1, 'control'], [1, 'off'], [1, 'second']]);
      const identified = T12 && w.chance(0.5);
      const follows = !T10 && !remote && w.chance(0.3);
      if (follows) rules[k] = { ['r-' + k]: [[{ condition: { type: 'behavior', event_type: w.pick(['view', 'buy']), op: 'greater or equal', value: w.int(1, 2), time_type: 'rolling', interval: 'day', time_value: 1 } }]] };
      const o = follows ? { segments: [{ variant: w.pick(VAR), conditions: T.behaves(['r-' + k]) }], on, payloads } : identified ? { segments: [{ variant: on, conditions: IDENTIFIED }], on: 'off', payloads } : { on, payloads };
      flags.push(T.flag(k, { ...o, mode: remote ? 'remote' : 'local', blocking: remote && w.chance(0.5) }));
      if (remote) serverOn[k] = T.flag(k, { ...o, mode: 'local', ...(identified ? { segments: [{ variant: w.pick(VAR), conditions: IDENTIFIED }] } : { on: w.pick(VAR) }) });
    }
    // a flag that others depend on
    const dep = T19 && w.chance(0.4) ? w.pick(['holdout-h', 'mutex-m', 'gate']) : null;
    const dependents = [];
    if (dep) {
      for (const f of flags) {
        if (f.metadata.evaluationMode !== 'local' || rules[f.key] || w.chance(0.3)) continue;
        dependents.push(f.key);
        f.dependencies = [dep];
        const rest = (v) => ({ metadata: { segmentName: 'All Other Users' }, variant: v });
        const needs = { variant: f.segments[f.segments.length - 1].variant, conditions: [[{ op: 'is', selector: ['result', dep, 'key'], values: ['treatment'] }]] };
        f.segments = w.weighted([[4, [needs, rest('off')]], [2, [needs, rest('control')]], [1, [{ variant: 'off', conditions: IDENTIFIED }, needs, rest('off')]]]);
      }
      flags.push(T.flag(dep, w.chance(0.4) ? { segments: [{ variant: w.pick(['treatment', 'control']), conditions: IDENTIFIED }], on: 'off' } : { on: w.pick(['treatment', 'control', 'off']) }));
    }
    const allKeys = dep ? [...keys, dep] : keys;
    const mix = Object.keys(serverOn).length ? L.netMix(w, { p: 0.5 }) : {};
    // preview: the latest configuration is fetched, and differs from the one the page came with
    const latest = T16 && flags.map((f) => JSON.parse(JSON.stringify(f).replace(/\/m(\d)"/g, '/m$1/latest"')));
    const configMix = T16 ? L.netMix(w, { p: 0.4 }) : {};
    let gotLatest = false; // the page at hand starts with the latest configuration
    let configsOut = 0;
    w.hooks.server = (req) => {
      if (!T16 || T.parse(req).kind !== 'configs') return L.netPlan(w, mix, JSON.stringify(Object.values(serverOn)), 1000);
      const plan = L.netPlan(w, configMix, JSON.stringify({ flags: latest, pageObjects: pages, behavioralTargetingRules: rules }), 10000);
      gotLatest = L.planOk(plan) && plan.delay < 10000;
      configsOut++;
      return plan;
    };
    w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
    const slowCookies = w.chance(0.2);
    if (slowCookies) w.hooks.cookie = (p, op) => (op === 'set' ? (w.fault('cookies-blocked'), 'blocked') : 'blocked');

    let tab = w.browser.newTab();
    let preview = {}; // of this tab
    const visits = T16 ? w.int(1, 3) : w.weighted([[3, 1], [1, 2]]);
    for (let v = 0; v < visits; v++) {
      let url = 'https://www.shop.com' + w.pick(P.URLS);
      if (T16) {
        if (v && w.chance(0.3)) {
          tab = w.browser.newTab();
          preview = {};
        }
        if (w.chance(v ? 0.25 : 0.85)) {
          preview = {};
          for (const k of keys) if (w.chance(0.6)) preview[k] = w.weighted([[4, 'treatment'], [4, 'second'], [2, 'control'], [1, 'off'], [1, 'no-such-variant']]);
          if (w.chance(0.1)) preview['no-such-flag'] = 'on';
          const u = new URL(url);
          u.search = '?' + new URLSearchParams({ PREVIEW: 'true', ...preview });
          url = u.href;
          w.op('preview', JSON.stringify(preview));
        }
      }
      const previewing = Object.keys(preview).length > 0 || url.includes('PREVIEW');
      const page = T.openPage(w, tab, { url });
      const g = page.g;
      const errors = [];
      g.console.error = (...a) => errors.push(a.map(String).join(' '));
      const V = new P.Visit(w, page, list);
      w.op('visit', page.url.href);

      // ---- what the site's own code does, an injected script included
      const site = {
        manual: () => {
          const name = w.pick(['m1', 'm2']);
          const on = !w.chance(0.35);
          V.op('manual', `${name} ${on}`);
          V.manual[on ? 'add' : 'delete'](name);
          g.webExperiment.toggleManualPageObject(name, on);
        },
        event: () => {
          const e = { type: w.pick(['view', 'buy']), plan: w.pick(['pro', 'free']) };
          V.op('event', `${e.type} ${e.plan}`);
          V.events.push(e);
          T.deliver(w, g.webExperiment, e.type, { plan: e.plan });
        },
        nav: () => {
          const to = new URL(w.pick(P.URLS), page.url).href;
          V.op('navigate', to);
          const changed = to !== page.url.href;
          const was = page.onUrl;
          page.onUrl = () => changed && urlChanged();
          if (w.chance(0.2)) g.history.replaceState({}, '', to);
          else T.spa(page, to);
          page.onUrl = was;
        },
      };
      let nested = w.chance(0.3) ? 2 : 0;

      // ---- injections as the site sees them
      const inj = new Map(); // id -> times live
      g.__inj = (id, utils, bad) => {
        inj.set(id, (inj.get(id) || 0) + 1);
        w.log('inj:apply', id);
        let done = false;
        if (nested && client && w.chance(0.5)) {
          nested--;
          // (code that leaves its page from within its own injection is not run and tracked again there)
          const k = w.pick(T12 ? ['manual', 'event'] : ['manual', 'event', 'nav']);
          w.fault('nested-' + k);
          site[k]();
        }
        utils.remove = () => {
          w.log('inj:remove', id);
          if (T11 && done) w.flag('removed-twice', `the clean-up of injection ${id} ran twice`);
          done = true;
          inj.set(id, inj.get(id) - 1);
          if (bad) {
            w.fault('site-cleanup-throws');
            throw new Error('site code');
          }
        };
      };
      if (T11)
        w.hooks.mutation = (p, op, m) => {
          if (op === 'apply' && [...p.live.values()].filter((x) => x.id === m.id).length > 1) w.flag('applied-twice', `mutation ${m.id} was applied while it was live`);
        };

      // ---- impressions
      let client = null;
      const given = []; // impressions handed over, and what they said then
      const base = () => page.url.origin + page.url.pathname;
      let urlSeq = 0;
      let seenBase = base();
      const tracked = new Map(); // flag -> {variant, urlSeq}
      const urlChanged = () => {
        V.begin();
        if (base() !== seenBase) urlSeq++;
        seenBase = base();
      };
      T.integration(w, page, {
        onTrack: (ev) => {
          if (ev.eventType !== IMPRESSION) return;
          const { flag_key: k } = ev.eventProperties;
          const variant = ev.eventProperties.variant || 'off'; // a default variant is reported without a key
          w.probe('impression');
          if (T16 && preview[k] && variant !== preview[k]) w.flag('impression-of-another-variant', `impression of ${k}=${variant} but ${preview[k]} is previewed`);
          if (!T12) return;
          const md = ev.eventProperties.metadata || {};
          const here = page.url.href.split('?')[0];
          if (md.url !== here) w.flag('impression-url', `impression of ${k}=${variant} says ${md.url} at ${here}`);
          if (Math.abs(ev.eventProperties.time - page.dateNow()) > 1) w.flag('impression-time', `impression of ${k}=${variant} carries the time ${ev.eventProperties.time} at ${page.dateNow()}`);
          given.push([ev, JSON.stringify(ev)]);
          const active = (client || g.webExperiment).getActivePages();
          if (!active[k]) w.flag('impression-off-page', `impression of ${k}=${variant} while none of its pages is active`);
          const now = g.webExperiment.getExperimentClient().variant(k).key;
          if (now !== variant) w.flag('impression-of-another-variant', `impression of ${k}=${variant} but the visitor has ${now}`);
          const last = tracked.get(k);
          if (last && last.urlSeq === urlSeq && last.variant === variant) w.flag('impression-repeated', `second impression of ${k}=${variant} on ${base()}`);
          tracked.set(k, { variant, urlSeq });
        },
      });
      T.start(w, page, { flags, pages, ...(Object.keys(rules).length ? { rules } : {}), config: { useDefaultNavigationHandler: true }, noInit: true });
      const safety = () => {
        if (!client || V.epoch < 0) return;
        if (T10) {
          const active = client.getActivePages();
          for (const p of list) {
            const on = !!(active[p.flag] && active[p.flag][p.id]);
            if (on && V.expect(p, false) === 'no')
              w.fail('active-without-trigger', `page ${p.id} of ${p.flag} (${V.id(p)}, url ${p.cond}) is active at ${page.url.href} although its trigger has not fired here`);
            if (on) w.probe('active:' + p.type);
          }
        }
      };
      w.hooks.afterStep = T19 ? () => (watch(), T19 && client && w.chance(0.1) && look()) : safety;
      const sync = () => {
        // triggers that act at once
        if (!T10) return;
        const active = client.getActivePages();
        for (const p of list) {
          if (!['url_change', 'manual', 'analytics_event', 'exit_intent'].includes(p.type) && !(p.type === 'user_interaction' && !p.value.minThresholdMs)) continue;
          const on = !!(active[p.flag] && active[p.flag][p.id]);
          const want = V.expect(p, false);
          if (want === 'yes') w.check(on, 'trigger-missed', () => `page ${p.id} of ${p.flag} (${V.id(p)}, url ${p.cond}) is not active at ${page.url.href} although its trigger has fired`);
        }
      };
      const settle = async () => {
        await w.runFor(450);
        V.settled();
        const active = client.getActivePages();
        if (T10)
          for (const p of list) {
            const on = !!(active[p.flag] && active[p.flag][p.id]);
            const want = V.expect(p, true);
            if (want === 'yes') w.check(on, 'trigger-missed', () => `page ${p.id} of ${p.flag} (${V.id(p)}, url ${p.cond}) is still not active at ${page.url.href}`);
            if (want === 'no') w.check(!on, 'active-without-trigger', () => `page ${p.id} of ${p.flag} (${V.id(p)}, url ${p.cond}) is active at ${page.url.href}`);
          }
        if ((T11 || T12 || T16 || T19) && client.isRunning) checkLive(active);
        if (T19) lookSettled(active);
      };
      // ---- what the client shows of itself
      const debugOn = T19 && w.chance(0.6);
      const globally = T19 && w.chance(0.5);
      if (debugOn && globally) g.__AMP_DEBUG = true;
      if (T19) w.browser.localArea(page.url.origin).map.set('amp-ve-debug', String(debugOn));
      const ids = (active) => JSON.stringify(Object.keys(active).sort().map((k) => [k, Object.keys(active[k]).sort()]));
      const subs = [];
      let changes = 0;
      let wasActive = null;
      let changedAt = 0;
      const watch = () => {
        if (!T19 || !client) return;
        const now = ids(client.getActivePages()) + page.url.href;
        if (now !== wasActive) {
          changes++;
          changedAt = w.now;
        }
        wasActive = now;
      };
      const shown = (st) => JSON.stringify(keys.map((k) => [k, st.flags[k] && st.flags[k].isActive])) + st.currentUrl;
      const subscribe = () => {
        watch();
        const debug = w.chance(0.5);
        const s = { debug, on: true, calls: 0, last: debug ? null : ids(client.getActivePages()), since: changes, at: -Infinity };
        subs.push(s);
        w.op('subscribe', debug ? 'debug' : 'pages');
        const cb = (x) => {
          s.calls++;
          if (!s.on) return w.flag('told-after-unsubscribing', `a ${debug ? 'debug' : 'page change'} subscriber was called after it unsubscribed`);
          if (!debug) {
            s.last = ids(x.activePages);
            if (s.last !== ids(client.getActivePages())) w.flag('told-other-pages', `a subscriber was told ${s.last} but active are ${ids(client.getActivePages())}`);
            return w.probe('subscriber-told');
          }
          if (!debugOn) return w.flag('debug-told', 'a debug subscriber was called although debugging is off');
          if (w.now - s.at < 100) w.flag('debug-not-debounced', `a debug subscriber was called twice within ${w.now - s.at} ms`);
          s.at = w.now;
          s.last = shown(x);
          lookAt(x);
          return w.probe('debug-subscriber-told');
        };
        s.off = debug ? client.addDebugStateSubscriber(cb) : client.addPageChangeSubscriber(cb);
        w.check(typeof s.off === 'function', 'cannot-unsubscribe', 'subscribing returned no function');
      };
      const lookAt = (st) => {
        const bad = (m) => w.flag('debug-state-wrong', m);
        const active = client.getActivePages();
        const ec = client.getExperimentClient();
        w.probe('looked');
        if (Object.keys(st.flags).sort().join() !== allKeys.slice().sort().join()) return bad(`flags ${Object.keys(st.flags)}, configured are ${allKeys}`);
        if (st.currentUrl !== page.url.href) return bad(`url ${st.currentUrl} at ${page.url.href}`);
        if (Math.abs(st.timestamp - page.dateNow()) > 1) return bad(`timestamp ${st.timestamp} at ${page.dateNow()}`);
        if (st.consent.required || st.consent.startDeferred || !st.consent.started) return bad(`consent ${JSON.stringify(st.consent)}`);
        if (st.visualEditor.isActive) return bad('the visual editor is said to be active');
        if (!debugOn && st.events.length) return bad('events were recorded although debugging is off');
        for (let i = 1; i < st.events.length; i++) if (st.events[i].timestamp < st.events[i - 1].timestamp) return bad('the events are not in order');
        for (const k of allKeys) {
          const f = st.flags[k];
          const v = ec.variant(k);
          const config = flags.find((x) => x.key === k);
          if ((f.variant ? f.variant.key : undefined) !== v.key) return bad(`${k} has ${JSON.stringify(f.variant)}, the client says ${v.key}`);
          if (f.variant && f.variant.value !== v.value) return bad(`${k} has the value ${f.variant.value}, the client says ${v.value}`);
          if (f.isActive !== !!active[k]) return bad(`${k} is said to be ${f.isActive ? '' : 'in'}active, active pages are ${ids(active)}`);
          const on = !!v.key && v.key !== 'off';
          if (on !== (f.inactiveReason === undefined)) return bad(`${k}=${v.key} is given the reason ${f.inactiveReason}`);
          if (dependents.includes(k)) {
            // the variant of the other flag may have been another when this one was decided: both are decided together
            const by = ec.variant(dep).key;
            const want = [{ flagKey: dep, type: dep.startsWith('holdout-') ? 'holdout' : dep.startsWith('mutex-') ? 'mutex' : 'prerequisite', resolvedVariant: by || null, blocking: !on && by !== 'treatment' && config.segments.length < 3 }];
            if (JSON.stringify(f.dependencies) !== JSON.stringify(want)) return bad(`${k}=${v.key} with ${dep}=${by} is said to depend on ${JSON.stringify(f.dependencies)}`);
            if (want[0].blocking && !(f.inactiveReason || '').includes(`"${dep}"`)) return bad(`${k}=${v.key} with ${dep}=${by} is given the reason ${f.inactiveReason}`);
            w.probe(want[0].blocking ? 'blocked-by-' + want[0].type : 'dependency');
          } else if (f.dependencies) return bad(`${k} is said to depend on ${JSON.stringify(f.dependencies)}`);
          if (config.metadata.evaluationMode === 'local') {
            const a = f.audienceEvaluation;
            if (!a || a.steps.length !== config.segments.length || a.matched !== !!v.key) return bad(`${k}=${v.key} is explained by ${JSON.stringify(a)}`);
            const first = a.steps.find((x) => x.matched);
            if (v.key && (!first || first.bucketVariant !== v.key)) return bad(`${k}=${v.key} is explained by the segment ${JSON.stringify(first)}`);
          }
          const mine = list.filter((p) => p.flag === k);
          if (f.pageObjects.map((p) => p.id).sort().join() !== mine.map((p) => p.id).sort().join()) return bad(`page objects ${f.pageObjects.map((p) => p.id)} of ${k}`);
          for (const p of mine) {
            const o = f.pageObjects.find((x) => x.id === p.id);
            const holds = P.condHolds[p.cond](page.url.href);
            const here = `page ${p.id} of ${k} (${V.id(p)}, url ${p.cond}) at ${page.url.href}`;
            if (o.trigger.type !== p.type) return bad(`${here} is said to be a ${o.trigger.type}`);
            if (o.urlConditionsPassed !== holds) return bad(`${here}: URL conditions are said to ${o.urlConditionsPassed ? '' : 'not '}hold`);
            if (o.triggerPassed !== o.trigger.passed || (o.overallStatus === 'pass') !== (o.triggerPassed && o.urlConditionsPassed)) return bad(`${here} is said to ${o.overallStatus}: ${JSON.stringify(o)}`);
            if (V.epoch < 0) continue;
            const want = V.expect({ ...p, cond: 'any' }, false);
            if (want === 'no' && o.triggerPassed) return bad(`${here}: its trigger is said to have fired`);
            if (o.triggerPassed) w.probe('passed:' + p.type);
          }
        }
        return undefined;
      };
      const look = () => {
        if (!client) return;
        const st = client.getDebugState();
        lookAt(st);
        const vs = client.getVariants();
        if (Object.keys(vs).sort().join() !== allKeys.slice().sort().join()) w.flag('variants-wrong', `variants of ${Object.keys(vs)}`);
        for (const k of allKeys) if (vs[k].key !== client.getExperimentClient().variant(k).key) w.flag('variants-wrong', `${k} is ${vs[k].key}`);
        for (const x of client.getActiveExperiments()) if (!keys.includes(x)) w.flag('active-experiments-wrong', x);
      };
      const lookSettled = (active) => {
        watch();
        for (const s of subs) {
          if (!s.on) continue;
          if (!s.debug) w.check(s.last === ids(active), 'subscriber-not-told', () => `a subscriber last heard of ${s.last}, active are ${ids(active)}`);
          else if (debugOn && changes > s.since && w.now - changedAt > 101) w.check(s.last === shown(client.getDebugState()), 'subscriber-not-told', () => `a debug subscriber last heard of ${s.last}, it is ${shown(client.getDebugState())}`);
        }
        look();
        const st = client.getDebugState();
        for (const p of list) {
          const o = st.flags[p.flag].pageObjects.find((x) => x.id === p.id);
          const on = !!(active[p.flag] && active[p.flag][p.id]);
          w.check(!on || o.urlConditionsPassed, 'debug-state-wrong', () => `page ${p.id} of ${p.flag} is active but its URL conditions are said not to hold`);
          if (['url_change', 'manual', 'analytics_event', 'element_appeared', 'user_interaction', 'exit_intent'].includes(p.type)) w.check((o.overallStatus === 'pass') === on, 'debug-state-wrong', () => `page ${p.id} of ${p.flag} (${V.id(p)}) is ${on ? '' : 'not '}active but said to ${o.overallStatus}: ${JSON.stringify(o)}`);
        }
      };
      const actsOf = (k) => {
        if (!preview[k]) return client.getExperimentClient().variant(k).payload || [];
        const f = (page.latest ? latest : flags).find((x) => x.key === k);
        const variant = f.variants[preview[k]];
        w.probe('previewed');
        return (variant && variant.payload) || [];
      };
      const checkLive = (active) => {
        // (a new payload of the same variant waits for the next page)
        const id = (x) => (T16 && !preview[x.split('/')[0]] ? x.replace('/latest', '') : x);
        const wantM = [];
        const wantI = [];
        const wantX = [];
        const wantS = new Map();
        const sheetsOf = (x) => [...g.document.adoptedStyleSheets].filter((y) => y.text.includes(`.${x} {`)).length;
        const scriptsOf = (x) => g.document.querySelectorAll('script').filter((y) => y.id === 'js-' + x).length;
        for (const k of keys) {
          const variant = preview[k] || client.getExperimentClient().variant(k).key;
          const acts = T16 ? actsOf(k) : payloadOf[k][variant] || [];
          const pagesOf = active[k] || {};
          const on = (scope) => (scope ? scope.some((id) => pagesOf[id]) : Object.keys(pagesOf).length > 0);
          let shown = false;
          if (variant === 'off' || variant === 'control') shown = on();
          if (variant !== 'off' || preview[k])
            for (const a of acts) {
              if (a.action === 'mutate')
                for (const m of a.data.mutations) if (on(m.metadata && m.metadata.scope)) { wantM.push(id(m.id)); shown = true; }
              if (a.action === 'inject' && on(a.data.scope)) { if (a.data.js) wantI.push(a.data.id.replace(/-/g, '')); else w.probe('styles-only'); wantS.set(a.data.id, a); shown = true; }
            }
          if (shown) wantX.push([k, variant]);
        }
        const liveM = [...page.live.values()].map((m) => id(m.id)).sort();
        const liveI = [...inj].filter(([, n]) => n).map(([id, n]) => (n === 1 ? id : `${id} x${n}`)).sort();
        const state = () => `active ${JSON.stringify(Object.fromEntries(Object.entries(active).map(([k, x]) => [k, Object.keys(x)])))} variants ${JSON.stringify(Object.fromEntries(keys.map((k) => [k, client.getExperimentClient().variant(k).key])))}`;
        if (T11 || T16 || T19) {
          w.check(liveM.join() === wantM.sort().join(), 'mutations-differ', () => `live [${liveM}] expected [${wantM}], ${state()}`);
          w.check(liveI.join() === wantI.sort().join(), 'injections-differ', () => `live [${liveI}] expected [${wantI}], ${state()}`);
          if (T11)
            for (const k of keys)
              for (const v of Object.keys(payloadOf[k]))
                for (const a of payloadOf[k][v]) {
                  if (a.action !== 'inject') continue;
                  const x = a.data.id;
                  const want = wantS.has(x);
                  w.check(sheetsOf(x) === (want && a.data.css ? 1 : 0), 'styles-differ', () => `${sheetsOf(x)} style sheets of injection ${x}, which is ${want ? '' : 'not '}shown, ${state()}`);
                  w.check(scriptsOf(x.replace(/-/g, '')) <= (want && a.data.js ? 1 : 0), 'script-left', () => `${scriptsOf(x)} scripts of injection ${x}, which is ${want ? '' : 'not '}shown, ${state()}`);
                }
          if (liveM.length) w.probe('mutations-live');
          if (liveI.length) w.probe('injections-live');
        }
        if (T16) w.check(!T.hidden(page), 'page-hidden', 'the page is hidden');
        if (T12)
          for (const [k, variant] of wantX) {
            const t = tracked.get(k);
            w.check(t && t.urlSeq === urlSeq && t.variant === variant, 'impression-missing', () => `${k}=${variant} is shown on ${base()} but its impression was not tracked there (last ${JSON.stringify(t)}), ${state()}`);
          }
      };

      // the notice that this is a preview
      let runSince = null;
      let dismissed = false;
      const notice = () => {
        if (!T16 || !page.alive || page.stallUntil > w.now) return;
        if (client.isRunning && runSince === null) runSince = w.now;
        const all = g.document.querySelectorAll('#amp-preview-modal');
        const due = Object.keys(preview).some((k) => (page.latest ? latest : flags).some((f) => f.key === k && f.variants[preview[k]]));
        w.check(all.length <= (due ? 1 : 0), 'preview-notices', () => `${all.length} notices of previews are shown, ${due ? '' : 'not '}previewing`);
        if (due && !dismissed && runSince !== null && w.now > Math.max(runSince + 500, page.stallUntil || 0) + 40) w.check(all.length === 1, 'preview-not-noted', () => `no notice of the preview ${w.now - runSince} ms after the client runs`);
        if (!all.length) return;
        w.probe('preview-noted');
        const text = (c) => all[0].querySelectorAll(c).map((x) => x.textContent);
        const says = text('.amp-preview-modal-title').map((k, i) => `${k}=${text('.amp-preview-modal-variant-badge')[i]}`).sort();
        const want = Object.entries(preview).map((x) => x.join('=')).sort();
        w.check(says.join() === want.join(), 'preview-notice-wrong', () => `the notice says [${says}], previewed is [${want}]`);
        if (w.chance(0.1)) {
          w.op('dismiss the notice');
          dismissed = true;
          all[0].querySelector('.amp-preview-modal-close').dispatchEvent(T.ev('click'));
          w.check(!g.document.querySelectorAll('#amp-preview-modal').length, 'preview-notice-stays', 'the notice of the preview cannot be dismissed');
        }
      };

      // ---- the visit
      V.begin();
      gotLatest = false;
      const fetched = configsOut;
      page.init();
      if (T16) {
        w.check((configsOut > fetched) === previewing, 'preview-not-entered', () => `${previewing ? 'the latest configuration was not fetched for a preview of' : 'a configuration was fetched without a preview at'} ${url}`);
        for (let i = 0; i < 12 && g.webExperiment.isStub; i++) await w.runFor(1000);
        w.check(!g.webExperiment.isStub, 'not-started', 'no client 12 s after a preview started');
        page.latest = gotLatest;
        const left = page.url.searchParams;
        w.check(!left.has('PREVIEW') && !Object.keys(preview).some((k) => left.has(k)), 'preview-params-left', () => `the page is at ${page.url.href}`);
      }
      client = g.webExperiment;
      if (!T16 && w.chance(0.08))
        // another copy of the script
        w.schedule(w.pick([0, 0, 5, 60, 400, 2000]), () => {
          w.fault('second-script');
          page.run(w.bundles.tag).tag.initialize(T.API, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(Object.keys(rules).length ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) }, { useDefaultNavigationHandler: true });
        }, { page, lane: 'script', label: 'second-script' });
      safety();
      sync();
      const c = client;
      let n = w.weighted([[3, w.int(1, 14)], [1, w.int(10, 30)]]);
      while (n-- && page.alive) {
        const k = w.weighted([
          [3, 'dom'], [3, 'layout'], [2, 'click'], [3, 'hover'], [2, 'focus'], [1, 'exit'], [T10 ? 2 : 8, 'manual'], [2, 'event'],
          [1, 'hideShow'], [2, 'scroll'], [3, 'nav'], [1, 'back'], [T10 || T16 ? 0 : 1, 'reapply'], [1, 'stall'], [T19 ? 3 : 0, 'subscribe'], [T19 ? 1 : 0, 'unsubscribe'],
        ]);
        if (k === 'dom') V.dom();
        else if (k === 'layout') V.layout();
        else if (k === 'click') V.click();
        else if (k === 'hover') V.move('hover');
        else if (k === 'focus') V.move('focus');
        else if (k === 'exit') V.exit();
        else if (k === 'hideShow') V.hideShow();
        else if (k === 'scroll') V.scroll();
        else if (k === 'manual' || k === 'event' || k === 'nav') site[k]();
        else if (k === 'subscribe') subscribe();
        else if (k === 'unsubscribe' && subs.length) {
          const s = w.pick(subs);
          w.op('unsubscribe');
          s.off();
          s.on = false;
        } else if (k === 'back') {
          V.op('back');
          const from = page.url.href;
          page.onUrl = () => page.url.href !== from && urlChanged();
          page.historyBack();
          page.onUrl = null;
        } else if (k === 'reapply' && c.isRunning) {
          V.op('reapply');
          if (w.chance(0.5)) c.revertVariants(w.chance(0.5) ? { flagKeys: [w.pick(keys)] } : undefined);
          c.applyVariants();
        } else if (k === 'stall') {
          w.fault('stall');
          page.stallUntil = w.now + w.pick([50, 700, 3000]);
        }
        safety();
        await w.ticks(w.choose(4));
        if (w.chance(0.5)) {
          await w.drain();
          safety();
          if (k !== 'stall') sync();
          await w.runFor(w.pick([0, 20, 120, 500, 1100, 3100]));
          w.interleaved = true;
        }
        if (page.stallUntil > w.now) await w.runFor(page.stallUntil - w.now + 1);
        notice();
        if (w.chance(0.35)) await settle();
      }
      await w.runFor(3000);
      await settle();
      notice();
      w.check(client.isRunning, 'not-started', 'the client is not running 3 s after the last action');
      for (const [ev, was] of given) w.check(JSON.stringify(ev) === was, 'impression-altered', () => `an impression changed after it was handed to the integration: ${was} became ${JSON.stringify(ev)}`);
      for (const e of errors) if (!/site code/.test(e)) w.probe('console-error');
      page.kill('left');
      await w.runFor(200);
    }
  };
}

const meta = (id, rule, runs) => ({ run: pageScenario(id), bundles: ['tag'], runs, rule, real: T.TAG_REAL, stubs: T.TAG_STUB });
module.exports = {
  T10: meta('T10', '1-3 flags with 1-3 random page objects of all nine trigger types; random visitor and site actions, single-page navigations, hidden tabs, stalls', { quick: 24000, thorough: 150000 }),
  T11: meta('T11', 'as T10 with scoped mutations and injections, remote flags changing variants under network faults, revert/apply calls', { quick: 16000, thorough: 150000 }),
  T12: meta('T12', 'as T11 with flags that need an identity; every impression is checked when tracked', { quick: 16000, thorough: 150000 }),
  T16: meta('T16', 'as T11 in 1-3 visits of previewing and other tabs; the latest configuration is fetched under network faults', { quick: 12000, thorough: 150000 }),
  T19: meta('T19', 'as T11 with debugging on or off; page change and debug subscribers come and go, and everything the client shows of itself is compared with what is active, assigned and applied', { quick: 12000, thorough: 150000 }),
};
