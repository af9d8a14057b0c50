'use strict';
const X = 'experiment-tag/src/';
const B = X + 'behavioral-targeting/';
const site = (o) => `{ flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }${o || ''} }`;
const beh = (rules, extra) => `{ flags: [T.flag('fb', { segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('mb')] } })], pages: { fb: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, rules: { fb: { b1: ${rules} } }${extra || ''} }`;
const K = 'EXP_client-tag';
module.exports = [
  {
    id: 'T01-hide-before-consent',
    tag: true,
    property: 'T01',
    needs: 'a page opened with preview parameters while consent is required and undecided',
    breaks: 'the page is hidden (a stylesheet is put into the document) before the visitor consented',
    edits: [[X + 'index.ts', `  const effectiveConfig = mergeWithWindowConfig(config, globalScope);
  const consent`, `  if (isPreviewMode()) {
    applyAntiFlickerCss();
  }
  const effectiveConfig = mergeWithWindowConfig(config, globalScope);
  const consent`]],
    demo: `
  const page = open('https://www.shop.com/?PREVIEW=true&f=treatment');
  start(page, { ...${site()}, config: { consentOptions: { consentRequired: true } } });
  check(!T.hidden(page), 'the page is hidden before consent');
  await w.runFor(100);
  check(!T.hidden(page), 'the page is hidden before consent (later)');
  check(page.g.document.adoptedStyleSheets.length === 0, 'a style sheet was added before consent');`,
  },
  {
    id: 'T02-first-arguments-win',
    tag: true,
    property: 'T02',
    needs: 'initialize is called twice with different flags before consent is granted',
    breaks: 'the client starts with the flags of the first call instead of those in force at the grant',
    edits: [[X + 'index.ts', '      consentGate.deferredStart = { apiKey, initConfigs, config };', '      consentGate.deferredStart ??= { apiKey, initConfigs, config };']],
    demo: `
  const page = open('https://www.shop.com/');
  const cfg = { consentOptions: { consentRequired: true } };
  const mk = (k) => ({ flags: [T.flag(k, { on: 'treatment', payloads: { treatment: [mut('m-' + k)] } })], pages: { [k]: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, config: cfg });
  const x = start(page, mk('one'));
  await w.runFor(50);
  page.init(mk('two'));
  await w.runFor(50);
  x.tag.setConsentStatus('granted');
  await w.runFor(3000);
  check(live(page).join() === 'm-two', 'live: ' + live(page));`,
  },
  {
    id: 'T03-older-root-cookies-survive',
    tag: true,
    property: 'T03',
    needs: 'the visitor refuses on a deep subdomain whose cookie was set for a higher or lower domain level',
    breaks: 'only the cookie of the registrable domain is deleted; one set for the subdomain level stays',
    edits: [[X + 'consent/clear-data.ts', `    for (const domain of domains) {
      deleteRawCookie(key, domain);
    }`, `    for (const domain of domains) {
      deleteRawCookie(key, domain);
      if (readRawCookie(identityCookieKey(apiKey)) === undefined) {
        break;
      }
    }`]],
    demo: `
  const u = new URL('https://a.app.shop.com/');
  w.browser.jar.write(u, '${K}_rtbt_session=%7B%22sessionId%22%3A%22old%22%2C%22lastEventTime%22%3A1%7D; path=/; domain=.app.shop.com');
  const page = open(u.href);
  start(page, { ...${site()}, config: { consentOptions: { consentRequired: true, consentStatus: 'denied' } } });
  await w.runFor(1000);
  check(!/rtbt_session/.test(page.g.document.cookie), 'left: ' + page.g.document.cookie);`,
  },
  {
    id: 'T05-history-sanity-check',
    tag: true,
    property: 'T05',
    needs: 'a history of more events than its counter, as when histories of two origins have been merged',
    breaks: 'a sanity check takes the stored history for malformed and starts from nothing',
    edits: [[B + 'event-storage.ts', "      typeof parsed.nextId === 'number'\n    ) {", "      parsed.nextId > parsed.events.length\n    ) {"]],
    demo: `
  const now = w.now;
  const events = Array.from({ length: 6 }, (_, i) => ({ uuid: 'u' + i, id: 1 + (i % 3), event_type: 'purchase', timestamp: now - 10000 + i, session_id: 's' + (i % 2), properties: {} }));
  w.browser.localArea('https://www.shop.com').map.set('${K}_rtbt_events', JSON.stringify({ events, nextId: 4 }));
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('purchase', 6)]]")});
  await w.runFor(3000);
  check(live(page).join() === 'mb', 'the stored events do not count');`,
  },
  {
    id: 'T05-clean-page-not-flushed',
    tag: true,
    property: 'T05',
    needs: 'an event followed by leaving the page within half a second, before the tab was ever hidden',
    breaks: 'the last events of the page are lost when it is left without being hidden first',
    edits: [[B + 'event-storage.ts', `  private handleBeforeUnload = (): void => {
    this.flush();
  };`, `  private handleBeforeUnload = (): void => {
    if (document.visibilityState === 'hidden') {
      this.flush();
    }
  };`]],
    demo: `
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('purchase', 1)]]")});
  await w.runFor(3000);
  await x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });
  await w.runFor(100);
  page.g.dispatchEvent(T.ev('beforeunload'));
  const s = JSON.parse(page.g.localStorage.getItem('${K}_rtbt_events') || '{"events":[]}');
  check(s.events.length === 1, 'stored: ' + JSON.stringify(s));`,
  },
  {
    id: 'T06-negated-events-not-followed',
    tag: true,
    property: 'T06',
    needs: 'a behaviour with a negated condition on an event which no other condition mentions',
    breaks: 'that event is neither kept nor does it withdraw the behaviour',
    edits: [[B + 'behavioral-targeting-manager.ts', "        if (conditionSet.condition.type === 'behavior') {", "        if (\n          conditionSet.condition.type === 'behavior' &&\n          !conditionSet.negated\n        ) {"]],
    demo: `
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('view', 1), countRule('purchase', 1, { negated: true })]]")});
  await w.runFor(3000);
  const p = x.tag.createPlugin();
  await p.execute({ event_type: 'view', event_properties: {} });
  await w.runFor(1000);
  check(live(page).join() === 'mb', 'viewed, not purchased: applied');
  await p.execute({ event_type: 'purchase', event_properties: {} });
  await w.runFor(1000);
  check(live(page).length === 0, 'purchased: withdrawn');`,
  },
  {
    id: 'T06-window-from-session-start',
    tag: true,
    property: 'T06',
    needs: 'a behaviour of the current session and of a rolling window in one rule, or hours next to days',
    breaks: 'a rolling window in hours is taken for days when the condition counts more than a day of hours',
    edits: [[B + 'event-storage.ts', "        interval === 'day'\n          ?", "        interval === 'day' || timeValue > 24\n          ?"]],
    demo: `
  const old = { uuid: 'u', id: 1, event_type: 'purchase', timestamp: w.now - 60 * 3600 * 1000, session_id: 's', properties: {} };
  w.browser.localArea('https://www.shop.com').map.set('${K}_rtbt_events', JSON.stringify({ events: [old], nextId: 2 }));
  const page = open('https://www.shop.com/');
  const r = countRule('purchase', 1);
  r.condition.time_value = 48;
  r.condition.interval = 'hour';
  start(page, ${beh('[[r]]')});
  await w.runFor(3000);
  check(live(page).length === 0, 'an event of 60 hours ago counts within 48 hours');`,
  },
  {
    id: 'T08-activity-throttled',
    tag: true,
    property: 'T08',
    needs: 'events less than a minute apart, then a pause just below the session time-out',
    breaks: 'activity within a minute of the last is not recorded, so the session ends early',
    edits: [[B + 'session-manager.ts', `      this.store.write({ ...existing, lastEventTime: now });
    } else {`, `      if (now - existing.lastEventTime >= 60 * 1000) {
        this.store.write({ ...existing, lastEventTime: now });
      }
    } else {`]],
    demo: `
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('purchase', 9)]]")});
  await w.runFor(3000);
  const p = x.tag.createPlugin();
  const fire = () => p.execute({ event_type: 'purchase', event_properties: {} });
  await fire();
  await w.runFor(50 * 1000);
  await fire();
  await w.runFor(29.5 * 60 * 1000);
  await fire();
  await w.runFor(1000);
  const ids = new Set(JSON.parse(page.g.localStorage.getItem('${K}_rtbt_events')).events.map((e) => e.session_id));
  check(ids.size === 1, 'sessions: ' + [...ids]);`,
  },
  {
    id: 'T09-keeps-oldest',
    tag: true,
    property: 'T09',
    needs: 'more than 500 events before the client is running',
    breaks: 'the latest events are dropped instead of the oldest',
    edits: [[X + 'index.ts', `  if (eventBuffer.length >= MAX_EVENT_BUFFER_SIZE) {
    eventBuffer.shift();
  }`, `  if (eventBuffer.length >= MAX_EVENT_BUFFER_SIZE) {
    return;
  }`]],
    demo: `
  const page = open('https://www.shop.com/');
  const cfg = ${beh("[[countRule('last', 1)]]")};
  const x = start(page, { ...cfg, noInit: true });
  const p = x.tag.createPlugin();
  for (let i = 0; i < 500; i++) await p.execute({ event_type: 'view', event_properties: {} });
  await p.execute({ event_type: 'last', event_properties: {} });
  page.init(cfg);
  await w.runFor(3000);
  check(live(page).join() === 'mb', 'the last event does not count');`,
  },
  {
    id: 'T10-click-survives-navigation',
    tag: true,
    property: 'T10',
    needs: 'a click trigger with a delay, and a URL change before the delay is over',
    breaks: 'the click on the old page activates a page after the URL changed',
    edits: [[X + 'subscriptions/subscriptions.ts', `    for (const timeout of this.clickTimeouts.values()) {
      this.globalScope.clearTimeout(timeout);
    }
    this.clickTimeouts.clear();`, `    this.clickTimeouts.clear();`]],
    demo: `
  const page = open('https://www.shop.com/one');
  const d = page.g.document;
  const b = d.createElement('button');
  b.id = 'buy';
  d.body.appendChild(b);
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'user_interaction', { selector: '#buy', interactionType: 'click', minThresholdMs: 1000 }, T.TRUE_COND) } }, config: { useDefaultNavigationHandler: true } });
  await w.runFor(3000);
  b.dispatchEvent(T.ev('click'));
  await w.runFor(400);
  page.g.history.pushState({}, '', '/two');
  await w.runFor(3000);
  check(live(page).length === 0, 'activated by a click on the page before');
  b.dispatchEvent(T.ev('click'));
  await w.runFor(3000);
  check(live(page).join() === 'm', 'not activated by a click on this page');`,
  },
  {
    id: 'T10-scroll-depth-kept',
    tag: true,
    property: 'T10',
    needs: 'a scroll-depth trigger, a single-page navigation, and then a small scroll',
    breaks: 'the depth reached on the page before counts for the next one',
    edits: [[X + 'subscriptions/subscriptions.ts', `    this.maxScrollPercentage = 0;
    this.pageLoadTime = Date.now();
    this.analyticsEventState.clear();`, `    this.pageLoadTime = Date.now();
    this.analyticsEventState.clear();`]],
    demo: `
  const page = open('https://www.shop.com/one');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'scrolled_to', { mode: 'percent', percentage: 50 }, T.TRUE_COND) } }, config: { useDefaultNavigationHandler: true } });
  await w.runFor(3000);
  const scroll = async (pct) => {
    const el = page.g.document.documentElement;
    Object.defineProperty(el, 'scrollHeight', { value: 2000, configurable: true });
    Object.defineProperty(el, 'clientHeight', { value: 1000, configurable: true });
    page.g.innerHeight = 1000;
    page.g.scrollY = page.g.pageYOffset = pct * 10;
    el.scrollTop = pct * 10;
    page.g.dispatchEvent(T.ev('scroll'));
    page.g.document.dispatchEvent(T.ev('scroll'));
    await w.runFor(1000);
  };
  await scroll(80);
  check(live(page).join() === 'm', 'scrolled: ' + live(page));
  page.g.scrollY = page.g.pageYOffset = 0;
  page.g.document.documentElement.scrollTop = 0;
  page.g.history.pushState({}, '', '/two');
  await w.runFor(1000);
  await scroll(10);
  check(live(page).length === 0, 'active after scrolling 10%');
  await scroll(60);
  check(live(page).join() === 'm', 'not active after scrolling 60%');`,
  },
  {
    id: 'T11-scope-of-first-page',
    tag: true,
    property: 'T11',
    needs: 'an action scoped to several pages of which the first is not active',
    breaks: 'only the first page of a scope counts',
    edits: [[X + 'experiment.ts', '    return scope.some((pageId) => flagPages?.[pageId] ?? false);', '    return flagPages?.[scope[0]] !== undefined;']],
    demo: `
  const page = open('https://www.shop.com/two');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m', ['p1', 'p2'])] } })], pages: { f: { p1: T.pageObj('p1', 'url_change', {}, T.urlCond('/one')), p2: T.pageObj('p2', 'url_change', {}, T.urlCond('/two')) } } });
  await w.runFor(3000);
  check(live(page).join() === 'm', 'live: ' + live(page));`,
  },
  {
    id: 'T11-injection-not-reinjected',
    tag: true,
    property: 'T11',
    needs: 'an injection that is withdrawn because its page stops being active and then becomes active again',
    breaks: 'the injection is not made again',
    edits: [[X + 'experiment.ts', `        script?.remove();
        this.appliedInjections.delete(id);
      },`, `        script?.remove();
        if (script) {
          this.appliedInjections.delete(id);
        }
      },`]],
    demo: `
  const page = open('https://www.shop.com/one');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'inject', data: { id: 'i-1', css: '.x{color:red}' } }] } })], pages: { f: { p1: T.pageObj('p1', 'url_change', {}, T.urlCond('/one')) } }, config: { useDefaultNavigationHandler: true } });
  const css = () => page.g.document.adoptedStyleSheets.filter((s) => /color:red/.test(s.text)).length;
  await w.runFor(3000);
  check(css() === 1, 'style injected');
  page.g.history.pushState({}, '', '/two');
  await w.runFor(1000);
  check(css() === 0, 'style withdrawn');
  page.g.history.pushState({}, '', '/one');
  await w.runFor(1000);
  check(css() === 1, 'style injected again');`,
  },
  {
    id: 'T12-exposure-remembered-by-flag',
    tag: true,
    property: 'T12',
    needs: "the visitor's variant changes while the URL stays the same",
    breaks: 'the impression of the new variant is not tracked',
    edits: [[X + 'experiment.ts', `      this.urlExposureCache?.[currentUrl]?.[key] === variant.key;`, `      !!this.urlExposureCache?.[currentUrl]?.[key];`]],
    demo: `
  const page = open('https://www.shop.com/');
  const x = start(page, { flags: [T.flag('fb', { on: 'control', segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('mb')] } })], pages: { fb: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, rules: { fb: { b1: [[countRule('purchase', 1)]] } } });
  await w.runFor(3000);
  await x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });
  await w.runFor(1000);
  const got = page.integration.events.filter((e) => e.ev.eventType === '$impression').map((e) => e.ev.eventProperties.variant);
  check(got.join() === 'control,treatment', 'impressions: ' + got);`,
  },
  {
    id: 'T13-query-values-kept',
    tag: true,
    property: 'T13',
    needs: 'the page and the destination both carry a query parameter of the same name',
    breaks: "the destination's own parameter is duplicated with the page's value",
    edits: [[X + 'util/url.ts', `    if (!redirectUrlObj.searchParams.has(key)) {
      resultUrlObj.searchParams.append(key, value);
    }`, `    if (redirectUrlObj.searchParams.get(key) !== value) {
      resultUrlObj.searchParams.append(key, value);
    }`]],
    demo: `
  const page = open('https://www.shop.com/one?v=1&q=2');
  const to = [];
  w.hooks.navigate = (p, u) => to.push(u.href);
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://www.shop.com/two?v=2' } }] } })], pages: { f: { p1: T.pageObj('p1', 'url_change', {}, T.urlCond('/one')) } } });
  await w.runFor(3000);
  check(to.join() === 'https://www.shop.com/two?v=2&q=2', 'sent to ' + to);`,
  },
  {
    id: 'T14-second-redirect-forgets-first',
    tag: true,
    property: 'T14',
    needs: 'two redirects one after the other before the impression of the first could be tracked',
    breaks: 'storing the impression of the second redirect drops the first one that is still waiting',
    edits: [[X + 'experiment.ts', `        const redirects = storedRedirects || {};
        redirects[flagKey]`, `        const redirects = storedRedirects?.[flagKey] ? storedRedirects : {};
        redirects[flagKey]`]],
    demo: `
  const cfg = { flags: [['f1', 'https://app.shop.com/three'], ['f2', 'https://www.shop.com/two']].map(([k, url]) => T.flag(k, { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url } }] } })), pages: { f1: { p1: T.pageObj('p1', 'url_change', {}, T.urlCond('/one')) }, f2: { p2: T.pageObj('p2', 'url_change', {}, T.urlCond('/other')) } }, config: { redirectConfig: { encodeRedirectInCookie: true } } };
  const tab = w.browser.newTab();
  const to = [];
  const tracked = [];
  w.hooks.navigate = (p, u) => to.push(u.href);
  const visit = async (url) => {
    const page = open(url, {}, tab);
    start(page, cfg);
    await w.runFor(100);
    return page;
  };
  const seen = (page) => page.integration.events.filter((e) => e.ev.eventType === '$impression').forEach((e) => tracked.push(e.ev.eventProperties.flag_key));
  seen(await visit('https://www.shop.com/one'));
  check(to.length === 1, 'first redirect: ' + to);
  seen(await visit('https://app.shop.com/other')); // the server sends the visitor elsewhere
  check(to.length === 2, 'second redirect: ' + to);
  const page = await visit('https://www.shop.com/two');
  await w.runFor(3000);
  seen(page);
  check(tracked.sort().join() === 'f1,f2', 'impressions: ' + tracked);`,
  },
  {
    id: 'T15-snippet-stays-after-failure',
    tag: true,
    property: 'T15',
    needs: "start fails (the integration's set-up rejects) on a page with the site's anti-flicker snippet",
    breaks: "the page stays hidden by the site's snippet",
    edits: [[X + 'experiment.ts', `    if (!this.isRemoteBlocking && !this.isRedirecting) {
      removeAntiFlickerCss();
    }`, `    if (this.remoteFlagKeys.length === 0 && !this.isRedirecting) {
      removeAntiFlickerCss();
    }`]],
    demo: `
  const page = open('https://www.shop.com/');
  const d = page.g.document;
  const s = d.createElement('style');
  s.id = 'amp-exp-css';
  d.head.appendChild(s);
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } }), T.flag('r', { mode: 'remote', on: 'treatment' })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } } });
  await w.runFor(300);
  check(live(page).join() === 'm', 'local variant applied');
  check(!d.getElementById('amp-exp-css'), 'still hidden although nothing that depends on the request blocks');`,
  },
  {
    id: 'T16-session-preview-ignored-remote',
    tag: true,
    property: 'T16',
    needs: 'a preview of a behavioural flag whose behaviours change while it is previewed',
    breaks: "the visitor's own variant is applied next to the previewed one",
    edits: [[X + 'experiment.ts', `      if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {
        continue;
      }`, `      if (flagKeys && !flagKeys.includes(key)) {
        continue;
      }
      if (this.previewFlags[key] && !this.isRunning) {
        continue;
      }`]],
    demo: `
  const cfg = { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m-t')], control: [mut('m-c')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, config: { useDefaultNavigationHandler: true } };
  w.hooks.server = () => ({ kind: 'error', delay: 1 });
  const page = open('https://www.shop.com/?PREVIEW=true&f=control');
  start(page, cfg);
  await w.runFor(13000);
  check(live(page).join() === 'm-c', 'previewed: ' + live(page));
  page.g.history.pushState({}, '', '/two');
  await w.runFor(2000);
  check(live(page).join() === 'm-c', 'after a navigation: ' + live(page));
  const seen = page.integration.events.filter((e) => e.ev.eventType === '$impression').map((e) => e.ev.eventProperties.variant);
  check(seen.every((v) => v === 'control'), 'impressions: ' + seen);`,
  },
  {
    id: 'T17-host-suffix',
    tag: true,
    property: 'T17',
    needs: 'a stored editor session naming a script of a host that merely contains amplitude.com',
    breaks: 'a script of another host is loaded',
    edits: [[X + 'util/messenger.ts', `    const match = /^.*\\.amplitude\\.com$/;
    try {
      const injectSrc`, `    const match = /^.*\\.amplitude\\.com/;
    try {
      const injectSrc`]],
    demo: `
  const tab = w.browser.newTab();
  w.browser.sessionArea(tab, 'https://www.shop.com').map.set('visual-editor-state', JSON.stringify({ injectSrc: 'https://cdn.amplitude.com.evil.net/x.js', amplitudeWindowUrl: 'https://app.amplitude.com' }));
  const page = open('https://www.shop.com/', {}, tab);
  page.g.opener = { closed: false };
  start(page, ${site()});
  await w.runFor(3000);
  const srcs = page.g.document.querySelectorAll('script').map ? page.g.document.querySelectorAll('script').map((s) => s.src) : Array.from(page.g.document.querySelectorAll('script')).map((s) => s.src);
  check(!srcs.some((s) => /evil/.test(s)), 'loaded ' + srcs);`,
  },
  {
    id: 'T18-second-initialize-flushes',
    tag: true,
    property: 'T18',
    needs: 'initialize is called again while the client is still starting, after events were received',
    breaks: 'events received while starting are dropped by the second call',
    edits: [[X + 'index.ts', `  if (consentGate.started) {
    return;
  }`, `  if (consentGate.started) {
    eventBuffer.length = 0;
    return;
  }`]],
    demo: `
  const page = open('https://www.shop.com/');
  const cfg = { ...${beh("[[countRule('purchase', 1)]]")} };
  cfg.flags.push(T.flag('r', { mode: 'remote', on: 'treatment' }));
  const x = start(page, cfg);
  await w.runFor(100);
  await x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });
  page.init(cfg);
  await w.runFor(4000);
  check(live(page).join() === 'mb', 'the event does not count');`,
  },
];
