'use strict';
const S = 'experiment-browser/src/';
const EC = S + 'experimentClient.ts';
const X = 'experiment-tag/src/';
const SB = X + 'subscriptions/subscriptions.ts';
const EX = X + 'experiment.ts';
const B = X + 'behavioral-targeting/';
const K = 'EXP_client-tag';
const one = (trigger, o) => `{ flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', ${trigger}, T.TRUE_COND) } }, config: { useDefaultNavigationHandler: true }${o || ''} }`;
const beh = (rules) => `{ flags: [T.flag('fb', { segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('mb')] } })], pages: { fb: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, rules: { fb: { b1: ${rules} } } }`;
module.exports = [
  {
    id: 'T19-debug-not-told-of-navigation',
    tag: true,
    property: 'T19',
    needs: 'a debug subscriber, and a navigation which changes no active page',
    breaks: 'the subscriber keeps the URL of the page before',
    edits: [[SB, `          if (pagesChanged || isUrlChange) {
            this.scheduleDebugNotification();`, `          if (pagesChanged) {
            this.scheduleDebugNotification();`]],
    demo: `
  const page = open('https://www.shop.com/one');
  page.g.__AMP_DEBUG = true;
  start(page, ${one(`'url_change', {}`)});
  await w.runFor(3000);
  let last = null;
  page.g.webExperiment.addDebugStateSubscriber((s) => (last = s));
  page.g.history.pushState({}, '', '/two');
  await w.runFor(1000);
  check(last && last.currentUrl === 'https://www.shop.com/two', 'told of ' + (last && last.currentUrl));`,
  },
  {
    id: 'T04-second-id-from-first',
    tag: true,
    property: 'T04',
    needs: 'the identity cookie expired while local storage still has the identity, whose second id differs from the first',
    breaks: 'the visitor gets another cross-subdomain id',
    edits: [[EX, `        web_exp_id_v2: user.web_exp_id_v2 ?? user.web_exp_id,`, `        web_exp_id_v2: user.web_exp_id,`]],
    demo: `
  w.browser.localArea('https://www.shop.com').map.set('${K}', JSON.stringify({ web_exp_id: 'one', web_exp_id_v2: 'two' }));
  const page = open('https://www.shop.com/');
  start(page, ${one(`'url_change', {}`)});
  await w.runFor(3000);
  const u = page.g.webExperiment.getExperimentClient().getUser();
  check(u.web_exp_id === 'one' && u.web_exp_id_v2 === 'two', JSON.stringify(u));`,
  },
  {
    id: 'T04-first-seen-not-shared',
    tag: true,
    property: 'T04',
    needs: 'a visitor known on one subdomain who had visited another subdomain before the identity was shared',
    breaks: 'the second subdomain keeps its own first_seen in storage',
    edits: [[EX, `    if (identity.first_seen !== defaultUserProviderData.first_seen) {`, `    if (!defaultUserProviderData.first_seen) {`]],
    demo: `
  const tab = w.browser.newTab();
  w.browser.localArea('https://www.shop.com').map.set('${K}_DEFAULT_USER_PROVIDER', JSON.stringify({ first_seen: '1600000000' }));
  const cfg = ${one(`'url_change', {}`)};
  start(open('https://app.shop.com/', {}, tab), cfg);
  await w.runFor(3000);
  const page = open('https://www.shop.com/', {}, tab);
  start(page, cfg);
  await w.runFor(3000);
  const seen = JSON.parse(page.g.localStorage.getItem('${K}_DEFAULT_USER_PROVIDER')).first_seen;
  check(seen === page.g.webExperiment.getExperimentClient().getUser().first_seen && seen !== '1600000000', 'stored first_seen ' + seen);`,
  },
  {
    id: 'B13-flags-to-proxy',
    property: 'B13',
    needs: 'a client with its own server URL for variants but none for flags',
    breaks: 'flag configurations are requested from the server of the variants',
    edits: [[EC, `        config?.flagsServerUrl ||
`, `        (config?.flagsServerUrl ?? config?.serverUrl) ||
`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async (r) => ({ status: 200, body: /flags/.test(r.url) ? '[]' : '{}' });
  const c = browser.Experiment.initialize('client-abcdef', { serverUrl: 'https://proxy.example.com', serverZone: 'EU', pollOnStart: false });
  await c.start({ user_id: 'u' });
  const hosts = w.requests.map((r) => new URL(r.url).host).sort();
  check(hosts.join() === 'flag.lab.eu.amplitude.com,proxy.example.com', 'requests to ' + hosts);`,
  },
  {
    id: 'T10-hash-navigation-ignored',
    tag: true,
    property: 'T10',
    needs: 'a site whose router keeps the page in the fragment of the URL',
    breaks: 'a change of the fragment is not taken for a change of the page',
    edits: [[SB, `      if (currentUrl === this.lastPublishedUrl) {`, `      if (currentUrl.split('#')[0] === this.lastPublishedUrl?.split('#')[0]) {`]],
    demo: `
  const page = open('https://www.shop.com/#/one');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('#/two')) } }, config: { useDefaultNavigationHandler: true } });
  await w.runFor(3000);
  check(live(page).length === 0, 'live at first: ' + live(page));
  page.g.history.pushState({}, '', '/#/two');
  await w.runFor(1000);
  check(live(page).join() === 'm', 'live on #/two: ' + live(page));`,
  },
  {
    id: 'T10-time-starts-over',
    tag: true,
    property: 'T10',
    needs: 'two time triggers of which the shorter has fired, and then a visitor who leaves the tab and returns again and again',
    breaks: 'the timer which has fired starts over with the others, and deactivates the longer one when it fires',
    edits: [[SB, `        Object.keys(this.timeOnPageTimeouts).map(Number),`, `        timeOnPagePages.map(
          (page) => (page.trigger_value as TimeOnPageTriggerValue).durationMs,
        ),`]],
    demo: `
  const page = open('https://www.shop.com/');
  const d = page.g.document;
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m', ['p2'])] } })], pages: { f: { p1: T.pageObj('p1', 'time_on_page', { durationMs: 2000 }, T.TRUE_COND), p2: T.pageObj('p2', 'time_on_page', { durationMs: 4000 }, T.TRUE_COND) } } });
  await w.runFor(5000);
  check(live(page).join() === 'm', 'after 5 s: ' + live(page));
  for (const h of [true, false]) {
    d.hidden = h;
    d.visibilityState = h ? 'hidden' : 'visible';
    d.dispatchEvent(T.ev('visibilitychange'));
    await w.runFor(500);
  }
  await w.runFor(2500);
  check(live(page).join() === 'm', 'after a return: ' + live(page));`,
  },
  {
    id: 'T16-previewed-on-navigation-only',
    tag: true,
    property: 'T16',
    needs: 'a preview of a flag whose page becomes active by another trigger than a change of the URL',
    breaks: 'the previewed variant is not shown',
    edits: [[SB, `              const previewFlags = relevantFlags
                ? Object.fromEntries(`, `              const previewFlags = !isUrlChange
                ? Object.fromEntries(`], [SB, `                    ).filter(([flag]) => relevantFlags.includes(flag)),`, `                    ).filter(([flag]) => relevantFlags?.[0] === flag),`]],
    demo: `
  const cfg = { flags: ['f', 'g'].map((k) => T.flag(k, { on: 'control', payloads: { treatment: [mut('m' + k)] } })), pages: { f: { p: T.pageObj('p', 'manual', { name: 'x' }, T.TRUE_COND) }, g: { q: T.pageObj('q', 'manual', { name: 'x' }, T.TRUE_COND) } } };
  w.hooks.server = () => ({ kind: 'error', delay: 1 });
  const page = open('https://www.shop.com/?PREVIEW=true&f=treatment&g=treatment');
  start(page, cfg);
  await w.runFor(13000);
  page.g.webExperiment.toggleManualPageObject('x', true);
  await w.runFor(1000);
  check(live(page).join() === 'mf,mg', 'previewed: ' + live(page));`,
  },
  {
    id: 'T15-hidden-for-other-pages',
    tag: true,
    property: 'T15',
    needs: 'a blocking remote flag none of whose pages is active here',
    breaks: 'the page is hidden while the request of a flag of other pages is out',
    edits: [[EX, `        Object.keys(this.activePages).includes(flagKey) &&
`, `        flagKey in this.pageObjects &&
`]],
    demo: `
  const page = open('https://www.shop.com/one');
  start(page, { flags: [T.flag('f', { mode: 'remote', blocking: true, on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/two')) } } });
  await w.runFor(300);
  check(!T.hidden(page), 'hidden');`,
  },
  {
    id: 'C01-edit-drops-opt-out',
    property: 'C01',
    needs: 'an identity with an opt-out is edited later without mentioning the opt-out',
    breaks: 'the edit drops the opt-out',
    edits: [['analytics-connector/src/identityStore.ts', `    const actingIdentity: Identity = {
      ...this.identity,
      userProperties: actingUserProperties,`, `    const { userId, deviceId } = this.identity;
    const actingIdentity: Identity = {
      userId,
      deviceId,
      userProperties: actingUserProperties,`]],
    demo: `
  const w = new World();
  const { connector } = w.page(sdkSource());
  const store = connector.AnalyticsConnector.getInstance('i').identityStore;
  store.editIdentity().setUserId('u').setOptOut(true).commit();
  store.editIdentity().setDeviceId('d').commit();
  check(store.getIdentity().optOut === true && store.getIdentity().userId === 'u', JSON.stringify(store.getIdentity()));`,
  },
  {
    id: 'T11-first-injection-only',
    tag: true,
    property: 'T11',
    needs: 'a variant with two injections, and a navigation',
    breaks: 'only the first injection is withdrawn when the URL changes; the others are left behind',
    edits: [[SB, `            Object.values(actionMap[INJECT_ACTION]).forEach((action) => {
              action.revert?.();
            });`, `            Object.values(actionMap[INJECT_ACTION])[0]?.revert?.();`]],
    demo: `
  const page = open('https://www.shop.com/one');
  const inj = (id) => ({ action: 'inject', data: { id, css: '.' + id + '{color:red}' } });
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [inj('a'), inj('b')] } })], pages: { f: { p1: T.pageObj('p1', 'url_change', {}, T.urlCond('/one')) } }, config: { useDefaultNavigationHandler: true } });
  const css = () => page.g.document.adoptedStyleSheets.filter((s) => /color:red/.test(s.text)).length;
  await w.runFor(3000);
  check(css() === 2, 'injected: ' + css());
  page.g.history.pushState({}, '', '/two');
  await w.runFor(1000);
  check(css() === 0, 'left after the navigation: ' + css());`,
  },
  {
    id: 'B08-stop-without-polling',
    property: 'B08',
    needs: 'a client which does not poll is stopped and started again',
    breaks: 'the second start is taken for a repeated one and requests nothing',
    edits: [[EC, `    if (!this.isRunning) {
      return;
    }
    this.poller.stop();`, `    if (!this.isRunning || !this.config.pollOnStart) {
      return;
    }
    this.poller.stop();`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { fetchOnStart: false, pollOnStart: false });
  let n = 0;
  w.fetch = async () => (n++, { status: 200, body: '[]' });
  await c.start({ user_id: 'u' });
  c.stop();
  await c.start({ user_id: 'u' });
  check(n === 2, 'flag requests after a stop and a start: ' + n);`,
  },
  {
    id: 'B02-linear-backoff',
    property: 'B02',
    needs: 'a server which fails for several retries',
    breaks: 'the delays between retries grow linearly instead of exponentially',
    edits: [[S + 'util/backoff.ts', `const nextDelay = Math.min(delay * this.scalar, this.max);`, `const nextDelay = Math.min(delay + this.min * this.scalar, this.max);`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const at = [];
  w.fetch = async () => (at.push(w.now), { status: 500, body: '' });
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  await c.fetch({ user_id: 'u' });
  await w.advance(120000);
  const gaps = at.slice(1).map((t, i) => t - at[i]);
  check(gaps.length >= 4, 'retries after ' + gaps);
  for (let i = 2; i < gaps.length; i++) check(Math.abs(gaps[i] / gaps[i - 1] - gaps[2] / gaps[1]) < 0.1, 'gaps ' + gaps);`,
  },
];
