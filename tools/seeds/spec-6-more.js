'use strict';
const S = 'experiment-browser/src/';
const EC = S + 'experimentClient.ts';
const MG = S + 'integration/manager.ts';
const X = 'experiment-tag/src/';
const B = X + 'behavioral-targeting/';
const beh = (rules) => `{ flags: [T.flag('fb', { segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('mb')] } })], pages: { fb: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, rules: { fb: { b1: ${rules} } } }`;
const K = 'EXP_client-tag';
module.exports = [
  {
    id: 'B01-partial-fetch-replaces-all',
    property: 'B01',
    needs: 'a fetch restricted to some flags while the response has none of them',
    breaks: 'a restricted fetch whose response is empty removes the variants of the flags it was not about',
    edits: [[EC, `    let failedFlagKeys = options && options.flagKeys ? options.flagKeys : [];
    if (failedFlagKeys.length === 0) {`, `    let failedFlagKeys = options && options.flagKeys ? options.flagKeys : [];
    if (failedFlagKeys.length === 0 || Object.keys(variants).length === 0) {`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' }, b: { key: 'on', value: 'on' } }) });
  await c.fetch({ user_id: 'u' });
  w.fetch = async () => ({ status: 200, body: '{}' });
  await c.fetch({ user_id: 'u' }, { flagKeys: ['a'] });
  check(c.variant('a').value === undefined, 'the flag is gone');
  check(c.variant('b').value === 'on', 'the other flag is kept');`,
  },
  {
    id: 'B03-sequential-start',
    property: 'B03',
    needs: 'start() with flag and variant requests which both stall',
    breaks: 'start() takes the time-outs of both requests one after the other',
    edits: [[EC, `        await Promise.all([this.fetch(user), flagsReadyPromise]);`, `        await flagsReadyPromise;
        await this.fetch(user);`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false, retryFetchOnFailure: false, fetchTimeoutMillis: 10000 });
  w.fetch = () => new Promise(() => {});
  let settled = false;
  c.start({ user_id: 'u' }).then(() => (settled = true), () => (settled = true));
  await w.advance(11000);
  check(settled, 'start settles');
  check(w.requests.some((r) => /vardata/.test(r.url)), 'variants were requested');`,
  },
  {
    id: 'B06-identity-without-integration',
    property: 'B06',
    needs: 'only the analytics integration knows who the visitor is, and the visitor changes',
    breaks: 'neither tracker gets the exposures of the new visitor',
    edits: [[EC, `    const user = this.addContext(this.getUser());
    this.userSessionExposureTracker?.track(exposure, user);`, `    const user = this.getUser();
    this.userSessionExposureTracker?.track(exposure, user);`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const got = [];
  let id = 'u1';
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  c.addPlugin({ type: 'integration', getUser: () => ({ user_id: id }), setup: async () => {}, track: (e) => (got.push(e), true) });
  await w.advance(10);
  await c.fetch({});
  c.variant('a');
  c.variant('a');
  id = 'u2';
  c.variant('a');
  await w.advance(2000);
  check(got.length === 2, 'exposures: ' + got.length);`,
  },
  {
    id: 'B14-assignment-option-by-name',
    property: 'B14',
    needs: 'two deployments on a page (or one after the other) and setTracksAssignment on one of them, then a page load',
    breaks: 'the option of one deployment is used for the requests of the other',
    edits: [[S + 'storage/cache.ts', `  const truncatedDeployment = deploymentKey.substring(deploymentKey.length - 6);
  const namespace = \`amp-exp-\${instanceName}-\${truncatedDeployment}-variants-options\`;`, `  // Options belong to the instance.
  const namespace = \`amp-exp-\${instanceName}-variants-options\`;`]],
    demo: `
  const w = new World();
  let p = w.page(sdkSource());
  const seen = [];
  w.fetch = async (q) => (seen.push(q.headers['X-Amp-Exp-Track'] || q.headers['x-amp-exp-track']), { status: 200, body: '{}' });
  const a = p.browser.Experiment.initialize('client-aaa111111', {});
  await a.setTracksAssignment(false);
  p = w.page(sdkSource());
  const b = p.browser.Experiment.initialize('client-aaa222222', {});
  await b.fetch({ user_id: 'u' });
  check(seen.length === 1 && seen[0] === undefined, 'header: ' + seen);`,
  },
  {
    id: 'B14-integration-on-second-call',
    property: 'B14',
    needs: 'a client made with initialize and its own integration, then initializeWithAmplitudeAnalytics for the same name and deployment (for example by another script of the page)',
    breaks: 'the integration of the client is replaced',
    edits: [[S + 'factory.ts', `  if (client) {
    return client;`, `  if (client) {
    // A later call may bring the integration.
    if (plugin) {
      client.addPlugin(plugin());
    }
    return client;`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const got = [];
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  c.addPlugin({ type: 'integration', getUser: () => ({ user_id: 'u' }), setup: async () => {}, track: (e) => (got.push(e), true) });
  await w.advance(10);
  const d = browser.Experiment.initializeWithAmplitudeAnalytics('client-abcdef', { pollOnStart: false });
  check(c === d, 'another client');
  const f = c.fetch({});
  await w.advance(20000);
  await f;
  c.variant('a');
  await w.advance(2000);
  check(got.length === 1, 'exposures: ' + got.length);`,
  },
  {
    id: 'B07-gives-up-polling',
    property: 'B07',
    needs: 'an integration which refuses events for more than half a minute and then works',
    breaks: 'the queue is no longer tried, so the waiting exposures stay where they are',
    edits: [[MG, `      this.poller = setInterval(() => {
        this.loadFlushStore();
      }, 1000);`, `      let attempts = 0;
      this.poller = setInterval(() => {
        // Stop waking the page up when nothing listens.
        if (++attempts <= 30) {
          this.loadFlushStore();
        }
      }, 1000);`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  await c.fetch({ user_id: 'u' });
  const got = [];
  let works = false;
  c.addPlugin({ type: 'integration', getUser: () => ({}), setup: async () => {}, track: (e) => (works && got.push(e), works) });
  c.variant('a');
  await w.advance(40000);
  works = true;
  await w.advance(2000);
  check(got.length === 1, 'delivered: ' + got.length);`,
  },
  {
    id: 'B09-provider-over-integration',
    property: 'B09',
    needs: 'a user provider and an integration which know different values of one field',
    breaks: 'the user provider overrides the integration',
    edits: [[EC, `      ...providedUser,
      ...filterNullUndefined(integrationUser),`, `      ...filterNullUndefined(integrationUser),
      ...providedUser,`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false, userProvider: { getUser: () => ({ user_id: 'provided', city: 'x' }) } });
  c.addPlugin({ type: 'integration', getUser: () => ({ user_id: 'integration' }), setup: async () => {}, track: () => true });
  await w.advance(10);
  await c.fetch();
  const u = JSON.parse(Buffer.from(w.requests[0].headers['X-Amp-Exp-User'], 'base64').toString());
  check(u.user_id === 'integration' && u.city === 'x', JSON.stringify(u));`,
  },
  {
    id: 'B12-late-setup-takes-over',
    property: 'B12',
    needs: 'an integration is replaced and an event is tracked before the successor is ready',
    breaks: 'the replaced integration is torn down but is still given the event',
    edits: [[MG, `    this.integration = integration;
`, `    const previous = this.integration;
    this.integration = integration;
    if (previous && integration.setup) {
      this.queue.setTracker(previous.track.bind(previous));
    }
`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  const got = [];
  const mk = (n, ms) => ({ type: 'integration', getUser: () => ({}), setup: () => w.sleep(ms), teardown: async () => {}, track: () => (got.push(n), true) });
  c.addPlugin(mk('one', 10));
  await w.advance(100);
  await c.fetch({ user_id: 'u' });
  c.addPlugin(mk('two', 500));
  c.variant('a');
  await w.advance(5000);
  check(got.join() === 'two', 'given to ' + got);`,
  },
  {
    id: 'C02-identity-of-last-store',
    property: 'C02',
    needs: 'the analytics cookie and the local storage of an earlier visit hold different identities',
    breaks: 'the identity in local storage takes precedence over that of the cookie',
    edits: [[S + 'integration/amplitude.ts', `    let user = parseAmplitudeCookie(this.apiKey, true);
    if (user) {`, `    let user = parseAmplitudeCookie(this.apiKey, true);
    if (user && !parseAmplitudeLocalStorage(this.apiKey)?.deviceId) {`]],
    demo: `
  const w = new World();
  w.cookies.set('AMP_apikey1234', encodeURIComponent(Buffer.from(encodeURIComponent(JSON.stringify({ deviceId: 'd-cookie', userId: 'u-cookie' }))).toString('base64')));
  w.local.set('AMP_apikey1234', JSON.stringify({ deviceId: 'd-local', userId: 'u-local' }));
  const { browser, connector } = w.page(sdkSource());
  browser.Experiment.initializeWithAmplitudeAnalytics('apikey123456', { pollOnStart: false });
  const id = connector.AnalyticsConnector.getInstance('$default_instance').identityStore.getIdentity();
  check(id.deviceId === 'd-cookie' && id.userId === 'u-cookie', JSON.stringify(id));`,
  },
  {
    id: 'S01-stored-identity-over-live',
    property: 'S01',
    needs: "Segment becomes ready and the visitor's identity differs from what an earlier visit stored",
    breaks: 'the plugin keeps reporting the stored user id after Segment is ready',
    edits: [['plugin-segment/src/plugin.ts', `          user_id: instance.user().id(),`, `          user_id: userId ?? instance.user().id(),`], ['plugin-segment/src/plugin.ts', `      return {
        user_id: get('ajs_user_id'),`, `      userId = get('ajs_user_id');
      return {
        user_id: userId,`], ['plugin-segment/src/plugin.ts', `  getInstance();
  let ready = false;`, `  getInstance();
  let ready = false;
  let userId: string | undefined;`]],
    demo: `
  const w = new World();
  w.local.set('ajs_user_id', '"stored"');
  const { segment } = w.page("export * as segment from " + JSON.stringify(P('plugin-segment/src/index.ts')) + ";");
  const plugin = segment.segmentIntegrationPlugin();
  check(plugin.getUser().user_id === 'stored', 'before Segment is ready');
  plugin.setup();
  await w.advance(100);
  w.g.analytics = { initialize: () => {}, initialized: true, ready: (f) => f(), user: () => ({ id: () => 'live', anonymousId: () => 'd', traits: () => ({}) }), track: () => {} };
  await w.advance(200);
  check(plugin.getUser().user_id === 'live', 'reports ' + plugin.getUser().user_id);`,
  },
  {
    id: 'T02-early-events-replayed',
    tag: true,
    property: 'T02',
    needs: 'an analytics event before initialize, consent withheld at initialize and granted later',
    breaks: 'what the visitor did before consenting counts after the grant',
    edits: [[X + 'index.ts', `      // to buffer while it lasts — so nothing tracked pre-grant ever replays.
      eventBuffer.length = 0;
      return;`, `      // to buffer while it lasts — so nothing tracked pre-grant ever replays.
      return;`]],
    demo: `
  const page = open('https://www.shop.com/');
  const cfg = { ...${beh("[[countRule('purchase', 1)]]")}, config: { consentOptions: { consentRequired: true } } };
  const x = start(page, { ...cfg, noInit: true });
  await x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });
  page.init(cfg);
  await w.runFor(100);
  x.tag.setConsentStatus('granted');
  await w.runFor(3000);
  check(live(page).length === 0, 'an event before the consent counts');`,
  },
  {
    id: 'T07-event-during-sync-lost',
    tag: true,
    property: 'T07',
    needs: 'an event while the page waits for the answers of the relay',
    breaks: 'merging the history of the relay drops the event',
    edits: [[B + 'event-storage.ts', `      const migrated = await relay.checkMigrated(origin);`, `      const own = [...this.memoryCache.events];
      const migrated = await relay.checkMigrated(origin);`], [B + 'event-storage.ts', `      this.mergeFromRelay(relayStore);
      return true;`, `      this.mergeFromRelay(relayStore, own);
      return true;`], [B + 'event-storage.ts', `  mergeFromRelay(relayStore: RelayEventStorage): void {
    const byKey = new Map<string, EventRecord>();
    for (const event of this.memoryCache.events) {`, `  mergeFromRelay(
    relayStore: RelayEventStorage,
    own: EventRecord[] = this.memoryCache.events,
  ): void {
    const byKey = new Map<string, EventRecord>();
    for (const event of own) {`]],
    demo: `
  const { EventSim } = require('./sim/lib/browser');
  const say = (p, win, data) => p.g.dispatchEvent(Object.assign(new EventSim('message', {}), { data, origin: 'https://cdn.amplitude.com', source: win, isTrusted: true }));
  w.hooks.iframe = (p, n) => {
    const win = n.contentWindow;
    w.schedule(20, () => say(p, win, { type: 'AMP_RELAY_READY' }), { page: p, lane: 'relay', label: 'ready' });
    w.hooks.postToFrame = (q, f, m) => {
      m = JSON.parse(JSON.stringify(m));
      const payload = m.type === 'READ_EVENTS' ? { events: [], nextId: 1 } : m.type === 'CHECK_MIGRATED' ? { migrated: true } : {};
      w.schedule(200, () => say(p, win, { requestId: m.requestId, ok: true, payload }), { page: p, lane: 'relay', label: 'answer' });
    };
  };
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('purchase', 1)]]")});
  await w.runFor(130);
  await x.tag.createPlugin().execute({ event_type: 'purchase', event_properties: {} });
  await w.runFor(3000);
  check(JSON.parse(page.g.localStorage.getItem('${K}_rtbt_events')).events.length === 1, 'the event is gone');`,
  },
  {
    id: 'T08-parallel-tab-not-read',
    tag: true,
    property: 'T08',
    needs: 'two tabs of which one was opened before the other was active',
    breaks: 'activity in another tab does not keep the session of this one alive',
    edits: [[B + 'session-manager.ts', `  recordActivity(): void {
    const now = Date.now();
    const existing = this.store.read();`, `  recordActivity(): void {
    const now = Date.now();
    const existing = this.last ?? this.store.read();`], [B + 'session-manager.ts', `      this.store.write({ ...existing, lastEventTime: now });
    } else {
      this.store.write(newSession(now));
    }`, `      this.last = { ...existing, lastEventTime: now };
    } else {
      this.last = newSession(now);
    }
    this.store.write(this.last);`], [B + 'session-manager.ts', `  private sessionTimeoutMs: number;
`, `  private sessionTimeoutMs: number;
  private last?: SessionState;
`], [B + 'session-manager.ts', `  clearSession(): void {
    this.store.clear();`, `  clearSession(): void {
    this.last = undefined;
    this.store.clear();`]],
    demo: `
  const cfg = ${beh("[[countRule('purchase', 9)]]")};
  const tabs = [0, 1].map(() => {
    const page = open('https://www.shop.com/', {}, w.browser.newTab());
    const p = start(page, cfg).tag.createPlugin();
    return { page, fire: () => p.execute({ event_type: 'purchase', event_properties: {} }) };
  });
  await w.runFor(3000);
  await tabs[0].fire();
  await w.runFor(20 * 60 * 1000);
  await tabs[1].fire();
  await w.runFor(20 * 60 * 1000);
  await tabs[0].fire();
  await w.runFor(1000);
  const id = () => new Set(JSON.parse(tabs[0].page.g.localStorage.getItem('${K}_rtbt_events')).events.map((e) => e.session_id));
  check(id().size === 1, 'sessions: ' + [...id()]);`,
  },
  {
    id: 'T12-exposed-once-per-query',
    tag: true,
    property: 'T12',
    needs: 'a single-page navigation which changes only the query or the anchor',
    breaks: 'the impression is tracked again on the same page',
    edits: [[X + 'experiment.ts', `    const currentUrl = urlWithoutParamsAndAnchor(
      this.globalScope.location.href,
    );
    // Initialize the cache`, `    const currentUrl = this.globalScope.location.href;
    // Initialize the cache`], [X + 'experiment.ts', `    const currentUrl = urlWithoutParamsAndAnchor(
      this.globalScope.location.href,
    );

    // A redirect impression`, `    const currentUrl = this.globalScope.location.href;

    // A redirect impression`]],
    demo: `
  const page = open('https://www.shop.com/one');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [mut('m')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, config: { useDefaultNavigationHandler: true } });
  await w.runFor(2000);
  page.g.history.pushState({}, '', '/one?tab=2');
  await w.runFor(2000);
  const n = page.integration.events.filter((e) => e.ev.eventType === '$impression').length;
  check(n === 1, 'impressions: ' + n);`,
  },
  {
    id: 'T17-no-retry-after-failure',
    tag: true,
    property: 'T17',
    needs: 'the editor script fails to load once and the editor asks again',
    breaks: 'the editor cannot be opened again until the page is reloaded',
    edits: [[X + 'util/messenger.ts', `            .catch(() => {
              state = 'closed';
              DebugRecorder`, `            .catch(() => {
              DebugRecorder`]],
    demo: `
  const { EventSim } = require('./sim/lib/browser');
  const page = open('https://www.shop.com/?VISUAL_EDITOR=true');
  page.g.opener = { closed: false };
  start(page, { flags: [T.flag('f', { on: 'treatment' })], pages: {} });
  await w.runFor(500);
  const ask = () => page.g.dispatchEvent(Object.assign(new EventSim('message', {}), { origin: 'https://app.amplitude.com', data: { type: 'OpenOverlay', context: { injectSrc: 'https://cdn.amplitude.com/editor.js', amplitudeWindowUrl: 'https://app.amplitude.com' } } }));
  const scripts = () => Array.from(page.g.document.querySelectorAll('script')).filter((s) => /editor/.test(s.src));
  ask();
  await w.runFor(100);
  check(scripts().length === 1, 'scripts: ' + scripts().length);
  scripts()[0].dispatchEvent(T.ev('error'));
  await w.runFor(100);
  ask();
  await w.runFor(100);
  check(scripts().length === 2, 'not loaded again: ' + scripts().length);`,
  },
  {
    id: 'T18-coalesces-waiting-events',
    tag: true,
    property: 'T18',
    needs: 'the same event twice while the client is starting',
    breaks: 'events of one type received while the client starts count once',
    edits: [[X + 'index.ts', `  eventBuffer.push(event);
};`, `  const same = eventBuffer.findIndex(
    (e) =>
      e.event_type === event.event_type &&
      JSON.stringify(e.event_properties) ===
        JSON.stringify(event.event_properties),
  );
  if (same >= 0) {
    eventBuffer.splice(same, 1);
  }
  eventBuffer.push(event);
};`]],
    demo: `
  const page = open('https://www.shop.com/');
  const cfg = ${beh("[[countRule('purchase', 2)]]")};
  const x = start(page, { ...cfg, noInit: true });
  const p = x.tag.createPlugin();
  await p.execute({ event_type: 'purchase', event_properties: {} });
  await p.execute({ event_type: 'purchase', event_properties: {} });
  page.init(cfg);
  await w.runFor(3000);
  check(live(page).join() === 'mb', 'two purchases do not count as two');`,
  },
  {
    id: 'T19-blames-later-dependency',
    tag: true,
    property: 'T19',
    needs: 'a flag with two segments: the first one that matches gives off, a later one depends on another flag',
    breaks: 'the debug state blames a dependency which was never consulted',
    edits: [[X + 'experiment.ts', `    if (step.matched) {
      break;
    }
    for (const conditionGroup`, `    if (step.matched) {
      continue;
    }
    for (const conditionGroup`]],
    demo: `
  const page = open('https://www.shop.com/');
  const dep = { selector: ['result', 'g', 'key'], op: 'is', values: ['on'] };
  const yes = { selector: ['context', 'user', 'platform'], op: 'is', values: ['Web'] };
  const f = T.flag('f', { segments: [{ variant: 'off', conditions: [[yes]] }, { variant: 'treatment', conditions: [[dep]] }], payloads: { treatment: [mut('m')] } });
  f.dependencies = ['g'];
  const g = T.flag('g', { on: 'off' });
  start(page, { flags: [f, g], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } } });
  await w.runFor(2000);
  const state = page.g.webExperiment.getDebugState();
  const d = state.flags.f.dependencies[0];
  check(d.flagKey === 'g' && d.blocking === false, JSON.stringify(state.flags.f.dependencies));`,
  },
];
