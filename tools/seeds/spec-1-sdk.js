'use strict';
const EC = 'experiment-browser/src/experimentClient.ts';
const MG = 'experiment-browser/src/integration/manager.ts';
const hdr = `
  const w = new World();
`;
const variants = (o) => `JSON.stringify(${JSON.stringify(o)})`;
module.exports = [
  {
    id: 'B01-retry-drops-options',
    property: 'B01',
    needs: 'a fetch restricted to some flags fails with a retryable error and a background retry of it succeeds',
    breaks: 'the retry is applied as if it were unrestricted, so the variants of all other flags disappear',
    edits: [[EC, 'await this.fetchInternal(user, fetchBackoffTimeout, false, options);', "await this.fetchInternal(user, fetchBackoffTimeout, false, {\n        ...options,\n        flagKeys: undefined,\n      });"]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' }, b: { key: 'on', value: 'on' } }) });
  await c.fetch({ user_id: 'u' });
  let n = 0;
  w.fetch = async () => (n++ ? { status: 200, body: JSON.stringify({ a: { key: 'off', value: 'off' } }) } : { status: 500, body: '' });
  await c.fetch({ user_id: 'u' }, { flagKeys: ['a'] });
  await w.advance(600);
  check(n === 2, 'retry expected');
  check(c.variant('a').value === 'off', 'retried flag is updated');
  check(c.variant('b').value === 'on', 'other flag is kept');`,
  },
  {
    id: 'B02-cancel-in-flight',
    property: 'B02',
    needs: 'a newer fetch starts while a retry attempt of an older one is in flight, and that attempt then fails',
    breaks: 'the cancelled back-off schedules further retries, which overwrite the newer result',
    edits: [['experiment-browser/src/util/backoff.ts', `    if (this.done) {
      return;
    }
    const setTimeoutFn = getSetTimeout();
    if (!setTimeoutFn) {
      return;
    }
`, `    const setTimeoutFn = getSetTimeout();
    if (this.done && !this.started) {
      return;
    }
    if (!setTimeoutFn) {
      return;
    }
`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  let release;
  let n = 0;
  w.fetch = async () => {
    n++;
    if (n === 1) return { status: 500, body: '' };
    if (n === 2) { await new Promise((r) => (release = r)); return { status: 500, body: '' }; }
    return { status: 200, body: JSON.stringify({ a: { key: 'v' + n, value: 'v' + n } }) };
  };
  await c.fetch({ user_id: 'old' });
  await w.advance(550);
  check(n === 2, 'retry in flight');
  await c.fetch({ user_id: 'new' });
  check(n === 3, 'newer fetch sent');
  release();
  await w.advance(60000);
  check(n === 3, 'no retry after a newer fetch, saw ' + n);`,
  },
  {
    id: 'B03-stalled-body',
    property: 'B03',
    needs: 'the response headers arrive but the body stalls',
    breaks: 'the request time-out no longer covers reading the body: fetch() never settles',
    edits: [['experiment-browser/src/transport/http.ts', `    const response = await fetch(requestUrl, {
      method: method,
      headers: headers,
      body: data,
    });
    const simpleResponse`, `    const response = await timeout(
      fetch(requestUrl, {
        method: method,
        headers: headers,
        body: data,
        // eslint-disable-next-line @typescript-eslint/no-explicit-any
      }) as any,
      timeoutMillis,
      // eslint-disable-next-line @typescript-eslint/no-explicit-any
    ) as any;
    const simpleResponse`], ['experiment-browser/src/transport/http.ts', '  return timeout(call(), timeoutMillis);', '  return call();']],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false, retryFetchOnFailure: false });
  w.fetch = async () => ({ status: 200, body: () => new Promise(() => {}) });
  let settled = false;
  c.fetch({ user_id: 'u' }).then(() => (settled = true), () => (settled = true));
  await w.advance(60000);
  check(settled, 'fetch settles after the time-out');`,
  },
  {
    id: 'B04-options-shared-between-instances',
    property: 'B04',
    needs: 'two instances with different names on one origin and a reload',
    breaks: 'the assignment tracking option of one instance is loaded by the other',
    edits: [['experiment-browser/src/storage/cache.ts', 'const namespace = `amp-exp-${instanceName}-${truncatedDeployment}-variants-options`;', 'const namespace = `amp-exp-${truncatedDeployment}-variants-options`;']],
    demo: `
  const w = new World();
  let { browser } = w.page(sdkSource());
  const a = browser.Experiment.initialize('client-abcdef', { instanceName: 'a' });
  await a.setTracksAssignment(false);
  ({ browser } = w.page(sdkSource()));
  const b = browser.Experiment.initialize('client-abcdef', { instanceName: 'b' });
  await b.fetch({ user_id: 'u' });
  check(!w.requests[0].headers['X-Amp-Exp-Track'], 'option of another instance was sent');
  const a2 = browser.Experiment.initialize('client-abcdef', { instanceName: 'a' });
  await a2.fetch({ user_id: 'u' });
  check(w.requests[1].headers['X-Amp-Exp-Track'] === 'no-track', 'own option is kept');`,
  },
  {
    id: 'B05-variant-store-failure',
    property: 'B05',
    needs: 'storage rejects writes (full) and errors are thrown to the caller',
    breaks: 'a failing write of the fetched variants rejects fetch() and starts retries',
    edits: [[EC, `    try {
      this.variants.store();
    } catch (e) {
      // catch localStorage undefined error
    }
    this.logger.debug('[Experiment] Stored`, `    this.variants.store();
    this.logger.debug('[Experiment] Stored`]],
    demo: `
  const w = new World();
  w.storageHook = (kind, op, k) => { if (op === 'set' && k !== 'EXP_test') throw new Error('QuotaExceededError'); };
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const c = browser.Experiment.initialize('client-abcdef', { throwOnError: true, pollOnStart: false });
  let err = null;
  await c.fetch({ user_id: 'u' }).catch((e) => (err = e));
  check(!err, 'fetch() rejected: ' + err);
  check(c.variant('a').value === 'on', 'fetched variant');
  await w.advance(60000);
  check(w.requests.length === 1, 'requests: ' + w.requests.length);`,
  },
  {
    id: 'B08-flags-cleared-before-request',
    property: 'B08',
    needs: 'a flag is read while a flag update is in flight, or after it failed',
    breaks: 'flags are gone during the request and stay gone when it fails',
    edits: [[EC, `      this.flags.clear();
      this.flags.putAll(flags);
`, `      this.flags.putAll(flags);
`], [EC, `    try {
      let user: ExperimentUser;
      if (this.isWebExperiment) {
        user = await`, `    try {
      let user: ExperimentUser;
      this.flags.clear();
      if (this.isWebExperiment) {
        user = await`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const flag = (key, value) => ({ key, variants: { on: { key: 'on', value } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } });
  const c = browser.Experiment.initialize('client-abcdef', { fetchOnStart: false });
  w.fetch = async () => ({ status: 200, body: JSON.stringify([flag('r', 'remote')]) });
  await c.start({ user_id: 'u' });
  await w.settle();
  w.fetch = async () => ({ status: 500, body: '' });
  await w.advance(5 * 60000 + 10);
  check(w.requests.length >= 3, 'polled');
  check(c.variant('r').value === 'remote', 'flag survives a failing update');
  c.stop();`,
  },
  {
    id: 'B09-context-before-ready',
    property: 'B09',
    needs: 'an integration which becomes ready after the fetch was called',
    breaks: 'the request carries the identity the integration had before it was ready',
    edits: [[EC, `    await this.integrationManager.ready();
    return this.addContext(user);`, `    const context = this.addContext(user);
    await this.integrationManager.ready();
    return context;`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  let id;
  let ready;
  c.addPlugin({ type: 'integration', setup: () => new Promise((r) => (ready = r)), getUser: () => ({ user_id: id }), track: () => true });
  const p = c.fetch();
  await w.advance(100);
  check(w.requests.length === 0, 'waits');
  id = 'later';
  ready();
  await w.settle();
  await p;
  const h = w.requests[0].headers['X-Amp-Exp-User'];
  const u = JSON.parse(Buffer.from(h, 'base64url').toString());
  check(u.user_id === 'later', 'request carries ' + u.user_id);`,
  },
  {
    id: 'B10-stale-evaluation-cache',
    property: 'B10',
    needs: 'a locally evaluated flag is read, the user or the flags change, and it is read again',
    breaks: 'the earlier evaluation is answered although the flag was evaluated for another user',
    edits: [[EC, `    const flags = topologicalSort(this.flags.getAll(), flagKeys);
    const context = convertUserToContext(user);
    const evaluationVariants = this.engine.evaluate(context, flags);`, `    const flags = topologicalSort(this.flags.getAll(), flagKeys);
    const context = convertUserToContext(user);
    const cacheKey = \`\${user.user_id}/\${user.device_id}/\${flags
      .map((flag) => flag.key)
      .join()}\`;
    const evaluationVariants =
      this.evaluationCache?.key === cacheKey &&
      this.evaluationCache.flags === flags.length
        ? this.evaluationCache.variants
        : this.engine.evaluate(context, flags);
    this.evaluationCache = {
      key: cacheKey,
      flags: flags.length,
      variants: evaluationVariants,
    };`], [EC, `  // Deprecated
  private analyticsProvider`, `  private evaluationCache:
    | {
        key: string;
        flags: number;
        variants: ReturnType<EvaluationEngine['evaluate']>;
      }
    | undefined;

  // Deprecated
  private analyticsProvider`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const flag = { key: 'f', variants: { on: { key: 'on', value: 'on' }, off: { key: 'off', metadata: { default: true } } },
    segments: [{ conditions: [[{ selector: ['context', 'user', 'user_properties', 'plan'], op: 'is', values: ['pro'] }]], variant: 'on' }, { variant: 'off' }], metadata: { evaluationMode: 'local' } };
  const c = browser.Experiment.initialize('client-abcdef', { initialFlags: JSON.stringify([flag]) });
  c.setUser({ user_id: 'u', user_properties: { plan: 'free' } });
  check(c.variant('f').key === 'off', 'free is off');
  c.setUser({ user_id: 'u', user_properties: { plan: 'pro' } });
  check(c.variant('f').key === 'on', 'pro is on');`,
  },
  {
    id: 'C01-waits-behind-failed-flush',
    property: 'C01',
    needs: 'a receiver which fails while it is handed the queued events, and an event after that',
    breaks: 'events no longer go to the receiver at once: they are queued behind what the failed hand-over left',
    edits: [['analytics-connector/src/eventBridge.ts', `    if (!this.receiver) {`, `    if (!this.receiver || this.queue.length > 0) {`]],
    demo: `
  const w = new World();
  const { connector } = w.page(sdkSource());
  const c = connector.AnalyticsConnector.getInstance('x');
  for (const t of ['a', 'b', 'c']) c.eventBridge.logEvent({ eventType: t });
  const got = [];
  let down = true;
  const receiver = (e) => {
    if (down) throw new Error('down');
    got.push(e.eventType);
  };
  try {
    c.eventBridge.setEventReceiver(receiver);
  } catch (e) {}
  down = false;
  c.eventBridge.logEvent({ eventType: 'd' });
  check(got.join() === 'd', 'the receiver got ' + got);`,
  },
  {
    id: 'C02-track-into-bridge-queue',
    property: 'C02',
    needs: 'exposures while the analytics SDK is not listening, after an identity is known, and then a page load',
    breaks: 'exposures are handed to the in-memory event bridge and lost when the page is left',
    edits: [['experiment-browser/src/integration/amplitude.ts', `    if (!this.eventBridge.receiver) {
      return false;
    }`, `    if (!this.eventBridge.receiver && !this.eventBridge.queue?.length) {
      return false;
    }`]],
    demo: `
  const w = new World();
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  let { browser, connector } = w.page(sdkSource());
  let c = browser.Experiment.initializeWithAmplitudeAnalytics('apikey123456', { pollOnStart: false });
  let con = connector.AnalyticsConnector.getInstance('$default_instance');
  con.identityStore.editIdentity().setUserId('u').commit();
  con.eventBridge.logEvent({ eventType: 'other' });
  await c.fetch();
  c.variant('a');
  ({ browser, connector } = w.page(sdkSource()));
  c = browser.Experiment.initializeWithAmplitudeAnalytics('apikey123456', { pollOnStart: false });
  con = connector.AnalyticsConnector.getInstance('$default_instance');
  con.identityStore.editIdentity().setUserId('u').commit();
  const got = [];
  con.eventBridge.setEventReceiver((e) => got.push(e));
  await w.advance(3000);
  check(got.filter((e) => e.eventType === '$exposure').length === 1, 'exposure received after the reload');`,
  },
  {
    id: 'S01-stale-instance',
    property: 'S01',
    needs: 'Segment replaces the snippet object on the page after the plugin was created',
    breaks: 'events go to the stale snippet object instead of Segment',
    edits: [['plugin-segment/src/plugin.ts', `  getInstance();
  let ready = false;`, `  const initialInstance = getInstance();
  let ready = false;`], ['plugin-segment/src/plugin.ts', `    track(event: ExperimentEvent): boolean {
      const instance = getInstance();
      if (!ready) return false;
      instance.track(`, `    track(event: ExperimentEvent): boolean {
      const instance =
        typeof initialInstance.track === 'function'
          ? initialInstance
          : getInstance();
      if (!ready) return false;
      instance.track(`]],
    pre: '',
    demo: `
  const w = new World();
  const stub = Object.assign([], { track: (...a) => stub.push(a), ready: () => {} });
  const { segment } = w.page("export * as segment from " + JSON.stringify(P('plugin-segment/src/index.ts')) + ";", { globals: { analytics: stub } });
  const plugin = segment.segmentIntegrationPlugin();
  let ready = false;
  plugin.setup().then(() => (ready = true));
  await w.advance(100);
  const got = [];
  w.g.analytics = { initialize: () => {}, initialized: true, ready: (f) => f(), user: () => ({ id: () => 'u', anonymousId: () => 'd', traits: () => ({}) }), track: (t) => got.push(t) };
  await w.advance(200);
  check(ready, 'ready');
  check(plugin.track({ eventType: '$exposure', eventProperties: {} }) === true, 'tracked');
  check(got.length === 1, 'Segment received the event');`,
  },
];
