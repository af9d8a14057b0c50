'use strict';
const X = 'experiment-tag/src/';
const B = 'experiment-browser/src/';
// a page with the tag and a client of the site
const page = `
  w.hooks.server = (req) => {
    const r = T.parse(req);
    if (r.kind === 'vardata') return { kind: 'ok', status: 200, body: JSON.stringify({ f0: { key: 'on', value: 'f0' } }), delay: 20 };
    return { kind: 'ok', status: 200, body: '[]', delay: 20 };
  };
  const tab = w.browser.newTab();
  const openPage = () => T.openPage(w, tab, { url: 'https://www.shop.com/' });
  const got = [];
  const receive = (x, page) => {
    const c = x.connector.AnalyticsConnector.getInstance('$default_instance');
    c.identityStore.setIdentity({ userId: 'u1', deviceId: 'dev' });
    c.eventBridge.setEventReceiver((e) => page.alive && got.push(e.eventType + ' ' + e.eventProperties.flag_key));
  };
  const startTag = (page, config) => T.start(w, page, {
    flags: [T.flag('g0', { on: 'treatment', payloads: { treatment: [mut('m0')] } })],
    pages: { g0: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } },
    config: config || {},
  });
  const startClient = async (page, make) => {
    const x = page.run(w.bundles.sdk);
    const client = x.browser.Experiment[make || 'initializeWithAmplitudeAnalytics'](T.API, { fetchOnStart: false, pollOnStart: false });
    client.setUser({ user_id: 'u1' });
    return { x, client };
  };`;
module.exports = [
  {
    id: 'T24-impression-resets-dedupe',
    property: 'T24',
    tag: true,
    bundles: ['sdk'],
    needs: 'an impression of the tag between two reads of the same variant by a client of the same instance name',
    breaks: 'an impression clears the record of exposures tracked in the tab, and the client tracks the same exposure again',
    edits: [
      [B + 'integration/manager.ts', `    // Always track web impressions.
    if (exposure.metadata?.deliveryMethod === 'web') {
      return true;
    }

    const newIdentity`, `    const newIdentity`],
      [B + 'integration/manager.ts', `    this.identity = newIdentity;

    this.loadCache();`, `    this.identity = newIdentity;

    // Always track web impressions.
    if (exposure.metadata?.deliveryMethod === 'web') {
      return true;
    }

    this.loadCache();`],
    ],
    demo: page + `
  const p = openPage();
  const { x, client } = await startClient(p);
  receive(x, p);
  await w.runFor(500);
  client.fetch();
  await w.runFor(500);
  client.exposure('f0');
  await w.runFor(500);
  startTag(p);
  await w.runFor(3000);
  client.exposure('f0');
  await w.runFor(3000);
  const n = got.filter((e) => e === '$exposure f0').length;
  check(got.includes('$impression g0') && n === 1, 'events: ' + got);`,
  },
  {
    id: 'T24-queue-not-read-while-delivering',
    property: 'T24',
    tag: true,
    bundles: ['sdk'],
    needs: 'exposures of a client waiting for its own analytics set-up while the tag, whose analytics is ready, tracks an impression',
    breaks: 'the stored queue is overwritten by a client that can deliver: what another client of the page has waiting is lost',
    edits: [
      [B + 'integration/manager.ts', `    this.loadQueue();
    this.inMemoryQueue.push(event);
    this.flush();
    this.storeQueue();`, `    if (!this.tracker || this.poller) this.loadQueue();
    this.inMemoryQueue.push(event);
    this.flush();
    this.storeQueue();`],
    ],
    demo: page + `
  const p = openPage();
  const x = startTag(p);
  receive(p.x, p);
  await w.runFor(3000);
  // the client has no analytics of its own yet
  const { x: y, client } = await startClient(p, 'initialize');
  client.fetch();
  await w.runFor(500);
  client.exposure('f0');
  T.spa(p, 'https://www.shop.com/next');
  await w.runFor(1500);
  client.addPlugin({ type: 'integration', name: 'late', setup: async () => undefined, getUser: () => ({}), track: (e) => (got.push(e.eventType + ' ' + e.eventProperties.flag_key), true) });
  await w.runFor(3000);
  check(got.filter((e) => e === '$exposure f0').length === 1, 'events: ' + got);`,
  },
  {
    id: 'T24-refusal-sweeps-unsuffixed',
    property: 'T24',
    tag: true,
    bundles: ['sdk'],
    needs: 'a refusal on a page load after which the client of the same deployment starts again',
    breaks: 'the erasure that follows a refusal also deletes what a feature experimentation client of the site has stored',
    edits: [
      [X + 'consent/clear-data.ts', `      feature: 'experiment-browser variant/flag caches',
      sessionStorage: [`, `      feature: 'experiment-browser variant/flag caches',
      // (kept in localStorage, without suffix, by earlier versions)
      localStorage: [
        '',
        '-flags',
        '-variants-options',
      ].map((kind) => \`amp-exp-\${instanceName}-\${apiKey.slice(-6)}\${kind}\`),
      sessionStorage: [`],
    ],
    demo: page + `
  const p = openPage();
  startTag(p, { consentOptions: { consentRequired: true, consentStatus: 'granted' } });
  const { client } = await startClient(p, 'initialize');
  client.fetch();
  await w.runFor(500);
  p.g.webExperiment.setConsentStatus('denied');
  check(client.variant('f0').value === 'f0', 'the client lost its variant');
  await w.runFor(500);
  p.kill('left');
  const q = openPage();
  const { client: again } = await startClient(q, 'initialize');
  check(again.variant('f0').value === 'f0', 'the client starts from ' + JSON.stringify(again.all()));`,
  },
  {
    id: 'B15-no-timers-no-answer',
    property: 'B15',
    needs: 'an engine without setTimeout',
    breaks: 'a fetch never completes where the request cannot be given a time limit, and its variants never arrive',
    edits: [
      [B + 'transport/http.ts', `    const setTimeoutFn = getSetTimeout();
    if (setTimeoutFn) {
      setTimeoutFn(function () {
        reject(
          new TimeoutError(
            \`Request timeout after \${timeoutMillis} milliseconds\`,
          ),
        );
      }, timeoutMillis);
    }
    promise.then(resolve, reject);`, `    const setTimeoutFn = getSetTimeout();
    if (!setTimeoutFn) {
      return promise;
    }
    setTimeoutFn(function () {
      reject(
        new TimeoutError(
          \`Request timeout after \${timeoutMillis} milliseconds\`,
        ),
      );
    }, timeoutMillis);
    promise.then(resolve, reject);`],
    ],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource(), { globals: { setTimeout: undefined, setInterval: undefined, clearTimeout: undefined, clearInterval: undefined } });
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' } }) });
  const c = browser.Experiment.initialize('client-abcdef', {});
  let done = false;
  c.fetch({ user_id: 'u' }).then(() => (done = true));
  await w.advance(1000);
  check(done && c.variant('a').value === 'on', 'fetched: ' + done + ', ' + JSON.stringify(c.all()));`,
  },
];
