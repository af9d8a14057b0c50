'use strict';
const S = 'experiment-browser/src/';
const MG = S + 'integration/manager.ts';
const B = 'experiment-tag/src/behavioral-targeting/';
const beh = (rules) => `{ flags: [T.flag('fb', { segments: [{ variant: 'treatment', conditions: T.behaves(['b1']) }], payloads: { treatment: [mut('mb')] } })], pages: { fb: { p: T.pageObj('p', 'url_change', {}, T.TRUE_COND) } }, rules: { fb: { b1: ${rules} } } }`;
const relay = `
const relayed = (w, { refuse = () => false, ready = 20 } = {}) => {
  const { EventSim } = require('./sim/lib/browser');
  const got = new Set();
  const say = (p, win, data) => p.g.dispatchEvent(Object.assign(new EventSim('message', {}), { data, origin: 'https://cdn.amplitude.com', source: win, isTrusted: true }));
  w.hooks.iframe = (p, n) => {
    const win = n.contentWindow;
    w.schedule(ready, () => say(p, win, { type: 'AMP_RELAY_READY' }), { page: p, lane: 'relay', label: 'ready' });
    w.hooks.postToFrame = (q, f, m) => {
      m = JSON.parse(JSON.stringify(m));
      const ok = !refuse(m);
      if (ok && m.type === 'WRITE_EVENT') got.add(m.payload.event.properties.n);
      const payload = m.type === 'READ_EVENTS' ? { events: [], nextId: 1 } : m.type === 'CHECK_MIGRATED' ? { migrated: true } : {};
      w.schedule(10, () => say(p, win, ok ? { requestId: m.requestId, ok, payload } : { requestId: m.requestId, ok, error: 'quota' }), { page: p, lane: 'relay', label: 'answer' });
    };
  };
  return got;
};
const hide = (page) => {
  page.g.document.visibilityState = 'hidden';
  page.g.document.dispatchEvent(T.ev('visibilitychange'));
};
`;
module.exports = [
  {
    id: 'B06-variant-seen-before',
    property: 'B06',
    needs: 'the variant of a flag changes and changes back while the user stays the same',
    breaks: 'the exposure provider is not told about the last change',
    edits: [[S + 'util/userSessionExposureTracker.ts', `    const hasTrackedFlag = exposure.flag_key in this.tracked;
    const trackedVariant = this.tracked[exposure.flag_key];
    if (hasTrackedFlag && trackedVariant === exposure.variant) {
      return;
    }

    this.tracked[exposure.flag_key] = exposure.variant;`, `    const key = \`\${exposure.flag_key}:\${exposure.variant}\`;
    if (key in this.tracked) {
      return;
    }

    this.tracked[key] = exposure.variant;`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const got = [];
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false, exposureTrackingProvider: { track: (e) => got.push(e.variant) } });
  for (const v of ['on', 'off', 'on']) {
    w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: v, value: v } }) });
    await c.fetch({ user_id: 'u1' });
    c.variant('a');
    c.variant('a');
  }
  check(got.join() === 'on,off,on', 'exposures: ' + got);`,
  },
  {
    id: 'B07-poller-not-restarted',
    property: 'B07',
    needs: 'the queue has been delivered once, then the integration refuses an exposure for a while and nothing else is exposed',
    breaks: 'the waiting exposure is not delivered when the integration works again',
    edits: [[MG, `        clearInterval(this.poller);
      }
      this.poller = undefined;`, `        clearInterval(this.poller);
      }`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  w.fetch = async () => ({ status: 200, body: JSON.stringify({ a: { key: 'on', value: 'on' }, b: { key: 'on', value: 'on' } }) });
  const got = [];
  let works = true;
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  c.addPlugin({ type: 'integration', getUser: () => ({}), setup: async () => {}, track: (e) => (works && got.push(e.eventProperties.flag_key), works) });
  await w.advance(10);
  await c.fetch({ user_id: 'u1' });
  c.variant('a');
  await w.advance(3000);
  works = false;
  c.variant('b');
  await w.advance(3000);
  works = true;
  await w.advance(3000);
  check(got.join() === 'a,b', 'delivered: ' + got);`,
  },
  {
    id: 'B12-former-user-shows-through',
    property: 'B12',
    needs: 'an integration which knows a user id is replaced by one which knows only a device id',
    breaks: 'requests carry the user id of the former integration',
    edits: [[MG, `    if (!this.integration) {
      return {};
    }
    return this.integration.getUser();`, `    if (this.integration) {
      this.lastUser = { ...this.lastUser, ...this.integration.getUser() };
    }
    return this.lastUser;`], [MG, `  private readonly cache: SessionDedupeCache;
`, `  private readonly cache: SessionDedupeCache;
  private lastUser: ExperimentUser = {};
`]],
    demo: `
  const w = new World();
  const { browser } = w.page(sdkSource());
  const c = browser.Experiment.initialize('client-abcdef', { pollOnStart: false });
  const mk = (u) => ({ type: 'integration', getUser: () => u, setup: async () => {}, track: () => true });
  const sent = () => JSON.parse(Buffer.from(w.requests.filter((r) => /vardata/.test(r.url)).pop().headers['X-Amp-Exp-User'], 'base64').toString());
  c.addPlugin(mk({ user_id: 'one', device_id: 'd1' }));
  await w.advance(10);
  await c.fetch();
  check(sent().user_id === 'one', JSON.stringify(sent()));
  c.addPlugin(mk({ device_id: 'd2' }));
  await w.advance(10);
  await c.fetch();
  check(sent().user_id === undefined && sent().device_id === 'd2', JSON.stringify(sent()));`,
  },
  {
    id: 'T07-same-event-by-time',
    tag: true,
    property: 'T07',
    needs: 'two events of one type in the same millisecond, neither of which the relay could store at first',
    breaks: 'the second of them never reaches the relay',
    edits: [[B + 'relay-client.ts', '  return a.uuid === b.uuid;', '  return a.event_type === b.event_type && a.timestamp === b.timestamp;']],
    pre: relay,
    demo: `
  let full = true;
  const got = relayed(w, { refuse: (m) => full && m.type === 'WRITE_EVENT' });
  const page = open('https://www.shop.com/');
  const x = start(page, ${beh("[[countRule('purchase', 2)]]")});
  await w.runFor(1000);
  const p = x.tag.createPlugin();
  p.execute({ event_type: 'purchase', event_properties: { n: 1 } });
  p.execute({ event_type: 'purchase', event_properties: { n: 2 } });
  await w.runFor(3000);
  full = false;
  hide(page);
  await w.runFor(1000);
  check([...got].join() === '1,2', 'relayed: ' + [...got]);`,
  },
];
