'use strict';
/**
 * B14: several clients on one page. Each is made once per instance name and
 * deployment, keeps its own state and never sees or does anything of another.
 */
const L = require('./lib-sdk');

const NAMES = [undefined, '$default_instance', 'shop', 'blog', 'shop-blog'];
const DEPLOYMENTS = ['client-aaaaaa111111', 'client-aaaaaa222222', 'server-bbbbbb333333'];
const FLAGS = ['flag-a', 'flag-b'];

async function b14(w) {
  const mix = L.netMix(w, { p: 0.5 });
  const slots = []; // one per instance name and deployment, across page loads
  const bySlot = new Map();
  const slotOf = (name, key) => {
    const id = `${name || '$default_instance'}.${key}`;
    if (!bySlot.has(id)) {
      const s = { id, name: name || '$default_instance', key, n: slots.length, tag: `s${slots.length}`, got: {} };
      slots.push(s);
      bySlot.set(id, s);
    }
    return bySlot.get(id);
  };
  const flagRequests = new Map(); // deployment -> times
  const amp = w.chance(0.4);
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const key = /^Api-Key (.*)$/.exec(r.auth || '')[1];
    let body;
    let onDeliver;
    if (r.kind === 'flags') {
      if (!flagRequests.has(key)) flagRequests.set(key, []);
      flagRequests.get(key).push(w.now);
      body = JSON.stringify([
        { key: 'loc', variants: { on: { key: 'on', value: 'loc@' + key } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } },
      ]);
    } else {
      const owner = slots.find((s) => r.user.user_id && r.user.user_id.startsWith(s.tag + ':'));
      if (!owner) {
        w.flag('foreign-user', `a request for ${key} carries the user ${L.canon(r.user)}`);
        return { kind: 'ok', status: 200, body: '{}', delay: 1 };
      }
      if (owner.key !== key) w.flag('foreign-user', `the user ${r.user.user_id} of ${owner.id} was requested for ${key}`);
      // (a retry goes on with the identity of when it was made)
      const ids = owner.amp ? ['dev-' + owner.name] : owner.plugin ? ['plug-' + owner.tag, undefined] : [undefined];
      if (!ids.includes(r.user.device_id)) w.flag('foreign-identity', `${owner.id} requested with the device ${r.user.device_id}, expected ${ids[0]}`);
      if (r.user.device_id) w.probe('analytics-identity');
      if (r.track !== undefined && !(owner.tracks || []).includes(r.track)) w.flag('foreign-options', `${owner.id} requested with ${r.track}, which was set on it: ${owner.tracks}`);
      if (r.track) w.probe('tracks-assignment');
      const own = r.user.user_properties || {};
      if (own.of !== undefined && own.of !== owner.tag) w.flag('foreign-user', `${owner.id} requested with the properties of ${own.of}`);
      const vs = {};
      for (const k of FLAGS) if (!w.chance(0.2)) vs[k] = { key: w.pick(['on', 'off']) + '|' + owner.name, value: `${r.user.user_id}@${req.id}` };
      body = JSON.stringify(vs);
      onDeliver = () => {
        owner.touched = true;
      };
    }
    const plan = L.netPlan(w, mix, body, 1000);
    if (onDeliver) plan.onDeliver = onDeliver;
    return plan;
  };
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  const tab = w.browser.newTab();
  let page, x, live;
  const snapshot = (s) => L.canon([s.client.all(), s.client.getUser()]);
  const ownership = (s) => {
    const all = s.client.all();
    for (const k of Object.keys(all)) {
      const v = String(all[k].value);
      const want = k === 'loc' ? v === 'loc@' + s.key : k === 'init' ? v === 'init:' + s.tag : v.startsWith(s.tag + ':');
      if (!want) w.flag('foreign-variant', `${s.id} (${s.tag}) reads ${k} as ${v}`);
    }
    if (all['loc']) w.probe('local-flag');
    const u = s.client.getUser();
    if (u && u.user_id && !u.user_id.startsWith(s.tag + ':')) w.flag('foreign-user', `${s.id} (${s.tag}) has the user ${u.user_id}`);
  };
  /** one call on one client: nothing of another client changes */
  const on = (s, what, f) => {
    w.op(what, s.tag);
    const others = live.filter((o) => o !== s).map((o) => [o, snapshot(o)]);
    const r = f();
    for (const [o, was] of others) w.check(snapshot(o) === was, 'other-changed', () => `${what} on ${s.id} changed ${o.id} from ${was} to ${snapshot(o)}`);
    ownership(s);
    if (live.length > 1) w.interleaved = true;
    return r;
  };
  const make = () => {
    const name = w.pick(NAMES);
    const key = w.pick(DEPLOYMENTS);
    const s = slotOf(name, key);
    const first = !live.includes(s);
    const how = amp && (first ? w.chance(0.5) : w.chance(0.5)) ? 'initializeWithAmplitudeAnalytics' : 'initialize';
    const serial = ++s.made || (s.made = 1);
    const bare = name === undefined && w.chance(0.1);
    const config = bare
      ? undefined
      : {
          ...(name ? { instanceName: name } : {}),
          fetchTimeoutMillis: 1000,
          retryFetchOnFailure: w.chance(0.5),
          automaticExposureTracking: true,
          initialVariants: { init: { key: 'init', value: 'init:' + s.tag } },
          pollOnStart: w.chance(0.7),
          exposureTrackingProvider: {
            track: (e) => {
              const o = slots.find((c) => c.exposing);
              if (!o || o !== s || s.config !== config) w.flag('foreign-exposure', `the exposure provider of ${s.id} (made the ${serial}. time) was given ${L.canon(e)} of ${o ? o.id : 'no one'}`);
              s.exposed.push(e.flag_key);
            },
          },
          userProvider: { getUser: () => ({ user_properties: { of: s.config === config ? s.tag : 'unused' } }) },
        };
    w.op(how, `${s.id} = ${s.tag}${bare ? ' without configuration' : ''}`);
    if (first) s.config = config; // it may ask its provider while it is made
    const others = live.filter((o) => o !== s).map((o) => [o, snapshot(o)]);
    const before = !first && snapshot(s);
    const client = bare && w.chance(0.5) ? x.browser.Experiment[how](key) : x.browser.Experiment[how](key, config);
    if (first) {
      w.check(!live.some((o) => o.client === client), 'shared-client', () => `${s.id} got the client of ${live.find((o) => o.client === client).id}`);
      s.client = client;
      s.exposed = [];
      Object.assign(s, { took: [], sent: {}, exposedAs: null });
      live.push(s);
      s.amp = how !== 'initialize';
      if (!s.amp && w.chance(0.4)) {
        // its own integration
        s.plugin = true;
        client.addPlugin({
          type: 'integration',
          getUser: () => ({ device_id: 'plug-' + s.tag }),
          track: (e) => {
            // clients of one instance name report to the same analytics
            const p = e.eventProperties;
            if (FLAGS.includes(p.flag_key) && p.variant.split('|')[1] !== s.name) w.flag('foreign-exposure', `the integration of ${s.id} was given ${L.canon(e)}`);
            w.probe('integration-exposure');
            s.took.push(p.flag_key);
            return true;
          },
        });
      }
    } else {
      w.check(s.client === client, 'second-client', () => `${s.id} was made twice`);
      w.check(snapshot(s) === before, 'other-changed', () => `initializing ${s.id} again changed it from ${before} to ${snapshot(s)}`);
      w.probe('initialized-again');
    }
    for (const [o, was] of others) w.check(snapshot(o) === was, 'other-changed', () => `making ${s.id} changed ${o.id} from ${was} to ${snapshot(o)}`);
    ownership(s);
  };
  const loads = w.int(1, 3);
  for (let v = 0; v < loads; v++) {
    page = w.browser.load(tab, {});
    x = page.run(w.bundles.sdk);
    live = [];
    for (const s of slots) Object.assign(s, { client: null, config: null, plugin: false, amp: false, locExposed: false, exposedAs: null, sent: {}, took: [] });
    if (amp)
      for (const n of NAMES)
        if (n) x.connector.AnalyticsConnector.getInstance(n).identityStore.setIdentity({ deviceId: 'dev-' + n });
    w.hooks.afterStep = () => {
      if (!page.alive) return;
      for (const s of live) ownership(s);
    };
    w.op('load');
    const count = w.int(2, 4);
    for (let i = 0; i < count; i++) make();
    let n = w.int(4, 14);
    let serial = 0;
    const settled = w.chance(0.3); // everyone has started, then mostly reads
    if (settled) for (const s of live.filter(() => w.chance(0.8))) on(s, 'start', () => s.client.start({ user_id: `${s.tag}:${v}.0`, user_properties: { of: s.tag } }).catch(() => undefined));
    if (settled) await w.runFor(3000);
    while (n--) {
      const s = w.pick(live);
      const user = () => ({ user_id: `${s.tag}:${v}.${++serial}`, user_properties: { of: s.tag } });
      const k = w.weighted([[settled ? 1 : 8, 'fetch'], [settled ? 1 : 5, 'start'], [settled ? 1 : 4, 'setUser'], [2, 'stop'], [2, 'clear'], [settled ? 30 : 8, 'expose'], [3, 'make'], [2, 'options'], [1, 'poll']]);
      if (k === 'fetch') on(s, 'fetch', () => s.client.fetch(user()).catch(() => undefined));
      else if (k === 'start') on(s, 'start', () => s.client.start(user()).catch(() => undefined)); else if (k === 'setUser') on(s, 'setUser', () => s.client.setUser(user()));
      else if (k === 'stop') on(s, 'stop', () => s.client.stop());
      else if (k === 'clear') on(s, 'clear', () => s.client.clear());
      else if (k === 'options') {
        const track = w.chance(0.5);
        (s.tracks = s.tracks || []).push(track ? 'track' : 'no-track');
        on(s, 'options', () => s.client.setTracksAssignment(track));
      }
      else if (k === 'make') make();
      else if (k === 'expose') {
        const f = w.pick([...FLAGS, 'loc', 'init']);
        on(s, 'expose ' + f, () => {
          const took = s.took.length;
          const who = (s.client.getUser() || {}).user_id;
          if (s.exposedAs !== who) s.sent = {};
          s.exposedAs = who;
          s.exposing = true;
          const r = s.client.variant(f);
          s.exposing = false;
          if (f === 'loc' && r.key === 'on' && !s.locExposed) {
            // the first of this page: what other clients have exposed does not matter
            s.locExposed = true;
            w.check(s.exposed.includes('loc') || !s.config, 'exposure-missing', () => `the exposure provider of ${s.id} has not heard of ${f}`);
            if (s.plugin && live.filter((o) => o.name === s.name).length === 1)
              w.check(s.took.length === took + 1, 'exposure-missing', () => `the integration of ${s.id} was given ${s.took.length - took} exposures of ${f}`);
            w.probe('first-exposure');
          }
          if (s.plugin && f === 'loc' && s.sent[f] === r.key && live.filter((o) => o.name === s.name).length === 1)
            w.check(s.took.length === took, 'exposure-repeated', () => `the integration of ${s.id} was given ${f} again`);
          s.sent[f] = r.key;
          const v = r.value === undefined ? '' : String(r.value);
          if (v && !v.startsWith(s.tag + ':') && v !== 'loc@' + s.key && v !== 'init:' + s.tag) w.flag('foreign-variant', `${s.id} (${s.tag}) reads ${f} as ${v}`);
        });
      } else await w.runFor(300e3);
      if (w.violation) w.fail(w.violation.cls, w.violation.message);
      await L.breathe(w, 3000);
      w.interleaved = true;
    }
    // what one client did has not stopped another: a started client still polls
    await w.runFor(12000);
    const mine = live.filter((s) => s.config);
    for (const s of live) s.client.stop();
    await w.runFor(2000);
    if (mine.length && w.chance(0.3)) {
      const polling = mine.filter((s) => s.config.pollOnStart && w.chance(0.6));
      for (const s of polling) s.client.start({ user_id: `${s.tag}:p` }).catch(() => undefined);
      await w.runFor(20000);
      const stopped = polling.filter(() => w.chance(0.3));
      for (const s of stopped) s.client.stop();
      const from = w.now;
      await w.runFor(601e3);
      for (const key of DEPLOYMENTS) {
        const want = 2 * polling.filter((s) => s.key === key && !stopped.includes(s)).length;
        const got = (flagRequests.get(key) || []).filter((t) => t > from).length;
        w.check(got >= want, 'polling-stopped', () => `${want / 2} clients of ${key} poll every five minutes but ${got} requests were made in ten`);
        if (got > 1) w.probe('polled');
      }
    }
    w.hooks.afterStep = undefined;
    page.kill('left');
    await w.runFor(50);
  }
}

module.exports = {
  B14: {
    run: b14,
    bundles: ['sdk'],
    runs: { quick: 8000, thorough: 120000 },
    rule: 'Two to four clients and up to three page loads: fetches, starts, polls, exposures and repeated initialization of all of them interleave under network faults; every value is tagged with the client it belongs to.',
    real: L.SDK_REAL,
    stubs: [...L.SDK_STUB, 'integration plugin and exposure provider (recording)'],
  },
};
