'use strict';
/**
 * Changes shown, taken back and previewed by the site's own hand, between
 * navigations and the tag's own work (T25).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const WWW = 'https://www.shop.com';
const PATHS = ['/home', '/cart', '/home/sale', '/other'];
const KEYS = ['e0', 'e1', 'e2', 'e3'];

async function T25(w) {
  const keys = KEYS.slice(0, w.int(1, 4));
  const spec = {};
  const flags = [];
  const pages = {};
  const server = [];
  // what of a variant shows on a page: [[name of the change, page it is scoped to]]
  const changes = (k, v) => {
    const s = spec[k];
    if (v === 'off' || !(v in s.parts)) return [];
    return s.parts[v].filter((p) => (p.scope ? p.scope.some(onPage) : onPage('p' + k) || (s.second && onPage('q' + k)))).map((p) => p.id);
  };
  const at = {};
  const onPage = (p) => at[p] !== undefined && page.url.href.includes(at[p]);
  for (const k of keys) {
    const remote = w.chance(0.25);
    const s = (spec[k] = { remote, on: w.weighted([[5, 'treatment'], [1, 'control'], [1, 'off']]), second: w.chance(0.3), parts: {} });
    at['p' + k] = w.pick(['/home', '/cart', '.com']);
    if (s.second) at['q' + k] = w.pick(['/other', '/sale', '/cart']);
    const payloads = {};
    for (const v of ['treatment', 'other']) {
      const parts = (s.parts[v] = []);
      const payload = (payloads[v] = []);
      const n = w.int(0, 3);
      if (n) {
        const mutations = [];
        for (let i = 0; i < n; i++) {
          const scope = w.chance(0.3) ? w.pick(s.second ? [['p' + k], ['q' + k], ['p' + k, 'q' + k]] : [['p' + k]]) : undefined;
          mutations.push({ id: `${k}/${v}/${i}`, selector: '#a', action: 'set', ...(scope ? { metadata: { scope } } : {}) });
          parts.push({ id: `${k}/${v}/${i}`, scope });
        }
        payload.push({ action: 'mutate', data: { mutations } });
      }
      if (!n || w.chance(0.4)) {
        const scope = w.chance(0.2) ? w.pick(s.second ? [['p' + k], ['q' + k], ['p' + k, 'q' + k]] : [['p' + k]]) : undefined;
        payload.splice(w.int(0, payload.length), 0, { action: 'inject', data: { id: `${k}-${v}`, js: 'window.__inj(id, utils)', ...(scope ? { scope } : {}) } });
        parts.push({ id: `${k}${v}`, scope });
      }
    }
    s.parts.control = [];
    const o = { on: s.on, payloads };
    flags.push(T.flag(k, { ...o, mode: remote ? 'remote' : 'local', blocking: remote && w.chance(0.5) }));
    if (remote) server.push(T.flag(k, { ...o, mode: 'local' }));
    pages[k] = { ['p' + k]: T.pageObj('p' + k, 'url_change', {}, T.urlCond(at['p' + k])) };
    if (s.second) pages[k]['q' + k] = T.pageObj('q' + k, 'url_change', {}, T.urlCond(at['q' + k]));
  }
  const mix = server.length ? L.netMix(w, { p: 0.25 }) : {};
  w.hooks.server = (req) => L.netPlan(w, mix, JSON.stringify(server), 1000);

  const page = T.openPage(w, w.browser.newTab(), { url: WWW + w.pick(PATHS) });
  const g = page.g;
  const code = new Map();
  g.__inj = (id, utils) => {
    code.set(id, (code.get(id) || 0) + 1);
    utils.remove = () => code.set(id, code.get(id) - 1);
  };
  const tracked = [];
  T.integration(w, page, {
    onTrack: (e) => {
      if (e.eventType !== '$impression') return;
      tracked.push(e.eventProperties);
    },
  });
  T.start(w, page, { flags, pages });
  const client = () => (g.webExperiment && !g.webExperiment.isStub ? g.webExperiment : null);
  const liveOf = (k) => {
    const ids = [...page.live.values()].map((m) => m.id).filter((x) => x.startsWith(k + '/'));
    for (const [id, n] of code) {
      if (!id.startsWith(k)) continue;
      for (let i = 0; i < n; i++) ids.push(id);
      w.check(n >= 0, 'undone-twice', `${id} is undone more often than done`);
    }
    return ids.sort();
  };
  const variantOf = (id) => (id.includes('other') ? 'other' : 'treatment');

  // ---- the model: which variant of each experiment is shown by whom
  const shown = {}; // key -> variant | null
  let busy = true; // an operation may still be at work
  const open = new Set(); // keys whose operations overlap
  const automatic = (k) => (spec[k].on === 'treatment' ? 'treatment' : null);
  for (const k of keys) shown[k] = automatic(k);
  const put = (k, v) => {
    if (busy) open.add(k);
    else open.delete(k);
    shown[k] = v;
  };
  const ops = {
    apply(c) {
      const some = w.chance(0.4) ? keys.filter(() => w.chance(0.6)) : undefined;
      const asked = some && w.chance(0.2) ? [...some, 'unknown'] : some;
      c.applyVariants(asked ? { flagKeys: asked } : w.pick([undefined, {}])).then(() => w.probe('applied'));
      for (const k of some || keys) put(k, automatic(k));
    },
    revert(c) {
      const some = w.chance(0.6) ? keys.filter(() => w.chance(0.6)) : undefined;
      // (at once; what is at work may still show its changes)
      c.revertVariants(some ? { flagKeys: w.chance(0.2) ? ['unknown', ...some] : some } : w.pick([undefined, {}]));
      for (const k of some || keys) {
        w.check(!liveOf(k).length, 'not-reverted', () => `[${liveOf(k)}] are live as revertVariants returns`);
        put(k, null);
      }
    },
    preview(c) {
      const which = {};
      const order = w.chance(0.5) ? [...keys].reverse() : keys;
      for (const k of order) if (w.chance(0.6)) which[k] = w.weighted([[4, 'other'], [3, 'treatment'], [1, 'control'], [1, 'off'], [1, 'unknown']]);
      if (w.chance(0.1)) which.unknown = 'treatment';
      c.previewVariants({ keyToVariant: which });
      for (const k of Object.keys(which)) if (spec[k]) put(k, which[k] in spec[k].parts ? which[k] : null);
    },
    nav() {
      T.spa(page, `${WWW}${w.pick(PATHS)}?n=${++seq}`);
      for (const k of keys) put(k, automatic(k));
    },
  };
  let seq = 0;
  const two = () => {
    if (!client()) return;
    for (const k of keys) {
      const ids = liveOf(k);
      w.check(new Set(ids).size === ids.length, 'shown-twice', () => `[${ids}] of ${k} are live`);
      w.check(new Set(ids.map(variantOf)).size < 2, 'two-variants-at-once', () => `[${ids}] of ${k} are live`);
    }
  };
  const settled = () => {
    busy = false;
    const c = client();
    w.check(c && c.isRunning, 'not-running', 'the tag is not running');
    two();
    for (const k of keys) {
      if (open.has(k)) continue;
      const due = (shown[k] ? changes(k, shown[k]) : []).sort();
      const live = liveOf(k);
      w.check(due.join() === live.join(), 'wrong-changes', () => `of ${k} (assigned ${spec[k].on}, last put ${shown[k]}) [${live}] are live on ${page.url.href}, due are [${due}]`);
      if (due.length) w.probe('shown:' + shown[k]);
      const listed = c.getActiveExperiments().includes(k);
      w.check(listed === !!live.length, 'active-experiments', () => `getActiveExperiments() says [${c.getActiveExperiments()}], of ${k} [${live}] are live`);
    }
  };
  w.hooks.afterStep = two;
  await w.runFor(15000);
  settled();
  for (let n = w.int(1, 9); n > 0; n--) {
    const k = w.weighted([[3, 'apply'], [3, 'revert'], [5, 'preview'], [4, 'nav']]);
    w.op(k);
    ops[k](client());
    busy = true;
    if (w.chance(0.65)) {
      await w.runFor(w.pick([1000, 12000]));
      settled();
    } else {
      w.interleaved = true;
      if (w.chance(0.4)) await w.runFor(0);
    }
  }
  await w.runFor(12000);
  settled();
  // a navigation puts everything right
  ops.nav();
  open.clear();
  await w.runFor(12000);
  settled();
}

module.exports = {
  T25: {
    run: T25,
    bundles: ['tag'],
    runs: { quick: 14000, thorough: 120000 },
    rule: '1-4 experiments with one or two pages, scoped changes and injected code, local and remote; 1-9 of applyVariants, revertVariants, previewVariants (any subset, order, variant, unknown names) and SPA navigations, settled or overlapping, under network faults',
    real: T.TAG_REAL,
    stubs: T.TAG_STUB,
  },
};
