'use strict';
/**
 * Broken experiments (selectors, addresses, code, handlers) and site callbacks
 * that throw: every other experiment goes on as if they were not there (T23).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');
const { DOMExceptionSim } = require('../lib/browser');

const WWW = 'https://www.shop.com';
const URLS = ['/home', '/cart', '/home/sale', '/other', '/cart?x=1'];
const BAD = ['##', 'div[', '.a..b', '', '1a', '#a >> #b'];
const NOWHERE = WWW + '/nowhere'; // only with the site's own handler, which throws
const RATIO = [0, 0.5, 1];

/** a payload of a broken experiment; its working parts have ids that start with its key */
function badPayload(w, k) {
  const ok = (i) => ({ id: `${k}/m${i}`, selector: '#a', action: 'set' });
  const broken = () => ({ id: `${k}/broken`, selector: w.pick(BAD), action: 'set' });
  const code = (js) => ({ action: 'inject', data: { id: `${k}-i`, js } });
  switch (w.weighted([[4, 'selector'], [2, 'redirect'], [2, 'code'], [1, 'syntax'], [1, 'cleanup'], [2, 'shape'], [2, 'handler']])) {
    case 'selector': {
      const mutations = [];
      for (let i = w.int(1, 3); i > 0; i--) mutations.push(w.chance(0.5) ? ok(i) : broken());
      mutations.splice(w.int(0, mutations.length), 0, broken());
      return [{ action: 'mutate', data: { mutations } }];
    }
    case 'redirect':
      return [{ action: 'redirect', data: { url: w.pick(['/cart', 'cart', 'http://', '', '//', 'www.shop.com/cart', undefined]) } }];
    case 'handler':
      return [{ action: 'redirect', data: { url: NOWHERE } }];
    case 'code':
      return [code(`window.__inj(id, utils);throw new Error('site code')`)];
    case 'syntax':
      return [code('if (')];
    case 'cleanup':
      return [code(`window.__inj(id, utils);utils.remove=()=>{throw new Error('site code')}`)];
    default:
      return w.pick([
        [null],
        ['x'],
        [{}],
        [{ action: 'new-kind', data: {} }],
        [{ action: 'mutate' }],
        [{ action: 'mutate', data: { mutations: [null] } }],
        [{ action: 'mutate', data: { mutations: 'x' } }],
        [{ action: 'inject' }],
        [{ action: 'inject', data: { id: 7 } }],
        [{ action: 'inject', data: { id: `${k}-i`, html: '<' } }],
        [{ action: 'redirect' }],
        'x',
        {},
      ]);
  }
}
/** a page object of a broken experiment that never works */
function badPage(w, id) {
  // an expression of another dialect
  if (w.chance(0.2)) return T.pageObj(id, 'url_change', {}, [[{ op: 'regex match', selector: ['context', 'page', 'url'], values: [w.pick(['(?i)/home', '/cart[', '*'])] }]]);
  const selector = w.pick(BAD);
  const [type, value] = w.pick([
    ['element_appeared', { selector }],
    ['element_visible', { selector, visibilityRatio: w.pick(RATIO) }],
    ['user_interaction', { selector, interactionType: w.pick(['click', 'hover', 'focus']), ...w.pick([{}, { minThresholdMs: 100 }]) }],
    ['scrolled_to', { mode: 'element', selector }],
    ['new_kind_of_trigger', {}],
  ]);
  return T.pageObj(id, type, value, w.pick([T.TRUE_COND, []]));
}

async function T23(w) {
  // ---- the experiments of the site, the broken ones among the others
  const good = ['g0', 'g1', 'g2'].slice(0, w.int(1, 3));
  const bad = ['b0', 'b1'].slice(0, w.int(1, 2));
  const flags = [];
  const pages = {};
  const spec = {};
  const server = [];
  const at = {}; // where a broken one shows what of it works
  let useHandler = false;
  const add = (k, payload, ps, remote) => {
    const o = { on: 'treatment', payloads: { treatment: payload } };
    flags.push(T.flag(k, { ...o, mode: remote ? 'remote' : 'local', blocking: remote && w.chance(0.5) }));
    if (remote) server.push(T.flag(k, { ...o, mode: 'local' }));
    pages[k] = ps;
  };
  for (const k of good) {
    const s = (spec[k] = { type: w.weighted([[4, 'url_change'], [1, 'analytics_event'], [1, 'manual'], [1, 'user_interaction'], [1, 'element_appeared']]), at: w.pick(['/home', '/cart', '.com']), remote: w.chance(0.3), inject: w.chance(0.4) });
    const value = { analytics_event: [[{ op: 'is', selector: ['context', 'data', 'event'], values: ['view'] }]], manual: { name: 'go' }, user_interaction: { selector: '#btn', interactionType: 'click' }, element_appeared: { selector: '#late' } }[s.type];
    add(k, [{ action: 'mutate', data: { mutations: [{ id: k + '/m', selector: '#a', action: 'set' }] } }, ...(s.inject ? [{ action: 'inject', data: { id: k + '-i', js: 'window.__inj(id, utils)' } }] : [])], { ['p' + k]: T.pageObj('p' + k, s.type, value, T.urlCond(s.at)) }, s.remote);
  }
  for (const k of bad) {
    const ps = {};
    if (w.chance(0.4)) ps['x' + k] = badPage(w, 'x' + k);
    const payload = badPayload(w, k);
    const leaves = JSON.stringify(payload).includes(NOWHERE);
    if (leaves) useHandler = true;
    if (!Object.keys(ps).length || w.chance(0.6)) ps['p' + k] = T.pageObj('p' + k, 'url_change', {}, T.urlCond((at[k] = leaves ? '/other' : w.pick(['/home', '/cart', '.com']))));
    // (on pages that work)
    const works = [].concat(...(Array.isArray(payload) ? payload : []).map((a) => (a && a.data && Array.isArray(a.data.mutations) ? a.data.mutations : []))).map((m) => m && m.id).filter((x) => /\/m\d$/.test(x));
    spec[k] = { bad: true, works, failing: /site code/.test(JSON.stringify(payload)) && !/utils.remove/.test(JSON.stringify(payload)) };
    add(k, payload, ps, w.chance(0.3));
  }
  // the order of flags and of page objects decides who comes after a broken one
  for (let i = flags.length - 1; i > 0; i--) flags.splice(i, 1, ...flags.splice(w.int(0, i), 1, flags[i]));
  const order = Object.keys(pages);
  for (let i = order.length - 1; i > 0; i--) order.splice(i, 1, ...order.splice(w.int(0, i), 1, order[i]));
  const pageObjects = Object.fromEntries(order.map((k) => [k, pages[k]]));
  const mix = server.length ? L.netMix(w, { p: 0.3 }) : {};
  const preview = w.chance(0.2) ? w.pick([...good, ...bad]) : null;
  w.hooks.server = (req) => L.netPlan(w, T.parse(req).kind === 'configs' ? {} : mix, T.parse(req).kind === 'configs' ? JSON.stringify({ flags, pageObjects, behavioralTargetingRules: {} }) : JSON.stringify(server), 1000);
  // what a script of the site does wrong is the browser's to report
  w.hooks.pageError = (p, e) => {
    if (/site code|site callback|site handler|Unexpected/.test(String(e && e.message))) return;
    w.flag('uncaught-error', String(e && e.stack));
  };
  w.hooks.navigate = (p, u) => w.flag('sent-away', `the visitor is sent to ${u.href}`);

  const tab = w.browser.newTab();
  const page = T.openPage(w, tab, { url: WWW + w.pick(useHandler ? URLS.filter((u) => u !== '/other') : URLS) + (preview ? `?PREVIEW=true&${preview}=treatment` : '') });
  const g = page.g;
  const d = g.document;
  const btn = d.createElement('button');
  btn.setAttribute('id', 'btn');
  d.body.appendChild(btn);
  const late = d.createElement('div');
  late.setAttribute('id', 'late');
  if (w.chance(0.5)) d.body.appendChild(late);
  const code = new Map(); // injection -> how often it is live
  g.__inj = (id, utils) => {
    code.set(id, (code.get(id) || 0) + 1);
    const off = () => code.set(id, code.get(id) - 1);
    utils.remove = off;
  };
  const apply = g.__domMutator.apply;
  g.__domMutator.apply = (m) => {
    // as document.querySelectorAll
    if (typeof m.selector !== 'string' || BAD.includes(m.selector)) {
      w.fault('bad-selector');
      throw new DOMExceptionSim(`'${m.selector}' is not a valid selector.`, 'SyntaxError');
    }
    return apply.call(g.__domMutator, m);
  };
  const seen = [];
  T.integration(w, page, { onTrack: (e) => e.eventType === '$impression' && seen.push(e.eventProperties.flag_key + ' ' + page.url.pathname) });
  const debugging = w.chance(0.3);
  if (debugging) g.__AMP_DEBUG = true;
  T.start(w, page, { flags, pages: pageObjects, config: { useDefaultNavigationHandler: true }, noInit: true });
  page.init({ flags, pages: pageObjects, config: { useDefaultNavigationHandler: true } });
  const client = () => (g.webExperiment && !g.webExperiment.isStub ? g.webExperiment : null);
  const fails = (what) => () => {
    w.fault(what + '-throws');
    throw new Error('site ' + what);
  };
  const hook = () => {
    const c = client();
    if (!c || page.hooked) return;
    page.hooked = true;
    c.setRedirectHandler(fails('handler'));
    if (throwingSub) c.addPageChangeSubscriber(fails('callback'));
    // (it is told of what changes from now on)
    const names = (pages) => Object.keys(pages).filter((k) => spec[k] && !spec[k].bad).sort().join();
    told = names(c.getActivePages());
    if (!c.addPageChangeSubscriber(({ activePages }) => (told = names(activePages)))) told = null;
    if (!debugging) return;
    if (throwingSub) c.addDebugStateSubscriber(fails('callback'));
    c.addDebugStateSubscriber((s) => (debugged = s.currentUrl));
  };
  const throwingSub = w.chance(0.4);
  let debugged = null;
  let movedSince = false;
  let told = null;
  w.hooks.afterStep = hook;
  hook();

  // ---- what the good experiments are due: each trigger counts until the URL changes
  let fired = new Set();
  let maybe = new Set();
  const here = (s) => page.url.href.includes(s.at);
  const act = (k) => {
    w.op(k);
    if (k === 'event') client() && client().isRunning && (client().trackEvent('view', {}), fired.add('analytics_event'));
    else if (k === 'manual') client() && client().isRunning && (client().toggleManualPageObject('go', true), fired.add('manual'));
    else if (k === 'click') {
      if (client() && client().isRunning) fired.add('user_interaction');
      else maybe.add('user_interaction'); // while it starts: open
      btn.dispatchEvent(T.ev('click'));
      btn.dispatchEvent(T.ev('mouseover'));
      btn.dispatchEvent(T.ev('focusin'));
    } else if (k === 'late') !late.isConnected && d.body.appendChild(late);
    else {
      const to = WWW + w.pick(useHandler && !page.hooked ? URLS.filter((u) => u !== '/other') : URLS);
      if (to !== page.url.href) fired = new Set();
      if (to !== page.url.href) maybe = new Set();
      if (to !== page.url.href && page.hooked) movedSince = true;
      T.spa(page, to);
    }
  };
  const settle = async () => {
    await w.runFor(12000);
    w.check(client() && client().isRunning, 'not-running', 'the tag is not running: a broken experiment has stopped it');
    w.check(!T.hidden(page), 'page-hidden', 'the page is still hidden');
    const live = [...page.live.values()].map((m) => m.id);
    for (const k of good) {
      const s = spec[k];
      if (maybe.has(s.type) && !fired.has(s.type)) continue;
      const on = here(s) && (s.type === 'url_change' || fired.has(s.type) || (s.type === 'element_appeared' && late.isConnected));
      const n = live.filter((x) => x === k + '/m').length;
      w.check(n === (on ? 1 : 0), 'other-experiment-affected', () => `the change of ${k} (${s.type} at ${s.at}) is live ${n} times on ${page.url.href}; broken are ${JSON.stringify(bad.map((b) => [flags.find((f) => f.key === b).variants.treatment.payload, pages[b]]))}`);
      if (s.inject) w.check((code.get(k + 'i') || 0) === (on ? 1 : 0), 'other-experiment-affected', () => `the code of ${k} (${s.type} at ${s.at}) is live ${code.get(k + 'i') || 0} times on ${page.url.href}`);
      if (on) w.check(seen.includes(k + ' ' + page.url.pathname), 'impression-lost', () => `${k} is shown on ${page.url.href} without an impression`);
      if (on) w.probe('shown:' + s.type);
    }
    // what a broken experiment did is done once, and undone on other pages
    for (const k of bad) {
      const ids = live.filter((x) => x.startsWith(k + '/'));
      w.check(new Set(ids).size === ids.length, 'applied-twice', () => `[${ids}] of the broken ${k} are live`);
      const onPage = at[k] && page.url.href.includes(at[k]);
      if (onPage) w.check(spec[k].works.every((x) => ids.includes(x)), 'rest-not-shown', () => `of the broken ${k} [${spec[k].works}] work, and [${ids}] are live on ${page.url.href}`);
      if (spec[k].failing) w.check((code.get(k + 'i') || 0) === (onPage ? 1 : 0) || (onPage && !code.has(k + 'i')), 'not-undone', () => `the failing code of ${k} is live ${code.get(k + 'i')} times on ${page.url.href}`);
      if (onPage && ids.length) w.probe('broken-shown-in-part');
      if (!onPage) w.check(!ids.length, 'not-undone', () => `[${ids}] of the broken ${k} are still live on ${page.url.href}`);
    }
    const active = Object.keys(client().getActivePages()).filter((k) => spec[k] && !spec[k].bad).sort().join();
    if (told !== null) w.check(told === active, 'subscriber-not-told', () => `a subscriber was told [${told}], active are [${active}]`);
    if (debugging && debugged !== null) {
      w.check(debugged === page.url.href, 'subscriber-not-told', () => `a debugging subscriber was told of ${debugged}, the page is at ${page.url.href}`);
    } else if (debugging) w.check(!movedSince, 'subscriber-not-told', 'a debugging subscriber was never told of the navigation');
    client().getDebugState();
    client().getVariants();
  };
  let n = w.int(0, 6);
  for (;;) {
    if (w.chance(0.6)) await settle();
    else {
      await w.runFor(w.pick([0, 10, 120, 800]));
      w.interleaved = true;
    }
    if (!n--) break;
    act(w.pick(['event', 'manual', 'click', 'late', 'spa', 'spa', 'spa']));
  }
  await settle();
}

module.exports = {
  T23: {
    run: T23,
    bundles: ['tag'],
    runs: { quick: 14000, thorough: 120000 },
    rule: '1-3 working experiments among 1-2 broken ones (invalid selectors and addresses, failing or malformed code, payloads and triggers of unknown kinds), throwing redirect handlers and subscribers; visits with SPA navigation, events, clicks and previews',
    real: T.TAG_REAL,
    stubs: T.TAG_STUB,
  },
};
