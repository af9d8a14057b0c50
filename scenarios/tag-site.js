'use strict';
/** What the tag gives to, and shares with, the site's own code: tools of injected code (T20), links and the
 * document (T21), campaigns that visitors come from (T22).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const LIMIT = 10; // insertions per second
const HTML = '<div class="promo">x</div>';

async function t20(w) {
  w.hooks.server = (req) => L.netPlan(w, {}, '{}', 1000);
  w.hooks.pageError = (p, e) => (/site code/.test(String(e)) ? w.log('site-error', String(e)) : w.flag('uncaught-error', String(e && e.stack)));
  const n = w.int(1, 2);
  const flags = [];
  const pages = {};
  for (let i = 0; i < n; i++) {
    const k = 'f' + i;
    const withHtml = w.chance(0.7);
    flags.push(T.flag(k, { on: 'treatment', payloads: { treatment: [{ action: 'inject', data: { id: `in-${k}`, js: 'window.__inj(html, utils, id)', ...(withHtml ? { html: HTML } : {}) } }] } }));
    flags[i].withHtml = withHtml;
    const type = w.pick(['manual', 'url_change', 'manual']);
    pages[k] = { p: T.pageObj('p' + i, type, type === 'manual' ? { name: 'm' + i } : {}, type === 'url_change' ? T.urlCond('/shop') : []) };
  }
  const page = T.openPage(w, w.browser.newTab(), { url: 'https://www.shop.com/shop' });
  const g = page.g;
  const doc = g.document;
  g.console.error = (...a) => w.log('console.error', a.map(String).join(' ').slice(0, 80));
  T.integration(w, page);

  // ---- the page
  let seq = 0;
  let moving = false; // the site is moving an element itself
  let muts = []; // when the document changed
  new g.MutationObserver((recs) => recs.forEach(() => muts.push(w.now))).observe(doc.documentElement, { childList: true, subtree: true, attributes: true });
  const all = (s) => doc.querySelectorAll(s);
  const box = () => {
    const el = doc.createElement('div');
    if (w.chance(0.85)) el.className = w.pick(['slot', 'side']);
    return el;
  };
  const filler = (el) => {
    for (let i = w.int(0, 2); i > 0; i--) {
      const c = doc.createElement('p');
      if (w.chance(0.7)) c.className = 'mark';
      if (w.chance(0.25)) {
        const wrap = doc.createElement('div');
        wrap.appendChild(c);
        el.appendChild(wrap);
      } else el.appendChild(c);
    }
    return el;
  };
  for (let i = w.int(0, 2); i > 0; i--) doc.body.appendChild(filler(box()));

  // ---- what the injected code asks for
  const jobs = [];
  const PARENTS = ['.slot', '.side', '#late', 'body', '.dark .slot', 'head .box'];
  const possible = (j) => {
    const parent = doc.querySelector(j.parent);
    if (!parent || j.el.contains(parent)) return null;
    if (!j.before) return [parent, null];
    const sib = parent.querySelectorAll(j.before).find((e) => e.parentNode === parent);
    return sib ? [parent, sib] : null;
  };
  const insertJob = (utils, el, state) => {
    const j = { kind: 'insert', name: 'i' + ++seq, el, state, parent: w.pick(PARENTS), before: w.chance(0.4) ? '.mark' : null, at: [], calls: 0, done: 0, fights: w.chance(0.2) ? w.pick([1, 3, 12]) : 0 };
    jobs.push(j);
    w.op('insert', `${j.name} ${j.parent} ${j.before}`);
    let parentNode = null;
    Object.defineProperty(el, 'parentNode', {
      configurable: true,
      get: () => parentNode,
      set: (v) => {
        parentNode = v;
        if (!v || moving) return;
        // put in by the tool
        w.probe('inserted');
        w.log('inserted', j.name);
        const flag = (c, m) => w.flag(c, `${j.name} (into ${j.parent}${j.before ? ' before ' + j.before : ''}): ${m}`);
        if (j.state.off) flag('inserted-after-withdrawal', 'inserted although the injection was withdrawn');
        if (j.at.length >= LIMIT && w.now - j.at[j.at.length - LIMIT] < 1000) flag('inserted-too-often', `inserted ${LIMIT + 1} times within ${w.now - j.at[j.at.length - LIMIT]} ms`);
        if (v !== doc.querySelector(j.parent)) flag('inserted-elsewhere', 'not put into the first element that matches');
        const next = v.childNodes[v.childNodes.indexOf(el) + 1];
        if (j.before ? !next || !next.matches || !next.matches(j.before) : next) flag('inserted-elsewhere', `put before ${next && next.className}`);
        if (j.at.length) w.probe('re-inserted');
        j.at.push(w.now);
      },
    });
    const p = utils.insertElement(el, { parentSelector: j.parent, insertBeforeSelector: j.before }, w.chance(0.7) ? () => {
      j.calls++;
      if (j.calls !== j.at.length) w.flag('callback-count', `${j.name}: call ${j.calls} after ${j.at.length} insertions`);
      if (j.fights > 0) {
        j.fights--;
        w.fault('site-removes-at-once');
        Promise.resolve().then(() => el.remove());
      }
      if (j.calls > 1 && w.chance(0.1)) {
        w.fault('site-callback-throws');
        throw new Error('site code');
      }
    } : ((j.calls = NaN), undefined));
    p.then(
      () => {
        j.done++;
        if (!j.at.length) w.flag('resolved-without-insertion', `${j.name} was reported inserted`);
      },
      (e) => w.flag('insert-rejected', `${j.name}: ${e}`),
    );
  };
  const waitJob = (utils, state) => {
    const j = { kind: 'wait', name: 'w' + ++seq, state, sel: w.pick(['.mark', '#late', '.slot .mark', '.side', '.slot', '.dark .side', 'head .box']), done: false };
    j.there = !!doc.querySelector(j.sel);
    jobs.push(j);
    w.op('wait', `${j.name} ${j.sel}`);
    utils.waitForElement(j.sel).then(
      (el) => {
        j.done = true;
        w.log('found', j.name);
        w.probe(j.there ? 'found-at-once' : 'found-later');
        if (!el) return w.flag('found-nothing', `${j.name} (${j.sel}) resolved with ${el}`);
        if (!el.isConnected || !el.matches(j.sel)) w.flag('found-another', `${j.name} (${j.sel}) resolved with an element that does not match or is not in the document`);
        if (j.state.off && !j.there) w.flag('found-after-withdrawal', `${j.name} (${j.sel}) resolved although the injection was withdrawn`);
        return undefined;
      },
      (e) => w.flag('wait-rejected', `${j.name}: ${e}`),
    );
  };
  g.__inj = (html, utils, id) => {
    const k = flags.find((f) => id === 'in' + f.key);
    if (!k) return w.flag('wrong-id', id);
    w.probe('injected');
    if (!!html !== k.withHtml) w.flag('html-differs', `${id} was given ${html}`);
    const state = { off: false };
    utils.remove = () => {
      state.off = true;
      w.log('withdrawn', id);
    };
    const el = html || doc.createElement('div');
    const cnt = w.int(1, 2);
    const later = w.chance(0.2);
    const go = () => {
      insertJob(utils, el, state);
      if (cnt > 1 || w.chance(0.5)) waitJob(utils, state);
    };
    if (later) w.schedule(w.pick([0, 300, 1500]), go, { page, lane: 'site', label: 'site-later' });
    else go();
    return undefined;
  };

  T.start(w, page, { flags, pages, config: { useDefaultNavigationHandler: true } });

  // ---- the guarantees
  w.hooks.afterStep = () => {
    muts = muts.filter((t) => w.now - t <= 1000);
    if ((g.__domMutator.paused || 0) !== 0) w.flag('mutations-left-paused', 'the observer of the declarative mutations is still paused');
    for (const j of jobs) {
      if (j.state.off) {
        j.since = undefined;
        continue;
      }
      if (j.kind === 'wait') {
        if (!j.done && doc.querySelector(j.sel)) w.flag('not-found', `${j.name}: ${j.sel} is in the document but was not reported`);
        continue;
      }
      if (j.at.length && !j.done) w.flag('insertion-not-reported', `${j.name} was inserted but its promise is pending`);
      if (j.done > 1) w.flag('insertion-not-reported', `${j.name} resolved ${j.done} times`);
      if (j.calls < j.at.length) w.flag('callback-count', `${j.name}: ${j.calls} calls after ${j.at.length} insertions`);
      if (j.el.isConnected || !possible(j)) j.since = undefined;
      else {
        if (j.since === undefined || j.seen !== j.at.length) j.since = w.now;
        j.seen = j.at.length;
        if (muts.length < LIMIT - 1) w.flag('not-inserted', `${j.name} (into ${j.parent}${j.before ? ' before ' + j.before : ''}) is not in the document although it can be inserted, after ${muts.length} changes within a second`);
        else if (w.now - j.since > 1001) w.flag('not-inserted', `${j.name} (into ${j.parent}${j.before ? ' before ' + j.before : ''}) could be inserted for ${w.now - j.since} ms`);
        else w.probe('limited');
      }
    }
  };

  // ---- what happens on the page
  const acts = [
    [4, () => { const b = filler(box()); if (w.chance(0.2)) b.id = 'late'; (w.chance(0.2) ? w.pick(all('div')) || doc.body : doc.body).appendChild(b); }],
    [3, () => { const b = w.pick(all('div')); if (b) b.remove(); }],
    [3, () => { const j = w.pick(jobs.filter((x) => x.kind === 'insert')); if (j && j.el.isConnected) { w.fault('site-removes-element'); j.el.remove(); } }],
    [2, () => { const b = w.pick(all('.slot').concat(all('.side'))); if (b) filler(b); }],
    [2, () => { const b = w.pick(all('.mark')); if (b) b.remove(); }],
    [2, () => { const b = w.pick(all('div').concat(all('p'))); if (b) b.className = w.pick(['slot', 'side', 'mark', '']); }],
    [2, () => {
      // the page renders itself piece by piece
      const k = w.pick([3, 9, 12, 25]);
      const gap = w.pick([1, 0, 20, 70]);
      w.fault('many-mutations');
      for (let i = 0; i < k; i++) w.schedule(i * gap, () => { const c = doc.createElement('i'); doc.body.appendChild(c); if (w.chance(0.5)) c.remove(); }, { page, lane: 'render', label: 'render' });
    }],
    [2, () => { const i = w.int(0, n - 1); const on = !w.chance(0.4); g.webExperiment && g.webExperiment.toggleManualPageObject && g.webExperiment.toggleManualPageObject('m' + i, on); }],
    [1, () => T.spa(page, w.pick(['/shop', '/about', '/shop?x=1', '/shop']))],
    [1, () => {
      // React takes the element out in the same breath as it adds the container
      const b = box();
      doc.body.appendChild(b);
      if (w.chance(0.5)) b.remove();
    }],
    [1, () => { doc.documentElement.className = w.pick(['dark', '']); }],
    [1, () => {
      const b = all('head .box')[0];
      if (b) b.remove();
      else {
        const c = doc.createElement('noscript');
        c.className = 'box';
        doc.head.appendChild(c);
      }
    }],
    [1, () => {
      // the site moves the element itself
      const j = w.pick(jobs.filter((x) => x.kind === 'insert'));
      const to = w.pick(all('div').concat([doc.body]));
      if (!j || !j.el.isConnected || j.el.contains(to)) return;
      moving = true;
      to.appendChild(j.el);
      moving = false;
    }],
  ];
  await w.runFor(w.pick([50, 1500]));
  const len = w.int(4, w.tier === 'thorough' ? 40 : 24);
  for (let i = 0; i < len; i++) {
    const a = w.weighted(acts);
    w.op('act', String(acts.findIndex((x) => x[1] === a)));
    w.schedule(0, a, { page, lane: 'site', label: 'site' });
    await w.runFor(w.pick([0, 1, 5, 40, 300, 1001]));
    if (w.chance(0.3)) await w.runFor(1100);
  }
  await w.runFor(3000);
  w.schedule(0, () => {}, { page });
  await w.runFor(0);
  w.nontrivial += jobs.reduce((s, j) => s + (j.at ? j.at.length : +j.done), 0);
}

const HREFS = ['/checkout', '/checkout?v=2', '#more', 'https://www.shop.com/offers', 'https://help.shop.com/faq', '/shop', '//help.shop.com/faq', '//www.shop.com/offers', 'http://www.shop.com/offers', 'https://www.shop.com:8443/offers'];
const LINKS = ['a1', 'a2', 'a3'];

async function t21(w) {
  w.hooks.server = (req) => L.netPlan(w, {}, '{}', 1000);
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  const flags = [];
  const pages = {};
  for (let i = w.int(1, 2); i > 0; i--) {
    const k = 'f' + i;
    const mutations = LINKS.filter(() => w.chance(0.5)).map((id) => ({ id: `${k}/${id}`, selector: '#' + id, action: 'set', ...(w.chance(0.8) ? { attribute: 'href', value: w.pick(HREFS) } : { attribute: 'html', value: 'Buy' }) }));
    flags.push(T.flag(k, { on: 'treatment', payloads: { treatment: [{ action: 'mutate', data: { mutations } }] } }));
    const type = w.pick(['url_change', 'manual', 'url_change']);
    pages[k] = { p: T.pageObj('p' + i, type, type === 'manual' ? { name: 'm' + i } : {}, w.chance(0.3) ? T.urlCond('/shop') : []) };
  }
  const START = 'https://www.shop.com/shop';
  const page = T.openPage(w, w.browser.newTab(), { url: START });
  const g = page.g;
  const doc = g.document;
  T.integration(w, page);

  // ---- the experiment's changes to the document
  const rec = g.__domMutator;
  const live = []; // changes in force, oldest first
  const render = (el) => {
    const mine = live.filter((m) => el.matches(m.selector));
    const attrs = {};
    for (const m of mine) (attrs[m.attribute] = attrs[m.attribute] || { mutations: [] }).mutations.push(m);
    if (mine.length || el.__mutationRecord__) {
      const r = (el.__mutationRecord__ = el.__mutationRecord__ || { attributes: {} });
      for (const k of Object.keys(r.attributes)) if (!attrs[k]) r.attributes[k].mutations = [];
      Object.assign(r.attributes, attrs);
    }
    const h = mine.filter((m) => m.attribute === 'href').pop();
    if (h || el._was !== undefined) el._attrs.set('href', h ? h.value : el._route);
    el._was = h;
  };
  const renderAll = () => doc.querySelectorAll('a').forEach(render);
  const { apply, revert } = rec;
  rec.apply = (m) => {
    live.push(m);
    renderAll();
    return apply(m);
  };
  rec.revert = (h, m, on) => {
    const i = live.indexOf(m);
    if (i >= 0) live.splice(i, 1);
    renderAll();
    return revert(h, m, on);
  };

  // ---- the site
  const seen = { loads: [], tabs: [], pushes: [], pops: [], routes: [], clicks: 0 };
  const reset = () => {
    for (const k of Object.keys(seen)) seen[k] = Array.isArray(seen[k]) ? [] : 0;
    seen.length = g.history.length;
  };
  w.hooks.navigate = (p, url, kind) => seen.loads.push(url.href); // (and the visitor stays: say a download, or a prompt)
  let router = w.pick(['pop', 'next', 'none', 'pop']);
  if (router === 'next')
    g.next = {
      router: {
        push(href) {
          seen.pushes.push(href);
          g.history.pushState({}, '', href);
        },
      },
    };
  if (router === 'pop') g.addEventListener('popstate', () => seen.pops.push(g.location.href));
  const go = (route) => {
    seen.routes.push(route);
    g.history.pushState({}, '', route);
  };
  const modified = (e) => !!(e.metaKey || e.ctrlKey || e.shiftKey || e.altKey || e.button > 0);
  const FIBERS = {
    link: (a) => ({ memoizedProps: { onClick: (e) => { if (e.defaultPrevented || modified(e) || (a.getAttribute('target') || '_self') !== '_self') return; e.preventDefault(); go(a._route); } } }),
    plain: () => ({ memoizedProps: { onClick: () => { seen.clicks++; } } }),
    bare: () => ({ memoizedProps: {} }),
    empty: () => ({ memoizedProps: null }),
  };
  const addLink = (id) => {
    const a = doc.createElement('a');
    a.id = id;
    a._route = w.pick(['/product', '/shop/new', '/cart']);
    a._attrs.set('href', a._route);
    if (w.chance(0.2)) a.setAttribute('target', w.pick(['_blank', '_self', 'win', '']));
    a._kind = router === 'none' ? w.pick(['none', 'plain']) : w.weighted([[5, 'link'], [1, 'plain'], [1, 'bare'], [1, 'empty'], [1, 'none']]);
    if (a._kind !== 'none') a['__reactFiber$x' + w.int(1, 9)] = FIBERS[a._kind](a);
    a._inner = doc.createElement('span');
    a.appendChild(a._inner);
    doc.body.appendChild(a);
    render(a);
    return a;
  };
  for (const id of LINKS) if (w.chance(0.85)) addLink(id);
  const fiber = (a) => a[Object.keys(a).find((k) => k.startsWith('__reactFiber'))];
  const guards = w.chance(0.2); // the site asks before it lets the visitor go
  if (guards)
    g.addEventListener('click', (e) => {
      if (!e.guarded) return;
      e.preventDefault();
    }, true);
  doc.body.addEventListener('click', (e) => {
    const a = e.target.closest('a');
    const f = a && fiber(a);
    if (f && f.memoizedProps && f.memoizedProps.onClick) f.memoizedProps.onClick(e);
  });

  T.start(w, page, { flags, pages, config: { useDefaultNavigationHandler: true } });
  await w.runFor(w.pick([1500, 0, 20]));
  if (w.chance(0.2)) {
    // a second copy of the script
    w.fault('second-script');
    const x = page.run(w.bundles.tag);
    x.tag.initialize(T.API, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) }, {});
    await w.runFor(w.pick([1500, 0]));
  }

  const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
  const click = () => {
    const links = doc.querySelectorAll('a');
    const set = links.filter((x) => x._was);
    const a = w.pick(set.length && w.chance(0.5) ? set : links);
    if (!a) return;
    const mods = {};
    if (w.chance(0.25)) mods[w.pick(['metaKey', 'ctrlKey', 'shiftKey', 'altKey'])] = true;
    if (w.chance(0.05)) mods.button = 1;
    const href = a.getAttribute('href');
    const target = a.getAttribute('target');
    const own = !modified(mods) && (!target || target === '_self');
    const changed = live.some((m) => m.attribute === 'href' && a.matches(m.selector));
    const guarded = guards && w.chance(0.5);
    const was = g.location.href;
    const to = new URL(href, was);
    w.op('click', `${a.id} ${a._kind} ${href}${changed ? ' (changed)' : ''} ${Object.keys(mods)} ${target || ''}${guarded ? ' guarded' : ''}`);
    reset();
    const e = new g.MouseEvent('click', { bubbles: true, cancelable: true, button: 0, ...mods, ...(guarded ? { guarded } : {}) });
    (w.chance(0.5) && a._inner.parentNode ? a._inner : a).dispatchEvent(e);
    // what the browser does of itself
    if (!e.defaultPrevented) {
      if (own) g.location.href = href;
      else seen.tabs.push(to.href);
    }
    const want = { loads: [], tabs: [], pushes: [], pops: [], routes: [] };
    let url = was;
    if (guarded) w.probe('guarded');
    else if (!own) {
      want.tabs = [to.href];
      w.probe('left-alone:other-window');
    } else if (a._kind !== 'link') {
      want.loads = [to.href];
      w.probe('left-alone:no-router');
    } else if (!changed) {
      want.routes = [a._route];
      url = new URL(a._route, was).href;
      w.probe('left-alone:unchanged');
    } else if (to.origin !== new URL(was).origin) {
      want.loads = [to.href];
      w.probe('changed:elsewhere');
    } else {
      url = to.href;
      if (router === 'next') want.pushes = [href];
      else want.pops = [to.href];
      w.probe('changed:' + router);
    }
    const { length, clicks, ...got } = seen;
    void clicks;
    w.check(same(got, want), changed ? 'changed-link-misled' : 'link-misled', () => `a click on ${a.id} (${a._kind}, to ${href}${changed ? ', set by the experiment' : ''}) led to ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
    w.check(g.location.href === url, 'at-another-url', () => `after a click on ${a.id} the page is at ${g.location.href}, expected ${url}`);
    w.check(g.history.length - length === (url === was && !want.routes.length && !want.pops.length && !want.pushes.length ? 0 : 1), 'history-differs', () => `${g.history.length - length} history entries added`);
    w.nontrivial += changed;
  };
  const removal = () => {
    const from = w.pick([doc.body, ...doc.querySelectorAll('div'), ...doc.querySelectorAll('a')]);
    const el = w.pick([...doc.querySelectorAll('a'), ...doc.querySelectorAll('span')]);
    if (!el) return;
    const inside = el.parentNode === from;
    const parent = el.parentNode;
    let back = null;
    try {
      back = from.removeChild(el);
    } catch (x) {
      w.fail('removal-threw', `removing a node which is ${inside ? '' : 'no longer '}a child threw ${x}`);
    }
    w.probe(inside ? 'removed' : 'removed-what-is-elsewhere');
    w.check(back === el, 'removal-differs', 'removeChild did not return the node');
    w.check(el.parentNode === (inside ? null : parent), 'removal-differs', 'removeChild did the wrong thing');
  };
  const len = w.int(3, 16);
  for (let i = 0; i < len; i++) {
    const a = w.weighted([[6, 'click'], [1, 'add'], [1, 'remove'], [1, 'toggle'], [1, 'nav']]);
    w.schedule(0, () => {
      if (a === 'click') click();
      else if (a === 'add') addLink(w.pick(LINKS));
      else if (a === 'remove') removal();
      else if (a === 'toggle') g.webExperiment.toggleManualPageObject && g.webExperiment.toggleManualPageObject(w.pick(['m1', 'm2']), !w.chance(0.3));
      else T.spa(page, w.pick(['/shop', '/about', '/shop?x']));
    }, { page, lane: 'visitor', label: a });
    await w.runFor(w.pick([0, 10, 300]));
  }
}

const UTM = { utm_source: ['google', 'mail'], utm_medium: ['cpc', 'social net'], utm_campaign: ['spring', 'x=1&y'], utm_term: ['shoes'], utm_content: ['a', 'b'], utm_id: ['7'] };
const CLICK_IDS = ['gclid', 'fbclid', 'dclid', 'msclkid', 'ttclid', 'twclid', 'li_fat_id', 'wbraid', 'gbraid', 'rdt_cid', 'ko_click_id'];

const encode = (v) => Buffer.from(encodeURIComponent(JSON.stringify(v))).toString('base64');
const decode = (v) => JSON.parse(decodeURIComponent(Buffer.from(v, 'base64').toString()));
const utmOf = (o) => Object.fromEntries(Object.entries(o || {}).filter(([k, v]) => k.startsWith('utm_') && v !== undefined));

async function t22(w) {
  const flags = [];
  const pages = {};
  const tests = {};
  for (let i = w.int(1, 3); i > 0; i--) {
    const k = 'f' + i;
    const param = w.pick(Object.keys(UTM));
    const value = w.chance(0.2) ? '(none)' : w.pick(UTM[param]);
    tests[k] = { param, value };
    const payloads = { treatment: [{ action: 'mutate', data: { mutations: [{ id: k, selector: '#x', action: 'set' }] } }] };
    flags.push(T.flag(k, { segments: [{ variant: 'treatment', conditions: [[{ op: 'is', selector: ['context', 'user', 'persisted_url_param', param], values: [value] }]] }], on: 'control', payloads }));
    pages[k] = { p: T.pageObj('p' + i, 'url_change', {}, []) };
  }
  const redirects = w.chance(0.5);
  if (redirects) {
    flags.push(T.flag('fr', { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://www.shop.com/new' } }] } }));
    pages.fr = { p: T.pageObj('pr', 'url_change', {}, T.urlCond('/old')) };
  }
  w.hooks.server = (req) => L.netPlan(w, {}, '{}', 1000);
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  const KEY = `EXP_MKTG_${T.SLICE}`;
  const AMP = `AMP_MKTG_${T.SLICE}`;
  const ORIGINAL = `AMP_MKTG_ORIGINAL_${T.SLICE}`;
  let page = null;
  let cookies = true;
  let full = false;
  let crashAt = 0;
  let ops = 0;
  w.hooks.cookie = () => (cookies ? undefined : 'blocked');
  w.hooks.storage = (p, kind, op, key) => {
    if (op !== 'set' || p !== page || key === 'EXP_test') return undefined;
    if (++ops === crashAt) {
      w.fault('crash-at-storage-op');
      p.kill('crashed');
      return 'dead';
    }
    if (full && kind === 'local') {
      w.fault('storage-quota');
      throw L.quota();
    }
    return undefined;
  };
  const stored = (origin) => {
    const raw = w.browser.localArea(origin).map.get(KEY);
    if (raw === undefined) return undefined;
    try {
      const v = JSON.parse(raw);
      return v && typeof v === 'object' ? v : undefined;
    } catch (e) {
      return undefined;
    }
  };
  const cookieOf = (name) => {
    const c = w.browser.jar.list.find((x) => x.name === name);
    return c && c.value;
  };
  const analytics = () => {
    // Amplitude Analytics remembers the campaign in a cookie of its own
    const c = {};
    for (const k of Object.keys(UTM)) if (w.chance(0.4)) c[k] = w.pick(UTM[k]);
    if (w.chance(0.3)) c.gclid = 'g1';
    if (w.chance(0.3)) c.referrer = 'https://t.co/';
    w.op('analytics-cookie', JSON.stringify(c));
    w.browser.jar.write(new URL('https://www.shop.com/'), `${AMP}=${encode(c)}; path=/; domain=.shop.com`);
  };

  const visits = w.int(1, 5);
  for (let v = 0; v < visits; v++) {
    const u = new URL(w.pick(['https://www.shop.com', 'https://www.shop.com', 'https://blog.shop.com']) + w.pick(['/', '/old', '/a']));
    const query = [];
    const current = {};
    if (w.chance(0.6))
      for (const k of Object.keys(UTM)) {
        if (!w.chance(0.35)) continue;
        const val = w.chance(0.1) ? '' : w.pick(UTM[k]);
        query.push(`${k}=${encodeURIComponent(val)}`);
        if (val) current[k] = val;
      }
    if (w.chance(0.3)) query.push('utm_unknown=1');
    if (w.chance(0.3)) query.push(`q=${w.pick(['utm_source', 'a%20b', '%E0%A4%A'])}`);
    const clicks = {};
    for (const k of CLICK_IDS) if (w.chance(0.06)) query.push(`${k}=${(clicks[k] = 'c' + k)}`);
    u.search = query.length ? '?' + query.join('&') : '';
    const referrer = w.pick(['', 'https://www.google.com/search', 'https://t.co/']);
    if (w.chance(0.3)) analytics();
    if (w.chance(0.1)) {
      w.fault('storage-corrupt');
      w.browser.localArea(u.origin).map.set(KEY, w.pick(['{', 'null', '3', '"utm_source"', '{"gclid":"x"}', '{"utm_source":"old"}']));
    }
    if (w.chance(0.05)) {
      w.fault('cookie-corrupt');
      w.browser.jar.write(new URL('https://www.shop.com/'), `${AMP}=${w.pick(['x', 'bnVsbA==', '%'])}; path=/; domain=.shop.com`);
    }
    if (w.chance(0.07)) w.browser.localArea(u.origin).map.delete(KEY);
    cookies = !w.chance(0.1);
    if (!cookies) w.fault('cookies-blocked');
    full = w.chance(0.1);
    ops = 0;
    crashAt = w.chance(0.1) ? w.int(1, 25) : 0;

    const before = stored(u.origin);
    const was = JSON.stringify(before);
    let fromCookie;
    if (cookies && cookieOf(AMP))
      try {
        fromCookie = decode(cookieOf(AMP));
      } catch (e) {
        /* unreadable */
      }
    const want = { ...utmOf(fromCookie), ...utmOf(before), ...current };
    const some = Object.keys(want).length > 0;
    page = T.openPage(w, w.browser.newTab(), { url: u.href, referrer });
    const g = page.g;
    const errors = [];
    g.console.error = (...a) => errors.push(a.map(String).join(' '));
    w.op('visit', `${u.href} ${referrer} ${JSON.stringify(want)}`);
    const loads = [];
    const original = cookieOf(ORIGINAL);
    const leaves = redirects && u.pathname === '/old';
    w.hooks.navigate = (p, url, kind) => {
      loads.push(url.href);
      w.probe('redirected');
      if (!cookies) return;
      // the campaign is handed over before the visitor leaves
      const now = cookieOf(ORIGINAL);
      let got;
      try {
        got = decode(now);
      } catch (e) {
        return w.flag('campaign-lost', `the campaign cookie is ${now} on leaving ${u.href}`);
      }
      const full = { ...current, ...clicks, ...(referrer ? { referrer, referring_domain: referrer.split('/')[2] } : {}) };
      if (!L.same(got, full)) w.flag('campaign-differs', `the campaign cookie says ${JSON.stringify(got)} on leaving ${u.href} (from ${referrer}), expected ${JSON.stringify(full)}`);
      for (const c of w.browser.jar.list) if (c.name === ORIGINAL && c.domain !== 'shop.com') w.flag('campaign-cookie-domain', `the campaign cookie is for ${c.domain}`);
      return undefined;
    };
    const provided = { type: 'integration', getUser: () => ({ user_id: 'u' }), track: () => true };
    if (w.chance(0.4)) T.integration(w, page, { user: provided.getUser });
    const consent = w.chance(0.25);
    T.start(w, page, { flags, pages, config: { useDefaultNavigationHandler: true, ...(consent ? { consentOptions: { consentRequired: true } } : {}) } });
    if (consent) {
      await w.runFor(w.pick([0, 30, 1500]));
      w.check(JSON.stringify(stored(u.origin)) === was, 'stored-before-consent', 'the campaign was stored before consent');
      w.schedule(0, () => page.x.tag.setConsentStatus('granted'), { page, lane: 'site', label: 'grant' });
    }
    await w.runFor(1500);
    const check = () => {
      if (!page.alive) return w.probe('crashed');
      const c = g.webExperiment;
      if (!c || !c.isRunning) return w.fail('not-started', 'the client has not started');
      const user = c.getExperimentClient().getUser();
      const got = user.persisted_url_param;
      w.check(L.same(got, some ? want : undefined), 'campaign-of-another', () => `the visitor's campaign is ${JSON.stringify(got)}, expected ${JSON.stringify(some ? want : undefined)}`);
      w.check(typeof user.web_exp_id === 'string', 'user-lost', 'the user has no identity');
      const after = stored(u.origin);
      if (!full) w.check(L.same(after, some ? want : before), 'campaign-not-kept', () => `stored is ${JSON.stringify(after)}, expected ${JSON.stringify(some ? want : before)}`);
      const live = [...page.live.values()].map((m) => m.id).sort();
      const should = Object.keys(tests).filter((k) => (want[tests[k].param] || '(none)') === tests[k].value).sort();
      w.check(live.join() === should.join(), 'targeted-by-another-campaign', () => `shown are [${live}], expected [${should}] for ${JSON.stringify(want)} and ${JSON.stringify(tests)}`);
      if (some) w.nontrivial++;
      if (Object.keys(utmOf(before)).length && !Object.keys(current).length) w.probe('remembered');
      if (fromCookie && some) w.probe('from-analytics');
      w.probe(live.length ? 'targeted' : 'not-targeted');
      return undefined;
    };
    if (leaves) {
      w.check(!page.alive || loads.length === 1, 'not-redirected', () => `redirects: ${loads}`);
    } else {
      check();
      for (let i = w.int(0, 3); i > 0 && page.alive; i--) {
        const a = w.pick(['nav', 'event', 'analytics', 'wait']);
        w.schedule(0, () => {
          if (a === 'nav') T.spa(page, w.pick(['/b', '/b?utm_source=later', '/']));
          if (a === 'event') g.webExperiment.trackEvent('view', {});
          if (a === 'analytics') analytics();
        }, { page, lane: 'site', label: a });
        await w.runFor(w.pick([0, 500, 2000]));
        check(); // what the page does later changes nothing
      }
    }
    if (page.alive) page.kill('left');
    if (cookies === false && original !== cookieOf(ORIGINAL)) w.fail('campaign-differs', 'the campaign cookie changed although cookies are blocked');
    await w.runFor(w.pick([100, 3600e3]));
  }
}

module.exports = {
  T20: {
    run: t20,
    bundles: ['tag'],
    runs: { quick: 12000, thorough: 80000 },
    rule: 'executions in which injected code got an element inserted or found',
    real: T.TAG_REAL,
    stubs: T.TAG_STUB,
  },
  T21: {
    run: t21,
    bundles: ['tag'],
    runs: { quick: 18000, thorough: 100000 },
    rule: 'executions in which a link changed by an experiment was clicked',
    real: T.TAG_REAL,
    stubs: T.TAG_STUB,
  },
  T22: {
    run: t22,
    bundles: ['tag'],
    runs: { quick: 9000, thorough: 60000 },
    rule: 'executions in which a visitor had a campaign',
    real: T.TAG_REAL,
    stubs: T.TAG_STUB,
  },
};
