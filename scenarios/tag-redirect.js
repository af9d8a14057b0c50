'use strict';
/**
 * Redirect experiments: where and how often visitors are sent (T13) and the
 * impressions of redirects (T14).
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');

const WWW = 'https://www.shop.com';
const M = 'https://m.shop.com';
const START = ['/s1', '/s2', '/s1?a=1', '/s2?utm_source=x&b=2', '/s1#top', '/other', '/s1/sub', '/#/s1', '/#/s2', '/#/other'];

const SERVER = ['bounce', 'strip', 'slash', 'reorder', 'prepend', 'login', 'cancelled', 'drop-one'];
const APP = ['strip', 'reorder', 'slash', 'hash', 'drop-one'];

const noQuery = (u) => {
  const x = new URL(u);
  x.search = '';
  return x.href;
};
const basePath = (u) => new URL(u).origin + new URL(u).pathname;
const params = (u) => [...new URL(u).searchParams].filter(([k]) => k !== 'AMP_REDIRECT').map((p) => p.join('=')).sort().join('&');
const slash = (u) => {
  const x = new URL(u);
  if (x.pathname.length > 1) x.pathname = x.pathname.replace(/\/$/, '');
  return x.href;
};
/** the URL without its last parameter */
const dropOne = (u) => {
  const x = new URL(u);
  const all = [...x.searchParams].filter(([k]) => k !== 'AMP_REDIRECT');
  if (all.length) x.searchParams.delete(all[all.length - 1][0]);
  return x.href;
};
/** the URL a redirect to `to` sends a visitor of `from` to */
function destination(from, to) {
  const r = new URL(to);
  const own = new URL(to).searchParams;
  new URL(from).searchParams.forEach((v, k) => {
    if (!own.has(k) && k !== 'AMP_REDIRECT') r.searchParams.append(k, v);
  });
  return r.href;
}
/** the same place: parameters in any order, a trailing slash and an extra hash ignored */
function samePlace(cur, dest) {
  const hash = new URL(dest).hash;
  const key = (u) => {
    const x = new URL(slash(u));
    return x.origin + x.pathname + (hash ? x.hash : '') + '?' + params(u);
  };
  return key(cur) === key(dest);
}

function genFlags(w) {
  for (let tries = 0; tries < 20; tries++) {
    const specs = [];
    for (let i = 0; i < w.weighted([[3, 1], [3, 2], [1, 3]]); i++) {
      const src = w.pick(['/s1', '/s2', '/s1']);
      const to = w.weighted([
        [3, `${WWW}/d${i}`],
        [3, `${WWW}/d${i}?x=${i}`],
        [3, `${M}/d${i}`],
        [4, `${WWW}${src}?v${i}=1`],
        [2, `${WWW}${src}?v${i}=1&w=${i}`],
        [2, `${WWW}${src}-new${i}`],
        [2, `${WWW}/#/d${i}`],
        [1, `${WWW}/#${src}?v${i}=1`],
        [1, `${WWW}/s2?from=${i}`],
      ]);
      specs.push({
        key: `f${i}`,
        src,
        to,
        mode: w.chance(0.35) ? 'remote' : 'local',
        blocking: w.chance(0.5),
        on: w.weighted([[6, 'treatment'], [1, 'control'], [1, 'off']]),
        trigger: w.weighted([[5, 'url_change'], [1, 'manual']]),
      });
    }
    if (!cyclic(specs)) return specs;
  }
  return [{ key: 'f0', src: '/s1', to: `${WWW}/d0`, mode: 'local', on: 'treatment', trigger: 'url_change' }];
}
/** would experiments send a visitor round in circles by themselves? */
function cyclic(specs) {
  const next = (u) => specs.filter((s) => s.on === 'treatment' && u.includes(s.src) && !samePlace(u, destination(u, s.to))).map((s) => destination(u, s.to));
  const visit = (u, path) => {
    if (path.length > specs.length) return true;
    return next(u).some((v) => visit(v, [...path, u]));
  };
  return START.some((s) => visit(WWW + s, []));
}

function redirectScenario(prop) {
  const T13 = prop === 'T13';
  return async (w) => {
    const specs = genFlags(w);
    const byKey = Object.fromEntries(specs.map((s) => [s.key, s]));
    const payload = (s) => [{ action: 'redirect', data: { url: s.to } }];
    const mk = (s, mode) => T.flag(s.key, { on: s.on, mode, blocking: s.blocking, payloads: { treatment: payload(s) } });
    const flags = specs.map((s) => {
      const f = mk(s, s.mode);
      f.variants.treatment.metadata = { ...f.metadata, experimentKey: 'exp-' + s.key };
      // names of segments and rules are free text
      if (w.chance(0.2)) f.segments[f.segments.length - 1].metadata.segmentName = w.pick(['日本のユーザー', 'Café ☕', 'a+b/c=', '"q"\\ \u0000']);
      return f;
    });
    const segmentName = (k) => flags.find((f) => f.key === k).segments.slice(-1)[0].metadata.segmentName;
    const serverFlags = flags.filter((f) => f.metadata.evaluationMode === 'remote').map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } }));
    const pages = Object.fromEntries(specs.map((s) => [s.key, { p: T.pageObj('p-' + s.key, s.trigger, s.trigger === 'manual' ? { name: 'go' } : {}, T.urlCond(s.src)) }]));
    const config = {
      useDefaultNavigationHandler: true,
      redirectConfig: w.pick([undefined, { encodeRedirectInUrl: true }, { encodeRedirectInCookie: true }, { encodeRedirectInUrl: true, encodeRedirectInCookie: true }]),
    };
    const rc = config.redirectConfig || {};
    const handler = w.chance(0.25); // the site navigates in place
    const mix = serverFlags.length ? L.netMix(w, { p: 0.4 }) : {};
    w.hooks.server = () => L.netPlan(w, mix, JSON.stringify(serverFlags), 1000);
    const noCookies = w.chance(0.1);
    if (noCookies) w.hooks.cookie = () => 'blocked';
    const noSession = w.chance(0.08);
    if (noSession)
      w.hooks.storage = (p, kind, op) => {
        if (kind === 'session' && op === 'set') {
          w.fault('session-storage-full');
          throw L.quota();
        }
      };
    w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
    const misbehaves = w.chance(0.6); // the server or the app undoes redirects
    // a site misbehaves the same way every time, or now and then
    const server = misbehaves && w.chance(0.7) ? { k: w.chance(0.6) ? w.pick(SERVER) : null, p: w.pick([1, 0.5]) } : null;
    const app = misbehaves && w.chance(0.7) ? { k: w.chance(0.6) ? w.pick(APP) : null, p: w.pick([1, 0.5]) } : null;
    const guard = misbehaves && w.chance(0.3) ? w.pick([1, 0.5]) : 0;
    w.fragments = w.pick(['sync', 'async']);
    // undone in another way every time, each try looks like a new one for a while
    const fickle = (server && !server.k) || (app && !app.k) || (guard && (server || app));
    // which parameter goes depends on the order the server happened to give them: so does what undoing looks like
    const shifting = server && app && [server.k, app.k].includes('drop-one');
    const slowNav = w.chance(0.4);
    const snippets = T13 && w.chance(0.4);

    const tab = w.browser.newTab();
    let page = null;
    let actor = null; // who navigates right now
    let pending = null; // navigation under way {url, by, flag}
    let count = {}; // flag -> redirects since the visitor last acted
    const marks = {}; // origin -> flag -> {from, target, landed}
    const mayBeSuppressed = new Set(); // origin + flag
    const suppressed = new Set();
    const owed = new Map(); // flag -> the redirect whose impression is still to come
    const mayRepeat = new Set();
    let manualOn = false;
    let manualOnClient = new Set();

    const id = (f) => page.url.origin + ' ' + f;
    const marksHere = () => (marks[page.url.origin] = marks[page.url.origin] || {});
    const added = (m) => {
      const from = new URL(m.from).searchParams;
      return [...new URL(m.target).searchParams].filter(([k, v]) => from.get(k) !== v);
    };
    const backAtSource = (u, m) => {
      if (noQuery(u) !== noQuery(m.from)) return false;
      const d = added(m);
      const cur = new URL(u).searchParams;
      return !d.length || d.some(([k, v]) => cur.get(k) !== v);
    };
    const atTarget = (u, m) => noQuery(u) === noQuery(m.target) && added(m).every(([k, v]) => new URL(u).searchParams.get(k) === v);
    const acted = () => {
      count = {};
      if (pending) pending.acted = true;
      w.probe('visitor-acts');
    };
    // nobody can tell any more that the page is still being left
    const unsure = (p) => {
      p.unsure = true;
      owed.forEach((o, f) => {
        if (o.page !== p) return;
        mayRepeat.add(f);
        o.paid = true;
      });
    };
    const interact = () => {
      page.touched = true;
      if (pending) unsure(page);
      acted();
      marks[page.url.origin] = {};
    };
    const softChange = () => {
      for (const [f, m] of Object.entries(marksHere())) if (!atTarget(page.url.href, m)) mayBeSuppressed.add(id(f));
    };
    const hardLoad = () => {
      const here = marksHere();
      const landing = Object.values(here).some((m) => !m.landed && new URL(m.target).origin === page.url.origin);
      for (const [f, m] of Object.entries(here)) {
        const u = page.url.href;
        if (landing && m.landed) {
          if (!atTarget(u, m)) mayBeSuppressed.add(id(f));
          continue;
        }
        if (atTarget(u, m)) {
          if (m.landed) delete here[f];
          else m.landed = true;
        } else {
          if (!m.landed) {
            mayBeSuppressed.add(id(f));
            if (backAtSource(u, m) && !noSession) suppressed.add(id(f));
          }
          delete here[f];
        }
      }
    };
    const isActive = (s) => page.url.href.includes(s.src) && (s.trigger === 'url_change' || (manualOn && manualOnClient.has(page)));
    const eligible = (s) => s.on === 'treatment' && isActive(s) && !samePlace(page.url.href, destination(page.url.href, s.to));

    // ---- the SDK sends the visitor somewhere
    const sdkRedirect = (url) => {
      const clean = new URL(url);
      const blob = clean.searchParams.get('AMP_REDIRECT');
      clean.searchParams.delete('AMP_REDIRECT');
      const from = page.url.href;
      const s = specs.find((x) => {
        const d = new URL(destination(from, x.to));
        return d.origin + d.pathname + d.hash === clean.origin + clean.pathname + clean.hash && params(d.href) === params(clean.href);
      });
      w.probe('redirect');
      if (!s) return w.flag('unknown-destination', `sent from ${from} to ${url}, which no experiment asks for`);
      if (T13) {
        if (s.on !== 'treatment') w.flag('redirect-without-variant', `${s.key} is ${s.on} but redirected ${from} to ${url}`);
        if (!isActive(s)) w.flag('redirect-off-page', `${s.key} redirected from ${from}, where it is not active`);
        if (samePlace(from, url)) w.flag('redirect-to-here', `${s.key} redirected ${from} to ${url}, where the visitor already is`);
        if (suppressed.has(id(s.key))) w.flag('redirect-after-loop', `${s.key} redirected from ${from} again although its redirect was undone before in this session`);
        // undone once it may try again from where the visitor ended up, but not over and over
        const at = s.key + ' ' + slash(noQuery(from));
        count[at] = (count[at] || 0) + 1;
        count[s.key] = (count[s.key] || 0) + 1;
        if ((count[at] > (shifting ? 16 : fickle ? 4 : 2) || count[s.key] > (shifting ? 24 : fickle ? 8 : 5)) && !noSession) w.flag('redirect-loop', `${s.key} redirected ${count[s.key]} times (now ${from} to ${url}) without the visitor doing anything`);
      }
      if (pending && pending.by === 'sdk' && !pending.acted && pending.flag !== s.key && T13) w.flag('two-redirects', `${s.key} redirects from ${from} to ${url} while the redirect to ${pending.url} is under way`);
      if (!noSession) marksHere()[s.key] = { from, target: clean.href, landed: false };
      const cross = new URL(url).hostname !== page.url.hostname;
      if (cross && rc.encodeRedirectInUrl !== undefined && prop === 'T14')
        if (!blob) w.flag('url-impression-missing', `redirect to ${url} does not carry its impression`);
      const before = owed.get(s.key); // an earlier one the visitor left under way
      owed.set(s.key, { n: before ? before.n + 1 : 1, at: w.now, from: page.url.origin, page, cross, url, samePath: slash(basePath(url)) === slash(basePath(from)) && page.tracked.has(s.key) });
      if (page.unsure) unsure(page);
      return s;
    };
    // the app's router sends the visitor back from where it was redirected in place
    const goBack = (from) => {
      if (!guard || !w.chance(guard)) return;
      const x = page;
      if (x.guarding) w.cancel(x.guarding);
      x.guarding = w.schedule(w.pick([0, 10, 200]), () => {
        if (x !== page || !x.alive || x.touched) return;
        w.fault('app-guard');
        // back before anybody heard that it was left
        if (w.fragments === 'async') x.stuck = true;
        x.g.history.replaceState({}, '', from);
      }, { page, lane: page.name + ':app', label: 'guard' });
    };
    // a redirect to another fragment of the same document does not load it again
    w.hooks.fragment = (p, url) => {
      if (p !== page || actor === 'user') return;
      const from = page.url.href;
      w.probe('redirect-to-fragment');
      page.touched = false;
      sdkRedirect(url.href);
      owed.forEach((o) => {
        if (o.page === page) o.samePath = true;
      });
      goBack(from);
    };
    w.hooks.navigate = (p, url) => {
      if (p !== page) return;
      let by = actor || 'sdk';
      let flag = null;
      if (by === 'sdk') {
        const s = sdkRedirect(url.href);
        flag = s && s.key;
        page.touched = false;
        // the site hides the page until the experiments have run
        if (page.snippet && page.snippet.parentNode) page.leaving = w.now;
      }
      go(url.href, by, flag);
    };
    const go = (url, by, flag) => {
      if (pending) w.cancel(pending.ev);
      const me = { url, by, flag, from: page.url.href };
      let delay = w.pick([30, 5, 120]);
      if (slowNav && w.chance(0.5)) {
        w.fault('slow-navigation');
        delay = w.pick([600, 1500, 3000]);
      }
      let final = url;
      if (by === 'sdk' && server && w.chance(server.p)) {
        const k = server.k || w.pick(SERVER);
        w.fault('redirect-' + k);
        const u = new URL(url);
        if (k === 'bounce') final = me.from;
        else if (k === 'strip') { u.search = ''; final = u.href; }
        else if (k === 'slash') { if (!u.pathname.endsWith('/')) u.pathname += '/'; final = u.href; }
        else if (k === 'reorder') { u.search = '?' + [...u.searchParams].reverse().map(([a, b]) => `${a}=${encodeURIComponent(b)}`).join('&'); final = u.href; }
        else if (k === 'prepend') { u.search = '?sid=1' + u.search.replace('?', '&'); final = u.href; }
        else if (k === 'drop-one') final = dropOne(url);
        else if (k === 'login') final = u.origin + '/login';
        else final = null;
      }
      me.ev = w.schedule(delay, () => {
        pending = null;
        if (final === null) {
          page.stuck = true; // until the visitor does something and the URL changes
          return;
        }
        if (by === 'user') acted();
        w.log('land', final);
        open(final, me.from);
      }, { lane: 'nav', label: 'landing' });
      pending = me;
    };

    // ---- impressions
    const impression = (ev) => {
      if (ev.eventType !== '$impression') return;
      const p = ev.eventProperties;
      const s = byKey[p.flag_key];
      if (s.on !== 'treatment') return;
      w.probe('impression');
      page.tracked.add(s.key);
      if (prop !== 'T14') return;
      if (p.variant !== 'treatment' || p.experiment_key !== 'exp-' + s.key || p.metadata.segmentName !== segmentName(s.key)) w.flag('impression-differs', `the impression of the redirect of ${s.key} says ${JSON.stringify(p)}`);
      const o = owed.get(s.key); 
      if (!o && mayRepeat.delete(s.key)) return;
      if (!o) return w.flag('impression-repeated', `impression of ${s.key} at ${page.url.href}, but every redirect of it had its impression already`);
      o.paid = true;
      if (!--o.n) owed.delete(s.key);
    };
    const checkImpressions = () => {
      for (const [f, o] of owed) {
        const here = page.url.origin;
        const sess = !noSession && !o.cross && !o.samePath && o.from === here && (o.page !== page || o.inPlace);
        const cookie = rc.encodeRedirectInCookie && o.cross && !noCookies && w.now - o.at < 60000 && o.landed;
        const url = rc.encodeRedirectInUrl && o.landedWithParam;
        w.check(o.paid || !(sess || cookie || url), 'impression-lost', () => `the redirect of ${f} at ${o.at - w.startTime} ms from ${o.from} to ${o.url} has no impression on ${page.url.href} (${[sess && 'session', cookie && 'cookie', url && 'url']})`);
      }
    };

    // ---- pages
    const open = (url, referrer) => {
      manualOn = false;
      manualOnClient = new Set();
      page = T.openPage(w, tab, { url, referrer });
      for (const o of owed.values()) {
        if (page.url.hostname.endsWith('shop.com') && o.page !== page) o.landed = true;
        if (o.page !== page && page.url.searchParams.has('AMP_REDIRECT') && o.cross && noQuery(page.url.href) === noQuery(o.url)) o.landedWithParam = true;
      }
      page.startedAt = w.now;
      page.tracked = new Set();
      page.lastHref = page.url.href;
      hardLoad();
      const p = page;
      if (snippets) {
        p.snippet = p.g.document.createElement('style');
        p.snippet.id = 'amp-exp-css';
        p.g.document.head.appendChild(p.snippet);
        // (overlays of the tag last a second at most, and take the site's with them)
        w.hooks.afterStep = () => {
          if (p !== page || p.leaving === undefined || p.touched || p.changed || w.now - p.startedAt >= 1000) return;
          w.check(p.snippet.parentNode, 'page-flashed', () => `the page is shown at ${w.now - p.startedAt} ms while the visitor is being sent to ${pending && pending.url}`);
          w.probe('hidden-while-leaving');
        };
      }
      p.onUrl = () => {
        if (p !== page || p.url.href === p.lastHref) return;
        p.lastHref = p.url.href;
        p.changed = true;
        if (pending && pending.by === 'handler') unsure(p);
      // (tracked here already for another redirect of the flag: not repeated on this page)
      if (pending && pending.by === 'sdk' && p.tracked.has(pending.flag)) unsure(p);
        if (p.touched) p.stuck = false;
        manualOn = false;
        softChange();
      };
      T.integration(w, page, { onTrack: (ev) => page === p && impression(ev) });
      T.start(w, page, { flags, pages, config, noInit: true });
      const x = page;
      page.init({ flags, pages, config });
      if (handler)
        page.g.webExperiment.setRedirectHandler((to) => {
          sdkRedirect(to);
          if (new URL(to).origin === x.url.origin) {
            // (not repeated while the path stays the same)
            const samePath = new URL(to).pathname === x.url.pathname;
            owed.forEach((o) => {
              if (o.page !== x) return;
              if (samePath) o.samePath = true;
              else o.inPlace = true;
            });
            w.log('handler', to);
            const from = x.url.href;
            x.touched = false;
            x.g.history.pushState({}, '', to);
            goBack(from);
          } else {
            if (x.changed) unsure(x);
            go(to, 'handler', null);
          }
        });
      // the app tidies its URL
      if (app && w.chance(app.p)) {
        const k = app.k || w.pick(APP);
        w.schedule(w.pick([0, 10, 300, 1200]), () => {
          if (x !== page || !x.alive) return;
          const u = new URL(x.url.href);
          if (k === 'strip') u.search = '';
          else if (k === 'drop-one') u.href = dropOne(u.href);
          else if (k === 'reorder') u.search = '?' + [...u.searchParams].reverse().map(([a, b]) => `${a}=${encodeURIComponent(b)}`).join('&');
          else if (k === 'slash') { if (!u.pathname.endsWith('/')) u.pathname += '/'; }
          else u.hash = '#sec';
          if (u.href === x.url.href) return;
          w.fault('app-' + k);
          // the redirect under way is asked for again from the new URL: still one
          if (pending && pending.flag) {
            count[pending.flag]--;
            count[pending.flag + ' ' + slash(noQuery(pending.from))]--;
          }
          x.g.history.replaceState({}, '', u.href);
        }, { page, lane: page.name + ':app', label: 'app-tidies' });
      }
    };
    const settle = async () => {
      let guard = 0;
      do {
        await w.runFor(4500);
      } while ((pending || w.now - page.startedAt < 4000) && ++guard < (noSession ? 2 : 20));
      if (noSession && guard >= 2) return; // no storage, no memory of what was tried: not promised
      if (T13) {
        const left = specs.filter((s) => eligible(s) && !mayBeSuppressed.has(id(s.key)));
        w.check(!left.length || noSession || page.stuck, 'redirect-missed', () => `the visitor is still on ${page.url.href}, where ${left[0].key} redirects to ${destination(page.url.href, left[0].to)}`);
        w.check(page.g.webExperiment.isRunning, 'not-running', 'the client is not running');
        w.check(!T.hidden(page) || page.stuck, 'page-hidden', 'the page is hidden');
      } else checkImpressions();
    };

    open(WWW + w.pick(START));
    let n = noSession ? w.int(0, 2) : w.int(0, 5);
    for (;;) {
      if (w.chance(0.6)) await settle();
      else {
        await w.ticks(w.choose(3));
        await w.runFor(w.pick([0, 10, 60, 300, 700, 1300]));
        w.interleaved = true;
      }
      if (!n--) break;
      const k = w.weighted([[4, 'link'], [2, 'typed'], [1, 'reload'], [3, 'spa'], [1, 'click'], [1, 'back'], [2, 'manual'], [1, 'event']]);
      const to = w.chance(0.15) ? M + '/m' : WWW + w.pick(START);
      w.op(k, to);
      if (k === 'link') {
        interact();
        page.g.dispatchEvent(T.ev('pointerdown'));
        actor = 'user';
        page.g.location.assign(to);
        actor = null;
      } else if (k === 'typed' || k === 'reload') {
        acted();
        // whoever leaves before the landing makes the redirect look undone
        go(k === 'reload' ? page.url.href : to, 'user', null);
      } else if (k === 'spa') {
        if (new URL(to).origin !== page.url.origin) continue;
        interact();
        page.g.dispatchEvent(T.ev('pointerdown'));
        T.spa(page, to);
      } else if (k === 'click') {
        interact();
        page.g.dispatchEvent(T.ev('pointerdown'));
      } else if (k === 'back') {
        if (!page.canGoBack()) continue;
        interact();
        page.historyBack();
      } else if (k === 'manual') {
        manualOn = !manualOn;
        manualOnClient.add(page);
        interact();
        page.g.dispatchEvent(T.ev('keydown'));
        page.g.webExperiment.toggleManualPageObject('go', manualOn);
      } else page.g.webExperiment.trackEvent('view', {});
    }
    await settle();
  };
}

const meta = (id, rule, runs) => ({ run: redirectScenario(id), bundles: ['tag'], runs, rule, real: T.TAG_REAL, stubs: T.TAG_STUB });
module.exports = {
  T13: meta('T13', '1-3 redirect experiments on two hosts; visits with links, typed URLs, SPA navigation and slow landings; servers and apps that strip, reorder or undo redirects', { quick: 12000, thorough: 150000 }),
  T14: meta('T14', 'as T13; every impression is matched to the redirect it belongs to', { quick: 12000, thorough: 150000 }),
};
