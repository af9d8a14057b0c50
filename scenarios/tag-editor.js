'use strict';
/**
 * The visual editor (T17): what may be loaded into the page on whose request,
 * and what the tag leaves alone meanwhile.
 */
const L = require('./lib-sdk');
const T = require('./lib-tag');
const { EventSim } = require('../lib/browser');

const ORIGIN = 'https://www.shop.com';
const VE_KEY = 'visual-editor-state';
const MOBILE_KEY = 'amp-visual-editor-mobile-mode';
const GOOD_SRC = ['https://cdn.amplitude.com/overlay.js', 'https://a.b.amplitude.com/x.js?v=2', 'https://app.amplitude.com:8443/o.js'];
const BAD_SRC = ['http://cdn.amplitude.com/o.js', 'https://amplitude.com.evil.com/o.js', 'https://cdn.amplitude.com.evil.com/o.js', 'https://cdn.amplitude.community/o.js', 'https://evil.com/x.amplitude.com', 'https://notamplitude.com/o.js', 'javascript:alert(1)', 'data:text/javascript,1', 'https://evil.com/?.amplitude.com', 'https://x.amplitude.com@evil.com/o.js', '//cdn.amplitude.com/o.js', '', 'no url', null, undefined, 7];
const GOOD_ORIGIN = ['https://app.amplitude.com', 'https://app.eu.amplitude.com'];
const BAD_ORIGIN = ['https://evil.com', 'https://amplitude.com.evil.com', 'https://app.amplitude.com.evil.com', 'https://app.amplitude.com:8443.evil.com', 'https://evil.com?.amplitude.com', 'https://app.amplitude.community', 'https://app-amplitude.com', 'null', '', 'https://evil.com/.amplitude.com', ORIGIN, 'file://', null];
const FRAME = 'amp-device-iframe';
const mut = (id) => ({ action: 'mutate', data: { mutations: [{ id, selector: '#a', action: 'set' }] } });

const okSrc = (s) => {
  try {
    const u = new URL(s);
    return u.protocol === 'https:' && u.hostname.endsWith('.amplitude.com');
  } catch (e) {
    return false;
  }
};

async function run(w) {
  const flags = [];
  const pages = {};
  const spec = {};
  for (const k of ['fa', 'fb', 'fc'].slice(0, w.int(1, 3))) {
    const remote = w.chance(0.3);
    spec[k] = { remote, at: w.pick(['/home', '/next', 'shop']) };
    flags.push(
      T.flag(k, {
        mode: remote ? 'remote' : 'local',
        blocking: remote && w.chance(0.5),
        on: 'treatment',
        payloads: { treatment: [w.chance(0.2) ? { action: 'redirect', data: { url: `${ORIGIN}/away` } } : mut(`${k}/treatment`)] },
      }),
    );
    pages[k] = { ['p' + k]: T.pageObj('p' + k, 'url_change', {}, T.urlCond(spec[k].at)) };
  }
  w.hooks.pageError = (p, e) => w.flag('uncaught-error', String(e && e.stack));
  let leaving = false;
  w.hooks.navigate = (p, url, kind) => {
    if (ve) w.flag('left', `the page was left for ${url} (${kind})`);
    leaving = true;
  };
  const tab = w.browser.newTab();
  const session = w.browser.sessionArea(tab, ORIGIN).map;
  const mix = L.netMix(w, { p: 0.3 });
  let page = null;
  let ve = false;
  w.hooks.server = (req) => {
    const kind = T.parse(req).kind;
    w.check(!ve, 'request-while-editing', () => `the tag sent ${req.url} in the visual editor`);
    return L.netPlan(w, mix, kind === 'configs' ? JSON.stringify({ flags, pageObjects: pages }) : '[]', 1000);
  };

  const visits = w.int(1, 4);
  for (let v = 0; v < visits; v++) {
    // ---- this page: opened by the editor, later in the same tab, or an ordinary one
    const param = w.chance(v ? 0.2 : 0.75);
    const preview = !param && w.chance(0.15);
    if (w.chance(0.25)) {
      const s = w.weighted([
        [3, JSON.stringify({ injectSrc: w.pick(GOOD_SRC), amplitudeWindowUrl: 'https://app.amplitude.com/x' })],
        [3, JSON.stringify({ injectSrc: w.pick(BAD_SRC), amplitudeWindowUrl: 'https://app.amplitude.com/x' })],
        [1, w.pick(['{', 'null', '{}', '[]', '0', '"x"', 'true', 'x'])],
      ]);
      w.op('stored session', s);
      session.set(VE_KEY, s);
    }
    if (w.chance(0.2)) session.delete(VE_KEY);
    if (w.chance(0.3)) session.set(MOBILE_KEY, w.pick(['true', 'true', 'false', 'x']));
    if (preview) session.delete(VE_KEY);
    leaving = false;
    let optional = false;
    let stored = null;
    try {
      stored = JSON.parse(session.get(VE_KEY) || 'null');
    } catch (e) {
      /* unreadable */
    }
    ve = !preview && (param || stored !== null);
    const mobile = ve && session.get(MOBILE_KEY) === 'true';
    const opener = w.weighted([[4, { closed: false }], [1, null], [1, { closed: true }], [1, 'throws']]);
    const severed = opener === null || opener === 'throws' || opener.closed;
    const lateBody = w.chance(0.25);
    const lateReady = w.chance(0.3);
    const q = w.pick(['', 'a=1', 'a=1&b=2']);
    const url = ORIGIN + w.pick(['/home', '/next', '/other']) + '?' + [param ? 'VISUAL_EDITOR=true' : '', preview ? 'PREVIEW=true' : '', preview ? '' : q].filter(Boolean).join('&') + w.pick(['', '#top']);
    page = T.openPage(w, tab, {
      url: url.replace(/\?(#|$)/, '$1'),
      noBody: lateBody,
      readyState: lateReady || lateBody ? 'loading' : 'complete',
      opener: opener === 'throws' ? Object.defineProperty({}, 'closed', { get: () => { throw new Error('cross-origin'); } }) : opener,
    });
    const g = page.g;
    const doc = g.document;
    let impressions = 0;
    T.integration(w, page, { onTrack: () => impressions++ });
    if (doc.body) {
      const own = doc.createElement('main');
      own.id = 'site';
      doc.body.appendChild(own);
    }

    // sites with a content security policy name the scripts they allow (browsers hide the attribute)
    const nonce = w.chance(0.4) ? 'r4nd0m' : null;
    if (nonce) {
      const allowed = doc.createElement('style');
      allowed.setAttribute('nonce', w.chance(0.7) ? '' : nonce);
      allowed.nonce = nonce;
      doc.head.appendChild(allowed);
    }

    // ---- scripts and frames
    const scripts = [];
    let state = 'closed';
    let pendingScript = null; // expected, but there is no body yet
    let openedAt = null;
    let overlayShown = false; // the overlay asked to drop the indicator
    w.hooks.script = (p, el) => {
      const src = el.getAttribute('src');
      w.log('script', src);
      w.probe('script');
      scripts.push(src);
      if (!okSrc(src)) w.flag('foreign-script', `the tag loads ${src}`);
      if (pendingScript === null) w.flag('unasked-script', `the tag loads ${src} although nothing asked for it`);
      else if (pendingScript !== src) w.flag('other-script', `the tag loads ${src} instead of ${pendingScript}`);
      pendingScript = null;
      w.check((el.getAttribute('nonce') || null) === nonce, 'nonce', () => `${src} is loaded with the nonce ${el.getAttribute('nonce')}, the site allows ${nonce}`);
      if (preview && fromSession) openedAt = w.now;
      if (!doc.body) w.flag('script-before-body', `${src} is loaded before there is a body`);
      const fate = w.weighted([[4, 'load'], [2, 'error'], [1, 'never']]);
      if (fate === 'never') return w.fault('script-never-loads');
      w.schedule(w.pick([5, 200, 3000, 9990, 15000]), () => {
        if (!p.alive) return;
        w.log('script:' + fate, src);
        if (fate === 'error') {
          w.fault('script-error');
          state = fromSession ? 'failed' : 'closed';
          el.dispatchEvent(new EventSim('error'));
        } else {
          state = 'open';
          el.dispatchEvent(new EventSim('load'));
          if (w.chance(0.6)) {
            w.log('overlay', 'stores its session');
            g.sessionStorage.setItem(VE_KEY, JSON.stringify({ injectSrc: src, amplitudeWindowUrl: 'https://app.amplitude.com/x' }));
          }
          if (w.chance(0.6)) {
            overlayShown = true;
            g.webExperiment.hideLoadingIndicator();
          }
        }
      }, { page: p, lane: 'script' });
    };
    let frame = null;
    let frames = 0;
    let shellUrl = '';
    w.hooks.iframe = (p, el) => {
      frames++;
      frame = el;
      shellUrl = p.url.href;
      w.log('iframe', `${el.id} ${el.src}`);
      if (!ve || !mobile) w.flag('unasked-frame', `a frame of ${el.src} appeared`);
      if (doc.readyState !== 'complete') w.flag('shell-too-early', 'the page was rebuilt while it was loading');
    };

    w.op('visit', `${page.url.href}${ve ? ' editor' : ''}${mobile ? ' mobile' : ''}${severed ? ' severed' : ''}${stored ? ' stored ' + stored.injectSrc : ''}`);
    let fromSession = false;
    let listening = false;
    let stalls = 0;
    let bannerClosed = false;
    let inner = null; // the page in the device frame
    let bodySince = doc.body ? 0 : null;
    let current = pages;
    const openSession = () => {
      if (stored && typeof stored === 'object' && okSrc(stored.injectSrc)) {
        fromSession = true;
        state = 'opening';
        pendingScript = stored.injectSrc;
        openedAt = w.now;
        overlayShown = false;
      } else listening = true;
    };
    let shellDue = ve && !severed && mobile;
    if (shellDue && doc.readyState === 'complete') {
      shellDue = false;
      openSession();
    } else if (preview || (ve && !severed && !mobile)) openSession();
    T.start(w, page, { flags, pages, noInit: true });
    page.init();
    if (preview) {
      for (let i = 0; i < 12 && g.webExperiment.isStub; i++) await w.runFor(1000);
      w.check(!g.webExperiment.isStub, 'not-started', 'no client 12 s after a preview started');
    }

    const indicator = () => !!doc.getElementById('amp-exp-loading');
    const check = async () => {
      await w.drain();
      if (!page.alive || leaving) return;
      const settled = bodySince !== null && w.now >= bodySince;
      if (ve) {
        w.check(page.live.size === 0, 'changed-while-editing', () => `changes [${[...page.live.values()].map((m) => m.id)}] are applied in the visual editor`);
        w.check(impressions === 0, 'impression-while-editing', 'an impression is tracked in the visual editor');
        w.check(!T.hidden(page), 'hidden-while-editing', 'the page is hidden in the visual editor');
        if (!shellDue) {
          if (!inner) w.check(!page.url.searchParams.has('VISUAL_EDITOR'), 'param-left', () => `the page is at ${page.url.href}`);
          if (severed) w.check(!settled || bannerClosed || !!doc.getElementById('amp-exp-opener-severed'), 'no-banner', 'the editor cannot be reached but nothing says so');
          w.check(g.webExperiment.isRunning, 'not-started', 'the client is not running in the visual editor');
        }
        if (mobile && !severed) w.check(frames === (shellDue ? 0 : 1), 'shell', () => `there are ${frames} device frames`);
        if (!mobile && !severed) {
          const active = g.webExperiment.getActivePages();
          for (const f of Object.keys(current))
            for (const o of Object.values(current[f])) {
              const on = !!(active[f] && active[f][o.id]);
              const want = page.url.href.includes(o.conditions[0][0].values[0]);
              w.check(on === want, 'active-pages', () => `page ${o.id} is ${on ? '' : 'not '}active at ${page.url.href}`);
            }
        }
      }
      w.check(!doc.getElementById('amp-exp-opener-severed') || (ve && severed), 'banner', 'the banner is shown without need');
      if (settled) w.check(pendingScript === null || optional, 'script-missing', () => `${pendingScript} is not loaded`);
      if (indicator()) {
        w.check(state === 'opening' || state === 'open', 'indicator-stays', () => `the loading indicator is shown in state ${state}`);
        w.check(!overlayShown, 'indicator-stays', 'the loading indicator is shown after the overlay dropped it');
        w.check(w.now - openedAt <= 10000 + stalls, 'indicator-stays', () => `the loading indicator is shown for ${w.now - openedAt} ms`);
        w.probe('indicator');
      } else if (settled && state === 'opening' && !overlayShown && w.now - openedAt < 9900) w.check(preview, 'indicator-missing', 'the loading indicator is not shown while the editor loads');
    };
    const innerLoad = (url) => {
      // a page of the site has loaded in the device frame
      const hist = [new URL(url, ORIGIN).href];
      inner = { location: { href: hist[0] }, pops: [], addEventListener: (t, fn) => t === 'popstate' && inner.pops.push(fn) };
      const self = inner;
      const go = (u) => {
        self.location.href = new URL(u, self.location.href).href;
        hist.push(self.location.href);
      };
      inner.history = { pushState: (st, t, u) => u != null && go(u), replaceState: (st, t, u) => u != null && go(u) };
      inner.back = () => {
        if (hist.length < 2) return;
        hist.pop();
        self.location.href = hist[hist.length - 1];
        for (const fn of self.pops) fn();
      };
      frame.contentWindow = inner;
      frame.dispatchEvent(new EventSim('load'));
    };
    await check();

    for (let n = w.int(2, 10); n > 0 && !leaving; n--) {
      const k = w.weighted([[6, 'message'], [2, 'wait'], [2, 'nav'], [lateBody ? 3 : 0, 'body'], [1, 'stall'], [1, 'close'], [lateReady || lateBody ? 2 : 0, 'loaded'], [1, 'objects'], [1, 'hide'], [mobile ? 3 : 0, 'inner']]);
      if (k === 'message') {
        const origin = w.chance(0.6) ? w.pick(GOOD_ORIGIN) : w.pick(BAD_ORIGIN);
        const src = w.chance(0.6) ? w.pick(GOOD_SRC) : w.pick(BAD_SRC);
        const data = w.weighted([
          [8, { type: 'OpenOverlay', context: { injectSrc: src, amplitudeWindowUrl: origin } }],
          [1, { type: 'Other', context: { injectSrc: src } }],
          [1, { type: 'OpenOverlay' }],
          [1, w.pick([null, undefined, 'OpenOverlay', 5, [], {}])],
        ]);
        w.op('message', `${origin} ${JSON.stringify(data)}`);
        if (GOOD_ORIGIN.includes(origin) && data && data.type === 'OpenOverlay' && data.context && okSrc(data.context.injectSrc)) {
          if (listening && state === 'closed') {
            state = 'opening';
            pendingScript = data.context.injectSrc;
            optional = false;
            openedAt = w.now;
            overlayShown = false;
            w.probe('opened');
          } else if (state === 'failed') {
            // whether the editor can be opened anew after its session failed is left open
            pendingScript = data.context.injectSrc;
            optional = true;
          }
        }
        g._et.dispatchEvent(Object.assign(new EventSim('message'), { data, origin }));
      } else if (k === 'wait') await w.runFor(w.pick([20, 500, 4000, 10001]));
      else if (k === 'nav' && !frame) {
        const to = w.pick(['/home', '/next', '/other?z=1', '/other']);
        w.op('navigate', to);
        T.spa(page, to);
      } else if (k === 'body' && !doc.body) {
        w.op('body');
        doc.documentElement.appendChild(doc.createElement('body'));
        bodySince = w.now + 20;
        await w.runFor(20);
      } else if (k === 'stall') {
        const d = w.pick([100, 6000]);
        w.fault('stall');
        page.stallUntil = Math.max(page.stallUntil || 0, w.now + d);
        stalls += d;
        await w.runFor(d + 20);
      } else if (k === 'close') {
        const banner = doc.getElementById('amp-exp-opener-severed');
        if (banner) {
          bannerClosed = true;
          banner.remove();
        }
      } else if (k === 'hide' && g.webExperiment && !g.webExperiment.isStub) {
        w.op('overlay is ready');
        overlayShown = true;
        g.webExperiment.hideLoadingIndicator();
      } else if (k === 'objects' && ve && !severed && !shellDue) {
        const next = {};
        for (const f of Object.keys(pages)) next[f] = { ['q' + f]: T.pageObj('q' + f, 'url_change', {}, T.urlCond(w.pick(['/home', '/next', 'shop']))) };
        w.op('page objects', JSON.stringify(Object.values(next).map((x) => Object.values(x)[0].conditions[0][0].values)));
        g.webExperiment.setPageObjects(JSON.parse(JSON.stringify(next)));
        current = next;
      } else if (k === 'loaded' && doc.readyState !== 'complete' && doc.body) {
        w.op('loaded');
        doc.readyState = 'complete';
        if (shellDue) {
          shellDue = false;
          openSession();
          await w.runFor(20);
        }
      } else if (k === 'inner' && frame) {
        if (!inner || w.chance(0.2)) innerLoad(inner ? w.pick(['/home', '/next']) : frame.src);
        else if (w.chance(0.7)) inner.history[w.chance(0.7) ? 'pushState' : 'replaceState']({}, '', w.pick(['/home', '/next', '/deep?x=1']));
        else inner.back();
        w.op('device frame', inner.location.href);
        w.check(page.url.href === inner.location.href, 'frame-url', () => `the frame is at ${inner.location.href} but the address is ${page.url.href}`);
        w.probe('frame-synced');
      }
      await w.ticks(w.choose(3));
      w.interleaved = true;
      await check();
    }
    if (frame) {
      w.check(frame.id === FRAME && frame.src === shellUrl, 'shell', () => `the device frame shows ${frame.src}`);
      w.check(!doc.getElementById('site'), 'shell', 'the site is still in the page around its device frame');
    }
    page.kill('left');
    if (preview) session.delete('amp-preview-mode');
    await w.runFor(50);
  }
}

module.exports = {
  T17: { run, bundles: ['tag'], runs: { quick: 12000, thorough: 150000 }, rule: '1-4 pages of one tab, opened by the editor, by a preview, or with a stored, tampered or no editor session; random messages, script fates, late bodies, severed openers and device frames', real: T.TAG_REAL, stubs: T.TAG_STUB },
};
