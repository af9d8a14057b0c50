'use strict';
const X = 'experiment-tag/src/';
const I = X + 'util/inject-utils.ts';
const SPA = X + 'util/spa-link-interceptor.ts';
const inject = (type) => `{ flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'inject', data: { id: 'i1', js: 'window.__inj(utils)' } }] } })], pages: { f: { p: T.pageObj('p', '${type}', ${type === 'manual' ? `{ name: 'm' }` : '{}'}, ${type === 'manual' ? '[]' : `T.urlCond('/one')`}) } }, config: { useDefaultNavigationHandler: true } }`;
const links = `
  const page = open('https://www.shop.com/one');
  const doc = page.g.document;
  const a = doc.createElement('a');
  a.href = '/changed';
  a.__reactFiber$1 = { memoizedProps: { onClick: (e) => { if (e.defaultPrevented) return; } } };
  a.__mutationRecord__ = { attributes: { href: { mutations: [{}] } } };
  doc.body.appendChild(a);
  let pops = 0;
  page.g.addEventListener('popstate', () => pops++);
  const click = (o) => a.dispatchEvent(new page.g.MouseEvent('click', { bubbles: true, cancelable: true, button: 0, ...o }));`;
module.exports = [
  {
    id: 'T20-inserts-after-withdrawal',
    tag: true,
    property: 'T20',
    needs: 'injected code whose element has no place yet when the variant is withdrawn, and the place appearing afterwards',
    breaks: 'the element is inserted into a page the variant no longer applies to',
    edits: [[I, `        const checkElementInserted = () => {
          if (state.cancelled) {`, `        const checkElementInserted = () => {
          if (state.cancelled && element.isConnected) {`]],
    demo: `
  const page = open('https://www.shop.com/one');
  const doc = page.g.document;
  const el = doc.createElement('p');
  page.g.__inj = (utils) => utils.insertElement(el, { parentSelector: '#late', insertBeforeSelector: null });
  start(page, ${inject('url_change')});
  await w.runFor(3000);
  page.g.history.pushState({}, '', '/two');
  await w.runFor(1000);
  const late = doc.createElement('div');
  late.id = 'late';
  doc.body.appendChild(late);
  await w.runFor(2000);
  check(!el.isConnected, 'inserted on a page the variant does not apply to');`,
  },
  {
    id: 'T20-waits-for-nodes-only',
    tag: true,
    property: 'T20',
    needs: 'injected code waiting for a selector which an element comes to match through an attribute, with no node added',
    breaks: 'the wait never ends',
    edits: [[I, `        observer = new MutationObserver(() => {
          const elem = findElement();
          if (elem) {
            observer?.disconnect();
            resolve(elem);
          }
        });

        // Observe on all document changes.
        observer.observe(document.documentElement, {
          childList: true,
          subtree: true,
          attributes: true,
        });`, `        observer = new MutationObserver(() => {
          const elem = findElement();
          if (elem) {
            observer?.disconnect();
            resolve(elem);
          }
        });

        // Observe on all document changes.
        observer.observe(document.documentElement, {
          childList: true,
          subtree: true,
        });`]],
    demo: `
  const page = open('https://www.shop.com/one');
  const doc = page.g.document;
  const el = doc.createElement('p');
  doc.body.appendChild(el);
  let found = null;
  page.g.__inj = (utils) => utils.waitForElement('.ready').then((x) => (found = x));
  start(page, ${inject('url_change')});
  await w.runFor(3000);
  el.className = 'ready';
  await w.runFor(1000);
  check(found === el, 'not found');`,
  },
  {
    id: 'T20-container-removed',
    tag: true,
    property: 'T20',
    needs: 'an inserted element whose container the page replaces with another one',
    breaks: 'an element taken out together with a part of the page is not inserted again',
    edits: [[I, `          if (element.isConnected && element.ownerDocument === document) {`, `          if (element.parentNode && element.ownerDocument === document) {`]],
    demo: `
  const page = open('https://www.shop.com/one');
  const doc = page.g.document;
  const el = doc.createElement('p');
  const slot = () => {
    const s = doc.createElement('div');
    s.className = 'slot';
    doc.body.appendChild(s);
    return s;
  };
  const first = slot();
  page.g.__inj = (utils) => utils.insertElement(el, { parentSelector: '.slot', insertBeforeSelector: null });
  start(page, ${inject('url_change')});
  await w.runFor(3000);
  check(el.parentNode === first, 'not inserted');
  first.remove();
  const second = slot();
  await w.runFor(2000);
  check(el.parentNode === second, 'not inserted again');`,
  },
  {
    id: 'T21-no-longer-changed',
    tag: true,
    property: 'T21',
    needs: 'a router link whose changed address has been withdrawn again, then clicked',
    breaks: 'the click is still taken away from the site\'s own link handler',
    edits: [[SPA, `    if (!mutationRecord?.attributes?.href?.mutations.length) {`, `    if (!mutationRecord?.attributes?.href) {`]],
    demo: `${links}
  start(page, ${inject('manual')});
  await w.runFor(3000);
  a.__mutationRecord__.attributes.href.mutations = [];
  click();
  check(pops === 0, 'taken over although no longer changed');`,
  },
  {
    id: 'T21-shift-click-taken',
    tag: true,
    property: 'T21',
    needs: 'a shift-click (new window) on a changed router link',
    breaks: 'the link opens in the same window',
    edits: [[SPA, `    event.ctrlKey ||
    event.shiftKey ||`, `    event.ctrlKey ||`]],
    demo: `${links}
  start(page, ${inject('manual')});
  await w.runFor(3000);
  click({ shiftKey: true });
  check(pops === 0, 'a shift-click navigates in place');`,
  },
  {
    id: 'T22-leaves-before-handing-over',
    tag: true,
    property: 'T22',
    needs: 'a redirect, in a browser which unloads the page before the campaign cookie is written',
    breaks: 'the campaign of a redirected visitor is lost to analytics',
    edits: [[X + 'experiment.ts', `      await setMarketingCookie(this.apiKey, this.globalScope.location.hostname);`, `      void setMarketingCookie(this.apiKey, this.globalScope.location.hostname);`]],
    demo: `
  let handed;
  w.hooks.navigate = (p) => {
    handed = w.browser.jar.list.some((x) => x.name.startsWith('AMP_MKTG_ORIGINAL'));
    p.kill('unloaded');
  };
  const page = open('https://www.shop.com/old?utm_source=mail');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://app.shop.com/new' } }] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/old')) } } });
  await w.runFor(3000);
  check(handed === true, 'left without handing over the campaign');`,
  },
  {
    id: 'T22-campaign-of-one-host',
    tag: true,
    property: 'T22',
    needs: 'a redirect from one subdomain to another, and analytics reading the campaign there',
    breaks: 'the campaign a redirect hands over is not visible on other subdomains',
    edits: [[X + 'util/cookie.ts', `  const storage = createCookieStorage<Campaign>({
    sameSite: 'Lax',
    ...(domain && { domain }),
  });

  const parser`, `  const storage = createCookieStorage<Campaign>({
    sameSite: 'Lax',
    ...(domain && { domain: hostname }),
  });

  const parser`]],
    demo: `
  w.hooks.navigate = () => {};
  const page = open('https://www.shop.com/old?utm_source=mail');
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://app.shop.com/new' } }] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/old')) } } });
  await w.runFor(3000);
  const c = w.browser.jar.list.find((x) => x.name.startsWith('AMP_MKTG_ORIGINAL'));
  check(c && c.domain === 'shop.com', 'the campaign is kept for ' + (c && c.domain));`,
  },
  {
    id: 'T13-flash-while-leaving',
    tag: true,
    property: 'T13',
    needs: 'a site which hides its page itself, and a redirect on the way',
    breaks: 'the page the visitor is being sent away from is shown for a moment',
    edits: [[X + 'index.ts', `    if (!client.isRedirecting) {
      removeAntiFlickerCss();
    }`, `    if (!client.isRedirecting || client.isRunning) {
      removeAntiFlickerCss();
    }`]],
    demo: `
  w.hooks.navigate = () => {};
  const page = open('https://www.shop.com/old');
  const s = page.g.document.createElement('style');
  s.id = 'amp-exp-css';
  page.g.document.head.appendChild(s);
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'redirect', data: { url: 'https://www.shop.com/new' } }] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/old')) } } });
  await w.runFor(300);
  check(!!s.parentNode, 'the page is shown while its visitor is being sent away');`,
  },
];
