'use strict';
/**
 * A small DOM: a tree with attributes, styles, simple selectors, events,
 * mutation and intersection observers, constructable stylesheets, inline
 * scripts and iframes.  Passed to Page as opts.makeDocument.
 */
const vm = require('vm');
const { EventTargetSim, EventSim, DOMExceptionSim } = require('./browser');

// ---------------------------------------------------------------- selectors
const selCache = new Map();
function parseSelector(s) {
  if (selCache.has(s)) return selCache.get(s);
  const out = [];
  if (!s || !s.trim()) throw new DOMExceptionSim(`'${s}' is not a valid selector.`, 'SyntaxError');
  for (const part of s.split(',')) {
    const chain = [];
    for (const c of part.trim().split(/\s+(?:>\s*)?/)) {
      const m = /^([a-zA-Z][\w-]*|\*)?((?:#[\w-]+|\.[\w-]+|\[[\w-]+(?:=["']?[^\]"']*["']?)?\])*)$/.exec(c);
      if (!m || c === '') throw new DOMExceptionSim(`'${s}' is not a valid selector.`, 'SyntaxError');
      const tests = [];
      if (m[1] && m[1] !== '*') tests.push(['tag', m[1].toLowerCase()]);
      for (const t of m[2].match(/#[\w-]+|\.[\w-]+|\[[^\]]+\]/g) || []) {
        if (t[0] === '#') tests.push(['attr', 'id', t.slice(1)]);
        else if (t[0] === '.') tests.push(['class', t.slice(1)]);
        else {
          const i = t.indexOf('=');
          if (i < 0) tests.push(['has', t.slice(1, -1)]);
          else tests.push(['attr', t.slice(1, i), t.slice(i + 1, -1).replace(/^["']|["']$/g, '')]);
        }
      }
      chain.push(tests);
    }
    out.push(chain);
  }
  selCache.set(s, out);
  return out;
}
function matchCompound(el, tests) {
  for (const t of tests) {
    if (t[0] === 'tag') {
      if (el.localName !== t[1]) return false;
    } else if (t[0] === 'class') {
      if (!(el._attrs.get('class') || '').split(/\s+/).includes(t[1])) return false;
    } else if (t[0] === 'has') {
      if (!el._attrs.has(t[1])) return false;
    } else if (el._attrs.get(t[1]) !== t[2]) return false;
  }
  return true;
}
function matchChain(el, chain) {
  let i = chain.length - 1;
  if (!matchCompound(el, chain[i])) return false;
  i--;
  let p = el.parentNode;
  while (i >= 0) {
    while (p && p.nodeType === 1 && !matchCompound(p, chain[i])) p = p.parentNode;
    if (!p || p.nodeType !== 1) return false;
    i--;
    p = p.parentNode;
  }
  return true;
}
const elMatches = (el, s) => parseSelector(s).some((c) => matchChain(el, c));

// ----------------------------------------------------------------- document
function makeDom(page, g) {
  const world = page.world;
  const obs = { mutation: new Set(), io: new Set() };
  page.dom = obs;

  const notify = (rec) => {
    for (const o of obs.mutation) o._offer(rec);
  };

  class NodeSim extends EventTargetSim {
    constructor() {
      super();
      Object.defineProperty(this, '_pg', { value: page, enumerable: false });
      this.parentNode = null;
      this.childNodes = [];
    }
    get ownerDocument() {
      return g.document;
    }
    get children() {
      return this.childNodes.filter((c) => c.nodeType === 1);
    }
    get firstChild() {
      return this.childNodes[0] || null;
    }
    get lastChild() {
      return this.childNodes[this.childNodes.length - 1] || null;
    }
    get firstElementChild() {
      return this.children[0] || null;
    }
    get parentElement() {
      return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null;
    }
    get isConnected() {
      let n = this;
      while (n.parentNode) n = n.parentNode;
      return n === g.document;
    }
    _path() {
      const out = [];
      let n = this.parentNode;
      while (n) {
        out.push(n);
        n = n.parentNode;
      }
      if (out[out.length - 1] === g.document || this === g.document) out.push(g._et);
      return out;
    }
    contains(o) {
      for (let n = o; n; n = n.parentNode) if (n === this) return true;
      return false;
    }
    insertBefore(n, ref) {
      if (ref && ref.parentNode !== this) throw new DOMExceptionSim('The node before which the new node is to be inserted is not a child of this node.', 'NotFoundError');
      if (n.contains && n.contains(this)) throw new DOMExceptionSim('The new child element contains the parent.', 'HierarchyRequestError');
      if (n.parentNode) n.parentNode._detach(n);
      const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
      this.childNodes.splice(i, 0, n);
      n.parentNode = this;
      notify({ type: 'childList', target: this, addedNodes: [n], removedNodes: [], attributeName: null });
      if (n.isConnected) inserted(n);
      return n;
    }
    appendChild(n) {
      return this.insertBefore(n, null);
    }
    append(...ns) {
      for (const n of ns) this.appendChild(typeof n === 'string' ? new TextSim(n) : n);
    }
    _detach(n) {
      const i = this.childNodes.indexOf(n);
      this.childNodes.splice(i, 1);
      n.parentNode = null;
      notify({ type: 'childList', target: this, addedNodes: [], removedNodes: [n], attributeName: null });
      if (world.hooks.removed) world.hooks.removed(page, n);
      if (n.localName === 'iframe') n.contentWindow = null;
    }
    removeChild(n) {
      if (!n || n.parentNode !== this) throw new DOMExceptionSim('The node to be removed is not a child of this node.', 'NotFoundError');
      this._detach(n);
      return n;
    }
    remove() {
      if (this.parentNode) this.parentNode._detach(this);
    }
    get textContent() {
      return this._text !== undefined ? this._text : this.childNodes.map((c) => c.textContent).join('');
    }
    set textContent(v) {
      for (const c of this.childNodes.slice()) this._detach(c);
      this._text = String(v);
    }
    querySelectorAll(s) {
      const chains = parseSelector(s);
      const out = [];
      const walk = (n) => {
        for (const c of n.childNodes) {
          if (c.nodeType !== 1) continue;
          if (chains.some((ch) => matchChain(c, ch))) out.push(c);
          walk(c);
        }
      };
      walk(this);
      return out;
    }
    querySelector(s) {
      return this.querySelectorAll(s)[0] || null;
    }
  }
  Object.assign(NodeSim, { ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
  class TextSim extends NodeSim {
    constructor(t) {
      super();
      this.nodeType = 3;
      this._text = t;
    }
  }
  class ElementSim extends NodeSim {
    constructor(tag) {
      super();
      this.nodeType = 1;
      this.localName = tag.toLowerCase();
      this.tagName = tag.toUpperCase();
      this._attrs = new Map();
      const el = this;
      const st = {};
      this.style = new Proxy(st, {
        get(t, k) {
          if (k === 'cssText')
            return Object.entries(t)
              .filter(([, v]) => v !== '')
              .map(([a, v]) => `${a}: ${v};`)
              .join(' ');
          if (k === 'setProperty') return (a, v) => (el.style[a] = v);
          if (k === 'removeProperty') return (a) => (el.style[a] = '');
          return t[k] === undefined ? '' : t[k];
        },
        set(t, k, v) {
          if (k === 'cssText') {
            for (const a of Object.keys(t)) delete t[a];
            for (const d of String(v).split(';')) {
              const i = d.indexOf(':');
              if (i > 0) t[d.slice(0, i).trim()] = d.slice(i + 1).trim();
            }
          } else t[k] = String(v);
          notify({ type: 'attributes', target: el, addedNodes: [], removedNodes: [], attributeName: 'style' });
          return true;
        },
      });
    }
    matches(s) {
      return elMatches(this, s);
    }
    closest(s) {
      for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (elMatches(n, s)) return n;
      return null;
    }
    getAttribute(k) {
      return this._attrs.has(k) ? this._attrs.get(k) : null;
    }
    hasAttribute(k) {
      return this._attrs.has(k);
    }
    setAttribute(k, v) {
      this._attrs.set(k, String(v));
      notify({ type: 'attributes', target: this, addedNodes: [], removedNodes: [], attributeName: k });
    }
    removeAttribute(k) {
      this._attrs.delete(k);
      notify({ type: 'attributes', target: this, addedNodes: [], removedNodes: [], attributeName: k });
    }
    get id() {
      return this._attrs.get('id') || '';
    }
    set id(v) {
      this.setAttribute('id', v);
    }
    get className() {
      return this._attrs.get('class') || '';
    }
    set className(v) {
      this.setAttribute('class', v);
    }
    get innerHTML() {
      return this._html || '';
    }
    set innerHTML(v) {
      for (const c of this.childNodes.slice()) this._detach(c);
      this._html = String(v);
    }
    attachShadow() {
      const r = new NodeSim();
      r.nodeType = 11;
      r.adoptedStyleSheets = [];
      r.host = this;
      this.shadowRoot = r;
      return r;
    }
    focus() {}
    click() {
      this.dispatchEvent(new EventSim('click', { bubbles: true, cancelable: true }));
    }
    getBoundingClientRect() {
      return { top: 0, left: 0, width: 10, height: 10, bottom: 10, right: 10, x: 0, y: 0 };
    }
  }
  class HTMLElementSim extends ElementSim {}
  const sub = (attr) => {
    const C = class extends HTMLElementSim {};
    for (const a of attr)
      Object.defineProperty(C.prototype, a, {
        get() {
          return this._attrs.get(a) || '';
        },
        set(v) {
          this.setAttribute(a, v);
        },
        configurable: true,
      });
    return C;
  };
  const HTMLScript = sub(['src', 'type']);
  const HTMLIFrame = sub(['src']);
  const HTMLAnchor = sub(['href', 'target']);
  const HTMLDialog = sub([]);
  HTMLDialog.prototype.showModal = function () {
    this.open = true;
  };
  HTMLDialog.prototype.close = function () {
    this.open = false;
  };
  const BY_TAG = { script: HTMLScript, iframe: HTMLIFrame, a: HTMLAnchor, dialog: HTMLDialog };

  /** what the browser does when an element enters the document */
  function inserted(n) {
    if (n.nodeType !== 1) return;
    if (n.localName === 'script' && !n._ran) {
      n._ran = true;
      if (n.getAttribute('src')) {
        if (world.hooks.script) world.hooks.script(page, n);
      } else if (n.textContent) runInline(n.textContent);
    } else if (n.localName === 'iframe') {
      if (!n.contentWindow) n.contentWindow = { postMessage: (m, o) => world.hooks.postToFrame && world.hooks.postToFrame(page, n, m, o) };
      if (world.hooks.iframe) world.hooks.iframe(page, n);
    }
    for (const c of n.childNodes) inserted(c);
  }
  function runInline(src) {
    const m = /^\s*function\s+([A-Za-z_$][\w$]*)/.exec(src);
    try {
      const names = Object.keys(g).filter((k) => /^[A-Za-z_$][\w$]*$/.test(k) && k !== 'undefined' && k !== 'eval' && !/^(Infinity|NaN)$/.test(k));
      const fn = vm.runInThisContext(`(function(${names.join(',')}){${src}\n${m ? `return ${m[1]};` : ''}})`);
      const r = fn.apply(g, names.map((k) => g[k]));
      if (m) g[m[1]] = r;
    } catch (e) {
      world.pageError(page, e);
    }
  }

  class MutationObserverSim {
    constructor(cb) {
      this.cb = cb;
      this.targets = [];
      this.queue = [];
      this.pending = false;
    }
    observe(target, o) {
      this.targets = this.targets.filter((t) => t.target !== target);
      this.targets.push({ target, o: o || {} });
      obs.mutation.add(this);
    }
    disconnect() {
      this.targets = [];
      this.queue = [];
      obs.mutation.delete(this);
    }
    takeRecords() {
      return this.queue.splice(0);
    }
    _offer(rec) {
      for (const { target, o } of this.targets) {
        if (target !== rec.target && !(o.subtree && target.contains(rec.target))) continue;
        if (rec.type === 'childList' && !o.childList) continue;
        if (rec.type === 'attributes') {
          if (!o.attributes && !o.attributeFilter) continue;
          if (o.attributeFilter && !o.attributeFilter.includes(rec.attributeName)) continue;
        }
        this.queue.push(rec);
        if (!this.pending) {
          this.pending = true;
          Promise.resolve().then(() => {
            this.pending = false;
            const q = this.queue.splice(0);
            if (!q.length || !page.alive) return;
            try {
              this.cb(q, this);
            } catch (e) {
              world.pageError(page, e);
            }
          });
        }
        return;
      }
    }
  }

  const displayed = (el) => {
    for (let n = el; n && n.nodeType === 1; n = n.parentNode) if (n.style.display === 'none') return false;
    return true;
  };
  page.displayed = displayed;
  /** el._vis: visible ratio in [0,1]; el._below: distance in px below the fold (0 when in view) */
  class IntersectionObserverSim {
    constructor(cb, o) {
      this.cb = cb;
      this.threshold = [].concat((o && o.threshold) === undefined ? 0 : o.threshold).sort((a, b) => a - b);
      this.margin = o && o.rootMargin ? parseFloat(o.rootMargin.split(/\s+/)[2] || '0') || 0 : 0;
      this.targets = new Map();
      obs.io.add(this);
    }
    observe(el) {
      if (this.targets.has(el)) return;
      this.targets.set(el, { idx: -1, inter: null });
      frame();
    }
    unobserve(el) {
      this.targets.delete(el);
    }
    disconnect() {
      this.targets.clear();
    }
    _tick() {
      const entries = [];
      for (const [el, st] of this.targets) {
        let ratio = 0;
        let inter = false;
        if (el.isConnected && displayed(el)) {
          ratio = el._vis || 0;
          inter = ratio > 0 || el._edge === true;
          if (!inter && el._below !== undefined && el._below <= this.margin && this.margin > 0) {
            inter = true;
            ratio = 0.01;
          }
        }
        let idx = 0;
        if (inter) while (idx < this.threshold.length && this.threshold[idx] <= ratio) idx++;
        if (idx !== st.idx || inter !== st.inter) {
          st.idx = idx;
          st.inter = inter;
          entries.push({ target: el, isIntersecting: inter, intersectionRatio: ratio, time: world.now - page.loadTime });
        }
      }
      if (entries.length)
        try {
          this.cb(entries, this);
        } catch (e) {
          world.pageError(page, e);
        }
    }
  }
  let frameDue = null;
  function frame() {
    if (frameDue) return;
    frameDue = world.schedule(
      16,
      () => {
        frameDue = null;
        for (const o of [...obs.io]) o._tick();
      },
      { page, lane: page.name + ':io', label: 'frame' },
    );
  }
  page.layoutChanged = frame;

  class CSSStyleSheetSim {
    replaceSync(t) {
      this.text = t;
    }
  }

  const doc = new NodeSim();
  doc.nodeType = 9;
  Object.defineProperty(doc, 'cookie', page.cookieDescriptor());
  doc.referrer = page.referrer;
  doc.readyState = page.opts.readyState || 'complete';
  doc.visibilityState = 'visible';
  doc.hidden = false;
  doc.title = '';
  doc.adoptedStyleSheets = [];
  doc.location = g.location;
  doc.defaultView = g;
  doc.createElement = (t) => new (BY_TAG[t.toLowerCase()] || HTMLElementSim)(t);
  doc.createTextNode = (t) => new TextSim(t);
  doc.createDocumentFragment = () => {
    const n = new NodeSim();
    n.nodeType = 11;
    return n;
  };
  doc.getElementById = (id) => {
    let found = null;
    const walk = (n) => {
      for (const c of n.childNodes) {
        if (found || c.nodeType !== 1) continue;
        if (c._attrs.get('id') === id) found = c;
        else walk(c);
      }
    };
    walk(doc);
    return found;
  };
  const html = doc.createElement('html');
  html.scrollHeight = 3000;
  const head = doc.createElement('head');
  g.document = doc;
  doc.appendChild(html);
  html.appendChild(head);
  doc.documentElement = html;
  doc.head = head;
  Object.defineProperty(doc, 'body', {
    get: () => html.childNodes.find((c) => c.localName === 'body') || null,
    configurable: true,
  });
  if (!page.opts.noBody) html.appendChild(doc.createElement('body'));
  g.scrollY = 0;
  Object.assign(g, {
    Node: NodeSim,
    Element: ElementSim,
    HTMLElement: HTMLElementSim,
    HTMLIFrameElement: HTMLIFrame,
    HTMLScriptElement: HTMLScript,
    HTMLAnchorElement: HTMLAnchor,
    HTMLDialogElement: HTMLDialog,
    Text: TextSim,
    MutationObserver: MutationObserverSim,
    IntersectionObserver: IntersectionObserverSim,
    CSSStyleSheet: CSSStyleSheetSim,
    PopStateEvent: EventSim,
    MouseEvent: EventSim,
    MessageEvent: EventSim,
    KeyboardEvent: EventSim,
    frameElement: null,
    DOMParser: class {
      parseFromString(s) {
        const m = /^\s*<([a-zA-Z][\w-]*)([^>]*)>([\s\S]*?)(?:<\/\1>)?\s*$/.exec(s);
        const body = doc.createElement('body');
        if (m) {
          const el = doc.createElement(m[1]);
          for (const a of m[2].matchAll(/([\w-]+)(?:=["']([^"']*)["'])?/g)) el._attrs.set(a[1], a[2] || '');
          el._text = m[3];
          body.appendChild(el);
        }
        return { body };
      }
    },
    getComputedStyle: (el) => {
      let vis = 'visible';
      for (let n = el; n && n.nodeType === 1; n = n.parentNode)
        if (n.style.visibility) {
          vis = n.style.visibility;
          break;
        }
      return { display: el.style.display || 'block', visibility: vis };
    },
  });
  return doc;
}

module.exports = { makeDom, parseSelector };
