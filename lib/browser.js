'use strict';
/**
 * A light fake browser.  Everything the code under test can observe about the
 * outside world goes through here: storage, cookies, timers, clocks, network,
 * location/history, randomness.  One Browser per World; a Browser has tabs, a
 * tab shows one Page at a time; pages share cookies and per-origin storage.
 */
const vm = require('vm');
const { makeDate } = require('./sim');

const ES_INTRINSICS = new Set(
  (
    'Object Function Array Number parseFloat parseInt Infinity NaN undefined Boolean String Symbol ' +
    'Promise RegExp Error AggregateError EvalError RangeError ReferenceError SyntaxError TypeError URIError ' +
    'JSON Intl ArrayBuffer Atomics Uint8Array Int8Array Uint16Array Int16Array Uint32Array Int32Array ' +
    'Float32Array Float64Array Uint8ClampedArray BigUint64Array BigInt64Array DataView Map BigInt Set WeakMap ' +
    'WeakSet WeakRef FinalizationRegistry Proxy Reflect SharedArrayBuffer decodeURI decodeURIComponent ' +
    'encodeURI encodeURIComponent escape unescape eval isFinite isNaN Iterator Float16Array'
  ).split(' '),
);
/** Pure (no hidden state, no I/O) host functions that may be passed straight through. */
const PURE_HOST = ['URL', 'URLSearchParams', 'atob', 'btoa', 'TextEncoder', 'TextDecoder', 'structuredClone'];

class DOMExceptionSim extends Error {
  constructor(message, name) {
    super(message);
    this.name = name || 'Error';
  }
}

// ------------------------------------------------------------------ storage
class StorageArea {
  constructor(name) {
    this.name = name;
    this.map = new Map();
  }
  clone(name) {
    const s = new StorageArea(name);
    s.map = new Map(this.map);
    return s;
  }
}

/** One page's handle on a storage area. */
class StorageView {
  constructor(page, kind, area) {
    Object.defineProperty(this, '_p', { value: page, enumerable: false });
    Object.defineProperty(this, '_k', { value: kind, enumerable: false });
    Object.defineProperty(this, '_a', { value: area, enumerable: false });
  }
  _op(op, key, value) {
    const p = this._p;
    if (!p.alive) return 'dead';
    return p.world.hooks.storage ? p.world.hooks.storage(p, this._k, op, key, value) : undefined;
  }
  get length() {
    this._op('length');
    return this._a.map.size;
  }
  key(i) {
    this._op('key');
    const k = [...this._a.map.keys()][i];
    return k === undefined ? null : k;
  }
  getItem(key) {
    key = String(key);
    const r = this._op('get', key);
    if (r === 'miss') return null;
    const v = this._a.map.get(key);
    return v === undefined ? null : v;
  }
  setItem(key, value) {
    key = String(key);
    value = String(value);
    const r = this._op('set', key, value);
    if (r === 'dead' || r === 'lost' || !this._p.alive) return;
    this._a.map.set(key, value);
    this._p.world.log('st:set', `${this._p.name} ${this._k} ${key}`);
    if (this._p.world.hooks.storageWrote) this._p.world.hooks.storageWrote(this._p, this._k, key, value);
  }
  removeItem(key) {
    key = String(key);
    const r = this._op('remove', key);
    if (r === 'dead' || r === 'lost' || !this._p.alive) return;
    const had = this._a.map.delete(key);
    if (had) {
      this._p.world.log('st:rm', `${this._p.name} ${this._k} ${key}`);
      if (this._p.world.hooks.storageWrote) this._p.world.hooks.storageWrote(this._p, this._k, key, null);
    }
  }
  clear() {
    for (const k of [...this._a.map.keys()]) this.removeItem(k);
  }
}
/** Object.keys(localStorage) / property access parity. */
function storageProxy(view) {
  return new Proxy(view, {
    get(t, p, r) {
      if (p in t || typeof p === 'symbol') {
        const v = Reflect.get(t, p, t);
        return typeof v === 'function' ? v.bind(t) : v;
      }
      const v = t.getItem(p);
      return v === null ? undefined : v;
    },
    ownKeys(t) {
      t._op('keys');
      return [...t._a.map.keys()];
    },
    getOwnPropertyDescriptor(t, p) {
      if (typeof p === 'string' && t._a.map.has(p))
        return { value: t._a.map.get(p), enumerable: true, configurable: true, writable: true };
      return undefined;
    },
    has(t, p) {
      return p in t || t._a.map.has(p);
    },
    set(t, p, v) {
      t.setItem(p, v);
      return true;
    },
    deleteProperty(t, p) {
      t.removeItem(p);
      return true;
    },
  });
}

// ------------------------------------------------------------------ cookies
const PUBLIC_SUFFIXES = new Set(['com', 'org', 'io', 'co.uk', 'uk', 'test', 'localhost', 'github.io', 'com.ph', 'ph']);

class CookieJar {
  constructor(world) {
    this.world = world;
    this.list = []; // {name,value,domain,hostOnly,path,expires,secure,sameSite,httpOnly}
    this.seq = 0;
  }
  gc() {
    const now = this.world.now;
    this.list = this.list.filter((c) => c.expires === null || c.expires > now);
  }
  visible(u) {
    this.gc();
    const host = u.hostname;
    return this.list
      .filter((c) => {
        if (c.hostOnly ? c.domain !== host : !(host === c.domain || host.endsWith('.' + c.domain))) return false;
        const p = u.pathname || '/';
        if (!(p === c.path || p.startsWith(c.path.endsWith('/') ? c.path : c.path + '/'))) return false;
        if (c.secure && u.protocol !== 'https:') return false;
        return true;
      })
      .sort((a, b) => b.path.length - a.path.length || a.seq - b.seq);
  }
  read(u) {
    return this.visible(u)
      .filter((c) => !c.httpOnly)
      .map((c) => (c.name ? `${c.name}=${c.value}` : c.value))
      .join('; ');
  }
  /** Returns a description of what was set, or null when the cookie was refused. */
  write(u, str) {
    const parts = String(str).split(';');
    const nv = parts.shift();
    const eq = nv.indexOf('=');
    const name = (eq < 0 ? '' : nv.slice(0, eq)).trim();
    const value = (eq < 0 ? nv : nv.slice(eq + 1)).trim();
    const c = {
      name,
      value,
      domain: u.hostname,
      hostOnly: true,
      path: '/',
      expires: null,
      secure: false,
      sameSite: '',
      httpOnly: false,
      seq: ++this.seq,
    };
    let maxAge;
    // default path
    const dp = u.pathname || '/';
    c.path = dp.lastIndexOf('/') > 0 ? dp.slice(0, dp.lastIndexOf('/')) : '/';
    for (const a of parts) {
      const i = a.indexOf('=');
      const k = (i < 0 ? a : a.slice(0, i)).trim().toLowerCase();
      const v = i < 0 ? '' : a.slice(i + 1).trim();
      if (k === 'domain' && v) {
        const d = v.replace(/^\./, '').toLowerCase();
        if (PUBLIC_SUFFIXES.has(d)) {
          if (d !== u.hostname) return null;
        } else {
          if (!(u.hostname === d || u.hostname.endsWith('.' + d))) return null;
          c.domain = d;
          c.hostOnly = false;
        }
      } else if (k === 'path') {
        if (v.startsWith('/')) c.path = v;
      } else if (k === 'expires') {
        const t = Date.parse(v);
        if (!isNaN(t)) c.expires = t;
      } else if (k === 'max-age') {
        const n = Number(v);
        if (!isNaN(n)) maxAge = n;
      } else if (k === 'secure') c.secure = true;
      else if (k === 'samesite') c.sameSite = v;
      else if (k === 'httponly') return null;
    }
    if (maxAge !== undefined) c.expires = maxAge <= 0 ? 0 : this.world.now + maxAge * 1000;
    if (c.secure && u.protocol !== 'https:') return null;
    const i = this.list.findIndex(
      (o) => o.name === c.name && o.domain === c.domain && o.hostOnly === c.hostOnly && o.path === c.path,
    );
    if (c.expires !== null && c.expires <= this.world.now) {
      if (i >= 0) {
        this.list.splice(i, 1);
        return { deleted: true, name };
      }
      return { deleted: true, name, none: true };
    }
    if (i >= 0) {
      c.seq = this.list[i].seq;
      this.list[i] = c;
    } else this.list.push(c);
    return c;
  }
  names(host) {
    this.gc();
    return this.list
      .filter((c) => !host || c.domain === host || host.endsWith('.' + c.domain) || c.domain.endsWith('.' + host))
      .map((c) => c.name);
  }
}

// ------------------------------------------------------------------ events
class EventTargetSim {
  constructor() {
    Object.defineProperty(this, '_ls', { value: [], enumerable: false, writable: true });
  }
  addEventListener(type, fn, opts) {
    if (!fn) return;
    const capture = typeof opts === 'object' && opts ? !!opts.capture : !!opts;
    const once = !!(opts && typeof opts === 'object' && opts.once);
    const signal = opts && typeof opts === 'object' ? opts.signal : undefined;
    if (this._ls.some((l) => l.type === type && l.fn === fn && l.capture === capture)) return;
    if (signal && signal.aborted) return;
    const l = { type, fn, capture, once };
    this._ls.push(l);
    if (signal) signal.addEventListener('abort', () => this.removeEventListener(type, fn, opts));
  }
  removeEventListener(type, fn, opts) {
    const capture = typeof opts === 'object' && opts ? !!opts.capture : !!opts;
    const i = this._ls.findIndex((l) => l.type === type && l.fn === fn && l.capture === capture);
    if (i >= 0) this._ls.splice(i, 1);
  }
  _page() {
    return this._pg || (this.ownerDocument && this.ownerDocument._pg) || null;
  }
  _invoke(ev, phase) {
    for (const l of this._ls.slice()) {
      if (l.type !== ev.type) continue;
      if (phase === 'capture' ? !l.capture : phase === 'bubble' ? l.capture : false) continue;
      if (!this._ls.includes(l)) continue;
      if (l.once) this._ls.splice(this._ls.indexOf(l), 1);
      ev.currentTarget = this;
      try {
        if (typeof l.fn === 'function') l.fn.call(this, ev);
        else l.fn.handleEvent(ev);
      } catch (e) {
        const p = this._page();
        if (p) p.world.pageError(p, e);
        else throw e;
      }
      if (ev._stopNow) return;
    }
    if (phase !== 'capture') {
      const h = this['on' + ev.type];
      if (typeof h === 'function') {
        try {
          h.call(this, ev);
        } catch (e) {
          const p = this._page();
          if (p) p.world.pageError(p, e);
          else throw e;
        }
      }
    }
  }
  /** ancestors, nearest first */
  _path() {
    return [];
  }
  dispatchEvent(ev) {
    ev.target = ev.target || this;
    ev.srcElement = ev.target;
    const path = this._path();
    ev._path = [this, ...path];
    for (let i = path.length - 1; i >= 0; i--) {
      ev.eventPhase = 1;
      path[i]._invoke(ev, 'capture');
      if (ev._stop) return !ev.defaultPrevented;
    }
    ev.eventPhase = 2;
    this._invoke(ev, 'capture');
    if (!ev._stopNow) this._invoke(ev, 'bubble');
    if (ev.bubbles && !ev._stop) {
      ev.eventPhase = 3;
      for (const t of path) {
        t._invoke(ev, 'bubble');
        if (ev._stop) break;
      }
    }
    ev.currentTarget = null;
    return !ev.defaultPrevented;
  }
}

class EventSim {
  constructor(type, init) {
    this.type = type;
    this.bubbles = !!(init && init.bubbles);
    this.cancelable = !!(init && init.cancelable);
    this.defaultPrevented = false;
    this.isTrusted = false;
    if (init) for (const k of Object.keys(init)) if (!(k in this)) this[k] = init[k];
  }
  preventDefault() {
    if (this.cancelable) this.defaultPrevented = true;
  }
  stopPropagation() {
    this._stop = true;
  }
  stopImmediatePropagation() {
    this._stop = true;
    this._stopNow = true;
  }
  composedPath() {
    return this._path ? this._path.slice() : [];
  }
}

class AbortSignalSim extends EventTargetSim {
  constructor() {
    super();
    this.aborted = false;
    this.reason = undefined;
  }
  throwIfAborted() {
    if (this.aborted) throw this.reason;
  }
}
class AbortControllerSim {
  constructor() {
    this.signal = new AbortSignalSim();
  }
  abort(reason) {
    if (this.signal.aborted) return;
    this.signal.aborted = true;
    this.signal.reason = reason === undefined ? new DOMExceptionSim('The operation was aborted.', 'AbortError') : reason;
    this.signal.dispatchEvent(new EventSim('abort'));
  }
}

// --------------------------------------------------------------------- page
let compiledCache = new Map();
function compile(code, names) {
  const key = names.join(',');
  let byCode = compiledCache.get(code);
  if (!byCode) compiledCache.set(code, (byCode = new Map()));
  let fn = byCode.get(key);
  if (!fn) {
    fn = vm.runInThisContext(`(function(${names.join(',')}){${code}\n;return typeof __vp==='undefined'?undefined:__vp;})`, {
      filename: 'vp-bundle.js',
    });
    byCode.set(key, fn);
  }
  return fn;
}

const HOST_NAMES = Object.getOwnPropertyNames(globalThis).filter(
  (n) => !ES_INTRINSICS.has(n) && /^[A-Za-z_$][\w$]*$/.test(n),
);

class Page {
  constructor(browser, opts) {
    this.browser = browser;
    this.world = browser.world;
    this.id = ++browser.pageSeq;
    this.tab = opts.tab || null;
    this.name = opts.name || `p${this.id}`;
    this.url = new URL(opts.url || 'https://www.shop.com/');
    this.alive = true;
    this.stallUntil = 0;
    this.clockSkew = 0;
    this.loadTime = this.world.now;
    this.timerSeq = 0;
    this.timers = new Map();
    this.opts = opts;
    this.referrer = opts.referrer || '';
    this.historyStack = null;
    this.world.pages.push(this);
    this.g = this.makeGlobal();
  }
  dateNow() {
    return Math.floor(this.world.now + this.clockSkew);
  }
  kill(how) {
    if (!this.alive) return;
    this.alive = false;
    this.world.log('page:' + (how || 'killed'), this.name);
    for (const t of this.timers.values()) this.world.cancel(t.ev);
    this.timers.clear();
  }

  makeGlobal() {
    const page = this;
    const world = this.world;
    const g = Object.create(null);
    for (const n of ES_INTRINSICS) if (n in globalThis) g[n] = globalThis[n];
    for (const n of PURE_HOST) g[n] = globalThis[n];
    g.globalThis = g.window = g.self = g.frames = g;
    g.parent = g.top = this.opts.parentGlobal || g;
    g.opener = this.opts.opener || null;
    g.closed = false;
    g.Date = makeDate(() => page.dateNow());
    g.performance = {
      now: () => world.now - page.loadTime,
      timeOrigin: page.loadTime,
      mark() {},
      measure() {},
      getEntriesByType: () => [],
      getEntriesByName: () => [],
    };
    const M = Object.create(Math);
    let rs = (0x9e3779b9 ^ (this.id * 7919) ^ (world.seed | 0)) >>> 0 || 1;
    const rnd = () => {
      // not part of the choice stream: uniqueness only; derived from seed and page id
      rs ^= rs << 13;
      rs >>>= 0;
      rs ^= rs >>> 17;
      rs ^= rs << 5;
      rs >>>= 0;
      return rs / 4294967296;
    };
    Object.defineProperty(M, 'random', { value: rnd, writable: true, configurable: true });
    g.Math = M;
    g.crypto = {
      getRandomValues(a) {
        for (let i = 0; i < a.length; i++) a[i] = Math.floor(rnd() * 4294967296);
        return a;
      },
      randomUUID() {
        const h = (n) => {
          let s = '';
          for (let i = 0; i < n; i++) s += Math.floor(rnd() * 16).toString(16);
          return s;
        };
        return `${h(8)}-${h(4)}-4${h(3)}-a${h(3)}-${h(12)}`;
      },
    };
    const noop = () => {};
    g.console = {};
    for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace', 'group', 'groupEnd', 'groupCollapsed', 'table'])
      g.console[k] = noop;
    g.DOMException = DOMExceptionSim;
    // ---- timers
    const addTimer = (fn, ms, args, repeat) => {
      if (!page.alive) return 0;
      let d = Number(ms);
      if (!(d > 0)) d = 0;
      d = Math.floor(d);
      const id = ++page.timerSeq;
      const t = { id, ev: null };
      const fire = () => {
        if (!repeat) page.timers.delete(id);
        else {
          t.ev = world.schedule(Math.max(d, 1), fire, { page, lane: page.name + ':t', label: `timer` });
        }
        if (typeof fn === 'function') fn.apply(g, args);
      };
      t.ev = world.schedule(d, fire, { page, lane: page.name + ':t', label: 'timer' });
      page.timers.set(id, t);
      return id;
    };
    const clear = (id) => {
      const t = page.timers.get(id);
      if (t) {
        world.cancel(t.ev);
        page.timers.delete(id);
      }
    };
    g.setTimeout = (fn, ms, ...a) => addTimer(fn, ms, a, false);
    g.setInterval = (fn, ms, ...a) => addTimer(fn, ms, a, true);
    g.clearTimeout = clear;
    g.clearInterval = clear;
    g.requestAnimationFrame = (fn) => addTimer(() => fn(world.now - page.loadTime), 16, [], false);
    g.cancelAnimationFrame = clear;
    g.requestIdleCallback = (fn) => addTimer(() => fn({ timeRemaining: () => 10, didTimeout: false }), 1, [], false);
    g.cancelIdleCallback = clear;
    g.queueMicrotask = (fn) => {
      Promise.resolve().then(() => {
        try {
          fn();
        } catch (e) {
          world.pageError(page, e);
        }
      });
    };
    // ---- events
    g.Event = EventSim;
    g.CustomEvent = EventSim;
    g.EventTarget = EventTargetSim;
    g.AbortController = AbortControllerSim;
    g.AbortSignal = AbortSignalSim;
    const et = new EventTargetSim();
    et._pg = page;
    for (const m of ['addEventListener', 'removeEventListener']) g[m] = et[m].bind(et);
    g._et = et;
    et.windowTarget = g;
    g.dispatchEvent = (ev) => et.dispatchEvent(ev);
    // ---- storage
    const origin = this.url.origin;
    const ls = storageProxy(new StorageView(page, 'local', this.browser.localArea(origin)));
    const ss = storageProxy(new StorageView(page, 'session', this.browser.sessionArea(this.tab, origin)));
    const blocked = () => {
      throw new DOMExceptionSim("Failed to read the 'localStorage' property: Access is denied.", 'SecurityError');
    };
    const mode = this.opts.storageMode || 'ok';
    if (mode === 'securityerror') {
      // a property that throws when it is touched
      Object.defineProperty(g, 'localStorage', { get: blocked, configurable: true, enumerable: true });
      Object.defineProperty(g, 'sessionStorage', { get: blocked, configurable: true, enumerable: true });
    } else if (mode === 'null') {
      g.localStorage = null;
      g.sessionStorage = null;
    } else {
      g.localStorage = ls;
      g.sessionStorage = ss;
    }
    // ---- navigator
    g.navigator = {
      userAgent:
        'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36',
      language: 'en-US',
      languages: ['en-US', 'en'],
      onLine: true,
      cookieEnabled: true,
      sendBeacon: () => true,
      vendor: 'Google Inc.',
      platform: 'Win32',
      maxTouchPoints: 0,
    };
    g.screen = { width: 1280, height: 800 };
    g.innerWidth = 1280;
    g.innerHeight = 800;
    g.devicePixelRatio = 1;
    // ---- network
    g.fetch = (input, init) => page.browser.net.fetch(page, input, init);
    g.Headers = HeadersSim;
    g.Response = ResponseSim;
    // ---- document / location
    this.makeLocation(g);
    if (this.opts.makeDocument) this.opts.makeDocument(page, g);
    else this.makeMinimalDocument(g);
    return g;
  }

  makeLocation(g) {
    const page = this;
    const nav = (u, kind) => {
      let url;
      try {
        url = new URL(String(u), page.url);
      } catch (e) {
        throw new DOMExceptionSim(`'${u}' is not a valid URL.`, 'SyntaxError');
      }
      const bare = (x) => x.href.split('#')[0];
      if (page.world.fragments && page.alive && url.href.includes('#') && bare(url) === bare(page.url)) return page.fragment(url, kind);
      page.navigate(url, kind);
    };
    const loc = {
      assign: (u) => nav(u, 'assign'),
      replace: (u) => nav(u, 'replace'),
      reload: () => page.navigate(page.url, 'reload'),
      toString: () => page.url.href,
      ancestorOrigins: { length: 0 },
    };
    for (const k of ['protocol', 'host', 'hostname', 'port', 'pathname', 'search', 'hash']) {
      Object.defineProperty(loc, k, {
        get: () => page.url[k],
        set: (v) => {
          const u = new URL(page.url.href);
          u[k] = v;
          nav(u.href, k === 'hash' ? 'hash' : 'assign');
        },
        enumerable: true,
      });
    }
    Object.defineProperty(loc, 'origin', { get: () => page.url.origin, enumerable: true });
    Object.defineProperty(loc, 'href', { get: () => page.url.href, set: (v) => nav(v, 'assign'), enumerable: true });
    Object.defineProperty(g, 'location', {
      get: () => loc,
      set: (v) => nav(v, 'assign'),
      enumerable: true,
      configurable: true,
    });
    g.origin = page.url.origin;
    let stateStack = [{ state: null, url: page.url.href }];
    let idx = 0;
    page.canGoBack = () => idx > 0;
    page.historyBack = () => {
      if (idx === 0) return false;
      idx--;
      page.url = new URL(stateStack[idx].url);
      if (page.onUrl) page.onUrl();
      const ev = new EventSim('popstate', {});
      ev.state = stateStack[idx].state;
      ev.isTrusted = true;
      g.dispatchEvent(ev);
      return true;
    };
    // the document stays (world.fragments: whether popstate comes at once, as in Chrome)
    page.fragment = (url, kind) => {
      const w = page.world;
      w.log('fragment:' + kind, url.href);
      if (w.hooks.fragment) w.hooks.fragment(page, url, kind);
      const entry = { state: null, url: url.href };
      if (kind === 'replace' || url.href === page.url.href) stateStack[idx] = entry;
      else {
        stateStack = stateStack.slice(0, idx + 1);
        stateStack.push(entry);
        idx++;
      }
      page.url = url;
      if (page.onUrl) page.onUrl();
      const fire = (type) => {
        const ev = new EventSim(type, {});
        ev.state = null;
        ev.isTrusted = true;
        g.dispatchEvent(ev);
      };
      if (w.fragments === 'sync') fire('popstate');
      else w.schedule(0, () => fire('popstate'), { page, lane: page.name + ':h', label: 'popstate' });
      w.schedule(0, () => fire('hashchange'), { page, lane: page.name + ':h', label: 'hashchange' });
    };
    class History {
      get length() {
        return stateStack.length;
      }
      get state() {
        return stateStack[idx].state;
      }
      pushState(state, _t, url) {
        if (!page.alive) return;
        if (url !== undefined && url !== null) {
          const u = new URL(String(url), page.url);
          if (u.origin !== page.url.origin)
            throw new DOMExceptionSim('A history state object with URL cannot be created', 'SecurityError');
          page.url = u;
        }
        stateStack = stateStack.slice(0, idx + 1);
        stateStack.push({ state: state === undefined ? null : state, url: page.url.href });
        idx++;
        page.world.log('hist:push', page.url.href);
        if (page.onUrl) page.onUrl();
      }
      replaceState(state, _t, url) {
        if (!page.alive) return;
        if (url !== undefined && url !== null) {
          const u = new URL(String(url), page.url);
          if (u.origin !== page.url.origin)
            throw new DOMExceptionSim('A history state object with URL cannot be created', 'SecurityError');
          page.url = u;
        }
        stateStack[idx] = { state: state === undefined ? null : state, url: page.url.href };
        page.world.log('hist:replace', page.url.href);
        if (page.onUrl) page.onUrl();
      }
      back() {
        page.world.schedule(0, () => page.historyBack(), { page, lane: page.name + ':h', label: 'popstate' });
      }
      forward() {}
      go() {}
    }
    g.History = History;
    g.history = new History();
  }

  /** Called by location setters; the scenario decides what a navigation does. */
  navigate(url, kind) {
    if (!this.alive) return;
    this.world.log('nav:' + kind, url.href);
    if (this.world.hooks.navigate) this.world.hooks.navigate(this, url, kind);
  }

  makeMinimalDocument(g) {
    const page = this;
    const doc = new EventTargetSim();
    doc._pg = page;
    Object.defineProperty(doc, 'cookie', this.cookieDescriptor());
    doc.referrer = this.referrer;
    doc.readyState = 'complete';
    doc.visibilityState = 'visible';
    doc.hidden = false;
    doc.title = '';
    doc.location = g.location;
    doc.defaultView = g;
    doc.querySelector = () => null;
    doc.querySelectorAll = () => [];
    doc.getElementById = () => null;
    g.document = doc;
  }
  cookieDescriptor() {
    const page = this;
    return {
      get: () => {
        const h = page.world.hooks.cookie;
        if (h) {
          const r = h(page, 'get');
          if (r === 'blocked') return '';
        }
        return page.browser.jar.read(page.url);
      },
      set: (v) => {
        if (!page.alive) return;
        const h = page.world.hooks.cookie;
        if (h) {
          const r = h(page, 'set', String(v));
          if (r === 'blocked' || r === 'lost') return;
        }
        const c = page.browser.jar.write(page.url, v);
        page.world.log('cookie:set', `${page.name} ${String(v).slice(0, 60)}${c ? '' : ' REFUSED'}`);
        if (c && page.world.hooks.cookieWrote) page.world.hooks.cookieWrote(page, c, String(v));
      },
      configurable: true,
      enumerable: true,
    };
  }

  /** Evaluate a bundle in this page; returns its exports. */
  run(code) {
    const g = this.g;
    const names = this.paramNames();
    const fn = compile(code, names);
    const vals = names.map((n) => {
      if (n === 'localStorage' || n === 'sessionStorage') {
        try {
          return g[n];
        } catch (e) {
          const thrower = () => {
            throw e;
          };
          return new Proxy({}, { get: thrower, set: thrower, has: thrower, ownKeys: thrower });
        }
      }
      return g[n];
    });
    return fn.apply(g, vals);
  }
  paramNames() {
    const s = new Set(HOST_NAMES);
    for (const k of Object.keys(this.g)) if (!ES_INTRINSICS.has(k) && /^[A-Za-z_$][\w$]*$/.test(k)) s.add(k);
    for (const n of DOM_NAMES) s.add(n);
    s.delete('undefined');
    return [...s].sort();
  }
}
const DOM_NAMES = (
  'window self globalThis global document location history navigator localStorage sessionStorage fetch Node Element ' +
  'HTMLElement HTMLIFrameElement HTMLInputElement HTMLAnchorElement HTMLScriptElement HTMLStyleElement CSSStyleSheet ' +
  'DOMParser MutationObserver IntersectionObserver ResizeObserver AbortController PopStateEvent MouseEvent ' +
  'MessageEvent KeyboardEvent CustomEvent Event HTMLDialogElement Text Comment DocumentFragment XMLHttpRequest ' +
  'require module exports process Buffer setImmediate clearImmediate alert confirm prompt open close postMessage ' +
  'getComputedStyle matchMedia scrollTo CSS Image Range NodeList HTMLCollection ShadowRoot Storage'
).split(' ');

// ------------------------------------------------------------------ network
class HeadersSim {
  constructor(init) {
    this.m = new Map();
    if (init)
      for (const [k, v] of Array.isArray(init) ? init : Object.entries(init)) this.m.set(k.toLowerCase(), String(v));
  }
  get(k) {
    const v = this.m.get(k.toLowerCase());
    return v === undefined ? null : v;
  }
  has(k) {
    return this.m.has(k.toLowerCase());
  }
  set(k, v) {
    this.m.set(k.toLowerCase(), String(v));
  }
  forEach(f) {
    this.m.forEach((v, k) => f(v, k));
  }
  entries() {
    return this.m.entries();
  }
  [Symbol.iterator]() {
    return this.m.entries();
  }
}
class ResponseSim {
  constructor(body, init) {
    this._b = body;
    this.status = (init && init.status) || 200;
    this.ok = this.status >= 200 && this.status < 300;
    this.statusText = '';
    this.headers = new HeadersSim(init && init.headers);
    this._bodyErr = init && init.bodyError;
    this._gate = init && init.gate;
    this.bodyUsed = false;
  }
  clone() {
    return new ResponseSim(this._b, { status: this.status, bodyError: this._bodyErr, gate: this._gate });
  }
  async text() {
    this.bodyUsed = true;
    if (this._gate) await this._gate;
    if (this._bodyErr) throw this._bodyErr;
    return this._b;
  }
  async json() {
    return JSON.parse(await this.text());
  }
}

/**
 * The network: world.hooks.server(req) returns a plan
 *   {delay, kind: 'ok'|'error'|'never', status, body, onDeliver}
 */
class Net {
  constructor(browser) {
    this.browser = browser;
    this.world = browser.world;
    this.seq = 0;
    this.requests = [];
  }
  send(page, req) {
    const world = this.world;
    req.id = ++this.seq;
    req.page = page;
    req.sentAt = world.now;
    req.state = 'sent';
    this.requests.push(req);
    world.log('net:req', `#${req.id} ${page.name} ${req.method} ${req.url}`);
    const plan = world.hooks.server(req);
    req.plan = plan;
    return new Promise((resolve, reject) => {
      let openGate, failGate;
      if (plan.headAt !== undefined && plan.kind !== 'sync-error') {
        // the headers arrive first, the body completes (or fails, or never comes) at plan.delay
        const gate = new Promise((res, rej) => {
          openGate = res;
          failGate = rej;
        });
        gate.catch(() => {});
        world.schedule(
          plan.headAt,
          () => {
            if (req.state !== 'sent') return;
            world.log('net:head', `#${req.id} ${plan.status}`);
            resolve(new ResponseSim(plan.body, { status: plan.status, headers: plan.headers, gate,
              bodyError: plan.bodyError ? new TypeError('body stream interrupted') : undefined }));
          },
          { page, lane: 'net', label: `nethead#${req.id}` },
        );
      }
      const settle = () => {
        if (req.state !== 'sent') return;
        req.deliveredAt = world.now;
        if (plan.kind === 'error') {
          req.state = 'error';
          world.log('net:err', `#${req.id}`);
          if (plan.onDeliver) plan.onDeliver(req);
          if (failGate) failGate(new TypeError('body stream interrupted'));
          reject(new TypeError('Failed to fetch'));
        } else {
          req.state = 'done';
          world.log('net:res', `#${req.id} ${plan.status}`);
          if (plan.onDeliver) plan.onDeliver(req);
          if (openGate) openGate();
          resolve(
            new ResponseSim(plan.body, {
              status: plan.status,
              headers: plan.headers,
              bodyError: plan.bodyError ? new TypeError('body stream interrupted') : undefined,
            }),
          );
        }
      };
      if (plan.kind === 'sync-error') {
        req.state = 'error';
        reject(new TypeError('Failed to fetch'));
      } else if (plan.kind !== 'never') {
        world.schedule(plan.delay || 0, settle, { page, lane: 'net', label: `net#${req.id}` });
      }
      if (req.signal) {
        const onAbort = () => {
          if (req.state === 'sent') {
            req.state = 'aborted';
            world.log('net:abort', `#${req.id}`);
            reject(req.signal.reason);
          }
        };
        if (req.signal.aborted) onAbort();
        else req.signal.addEventListener('abort', onAbort);
      }
    });
  }
  fetch(page, input, init) {
    const url = typeof input === 'string' ? input : input.url || String(input);
    const headers = {};
    const h = (init && init.headers) || {};
    const it = typeof h.forEach === 'function' && !Array.isArray(h) ? null : Object.entries(h);
    if (it) for (const [k, v] of it) headers[k.toLowerCase()] = String(v);
    else h.forEach((v, k) => (headers[k.toLowerCase()] = String(v)));
    if (!page.alive) return new Promise(() => {});
    return this.send(page, {
      url: new URL(url, page.url).href,
      method: (init && init.method) || 'GET',
      headers,
      body: init && init.body,
      signal: init && init.signal,
    });
  }
}

// ------------------------------------------------------------------ browser
class Browser {
  constructor(world) {
    this.world = world;
    this.pageSeq = 0;
    this.tabSeq = 0;
    this.local = new Map();
    this.jar = new CookieJar(world);
    this.net = new Net(this);
  }
  localArea(origin) {
    if (!this.local.has(origin)) this.local.set(origin, new StorageArea('local:' + origin));
    return this.local.get(origin);
  }
  sessionArea(tab, origin) {
    if (!tab) return new StorageArea('session');
    if (!tab.session.has(origin)) tab.session.set(origin, new StorageArea('session:' + origin));
    return tab.session.get(origin);
  }
  newTab() {
    return { id: ++this.tabSeq, session: new Map(), page: null };
  }
  load(tab, opts) {
    if (tab && tab.page && tab.page.alive) tab.page.kill('unloaded');
    const p = new Page(this, { ...opts, tab });
    if (tab) tab.page = p;
    this.world.log('page:load', `${p.name} ${p.url.href}`);
    return p;
  }
}

module.exports = {
  Browser,
  Page,
  CookieJar,
  StorageArea,
  EventTargetSim,
  EventSim,
  DOMExceptionSim,
  HeadersSim,
  ResponseSim,
  AbortControllerSim,
};
