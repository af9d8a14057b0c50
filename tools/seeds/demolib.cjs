'use strict';
// Tiny page with a virtual clock, storage, cookies and network, for demonstrations.
const path = require('path');
const vm = require('vm');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const REPO = process.cwd();
const P = (p) => path.join(REPO, 'packages', p);
const cache = {};
function bundle(contents) {
  if (cache[contents]) return cache[contents];
  const r = esbuild.buildSync({
    stdin: { contents, resolveDir: P('experiment-browser'), loader: 'ts', sourcefile: 'demo-entry.ts' },
    bundle: true, write: false, format: 'iife', globalName: '__demo', platform: 'browser', target: 'es2020',
    alias: {
      '@amplitude/experiment-core': P('experiment-core/src/index.ts'),
      '@amplitude/analytics-connector': P('analytics-connector/src/index.ts'),
      '@amplitude/experiment-js-client': P('experiment-browser/src/index.ts'),
      'dom-mutator': path.join(__dirname, 'demo-mutator.cjs'),
    },
    nodePaths: [path.join(REPO, 'node_modules')], logLevel: 'silent', legalComments: 'none',
    tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, experimentalDecorators: true } },
  });
  return (cache[contents] = r.outputFiles[0].text);
}
const realImmediate = setImmediate;
class Store {
  constructor(map, hook) { this._m = map; this._h = hook; }
  getItem(k) { this._h && this._h('get', k); const v = this._m.get(String(k)); return v === undefined ? null : v; }
  setItem(k, v) { this._h && this._h('set', k, v); this._m.set(String(k), String(v)); }
  removeItem(k) { this._h && this._h('remove', k); this._m.delete(String(k)); }
  get length() { return this._m.size; }
  key(i) { return [...this._m.keys()][i] ?? null; }
}
class World {
  constructor() {
    this.now = 1700000000000; this.timers = []; this.seq = 0; this.requests = [];
    this.local = new Map(); this.session = new Map(); this.cookies = new Map();
    this.fetch = async () => ({ status: 200, body: '{}' });
    this.storageHook = null; this.errors = [];
  }
  // A page load. Timers of the previous page die with it.
  page(source, opts = {}) {
    const w = this;
    const id = (this.pageId = (this.pageId || 0) + 1);
    this.timers = this.timers.filter((t) => t.page === 0);
    const listeners = {};
    const add = (t, f) => (listeners[t] = listeners[t] || []).push(f);
    const rem = (t, f) => { listeners[t] = (listeners[t] || []).filter((x) => x !== f); };
    const url = new URL(opts.url || 'https://www.example.com/');
    const g = {
      console: { log() {}, info() {}, warn() {}, error() {}, debug() {} },
      URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone,
      atob, btoa, navigator: { userAgent: 'Mozilla/5.0 Chrome/120.0', language: 'en-US', languages: ['en-US'] },
      localStorage: new Store(this.local, (o, k, v) => this.storageHook && this.storageHook('local', o, k, v)),
      sessionStorage: new Store(this.session, (o, k, v) => this.storageHook && this.storageHook('session', o, k, v)),
      location: { href: url.href, search: url.search, hostname: url.hostname, pathname: url.pathname, protocol: url.protocol, host: url.host, origin: url.origin, hash: url.hash },
      setTimeout: (f, ms, ...a) => w.timer(id, f, ms, 0, a), clearTimeout: (t) => w.clear(t),
      setInterval: (f, ms, ...a) => w.timer(id, f, ms, 1, a), clearInterval: (t) => w.clear(t),
      addEventListener: add, removeEventListener: rem,
      fetch: async (u, init) => {
        const rec = { url: u, headers: (init && init.headers) || {}, at: w.now, page: id };
        w.requests.push(rec);
        const r = await w.fetch(rec);
        if (w.pageId !== id) return new Promise(() => {});
        return { status: r.status, ok: r.status < 300, text: async () => (typeof r.body === 'function' ? r.body() : r.body), json: async () => JSON.parse(r.body) };
      },
    };
    g.document = {
      referrer: '', get cookie() { return [...w.cookies].map(([k, v]) => `${k}=${v}`).join('; '); },
      set cookie(s) { const [nv] = s.split(';'); const i = nv.indexOf('='); w.cookies.set(nv.slice(0, i), nv.slice(i + 1)); },
      addEventListener: add, removeEventListener: rem, visibilityState: 'visible',
    };
    Object.assign(g, opts.globals || {});
    g.window = g.self = g.globalThis = g;
    g.dispatch = (t, e) => (listeners[t] || []).slice().forEach((f) => f(e || { type: t }));
    const ctx = vm.createContext(g);
    vm.runInContext('Date.now = () => __now(); Math.random = () => 0.5;', Object.assign(ctx, { __now: () => w.now }));
    vm.runInContext(bundle(source) + '\n;globalThis.__demo = __demo;', ctx);
    this.g = ctx;
    return ctx.__demo;
  }
  timer(page, fn, ms, repeat, args) {
    const t = { id: ++this.seq, page, fn, ms: Math.max(1, ms || 0), repeat, args, at: this.now + Math.max(0, ms || 0) };
    this.timers.push(t);
    return t.id;
  }
  sleep(ms) { return new Promise((r) => this.timer(0, r, ms, 0, [])); }
  clear(id) { this.timers = this.timers.filter((t) => t.id !== id); }
  async settle() { for (let i = 0; i < 6; i++) await new Promise((r) => realImmediate(r)); }
  async advance(ms) {
    const end = this.now + ms;
    await this.settle();
    for (;;) {
      const due = this.timers.filter((t) => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!due) break;
      this.now = Math.max(this.now, due.at);
      if (due.repeat) due.at = this.now + due.ms; else this.clear(due.id);
      try { due.fn(...due.args); } catch (e) { this.errors.push(e); }
      await this.settle();
    }
    this.now = end;
  }
}
function sdkSource() {
  return `export * as browser from ${JSON.stringify(P('experiment-browser/src/index.ts'))};
    export * as connector from ${JSON.stringify(P('analytics-connector/src/index.ts'))};
    export * as core from ${JSON.stringify(P('experiment-core/src/index.ts'))};`;
}
function check(cond, message) {
  if (!cond) { console.error('FAILED: ' + message); process.exit(1); }
}
function main(fn) {
  process.on('unhandledRejection', () => {});
  fn().then(() => { console.log('ok'); process.exit(0); }, (e) => { console.error('FAILED:', e); process.exit(1); });
}
module.exports = { World, sdkSource, P, check, main, bundle };
