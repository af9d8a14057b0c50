'use strict';
/** Page objects: random sites, user actions, and a reference model of every trigger. */
const T = require('./lib-tag');

const SELECTORS = ['#e0', '#e1', '.c0', '.c1', '.box .c1', '#box', '.k'];
const URLS = ['/', '/a', '/b', '/a?q=1', '/a/b', '/a#top', '/#/b'];
const ALL_TYPES = ['url_change', 'manual', 'analytics_event', 'element_appeared', 'element_visible', 'exit_intent', 'user_interaction', 'time_on_page', 'scrolled_to'];

function genTrigger(w, type) {
  switch (type) {
    case 'manual':
      return { name: w.pick(['m1', 'm2']) };
    case 'analytics_event':
      return [[{ op: 'is', selector: ['context', 'data', 'event'], values: [w.pick(['view', 'buy'])] }].concat(w.chance(0.3) ? [{ op: 'is', selector: ['context', 'data', 'properties', 'plan'], values: ['pro'] }] : [])];
    case 'element_appeared':
      return { selector: w.pick(SELECTORS) };
    case 'element_visible':
      return { selector: w.pick(SELECTORS), visibilityRatio: w.pick([0.5, 0, 1]) };
    case 'exit_intent':
      return w.pick([{}, { minTimeOnPageMs: 2000 }, { minTimeOnPageMs: 5000 }, { minTimeOnPageMs: 0 }]);
    case 'user_interaction':
      return { selector: w.pick(SELECTORS), interactionType: w.pick(['click', 'hover', 'focus']), ...w.pick([{}, { minThresholdMs: 500 }, { minThresholdMs: 2000 }]) };
    case 'time_on_page':
      return { durationMs: w.pick([1000, 3000, 7000]) };
    case 'scrolled_to':
      return w.chance(0.5) ? { mode: 'percent', percentage: w.pick([50, 90]) } : { mode: 'element', selector: w.pick(SELECTORS), ...w.pick([{}, { offsetPx: 200 }]) };
    default:
      return {};
  }
}
const CONDS = { any: T.TRUE_COND, none: [], a: T.urlCond('/a'), b: T.urlCond('/b') };
const condHolds = { any: () => true, none: () => true, a: (u) => u.includes('/a'), b: (u) => u.includes('/b') };

/** pages: flagKey -> pageId -> page object; list: [{flag, id, type, value, cond}] */
function genPages(w, flagKeys, o) {
  const pages = {};
  const list = [];
  const types = (o && o.types) || ALL_TYPES;
  let n = 0;
  for (const f of flagKeys) {
    pages[f] = {};
    for (let i = w.int(1, (o && o.max) || 3); i > 0; i--) {
      if (list.length && w.chance(0.12)) {
        const p = w.pick(list);
        if (!pages[f][p.id]) {
          pages[f][p.id] = T.pageObj(p.id, p.type, p.value, CONDS[p.cond]);
          list.push({ ...p, flag: f });
        }
        continue;
      }
      const type = w.pick(types);
      const p = { flag: f, id: `p${++n}`, type, value: genTrigger(w, type), cond: w.weighted([[4, 'any'], [1, 'none'], [2, 'a'], [2, 'b']]) };
      pages[f][p.id] = T.pageObj(p.id, type, p.value, CONDS[p.cond]);
      list.push(p);
    }
  }
  return { pages, list };
}

/**
 * What the visitor and the site do on a page, and when each trigger must / may
 * have fired since the last URL change.
 */
class Visit {
  constructor(w, page, list) {
    Object.assign(this, { w, page, list });
    const d = page.g.document;
    this.d = d;
    this.box = d.createElement('div');
    this.box.setAttribute('id', 'box');
    this.box.setAttribute('class', 'box k');
    this.els = [];
    for (let i = 0; i < 4; i++) {
      const e = d.createElement('div');
      e.setAttribute('id', `e${i}`);
      e.setAttribute('class', w.pick(['c0', 'c1', 'c0 c1', 'x', 'c0 k']));
      e._below = 400;
      const s = d.createElement('span');
      e.appendChild(s);
      this.els.push(e);
    }
    this.box._below = 400;
    if (w.chance(0.6)) d.body.appendChild(this.box);
    for (const e of this.els) if (w.chance(0.4)) this.attach(e);
    if (w.chance(0.15)) this.setHidden(true);
    this.focused = null;
    this.hovered = null;
    this.hoverStart = new Map(); // element -> {at, epoch}
    this.focusStart = new Map();
    this.lastOp = w.now;
    this.epoch = -1;
    this.initAt = null;
    this.visibleSince = d.hidden ? null : w.now;
  }
  setHidden(h) {
    this.d.hidden = h;
    this.d.visibilityState = h ? 'hidden' : 'visible';
  }
  attach(e) {
    (this.box.isConnected && this.w.chance(0.5) ? this.box : this.d.body).appendChild(e);
  }
  /** a new URL takes effect */
  begin() {
    this.epoch++;
    this.t0 = this.w.now;
    this.manual = new Set();
    this.watched = new Map();
    this.must = new Set(); // triggers known to have fired, sticky for the epoch
    this.may = new Set();
    this.clicks = []; // {selector, at}
    // intervals {el, kind, from, epoch, to}; those still going on may count here too
    this.hovers = (this.hovers || []).filter((h) => h.to === undefined);
    this.exits = []; // elapsed ms
    this.events = [];
    this.maxScroll = this.scrollPct();
    this.scrolledAt = null;
    // visibility intervals of the document since the epoch began
    this.visibleSince = this.d.hidden ? null : this.w.now;
    this.longestVisible = 0;
    this.lastOp = this.w.now;
    this.observeNow();
  }
  scrollPct() {
    return (this.page.g.scrollY / (this.d.documentElement.scrollHeight - this.page.g.innerHeight)) * 100;
  }
  /** instantaneous facts */
  shown(sel) {
    return this.d.querySelectorAll(sel).some((e) => {
      const s = this.page.g.getComputedStyle(e);
      return s.display !== 'none' && s.visibility !== 'hidden';
    });
  }
  inView(sel, ratio, els) {
    return (els || this.d.querySelectorAll(sel)).some((e) => this.page.displayed(e) && (ratio ? (e._vis || 0) >= ratio : (e._vis || 0) > 0 || e._edge === true));
  }
  reached(sel, off, els) {
    return (els || this.d.querySelectorAll(sel)).some((e) => this.page.displayed(e) && ((e._vis || 0) > 0 || e._edge === true || (off > 0 && e._below !== undefined && e._below <= off)));
  }
  id(p) {
    return `${p.type} ${JSON.stringify(p.value)}`;
  }
  /** record what may have been noticed at this instant */
  observeNow() {
    // an element that matched the selector stays watched when its class changes
    for (const s of SELECTORS) {
      if (!this.watched.has(s)) this.watched.set(s, new Set());
      for (const e of this.d.querySelectorAll(s)) this.watched.get(s).add(e);
    }
    const els = (s) => [...this.watched.get(s)].filter((e) => e.isConnected);
    for (const p of this.list) {
      const v = p.value;
      if (p.type === 'element_appeared' && this.shown(v.selector)) this.may.add(this.id(p));
      if (p.type === 'element_visible' && this.inView(v.selector, v.visibilityRatio, els(v.selector))) this.may.add(this.id(p));
      if (p.type === 'scrolled_to' && v.mode === 'element' && this.reached(v.selector, v.offsetPx || 0, els(v.selector))) this.may.add(this.id(p));
    }
    const y = this.scrollPct();
    if (y > this.maxScroll) this.maxScroll = y;
  }
  /** the page has been still for long enough: what holds now must have been noticed */
  settled() {
    for (const p of this.list) {
      const v = p.value;
      if (p.type === 'element_appeared' && this.shown(v.selector)) this.must.add(this.id(p));
      if (p.type === 'scrolled_to' && v.mode === 'element' && this.reached(v.selector, v.offsetPx || 0)) this.must.add(this.id(p));
      if (p.type === 'scrolled_to' && v.mode === 'percent' && this.scrolledAt !== null && this.scrollPct() >= v.percentage) this.must.add(this.id(p));
    }
  }
  hoverHits(v, strict) {
    const T0 = v.minThresholdMs || 0;
    return this.hovers.some((h) => {
      if (h.kind !== v.interactionType || h.selector !== v.selector) return false;
      const to = h.to === undefined ? this.w.now : h.to;
      if (!strict) return this.w.now - h.from >= T0 && (h.lost || to - h.from >= T0);
      return !h.lost && h.epoch === this.epoch && (T0 ? to - h.from > T0 : true);
    });
  }
  /** 'yes' | 'no' | 'either' for one page object; still: the page is quiet */
  expect(p, still) {
    if (!condHolds[p.cond](this.page.url.href)) return 'no';
    const v = p.value;
    const now = this.w.now;
    let must = false;
    let may = true;
    switch (p.type) {
      case 'url_change':
        must = may = true;
        break;
      case 'manual':
        must = may = this.manual.has(v.name);
        break;
      case 'analytics_event': {
        const [ev, prop] = v[0];
        must = may = this.events.some((e) => e.type === ev.values[0] && (!prop || e.plan === prop.values[0]));
        break;
      }
      case 'element_appeared':
        must = this.must.has(this.id(p));
        may = must || this.may.has(this.id(p));
        break;
      case 'element_visible':
        may = this.may.has(this.id(p));
        must = still && this.inView(v.selector, v.visibilityRatio);
        break;
      case 'exit_intent': {
        const min = v.minTimeOnPageMs || 0;
        must = this.exits.some((e) => e > min || min === 0);
        may = this.exits.some((e) => e >= min);
        break;
      }
      case 'user_interaction': {
        const t = v.minThresholdMs || 0;
        if (v.interactionType === 'click') {
          must = this.clicks.some((c) => c.selector === v.selector && (t ? now - c.at > t : true));
          may = this.clicks.some((c) => c.selector === v.selector && now - c.at >= t);
        } else {
          must = this.hoverHits(v, true);
          may = this.hoverHits(v, false);
        }
        break;
      }
      case 'time_on_page': {
        const cur = this.visibleSince === null ? 0 : now - this.visibleSince;
        must = Math.max(cur, this.longestVisible) > v.durationMs;
        may = Math.max(cur, this.longestVisible) >= v.durationMs;
        break;
      }
      case 'scrolled_to':
        if (v.mode === 'percent') {
          must = this.must.has(this.id(p));
          may = this.maxScroll >= v.percentage;
        } else {
          must = this.must.has(this.id(p));
          may = must || this.may.has(this.id(p));
        }
        break;
    }
    return must ? 'yes' : may ? 'either' : 'no';
  }

  // ------------------------------------------------------------- user actions
  op(name, detail) {
    this.w.op(name, detail);
    this.lastOp = this.w.now;
  }
  sels() {
    return [...new Set(this.list.filter((p) => p.type === 'user_interaction').map((p) => p.value.selector))];
  }
  target() {
    const live = this.els.filter((e) => e.isConnected);
    if (this.box.isConnected) live.push(this.box);
    if (!live.length) return null;
    const e = this.w.pick(live);
    return e.firstElementChild && e !== this.box && this.w.chance(0.4) ? e.firstElementChild : e;
  }
  click() {
    const t = this.target();
    if (!t) return;
    this.op('click', t.id || t.parentNode.id + ' span');
    for (const s of this.sels()) if (t.closest(s)) this.clicks.push({ selector: s, at: this.w.now });
    t.dispatchEvent(T.ev('click', { cancelable: true }));
  }
  /** move the pointer (or the focus) to another element, or away */
  move(kind) {
    const cur = kind === 'hover' ? this.hovered : this.focused;
    let next = this.w.chance(0.25) ? null : this.target();
    if (next === cur) next = null;
    this.op(kind, next ? next.id || next.parentNode.id + ' span' : 'away');
    const [start, end] = kind === 'hover' ? ['mouseover', 'mouseout'] : ['focusin', 'focusout'];
    const map = kind === 'hover' ? this.hoverStart : this.focusStart;
    // which elements stop / start being under the pointer
    for (const [k, h] of [...map]) {
      if (!next || !h.el.contains(next)) {
        // no event is sent to an element that has left the document
        if (cur && cur.isConnected) h.to = this.w.now;
        else h.lost = true;
        map.delete(k);
      }
    }
    if (next)
      for (const s of this.sels()) {
        const el = next.closest(s);
        const k = `${s} ${el && el.id}`;
        if (el && !map.has(k)) {
          const h = { kind, selector: s, el, from: this.w.now, epoch: this.epoch };
          map.set(k, h);
          this.hovers.push(h);
        } else if (el && map.get(k).epoch !== this.epoch) {
          // still there since before the URL changed: entering a child counts anew
          this.hovers.push(map.get(k));
        }
      }
    if (kind === 'hover') this.hovered = next;
    else this.focused = next;
    if (cur && cur.isConnected) cur.dispatchEvent(T.ev(end, { relatedTarget: next }));
    if (next) next.dispatchEvent(T.ev(start, { relatedTarget: cur && cur.isConnected ? cur : null }));
  }
  exit() {
    const y = this.w.pick([10, 400]);
    const rel = this.w.chance(0.2) ? this.d.body : null;
    this.op('mouseleave', `${y} ${rel ? 'to body' : 'out'}`);
    if (y <= 50 && !rel && this.installed()) this.exits.push(this.w.now - this.t0);
    this.d.dispatchEvent(T.ev('mouseleave', { bubbles: false, clientY: y, relatedTarget: rel }));
  }
  installed() {
    return true;
  }
  hideShow() {
    const h = !this.d.hidden;
    this.op(h ? 'hide' : 'show');
    if (h) {
      if (this.visibleSince !== null) this.longestVisible = Math.max(this.longestVisible, this.w.now - this.visibleSince);
      this.visibleSince = null;
    } else this.visibleSince = this.w.now;
    this.setHidden(h);
    this.d.dispatchEvent(T.ev('visibilitychange'));
  }
  scroll() {
    const max = this.d.documentElement.scrollHeight - this.page.g.innerHeight;
    const cur = this.page.g.scrollY;
    const y = Math.max(0, Math.min(max, this.w.chance(0.4) ? cur + this.w.pick([10, 40, 120, -30]) : this.w.pick([0, 600, 1000, 1090, 1200, 1900, 1970, 2000, 3000])));
    this.op('scroll', y);
    this.page.g.scrollY = y;
    this.scrolledAt = this.w.now;
    this.observeNow();
    this.page.g.dispatchEvent(T.ev('scroll'));
  }
  layout() {
    const e = this.w.pick([...this.els, this.box]);
    const [vis, below, edge] = this.w.pick([[0.6, undefined], [0, 400], [0.3, undefined], [1, undefined], [0, 150], [0, 0, true]]);
    this.op('layout', `${e.id} vis=${vis} below=${below}${edge ? ' edge' : ''}`);
    e._vis = vis;
    e._below = below;
    e._edge = edge === true;
    this.page.layoutChanged();
    this.observeNow();
  }
  dom() {
    const e = this.w.pick(this.els);
    const k = this.w.pick(['toggle', 'display', 'class', 'box', 'boxvis']);
    this.op('dom', `${k} ${e.id}`);
    if (k === 'toggle') {
      if (e.isConnected) e.remove();
      else this.attach(e);
    } else if (k === 'display') e.style.display = e.style.display === 'none' ? '' : 'none';
    else if (k === 'class') e.setAttribute('class', this.w.pick(['c0', 'c1', 'c0 c1', 'x', 'c0 k']));
    else if (k === 'box') {
      if (this.box.isConnected) this.box.remove();
      else this.d.body.appendChild(this.box);
    } else this.box.style.visibility = this.box.style.visibility === 'hidden' ? '' : 'hidden';
    this.page.layoutChanged();
    this.observeNow();
  }
}

module.exports = { SELECTORS, URLS, ALL_TYPES, CONDS, condHolds, genPages, genTrigger, Visit };
