'use strict';
/**
 * The simulator core: one World = one simulated execution.
 *
 *  - every nondeterministic decision is drawn from ONE recorded choice stream
 *    (World.choose); in exploration it comes from a seeded PRNG, in replay and
 *    shrinking from a list of integers.  0 is always the simplest choice (no
 *    fault, no delay, first event, stop).
 *  - time is virtual: a queue of (time, lane, seq) events; ties between lanes
 *    are broken by a choice; all microtasks are drained between two events.
 *  - nothing here reads a real clock or real randomness.
 */
const realSetImmediate = setImmediate;

class Violation extends Error {
  constructor(cls, message) {
    super(message);
    this.name = 'Violation';
    this.cls = cls;
  }
}

/** xorshift128+ style PRNG on 32-bit lanes (sfc32), seeded through splitmix32. */
function makePrng(seed) {
  let s = seed >>> 0;
  const hi = Math.floor(seed / 4294967296) >>> 0;
  const sm = () => {
    s = (s + 0x9e3779b9) | 0;
    let t = s ^ (s >>> 16);
    t = Math.imul(t, 0x21f0aaad);
    t ^= t >>> 15;
    t = Math.imul(t, 0x735a2d97);
    return (t ^ (t >>> 15)) >>> 0;
  };
  let a = sm() ^ hi,
    b = sm(),
    c = sm(),
    d = 1;
  const next = () => {
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0;
    a = b ^ (b >>> 9);
    b = (c + (c << 3)) | 0;
    c = (c << 21) | (c >>> 11);
    c = (c + t) | 0;
    return (t >>> 0) / 4294967296;
  };
  for (let i = 0; i < 12; i++) next();
  return next;
}

function hashStr(h, str) {
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  h ^= 0x0a;
  return Math.imul(h, 0x01000193) >>> 0;
}

const BASE_EPOCH = Date.UTC(2025, 2, 10, 9, 0, 0); // an arbitrary Monday

class World {
  constructor(opts) {
    this.seed = opts.seed;
    this.replay = opts.choices || null;
    this.rand = this.replay ? null : makePrng(opts.seed);
    this.choices = [];
    this.ci = 0;
    this.tier = opts.tier || 'quick';
    this.now = BASE_EPOCH;
    this.startTime = this.now;
    this.seq = 0;
    this.queue = [];
    this.steps = 0;
    this.maxSteps = opts.maxSteps || 20000;
    this.digest = 0x811c9dc5;
    this.shape = 0x811c9dc5;
    this.trace = [];
    this.keepTrace = opts.keepTrace !== false;
    this.faults = {};
    this.probes = {};
    this.ops = {};
    this.violation = null;
    this.known = {};
    this.pages = [];
    // A hook which fails on what the code under test gave it would go unnoticed
    // when that code catches everything: it is reported as a violation.
    this.hooks = new Proxy(
      {},
      {
        set: (o, name, fn) => {
          o[name] =
            typeof fn !== 'function' || name === 'afterStep' || name === 'pageError'
              ? fn
              : (...args) => {
                  try {
                    return fn(...args);
                  } catch (e) {
                    if (e instanceof TypeError || e instanceof RangeError || e instanceof SyntaxError)
                      this.flag('malformed-' + name, `the ${name} peer cannot make sense of what it was given: ${e.stack}`);
                    throw e;
                  }
                };
          return true;
        },
      },
    );
    this.nontrivial = 0;
    this.logSuppressed = false;
    this.mutationsPending = new Set();
    this.pageErrors = [];
  }

  // ---------------------------------------------------------------- choices
  /** Integer in [0, n). 0 is the simplest choice. */
  choose(n) {
    if (n <= 1) return 0;
    let v;
    if (this.replay) {
      v = this.ci < this.replay.length ? this.replay[this.ci] : 0;
      if (v >= n) v = n - 1;
      if (v < 0) v = 0;
    } else {
      v = Math.floor(this.rand() * n);
    }
    this.ci++;
    this.choices.push(v);
    return v;
  }
  /** true with probability p (false is the simple choice). */
  chance(p) {
    if (p <= 0) return false;
    let v;
    if (this.replay) {
      v = this.ci < this.replay.length ? (this.replay[this.ci] ? 1 : 0) : 0;
    } else {
      v = this.rand() < p ? 1 : 0;
    }
    this.ci++;
    this.choices.push(v);
    return v === 1;
  }
  int(lo, hi) {
    return lo + this.choose(hi - lo + 1);
  }
  pick(arr) {
    return arr[this.choose(arr.length)];
  }
  /** Weighted pick of [[weight, value], ...]; index 0 is the simple choice. */
  weighted(pairs) {
    let v;
    if (this.replay) {
      v = this.ci < this.replay.length ? this.replay[this.ci] : 0;
      if (v >= pairs.length) v = pairs.length - 1;
    } else {
      let total = 0;
      for (const p of pairs) total += p[0];
      let r = this.rand() * total;
      v = 0;
      for (; v < pairs.length - 1; v++) {
        r -= pairs[v][0];
        if (r < 0) break;
      }
    }
    // never land on a zero-weight alternative when replaying lowered choices
    if (pairs[v][0] <= 0) v = pairs.findIndex((p) => p[0] > 0);
    this.ci++;
    this.choices.push(v);
    return pairs[v][1];
  }
  /** A delay: mostly drawn from a few magnitudes so that ties and races occur. */
  delay(maxMs) {
    const k = this.choose(6);
    if (k === 0) return 0;
    if (k === 1) return this.choose(Math.min(5, maxMs + 1));
    if (k === 2) return this.choose(Math.min(60, maxMs + 1));
    if (k === 3) return this.choose(Math.min(700, maxMs + 1));
    if (k === 4) return this.choose(Math.min(5000, maxMs + 1));
    return this.choose(maxMs + 1);
  }

  // ---------------------------------------------------------------- logging
  log(kind, detail) {
    this.shape = hashStr(this.shape, kind);
    const line = `${this.now - this.startTime} ${kind}${
      detail === undefined ? '' : ' ' + detail
    }`;
    this.digest = hashStr(this.digest, line);
    if (this.keepTrace && this.trace.length < 4000) this.trace.push(line);
  }
  fault(kind) {
    this.faults[kind] = (this.faults[kind] || 0) + 1;
    this.nontrivial++;
    this.log('FAULT:' + kind);
  }
  probe(name) {
    this.probes[name] = (this.probes[name] || 0) + 1;
  }
  op(name, detail) {
    this.ops[name] = (this.ops[name] || 0) + 1;
    this.log('op:' + name, detail);
  }
  fail(cls, message) {
    if (!this.violation) {
      this.violation = { cls, message: String(message), at: this.now - this.startTime };
      this.log('VIOLATION', cls + ': ' + message);
    }
    throw new Violation(cls, message);
  }
  /** Record a violation without throwing (for use inside callbacks of the code under test). */
  flag(cls, message) {
    if (!this.violation) {
      this.violation = { cls, message: String(message), at: this.now - this.startTime };
      this.log('VIOLATION', cls + ': ' + message);
    }
  }
  check(cond, cls, message) {
    if (!cond) this.fail(cls, typeof message === 'function' ? message() : message);
  }

  // ------------------------------------------------------------------- time
  schedule(delayMs, fn, o) {
    const ev = {
      time: this.now + Math.max(0, delayMs),
      seq: ++this.seq,
      fn,
      page: (o && o.page) || null,
      lane: (o && o.lane) || 'w',
      label: (o && o.label) || '',
      cancelled: false,
    };
    this.queue.push(ev);
    return ev;
  }
  cancel(ev) {
    if (!ev) return;
    ev.cancelled = true;
    const i = this.queue.indexOf(ev);
    if (i >= 0) this.queue.splice(i, 1);
  }
  pending() {
    return this.queue.length;
  }
  nextTime() {
    let best = Infinity;
    for (const ev of this.queue) {
      let t = ev.time;
      if (ev.page && ev.page.stallUntil > t) t = ev.page.stallUntil;
      if (t < best) best = t;
    }
    return best;
  }
  drain() {
    if (this.mutationsPending.size) this.deliverMutations();
    return new Promise((r) => realSetImmediate(r)).then(() =>
      this.mutationsPending.size ? this.drain() : undefined,
    );
  }
  deliverMutations() {
    const list = [...this.mutationsPending];
    this.mutationsPending.clear();
    for (const m of list) m.deliver();
  }
  /** Run one event, the earliest; ties between lanes are a choice. */
  async step(limit) {
    let t = this.nextTime();
    if (t === Infinity || t > limit) return false;
    const heads = new Map();
    for (const ev of this.queue) {
      let et = ev.time;
      if (ev.page && ev.page.stallUntil > et) et = ev.page.stallUntil;
      if (et !== t) continue;
      const lane = ev.lane;
      const cur = heads.get(lane);
      if (!cur || ev.time < cur.time || (ev.time === cur.time && ev.seq < cur.seq)) heads.set(lane, ev);
    }
    const list = [...heads.values()].sort((a, b) => a.seq - b.seq);
    const ev = list.length > 1 ? list[this.choose(list.length)] : list[0];
    this.queue.splice(this.queue.indexOf(ev), 1);
    if (t > this.now) this.now = t;
    if (++this.steps > this.maxSteps) {
      this.fail('step-budget', `no quiescence after ${this.maxSteps} events`);
    }
    if (ev.page && !ev.page.alive) return true;
    if (ev.label) this.log('ev:' + ev.label);
    try {
      ev.fn();
    } catch (e) {
      this.pageError(ev.page, e);
    }
    await this.drain();
    if (this.violation) throw new Violation(this.violation.cls, this.violation.message);
    if (this.hooks.afterStep) {
      this.hooks.afterStep();
      if (this.violation) throw new Violation(this.violation.cls, this.violation.message);
    }
    return true;
  }
  async runUntil(t) {
    await this.drain();
    while (await this.step(t));
    if (t > this.now && t !== Infinity) this.now = t;
  }
  runFor(ms) {
    return this.runUntil(this.now + ms);
  }
  /** k microtask turns, without letting any event run. */
  async ticks(k) {
    for (let i = 0; i < k; i++) await Promise.resolve();
  }
  pageError(page, e) {
    if (e instanceof Violation) throw e;
    const msg = (e && (e.stack || e.message)) || String(e);
    const first = String((e && e.message) || e).split('\n')[0];
    this.pageErrors.push({ page, e, msg: first, stack: msg });
    this.log('PAGEERROR', first);
    if (this.hooks.pageError) this.hooks.pageError(page, e);
  }
}

/** A date constructor for one clock. */
const RealDate = Date;
function makeDate(nowFn) {
  class SimDate extends RealDate {
    constructor(...a) {
      if (a.length === 0) super(nowFn());
      else super(...a);
    }
    static now() {
      return nowFn();
    }
  }
  function DateCtor(...a) {
    if (!new.target) return new SimDate().toString();
    return Reflect.construct(SimDate, a, new.target === DateCtor ? SimDate : new.target);
  }
  DateCtor.now = SimDate.now;
  DateCtor.UTC = RealDate.UTC;
  DateCtor.parse = RealDate.parse;
  DateCtor.prototype = SimDate.prototype;
  return DateCtor;
}

module.exports = { World, Violation, makePrng, hashStr, makeDate, BASE_EPOCH };
