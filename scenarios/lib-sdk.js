'use strict';
/** Shared helpers for the experiment-browser scenarios. */
const { DOMExceptionSim } = require('../lib/browser');

const b64u = (s) => JSON.parse(Buffer.from(s, 'base64url').toString('utf8'));

function parseReq(req) {
  const u = new URL(req.url);
  const r = { req, id: req.id, path: u.pathname, query: u.searchParams, host: u.host, at: req.sentAt };
  if (u.pathname.endsWith('/sdk/v2/vardata')) r.kind = 'vardata';
  else if (u.pathname.endsWith('/sdk/v2/flags')) r.kind = 'flags';
  else r.kind = 'other';
  const h = req.headers;
  r.auth = h.authorization;
  r.user = h['x-amp-exp-user'] ? b64u(h['x-amp-exp-user']) : undefined;
  r.flagKeys = h['x-amp-exp-flag-keys'] ? b64u(h['x-amp-exp-flag-keys']) : undefined;
  r.track = h['x-amp-exp-track'];
  return r;
}

/** What the SDK is documented to expose for a server variant. */
function expectVariant(sv) {
  const v = {};
  if (sv.key) v.key = sv.key;
  if (sv.value) v.value = sv.value;
  if (sv.payload) v.payload = sv.payload;
  if (sv.metadata && sv.metadata.experimentKey) v.expKey = sv.metadata.experimentKey;
  if (sv.metadata) v.metadata = sv.metadata;
  return v;
}

function canon(x) {
  if (Array.isArray(x)) return '[' + x.map(canon).join(',') + ']';
  if (x && typeof x === 'object')
    return (
      '{' +
      Object.keys(x)
        .filter((k) => x[k] !== undefined)
        .sort()
        .map((k) => JSON.stringify(k) + ':' + canon(x[k]))
        .join(',') +
      '}'
    );
  return JSON.stringify(x) === undefined ? 'undefined' : JSON.stringify(x);
}
const same = (a, b) => canon(a) === canon(b);

/** Network fault mix for one run (swarm style). */
function netMix(w, o) {
  o = o || {};
  const m = { on: w.chance(o.p === undefined ? 0.8 : o.p) };
  if (!m.on) return m;
  const k = () => (w.chance(0.6) ? w.pick([0.05, 0.15, 0.35, 0.7]) : 0);
  m.err = k();
  m.c4 = k();
  m.c429 = k();
  m.c5 = k();
  m.never = k() / 2;
  m.slow = k();
  m.malformed = k() / 2;
  m.body = k() / 3;
  m.head = w.chance(0.4) ? w.pick([0.1, 0.5]) : 0;
  return m;
}

/**
 * Decide what the network does with one request.
 * timeout: the deadline the client is expected to apply (to race it), or 0.
 */
function netPlan(w, mix, okBody, timeout) {
  let delay = w.pick([20, 1, 5, 80, 250, 900]) + w.choose(3);
  const plan = { kind: 'ok', status: 200, body: okBody, delay };
  if (mix.on && !mix.healed) {
    if (w.chance(mix.slow)) {
      const t = timeout || 10000;
      plan.delay = w.pick([t - 1, t + 1, t - 40, t + 300, t * 2, Math.floor(t / 2)]);
      if (plan.delay < 0) plan.delay = 1;
      w.fault('net-slow');
    }
    if (w.chance(mix.err)) {
      plan.kind = 'error';
      w.fault('net-error');
    } else if (w.chance(mix.never)) {
      plan.kind = 'never';
      w.fault('net-never-responds');
    } else if (w.chance(mix.c4)) {
      plan.status = w.pick([400, 401, 403, 404, 413]);
      plan.body = 'client error';
      w.fault('net-4xx');
    } else if (w.chance(mix.c429)) {
      plan.status = 429;
      plan.body = 'slow down';
      w.fault('net-429');
    } else if (w.chance(mix.c5)) {
      plan.status = w.pick([500, 502, 503, 599, 302]);
      plan.body = 'server error';
      w.fault('net-5xx');
    } else if (w.chance(mix.malformed)) {
      plan.body = w.pick(['', '{', '<html>oops</html>', okBody.slice(0, Math.max(1, okBody.length >> 1))]);
      plan.malformed = true;
      w.fault('net-malformed-body');
    } else if (w.chance(mix.body)) {
      plan.bodyError = true;
      w.fault('net-body-interrupted');
    }
  }
  if (timeout && plan.delay === timeout) plan.delay += 1;
  if (mix.on && !mix.healed && mix.head && plan.status === 200 && w.chance(mix.head)) {
    // the headers arrive well before the body completes
    plan.headAt = Math.floor(plan.kind === 'never' ? 30 : plan.delay / 2);
    w.fault('net-body-stalls');
  }
  return plan;
}

/** Is this plan, once delivered in time, a success? */
function planOk(plan) {
  return plan.kind === 'ok' && plan.status === 200 && !plan.malformed && !plan.bodyError;
}
/** Is the failure of this plan one the SDK may retry? (timeouts are handled by the caller) */
function planRetryable(plan) {
  if (plan.kind !== 'ok') return true;
  if (plan.status === 200) return true; // malformed / interrupted
  if (plan.status === 429) return true;
  return plan.status < 400 || plan.status >= 500;
}

/** Track when a promise settles. */
function watch(w, p) {
  const s = { done: false, ok: null, value: undefined, error: undefined, at: null, started: w.now };
  p.then(
    (v) => {
      s.done = true;
      s.ok = true;
      s.value = v;
      s.at = w.now;
    },
    (e) => {
      s.done = true;
      s.ok = false;
      s.error = e;
      s.at = w.now;
    },
  );
  return s;
}

function quota() {
  return new DOMExceptionSim('The quota has been exceeded.', 'QuotaExceededError');
}

const KEYS = ['flag-a', 'flag-b', 'flag-c', 'flag-d'];

/** Server-side variants for one request; values carry the request id so reads are attributable. */
function serverVariants(w, id, keys) {
  const out = {};
  for (const k of KEYS) {
    if (keys && keys.length && !keys.includes(k)) continue;
    const c = w.choose(5);
    if (c === 4) continue; // this flag has no assignment for the user
    const v = { key: c === 3 ? 'off' : 'on', value: `${k}@${id}` };
    if (c === 1) v.payload = { n: id };
    if (c === 2) v.metadata = { experimentKey: `exp-${id}` };
    if (c === 3) v.metadata = { default: true };
    out[k] = v;
  }
  return out;
}

/** Suspend the caller for a chosen while: nothing, a few microtasks, a drain, or some time. */
async function breathe(w, maxMs) {
  const k = w.choose(5);
  if (k === 0) return w.runFor(w.delay(maxMs));
  if (k === 1) return undefined;
  if (k === 2) return w.ticks(1 + w.choose(6));
  if (k === 3) return w.drain();
  return w.runFor(w.choose(40));
}

const SDK_REAL = [
  'experiment-browser (all of src: client, caches, transport, backoff, integration manager, providers)',
  'experiment-core (evaluation engine, APIs, poller)',
  'analytics-connector',
];
const SDK_STUB = [
  'browser globals: timers, Date, Math.random, fetch, localStorage/sessionStorage, cookies, location (simulated)',
  'Amplitude servers (simulated by a scripted server)',
];

module.exports = {
  parseReq,
  expectVariant,
  canon,
  same,
  netMix,
  netPlan,
  planOk,
  planRetryable,
  watch,
  quota,
  KEYS,
  serverVariants,
  breathe,
  SDK_REAL,
  SDK_STUB,
};
