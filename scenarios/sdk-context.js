'use strict';
const L = require('./lib-sdk');

const API = 'client-deadbeef01';
const UAS = [
  ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', 'Chrome', 'Chrome 120', 'Windows', 'desktop'],
  ['Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.0 Mobile/15E148 Safari/604.1', 'Safari', 'Mobile Safari 17', 'iOS', 'mobile'],
  ['Mozilla/5.0 (X11; Linux x86_64; rv:121.0) Gecko/20100101 Firefox/121.0', 'Firefox', 'Firefox 121', 'Linux', 'desktop'],
  ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/120.0.0.0', 'Edge', 'Edge 120', 'Windows', 'desktop'],
  ['Mozilla/5.0 (iPad; CPU OS 17_0 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) CriOS/120.0.0.0 Mobile/15E148 Safari/604.1', 'Chrome', 'Chrome 120', 'iOS', 'tablet'],
  ['Mozilla/5.0 (Linux; Android 14; SM-G998B) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/119.0.0.0 Mobile Safari/537.36 OPR/76.0.0.0', 'Opera', 'Opera 76', 'Android', 'mobile'],
  ['Mozilla/5.0 (Linux; Android 14; Pixel 8; wv) AppleWebKit/537.36 (KHTML, like Gecko) Version/4.0 Chrome/119.0.0.0 Mobile Safari/537.36', 'Chrome', 'Chrome WebView 119', 'Android', 'mobile'],
  ['Mozilla/5.0 (X11; Ubuntu; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Ubuntu Chromium/80.0.3987.87 Chrome/80.0.3987.87 Safari/537.36', 'Chrome', 'Chromium 80', 'Ubuntu', 'desktop'],
];

/** MurmurHash3 x86 32, written from its published description over the UTF-8 bytes. */
function murmur(str) {
  const b = Buffer.from(str, 'utf8');
  let h = 0;
  const mixK = (k) => Math.imul(((k = Math.imul(k, 0xcc9e2d51)) << 15) | (k >>> 17), 0x1b873593);
  let i = 0;
  for (; i + 4 <= b.length; i += 4) {
    h ^= mixK(b.readInt32LE(i));
    h = ((h << 13) | (h >>> 19)) >>> 0;
    h = (Math.imul(h, 5) + 0xe6546b64) | 0;
  }
  let k = 0;
  for (let j = b.length - 1; j >= i; j--) k = (k << 8) | b[j];
  if (i < b.length) h ^= mixK(k);
  h ^= b.length;
  h = Math.imul(h ^ (h >>> 16), 0x85ebca6b);
  h = Math.imul(h ^ (h >>> 13), 0xc2b2ae35);
  return (h ^ (h >>> 16)) >>> 0;
}

// ---------------------------------------------------------------------------
/** B11: locally evaluated flags target the visitor, groups and page of the moment. */
async function b11(w) {
  const ids = ['u-1', 'u-2', 'zoë', '用户-7', '🙂u', 'a', 'user@example.com'];
  const withProvider = w.chance(0.5);
  const integMode = w.pick(['none', 'none', 'now', 'late']);
  const genUser = (o) => {
    const u = {};
    for (const [k, vals] of [
      ['user_id', ids],
      ['device_id', ids],
      ['country', ['nl', 'us']],
      ['language', ['fr', 'de']],
      ['platform', ['TV']],
      ['version', ['1.2.3', '1.10.0', '1.2', '2.0.0-beta', '2.0.0', '1.2.3-alpha.1', 'nightly']],
    ]) {
      const c = w.choose(4);
      if (c === 1 || c === 2) u[k] = w.pick(vals);
      else if (c === 3 && w.chance(0.4)) u[k] = w.pick([undefined, null]);
    }
    if (w.chance(0.6)) {
      u.user_properties = {};
      for (const [k, vals] of [
        ['plan', ['pro', 'free']],
        ['age', [17, 18, 40]],
        ['beta', [true, false]],
        ['tags', [['x', 'y'], ['z'], []]],
        ['cart', [{ n: 2, of: 'socks' }, { n: 3 }, {}]],
        ['list', ['["x","y"]', '["z"]', '[]', '[oops', ['x', 'z']]], // as a string, too
      ])
        if (w.chance(0.5)) u.user_properties[k] = w.pick(vals);
    }
    if (o.groups && w.chance(0.5)) {
      u.groups = {};
      if (w.chance(0.7)) u.groups.org = w.pick([['acme'], ['globex', 'acme'], []]);
      if (w.chance(0.3)) u.groups.team = [w.pick(['blue', 'red'])];
      if (w.chance(0.7))
        u.group_properties = { org: { acme: { tier: w.pick(['gold', 'iron']) }, ...(w.chance(0.5) ? { globex: { tier: 'tin' } } : {}) } };
    }
    return u;
  };
  const clone = (x) => (x === undefined ? x : structuredClone(x));
  const keep = (x) => Object.fromEntries(Object.entries(x || {}).filter((e) => e[1] !== undefined && e[1] !== null));
  let prov = genUser({ groups: true });
  let integ = genUser({});
  let explicit;
  let page, client, ua;
  const tab = w.browser.newTab();
  const cookies = {};
  let referrer = '';
  /** the context the flags are documented to be evaluated with, at this moment */
  const context = () => {
    const p = withProvider ? prov : {};
    const g = integMode === 'none' ? {} : integ;
    const params = {};
    for (const [n, v] of page.url.searchParams) {
      const vs = v.split(',');
      params[n] = params[n] === undefined ? vs : params[n].concat(vs);
    }
    for (const n of Object.keys(params)) if (params[n].length === 1) params[n] = params[n][0];
    const user = {
      language: ua.lang || '',
      platform: 'Web',
      browser: ua[1],
      os: ua[2],
      device_model: ua[3],
      device_category: ua[4],
      user_agent: ua[0],
      referring_url: referrer.replace(/\/$/, ''),
      cookie: Object.keys(cookies).length ? cookies : undefined,
      url_param: params,
      ...keep(p),
      ...keep(g),
      ...keep(explicit),
      user_properties: { ...keep(p).user_properties, ...keep(g).user_properties, ...keep(explicit).user_properties },
    };
    const groups = {};
    for (const t of Object.keys(user.groups || {})) {
      const name = user.groups[t][0];
      if (!name) continue;
      groups[t] = { group_name: name };
      const gp = ((user.group_properties || {})[t] || {})[name];
      if (gp) groups[t].group_properties = gp;
    }
    return { user, page: { url: page.url.href }, groups };
  };
  const SELECT = [
    [['user', 'user_id'], ids],
    [['user', 'device_id'], ids],
    [['user', 'country'], ['nl', 'us']],
    [['user', 'language'], ['fr', 'de', 'en-US', 'nl-NL']],
    [['user', 'platform'], ['Web', 'TV']],
    [['user', 'browser'], ['Chrome', 'Safari', 'Firefox', 'Edge', 'Opera']],
    [['user', 'os'], ['Chrome 120', 'Firefox 121', 'Mobile Safari 17', 'Edge 120', 'Opera 76']],
    [['user', 'device_model'], ['Windows', 'iOS', 'Linux', 'Android']],
    [['user', 'device_category'], ['desktop', 'mobile', 'tablet']],
    [['user', 'user_agent'], [UAS[0][0], UAS[2][0]]],
    [['user', 'referring_url'], ['https://ref.com', 'https://ref.com/x']],
    [['user', 'cookie', 'seg'], ['vip', 'a=b', 'YQ==']],
    [['user', 'cookie', 'ab'], ['1']],
    [['user', 'url_param', 'utm'], ['mail', 'ads', 'a b']],
    [['user', 'user_properties', 'plan'], ['pro', 'free']],
    [['user', 'user_properties', 'age'], ['17', '18', '40']],
    [['user', 'user_properties', 'beta'], ['true', 'false']],
    [['user', 'user_properties', 'tags'], ['x', 'z', 'y']],
    [['user', 'user_properties', 'list'], ['x', 'z', 'y']],
    [['user', 'user_properties', 'cart'], ['{"n":2,"of":"socks"}', '{"n":3}', 'socks']],
    [['user', 'user_properties', 'cart', 'n'], ['2', '3']],
    [['user', 'user_properties', 'cart', 'of'], ['socks', '(none)']],
    [['user', 'version'], ['1.2.3', '1.9.0', '1.2', '2.0.0', '2.0.0-alpha', '0.9', '2.0.0-rc', '1.2.3-alpha.1', '1.2.3-alpha', 'latest']],
    [['page', 'url'], ['https://www.shop.com/', 'https://www.shop.com/p?utm=mail', '/p']],
    [['groups', 'org', 'group_name'], ['acme', 'globex']],
    [['groups', 'org', 'group_properties', 'tier'], ['gold', 'iron', 'tin']],
    [['groups', 'team', 'group_name'], ['blue']],
  ];
  const get = (ctx, sel) => sel.reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), ctx);
  const str = (v) => (typeof v === 'string' ? v : typeof v === 'object' ? JSON.stringify(v) : String(v));
  const NONE_POSITIVE = ['is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'set is', 'set contains', 'set contains any'];
  const NONE_NEGATIVE = ['is not', 'does not contain', 'set does not contain', 'set does not contain any'];
  const OPS = {
    any: ['is', 'is', 'is not', 'contains', 'does not contain', 'regex match', 'regex does not match'],
    age: ['is', 'is not', 'less', 'less or equal', 'greater', 'greater or equal'],
    tags: ['set is', 'set is not', 'set contains', 'set does not contain', 'set contains any', 'set does not contain any', 'is', 'is not'],
    version: ['is', 'is not', 'version less', 'version less or equal', 'version greater', 'version greater or equal'],
  };
  OPS.list = OPS.tags;
  /** <0, 0, >0: major, minor, patch, then a pre-release before its release */
  const versions = (a, b) => {
    const parse = (v) => {
      if (!/^\d+\.\d+/.test(v)) return undefined;
      const [core, ...pre] = v.split('-');
      const n = core.split('.').map(Number);
      return [n[0], n[1], n[2] || 0, pre.length ? 0 : 1, pre.join('-')];
    };
    const x = parse(a), y = parse(b);
    if (!x || !y) return NaN;
    for (let i = 0; i < 4; i++) if (x[i] !== y[i]) return x[i] - y[i];
    return x[4] < y[4] ? -1 : x[4] > y[4] ? 1 : 0;
  };
  const ordered = (op, d) => (op.endsWith('less') ? d < 0 : op.endsWith('less or equal') ? d <= 0 : op.endsWith('greater') ? d > 0 : d >= 0);
  /** reference semantics of the operators */
  const cond = (ctx, c, res) => {
    const v = c.selector[0] === 'result' ? get(res, c.selector.slice(1)) : get(ctx, c.selector.slice(1));
    const none = c.values.includes('(none)');
    if (v === undefined || v === null) return NONE_POSITIVE.includes(c.op) || c.op.startsWith('version') ? none : NONE_NEGATIVE.includes(c.op) ? !none : false;
    const eq = (a, b) => a === b || (/^(true|false)$/i.test(a) && a.toLowerCase() === b.toLowerCase());
    const one = (s) => {
      const is = () => c.values.some((x) => eq(x, s));
      const has = () => c.values.some((x) => s.toLowerCase().includes(x.toLowerCase()));
      const re = () => c.values.some((x) => {
        try {
          return new RegExp(x).test(s);
        } catch {
          return false; // no expression, no match
        }
      });
      if (c.op === 'is') return is();
      if (c.op === 'is not') return !is();
      if (c.op === 'contains') return has();
      if (c.op === 'does not contain') return !has();
      if (c.op === 'regex match') return re();
      if (c.op === 'regex does not match') return !re();
      if (c.op.startsWith('version')) {
        // (whatever is no version is left out, and compared as text if nothing else is left)
        const known = c.values.filter((x) => versions(x, x) === 0);
        const text = versions(s, s) !== 0 || !known.length;
        return (text ? c.values : known).some((x) => ordered(c.op, text ? (s < x ? -1 : s > x ? 1 : 0) : versions(s, x)));
      }
      if (/^(less|greater)/.test(c.op)) return c.values.some((x) => ordered(c.op, Number(s) - Number(x)));
      return false;
    };
    let list = Array.isArray(v) ? v.map(str).filter(Boolean) : null;
    if (typeof v === 'string' && v.startsWith('['))
      try {
        list = JSON.parse(v);
        w.probe('list-in-a-string');
      } catch (e) {
        /* not a list */
      }
    if (c.op.startsWith('set')) {
      if (!list) return false;
      const all = c.values.every((x) => list.some((s) => eq(s, x)));
      const any = c.values.some((x) => list.some((s) => eq(s, x)));
      const equal = all && list.every((s) => c.values.includes(s));
      return { 'set is': equal, 'set is not': !equal, 'set contains': all, 'set does not contain': !all, 'set contains any': any, 'set does not contain any': !any }[c.op];
    }
    return list ? list.some(one) : one(str(v));
  };
  const mkFlag = (k, id) => {
    const seg = () => {
      const s = { variant: w.weighted([[5, 'on'], [5, 'v2'], [5, 'off'], [1, 'gone']]) };
      if (w.chance(0.5)) s.metadata = { segmentName: w.pick(['VIPs', 'Élèves']), ...(w.chance(0.2) ? { note: 'seg' } : {}) };
      if (w.chance(0.75)) {
        s.conditions = [];
        for (let i = 0; i <= w.choose(2); i++) {
          const and = [];
          for (let j = 0; j <= w.choose(2); j++) {
            if (k !== KEYS[0] && w.chance(0.2)) {
              const dep = KEYS[w.choose(KEYS.indexOf(k))];
              and.push({ selector: ['result', dep, 'key'], op: w.pick(['is', 'is not']), values: [w.pick(['on', 'off', 'v2'])] });
              continue;
            }
            const [sel, vals] = w.pick(SELECT);
            const last = sel[sel.length - 1];
            const op = w.pick(OPS[last] || OPS.any);
            let values = [...new Set(vals.filter(() => w.chance(0.5)).concat([w.pick(vals)]))];
            if (op.startsWith('regex')) values = values.map((x) => x.replace(/[.*+?^${}()|[\]\\]/g, '\\$&')).map((x) => w.pick([x, '^' + x, x.slice(-3) + '$', x + '|^$', ...(w.chance(0.06) ? ['(?i)' + x, '[' + x, '*'] : [])]));
            if (last === 'beta' && w.chance(0.4)) values = values.map((x) => x.toUpperCase());
            if (op.startsWith('version')) {
              // (a version against "(none)" is compared as text)
            } else if (w.chance(0.15)) values = ['(none)'];
            else if (w.chance(0.1)) values.push('(none)');
            and.push({ selector: ['context', ...sel], op, values });
          }
          s.conditions.push(and);
        }
      }
      if (w.chance(0.4)) {
        s.bucket = {
          selector: ['context', ...w.pick([['user', 'device_id'], ['user', 'user_id'], ['groups', 'org', 'group_name'], ['user', 'user_properties', 'age']])],
          salt: w.pick(['s1', 'salt-2', '盐', '']) + k,
          allocations: [
            {
              range: w.pick([[0, 50], [0, 100], [30, 90]]),
              distributions: [
                { variant: 'on', range: [0, 21474837] },
                { variant: 'v2', range: [21474837, 42949673] },
              ],
            },
          ],
        };
        if (w.chance(0.3)) s.bucket.allocations.unshift({ range: [90, 100], distributions: [{ variant: w.pick(['v2', 'off']), range: [0, 42949673] }] });
        if (w.chance(0.2)) s.bucket.allocations[s.bucket.allocations.length - 1].distributions.shift(); // some of them get none
        if (w.chance(0.5)) delete s.variant;
        else s.variant = 'off';
      }
      return s;
    };
    const f = {
      key: k,
      metadata: { evaluationMode: 'local', ...(w.chance(0.3) ? { note: 'flag', experimentKey: 'exp-' + id } : {}) },
      variants: {
        on: { key: 'on', value: `${k}@${id}`, ...(w.chance(0.3) ? { metadata: { note: 'variant' } } : {}) },
        v2: { key: 'v2', value: `${k}-v2@${id}`, payload: { id } },
        off: { key: 'off', value: 'off', metadata: {} },
      },
      segments: [],
    };
    for (let i = 0; i <= w.choose(3); i++) f.segments.push(seg());
    const deps = new Set();
    for (const s of f.segments) for (const and of s.conditions || []) for (const c of and) if (c.selector[0] === 'result') deps.add(c.selector[1]);
    if (deps.size) f.dependencies = [...deps];
    return f;
  };
  const KEYS = L.KEYS;
  let F = {};
  const evalAll = () => {
    const ctx = context();
    const res = {};
    const how = {}; // flag -> the variant each of its segments gives this visitor, null when the segment does not apply
    const one = (k) => {
      if (k in res || !F[k]) return;
      const f = F[k];
      for (const d of f.dependencies || []) one(d);
      how[k] = [];
      let done = false;
      for (const s of f.segments) {
        if (s.conditions && !s.conditions.some((and) => and.every((c) => cond(ctx, c, res)))) {
          how[k].push(null);
          continue;
        }
        let v = s.variant;
        if (s.bucket) {
          const b = get(ctx, s.bucket.selector.slice(1));
          if (b !== undefined && b !== null && str(b) !== '') {
            const h = murmur(`${s.bucket.salt}/${str(b)}`);
            for (const a of s.bucket.allocations) {
              if (h % 100 < a.range[0] || h % 100 >= a.range[1]) continue;
              if (a.range[0] === 90) w.probe('second-allocation');
              const d = a.distributions.find((x) => Math.floor(h / 100) >= x.range[0] && Math.floor(h / 100) < x.range[1]);
              if (d) {
                v = d.variant;
                break;
              }
            }
            w.probe('bucketed');
          }
        }
        how[k].push(v);
        if (v === undefined || done || !f.variants[v]) continue;
        done = true;
        res[k] = { ...f.variants[v], metadata: { ...f.metadata, ...s.metadata, ...f.variants[v].metadata } };
      }
      if (!done) res[k] = undefined;
    };
    for (const k of KEYS) one(k);
    return { res, ctx, how };
  };
  const strip = (v) => keep({ key: v.key, value: v.value, payload: v.payload, metadata: v.metadata, expKey: v.key && v.metadata && v.metadata.experimentKey });
  let settled = true;
  const verify = (where) => {
    const { res, ctx, how } = evalAll();
    const all = client.all();
    // the explanation of an evaluation is that of the evaluation
    const traces = client.getEvaluationTraces();
    for (const k of KEYS) {
      if (!F[k]) continue;
      const t = traces[k];
      const got = t && { matched: t.matched, in: t.matched ? t.matchedSegment : undefined, steps: t.steps.map((x) => [x.conditionsPassed ? x.bucketVariant || 'none' : null, x.bucketed, x.matched, (x.segmentMetadata || {}).segmentName]) };
      const want = {
        matched: !!res[k],
        in: res[k] && res[k].metadata.segmentName,
        steps: how[k].map((x, i) => [x === undefined ? 'none' : x, !!x, !!x, (F[k].segments[i].metadata || {}).segmentName]),
      };
      if (!L.same(got, want)) w.flag('wrong-trace', `${where}: the trace of ${k} is ${L.canon(got)}, expected ${L.canon(want)}; flag ${JSON.stringify(F[k])}; context ${JSON.stringify(ctx)}; results ${L.canon(res)}`);
    }
    for (const k of KEYS) {
      const want = res[k] ? strip(res[k]) : {};
      const got = strip(all[k] || {});
      if (!L.same(got, want))
        w.flag('wrong-evaluation', `${where}: all().${k} = ${L.canon(got)}, expected ${L.canon(want)}; flag ${JSON.stringify(F[k])}; context ${JSON.stringify(ctx)}; results ${L.canon(res)}`);
      const v = strip(client.variant(k));
      if (!L.same(v, want))
        w.flag('wrong-evaluation', `${where}: variant(${k}) = ${L.canon(v)}, expected ${L.canon(want)}; flag ${JSON.stringify(F[k])}; context ${JSON.stringify(ctx)}`);
    }
    if (settled && explicit !== undefined) {
      const u = client.getUser();
      if (!L.same(u, explicit)) w.flag('user-altered', `${where}: evaluating flags changed the user to ${L.canon(u)}, it was ${L.canon(explicit)}`);
    }
    w.probe('evaluated');
  };
  const mix = L.netMix(w, { p: 0.4 });
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    const pg = page;
    if (r.kind !== 'flags') return { kind: 'ok', status: 200, body: '{}', delay: 5 };
    const fs = {};
    for (const k of KEYS) if (w.chance(0.8)) fs[k] = mkFlag(k, req.id);
    const order = Object.values(fs);
    if (w.chance(0.5)) order.reverse();
    const plan = L.netPlan(w, mix, JSON.stringify(order), 10000);
    plan.onDeliver = () => {
      if (!pg.alive || w.now >= req.sentAt + 10000 || !L.planOk(plan)) return;
      F = JSON.parse(JSON.stringify(fs));
    };
    return plan;
  };
  const load = (url) => {
    referrer = w.pick(['', 'https://ref.com/', 'https://ref.com/x']);
    page = w.browser.load(tab, { url, referrer });
    ua = UAS[w.weighted([[4, 0], [1, 1], [1, 2], [1, 3], [1, 4], [1, 5], [1, 6], [1, 7]])].slice();
    page.g.navigator.userAgent = ua[0];
    ua.lang = w.pick(['en-US', 'nl-NL']);
    // the first preferred language counts, the browser's own only without one
    page.g.navigator.languages = w.pick([[ua.lang, 'xx'], undefined, [], [ua.lang]]);
    page.g.navigator.language = page.g.navigator.languages && page.g.navigator.languages.length ? w.pick([ua.lang, 'xx', undefined]) : ua.lang;
    explicit = undefined;
    settled = true;
    client = page.run(w.bundles.sdk).browser.Experiment.initialize(API, {
      automaticExposureTracking: false,
      pollOnStart: false,
      fetchOnStart: false,
      retryFetchOnFailure: false,
      userProvider: withProvider ? { getUser: () => clone(prov) } : undefined,
    });
    if (integMode !== 'none')
      client.addPlugin({
        type: 'integration',
        getUser: () => clone(integ),
        track: () => true,
        ...(integMode === 'late' ? { setup: () => new Promise((res) => w.schedule(900, res, { page, lane: 'user' })) } : {}),
      });
  };
  const URLS = ['https://www.shop.com/', 'https://www.shop.com/p?utm=mail', 'https://www.shop.com/q?utm=ads,mail&utm=a%20b&x=', 'https://www.shop.com/p?utm=a+b#h'];
  load(w.pick(URLS));
  client.start((explicit = genUser({ groups: true })) && clone(explicit));
  await L.breathe(w, 2000);
  w.hooks.afterStep = () => verify('after event');
  const n = 3 + w.choose(10);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([[20, 'setUser'], [15, 'fetch'], [20, 'flags'], [15, 'url'], [12, 'cookie'], [10, 'provider'], [10, 'integration'], [5, 'reload'], [8, 'wait']]);
    w.op(kind);
    if (w.pending() > 0) w.interleaved = true;
    if (kind === 'setUser') client.setUser(clone((explicit = genUser({ groups: true }))));
    else if (kind === 'fetch') client.fetch(clone((explicit = genUser({ groups: true }))));
    else if (kind === 'flags') {
      client.stop();
      client.start(clone((explicit = genUser({ groups: true }))));
    } else if (kind === 'url') {
      const u = w.pick(URLS);
      if (w.chance(0.5)) page.g.history.pushState({}, '', u);
      else page.g.history.replaceState({}, '', u);
    } else if (kind === 'cookie') {
      const name = w.pick(['seg', 'ab']);
      if (w.chance(0.25)) {
        page.g.document.cookie = `${name}=; max-age=0; path=/`;
        delete cookies[name];
      } else {
        cookies[name] = w.pick(name === 'seg' ? ['vip', 'a=b', 'YQ==', 'x'] : ['1', '2']);
        page.g.document.cookie = `${name}=${cookies[name]}; path=/`;
      }
    } else if (kind === 'provider') prov = genUser({ groups: true });
    else if (kind === 'integration') integ = genUser({});
    else if (kind === 'reload') {
      await w.drain();
      load(w.pick(URLS));
    }
    verify('after ' + kind);
    await L.breathe(w, 3000);
    await w.drain();
    verify('after ' + kind + ' settled');
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
  }
  mix.healed = true;
  await w.runFor(12000);
}

// ---------------------------------------------------------------------------
/** B12: replacing the integration plugin. */
async function b12(w) {
  const NK = 60;
  const initialVariants = {};
  for (let i = 0; i < NK; i++) initialVariants['k' + i] = { key: 'on', value: 'on' };
  let nextKey = 0;
  let Q = [];
  const done = new Set();
  const plugins = [];
  let cur = null;
  let released = true; // requests do not wait (no integration, or one was ready since)
  let everReady = false;
  let owed = 0;
  let free = 0; // fetches asked for when there was nothing to wait for
  let sent = 0;
  let logins = 0;
  const tab = w.browser.newTab();
  const mix = L.netMix(w, { p: 0.3 });
  w.hooks.server = (req) => {
    const r = L.parseReq(req);
    if (r.kind !== 'vardata') return { kind: 'never' };
    sent++;
    if (sent > owed) w.flag('extra-request', `${sent} requests sent, ${owed} asked for`);
    if (!released && sent > free) w.flag('before-integration', `request sent before the integration #${cur.n} is set up`);
    const of = (u) => JSON.stringify([u.user_id, u.device_id, u.carrier, u.user_properties && u.user_properties.plan]);
    const want = of(cur ? cur.user : {});
    if (of(r.user) !== want) w.flag('wrong-integration-user', `request carries ${of(r.user)}, the integration says ${want}`);
    return L.netPlan(w, mix, '{}', 10000);
  };
  const page = w.browser.load(tab, {});
  w.hooks.pageError = (pg, e) => w.flag('uncaught-error', `an error escaped the SDK: ${(e && e.stack) || e}`);
  const client = page.run(w.bundles.sdk).browser.Experiment.initialize(API, {
    source: 'initialVariants',
    initialVariants,
    automaticExposureTracking: true,
    retryFetchOnFailure: false,
  });
  class Integration {
    constructor(n) {
      this.type = 'integration';
      this.n = n;
      this.mode = w.pick(['ok', 'ok', 'ok', 'false', 'throws']);
      this.ready = false;
      this.torn = 0;
      this.login();
    }
    // not every integration knows every field, and what it knows changes
    login() {
      this.user = {};
      const v = `${this.n}.${++logins}`;
      if (w.chance(0.7)) this.user.user_id = 'u' + v;
      if (w.chance(0.7)) this.user.device_id = 'd' + v;
      if (w.chance(0.3)) this.user.carrier = 'c' + v;
      if (w.chance(0.3)) this.user.user_properties = { plan: 'p' + v };
    }
    getUser() {
      return JSON.parse(JSON.stringify(this.user));
    }
    track(ev) {
      if (!(this instanceof Integration)) {
        w.flag('wrong-this', 'track() called without its integration');
        return true;
      }
      if (this !== cur) w.flag('replaced-integration-used', `integration #${this.n} got an event although #${cur.n} replaced it`);
      if (!this.ready) w.flag('event-before-setup', `integration #${this.n} got an event before it was set up`);
      const k = ev.eventProperties.flag_key;
      if (done.has(k)) w.flag('delivered-twice', `exposure of ${k} delivered again to #${this.n}`);
      else if (!Q.length || Q[0].k !== k) w.flag('out-of-order', `exposure of ${k} attempted, queued are ${Q.slice(0, 4).map((q) => q.k)}`);
      if (this.mode === 'throws') {
        w.fault('tracker-throws');
        throw new Error('tracker down');
      }
      if (this.mode === 'false') {
        w.fault('tracker-refuses');
        return false;
      }
      done.add(k);
      Q.shift();
      w.probe('delivered');
      return true;
    }
  }
  const settle = (p) => {
    p.settled = true;
    if (p !== cur) return w.probe('replaced-during-setup');
    p.ready = true;
    p.readyAt = w.now;
    everReady = released = true;
  };
  const add = () => {
    const p = new Integration(plugins.length + 1);
    plugins.push(p);
    const old = cur;
    const kind = w.pick(['nosetup', 'resolve', 'resolve', 'reject', 'never']);
    if (w.chance(0.6))
      p.teardown = function () {
        this.torn++;
        return Promise.resolve();
      };
    if (kind !== 'nosetup') {
      const d = w.delay(4000);
      p.setup = () =>
        new Promise((res, rej) => {
          if (kind === 'never') {
            w.fault('integration-setup-stalls');
            return;
          }
          w.schedule(d, () => {
            settle(p);
            if (kind === 'reject') {
              w.fault('integration-setup-rejects');
              rej(new Error('x'));
            } else res();
          }, { page, lane: 'user' });
        });
    }
    cur = p;
    if (kind === 'nosetup') settle(p);
    else if (!everReady) released = false;
    p.addedAt = w.now;
    client.addPlugin(p);
    if (old && old.teardown && old.torn !== 1) w.flag('not-torn-down', `replaced integration #${old.n} was torn down ${old.torn} times`);
    if (old) w.probe('replaced');
  };
  const verify = (where) => {
    for (const p of plugins) {
      if (p.torn > (p === cur ? 0 : 1)) w.flag('torn-down', `${where}: integration #${p.n} was torn down ${p.torn} times`);
    }
    if (released && sent < owed) w.flag('request-missing', `${where}: ${owed} requests asked for, ${sent} sent`);
    if (cur && cur.ready && cur.mode === 'ok' && Q.length) {
      const since = Math.max(Q[0].at, cur.readyAt, cur.okSince || 0);
      if (w.now - since > 1001) w.flag('delivery-stalled', `${where}: exposure of ${Q[0].k} not delivered to integration #${cur.n}, ready since +${cur.readyAt - w.startTime}`);
    }
  };
  w.hooks.afterStep = () => verify('after event');
  const n = 4 + w.choose(16);
  for (let i = 0; i < n; i++) {
    const kind = w.weighted([[25, 'add'], [35, 'expose'], [20, 'fetch'], [10, 'mode'], [8, 'login'], [10, 'wait']]);
    w.op(kind);
    if (plugins.some((p) => p.setup && !p.settled)) w.interleaved = true;
    if (kind === 'add') add();
    else if (kind === 'expose') {
      const k = 'k' + nextKey++;
      Q.push({ k, at: w.now });
      client.variant(k);
    } else if (kind === 'fetch') {
      owed++;
      if (released) free++;
      client.fetch();
      if (w.chance(0.8)) await w.drain();
    } else if (kind === 'mode' && cur) {
      cur.mode = w.pick(['ok', 'false', 'throws']);
      if (cur.mode === 'ok') cur.okSince = w.now;
    } else if (kind === 'login' && cur) cur.login();
    if (w.chance(0.3)) continue;
    await w.drain();
    verify('after ' + kind);
    if (w.violation) w.fail(w.violation.cls, w.violation.message);
    await w.runFor(w.pick([0, 1, 50, 999, 1100, 5000]));
  }
  await w.drain();
  add();
  if (!cur.ready && cur.setup) await w.runFor(4100);
  cur.mode = 'ok';
  cur.okSince = w.now;
  await w.runFor(1100);
  verify('at the end');
}

const common = { bundles: ['sdk'], real: L.SDK_REAL, stubs: L.SDK_STUB };
module.exports = {
  B11: {
    ...common,
    run: b11,
    runs: { quick: 15000, thorough: 150000 },
    rule: 'Random flag configurations arriving late or not at all while user, provider, integration, cookies and URL change; after every event each flag is compared with an independent evaluator over the context of that moment.',
  },
  B12: {
    ...common,
    run: b12,
    stubs: [...L.SDK_STUB, 'integration plugins (scripted)'],
    runs: { quick: 24000, thorough: 250000 },
    rule: 'Integrations replace one another while their set-up is pending, late, failing or stalled, and exposures and requests are in progress; every call an integration gets and every request is compared with a model.',
  },
};
