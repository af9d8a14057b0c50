'use strict';
const S = 'experiment-tag/src/util/storage.ts', M = 'experiment-tag/src/util/grant-flush-merge.ts', C = 'experiment-tag/src/consent/consent-cookie-storage.ts';
const pre = `
const pending = (w, page) => {
  const x = page.run(w.bundles.consent);
  x.gate.consentGate.required = true;
  return x;
};
`;

module.exports = [
  {
    id: 'T26-full-storage-ends-handover',
    tag: true,
    property: 'T26',
    bundles: ['consent'],
    pre,
    needs: 'several values held before the decision, and a storage that refuses one of them at the grant',
    breaks: 'the values after it are lost',
    edits: [
      [S, `        writeThrough(storageType, key, merged);
      }`, `        try {
          getStorage(storageType)?.setItem(key, merged);
        } catch (error) {
          console.warn(\`Failed to set JSON in \${storageType}:\`, error);
          break;
        }
      }`],
    ],
    demo: `
  const page = open('https://www.shop.com/');
  const x = pending(w, page);
  x.storage.setStorageItem('localStorage', 'big', { a: 1 });
  x.storage.setStorageItem('sessionStorage', 'small', { b: 1 });
  w.hooks.storage = (p, kind, op, key) => {
    if (op === 'set' && key === 'big') throw new Error('QuotaExceededError');
  };
  x.tag.setConsentStatus('granted');
  check(page.g.sessionStorage.getItem('small') === '{"b":1}', 'small is ' + page.g.sessionStorage.getItem('small'));`,
  },
  {
    id: 'T26-device-id-only-with-v2',
    tag: true,
    property: 'T26',
    bundles: ['consent'],
    pre,
    needs: 'a stored user of an earlier visit who has a device id and no second-generation id',
    breaks: 'a grant overwrites the device id of the earlier visit',
    edits: [
      [M, `        ...(device.device_id !== undefined
          ? { device_id: device.device_id }
          : {}),`, `        ...(device.web_exp_id_v2 !== undefined && device.device_id !== undefined
          ? { device_id: device.device_id }
          : {}),`],
    ],
    demo: `
  const page = open('https://www.shop.com/');
  page.g.localStorage.setItem('EXP_client-tag', JSON.stringify({ device_id: 'old' }));
  const x = pending(w, page);
  x.storage.setStorageItem('localStorage', 'EXP_client-tag', { device_id: 'new', web_exp_id_v2: 'v2' });
  x.tag.setConsentStatus('granted');
  const user = JSON.parse(page.g.localStorage.getItem('EXP_client-tag'));
  check(user.device_id === 'old' && user.web_exp_id_v2 === 'v2', 'the user is ' + JSON.stringify(user));`,
  },
  {
    id: 'T26-write-overtaken-by-handover',
    tag: true,
    property: 'T26',
    bundles: ['consent'],
    pre,
    needs: 'a cookie written at once after the grant, while what was held is still being handed over',
    breaks: 'the held value overwrites the newer one',
    edits: [[C, '    await this.flush;\n    return this.delegate.set(key, value);', '    return this.delegate.set(key, value);']],
    demo: `
  const page = open('https://www.shop.com/');
  const x = pending(w, page);
  const c = x.cookies.createCookieStorage({ sameSite: 'Lax' });
  await c.set('A', { v: 0 });
  await c.set('K', { v: 1 });
  x.tag.setConsentStatus('granted');
  await c.set('K', { v: 2 });
  await w.runFor(100);
  const got = await c.get('K');
  check(got && got.v === 2, 'K is ' + JSON.stringify(got));`,
  },
];
