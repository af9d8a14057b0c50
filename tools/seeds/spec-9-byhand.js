'use strict';
const X = 'experiment-tag/src/experiment.ts';
const site = (on, more = '') => `{ flags: [T.flag('f', { on: '${on}', payloads: { treatment: [mut('t')], other: [mut('o')] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/home')) } }${more} }`;

module.exports = [
  {
    id: 'T25-control-keeps-preview',
    tag: true,
    property: 'T25',
    needs: 'a visitor assigned to a control without payload, a variant previewed by the site itself, then a navigation or applyVariants',
    breaks: 'the previewed variant stays on the page: only a variant with changes of its own takes the place of another',
    edits: [
      [X, `          appliedVariantKeys.length > 0 &&
          !appliedVariantKeys.includes(variantKey)`, `          Array.isArray(variant.payload) &&
          !appliedVariantKeys.includes(variantKey)`],
    ],
    demo: `
  const page = open('https://www.shop.com/home');
  start(page, ${site('control')});
  await w.runFor(2000);
  const c = page.g.webExperiment;
  await c.previewVariants({ keyToVariant: { f: 'treatment' } });
  await w.runFor(100);
  check(live(page).join() === 't', 'previewed: ' + live(page));
  await c.applyVariants();
  await w.runFor(100);
  check(live(page).join() === '', 'control shows ' + live(page));`,
  },
  {
    id: 'T25-empty-list-is-no-list',
    tag: true,
    property: 'T25',
    needs: 'applyVariants for an empty list of flags after the changes of others were taken back',
    breaks: 'all experiments are applied, also those the site has just taken back',
    edits: [[X, '      if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {', '      if ((flagKeys?.length && !flagKeys.includes(key)) || this.previewFlags[key]) {']],
    demo: `
  const page = open('https://www.shop.com/home');
  start(page, ${site('treatment')});
  await w.runFor(2000);
  const c = page.g.webExperiment;
  check(live(page).join() === 't', 'shown: ' + live(page));
  c.revertVariants();
  await c.applyVariants({ flagKeys: [] });
  await w.runFor(100);
  check(live(page).join() === '', 'applied without being named: ' + live(page));`,
  },
  {
    id: 'T25-reverted-code-not-run-again',
    tag: true,
    property: 'T25',
    needs: 'injected code taken back by revertVariants and put on again on the same page',
    breaks: 'the code is remembered as applied and does not run again',
    edits: [[X, `        sheetHandle?.revert();
        script?.remove();
        this.appliedInjections.delete(id);`, `        sheetHandle?.revert();
        script?.remove();
        if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
          this.appliedInjections.delete(id);
        }`]],
    demo: `
  const page = open('https://www.shop.com/home');
  let n = 0;
  page.g.__inj = (utils) => { n++; utils.remove = () => n--; };
  start(page, { flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'inject', data: { id: 'code', js: 'window.__inj(utils)' } }] } })], pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/home')) } } });
  await w.runFor(2000);
  check(n === 1, 'run ' + n + ' times');
  page.g.webExperiment.revertVariants({ flagKeys: ['f'] });
  check(n === 0, 'not taken back');
  await page.g.webExperiment.applyVariants({ flagKeys: ['f'] });
  await w.runFor(100);
  check(n === 1, 'after revert and apply it is there ' + n + ' times');`,
  },
  {
    id: 'T25-preview-forgets-what-it-covers',
    tag: true,
    property: 'T25',
    needs: 'a variant named in a preview which does not exist or has no changes, while another variant of the experiment is shown',
    breaks: 'what was shown before stays on the page',
    edits: [[X, '    this.revertVariants({ flagKeys: Object.keys(keyToVariant) });\n\n    for (const key in keyToVariant) {', `    this.revertVariants({
      flagKeys: Object.keys(keyToVariant).filter((key) =>
        Array.isArray(this.flagVariantMap[key]?.[keyToVariant[key]]?.payload),
      ),
    });

    for (const key in keyToVariant) {`]],
    demo: `
  const page = open('https://www.shop.com/home');
  start(page, ${site('treatment')});
  await w.runFor(2000);
  check(live(page).join() === 't', 'shown: ' + live(page));
  await page.g.webExperiment.previewVariants({ keyToVariant: { f: 'control' } });
  await w.runFor(100);
  check(live(page).join() === '', 'a previewed control shows ' + live(page));`,
  },
];
