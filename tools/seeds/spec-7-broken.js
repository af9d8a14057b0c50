'use strict';
const X = 'experiment-tag/src/';
module.exports = [
  {
    id: 'T23-invalid-selector-ends-clicks',
    property: 'T23',
    tag: true,
    needs: 'two click triggers of which the one whose page object comes first has an invalid selector',
    breaks: 'clicks are not noticed for the page objects after the one with the invalid selector',
    edits: [
      [X + 'subscriptions/subscriptions.ts', `      const target = event.target as Element;
      if (!target) return;

      for (const [selector, thresholds] of selectors) {
        try {
          if (target.closest(selector)) {
            // Process all thresholds for this selector
            for (const minThresholdMs of thresholds) {
              const interactionKey = \`\${selector}\\0click\\0\${minThresholdMs}\`;`, `      const target = event.target as Element;
      if (!target) return;

      let isInvalid = false;
      for (const [selector, thresholds] of selectors) {
        if (isInvalid) break;
        try {
          isInvalid = true;
          const isInside = target.closest(selector);
          isInvalid = false;
          if (isInside) {
            // Process all thresholds for this selector
            for (const minThresholdMs of thresholds) {
              const interactionKey = \`\${selector}\\0click\\0\${minThresholdMs}\`;`],
    ],
    demo: `
  const click = (selector) => ['user_interaction', { selector, interactionType: 'click' }, T.TRUE_COND];
  const page = open('https://www.shop.com/');
  const btn = page.g.document.createElement('button');
  btn.setAttribute('id', 'btn');
  page.g.document.body.appendChild(btn);
  start(page, {
    flags: [T.flag('bad', { on: 'treatment', payloads: { treatment: [mut('m0')] } }), T.flag('good', { on: 'treatment', payloads: { treatment: [mut('m1')] } })],
    pages: { bad: { p: T.pageObj('p-bad', ...click('div[')) }, good: { q: T.pageObj('q-good', ...click('#btn')) } },
  });
  await w.runFor(2000);
  btn.dispatchEvent(T.ev('click'));
  await w.runFor(2000);
  check(live(page).join() === 'm1', 'live are ' + live(page));`,
  },
  {
    id: 'T23-failed-code-not-recorded',
    property: 'T23',
    tag: true,
    needs: 'injected code that throws after it has put something on the page, and a navigation away',
    breaks: 'what failing code put on the page (style sheet, clean-up it registered) is not withdrawn with its variant',
    edits: [
      [X + 'experiment.ts', `    } catch (e) {
      script?.remove();
      console.error(
        \`Experiment inject failed`, `    } catch (e) {
      script?.remove();
      state.cancelled = true;
      console.error(
        \`Experiment inject failed`],
      [X + 'experiment.ts', `    // Push the mutation
    this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {`, `    // Push the mutation
    if (state.cancelled) {
      return;
    }
    this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {`],
    ],
    demo: `
  const page = open('https://www.shop.com/home');
  let on = 0;
  page.g.__inj = (utils) => {
    on++;
    utils.remove = () => on--;
  };
  start(page, {
    flags: [T.flag('f', { on: 'treatment', payloads: { treatment: [{ action: 'inject', data: { id: 'i-1', js: "window.__inj(utils);throw new Error('x')" } }] } })],
    pages: { f: { p: T.pageObj('p', 'url_change', {}, T.urlCond('/home')) } },
    config: { useDefaultNavigationHandler: true },
  });
  await w.runFor(2000);
  check(on === 1, 'the code has run');
  T.spa(page, 'https://www.shop.com/cart');
  await w.runFor(2000);
  check(on === 0, 'what the failing code did is withdrawn');`,
  },
];
