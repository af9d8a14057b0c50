/**
 * Stand-in for the dom-mutator package (not installed here): records which
 * declarative mutations are live on the page.  The simulated page supplies
 * __domMutator; without it nothing happens.
 */
const rec = () => (typeof window !== 'undefined' && window.__domMutator) || null;
function declarative(m) {
  const r = rec();
  const h = r ? r.apply(m) : undefined;
  let live = true;
  return {
    revert() {
      if (r) r.revert(h, m, live);
      live = false;
    },
  };
}
const html = () => ({ revert() {} });
export const pauseGlobalObserver = () => {
  const r = rec();
  if (r) r.paused = (r.paused || 0) + 1;
};
export const resumeGlobalObserver = () => {
  const r = rec();
  if (r) r.paused = (r.paused || 0) - 1;
};
export const disconnectGlobalObserver = () => {};
export const connectGlobalObserver = () => {};
export default { declarative, html };
