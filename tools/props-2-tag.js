'use strict';
const ET = 'packages/experiment-tag/src/';
const trust =
  'Sampled, not exhaustive: evidence over the seeds run. Trusts the simulated browser (timers, fetch, storage, cookies, DOM, history), the dom-mutator recorder and the reference model in the scenario; real code is all of experiment-tag, experiment-browser, experiment-core and analytics-connector, bundled from the working tree.';
module.exports = [
  {
    id: 'T01',
    title: 'Nothing happens before consent',
    statement:
      'While consent is required and has not been granted, loading the tag stores nothing on the device (cookies, local or session storage), sends no request, tracks no event, changes nothing in the document, applies no variant and redirects nobody, whatever the page calls in whatever order. The only thing allowed is deleting what an earlier visit stored, and noting that this was done, once consent is refused.',
    over: ['schedules', 'histories', 'crash_points'],
    quant: 'Every order of initialize calls, consent decisions and analytics events over several page loads and subdomains, with storage failures and crashes.',
    why: 'Tests check single sequences with mocks of the client; the guarantee is over every effect on the outside in every order of calls, and several of the consent suites are not part of the offline run.',
    files: [ET + 'index.ts', ET + 'consent/consent-gate.ts', ET + 'consent/consent-manager.ts'],
    mech: [
      ['deferring initialize until a grant', ET + 'index.ts: initialize, setConsentStatus'],
      ['the consent state machine', ET + 'consent/consent-manager.ts'],
    ],
    observe: ['every storage operation, cookie write, request, DOM mutation and navigation of the simulated page'],
    oracle: 'reference consent gate; every external effect is checked against it when it happens',
    note: trust,
  },
  {
    id: 'T02',
    title: 'A grant starts the client exactly once, with the arguments in force',
    statement:
      'However often and in whatever order initialize and consent decisions are called, at most one client is constructed per page, and once consent is granted (or not required) the client is running within seconds, with the flags and page objects of the initialize call in force at the grant. Without a grant no client runs. Events received while consent was withheld are not replayed into targeting, and no impression is tracked twice.',
    over: ['schedules', 'histories', 'fault_sequences'],
    quant: 'Every order and timing of repeated initialize calls, grants, refusals and events, with network faults.',
    why: 'Tests sample a few orders; repeated initialize calls racing decisions and a slow start are not covered.',
    files: [ET + 'index.ts', ET + 'experiment.ts', ET + 'consent/consent-gate.ts'],
    mech: [
      ['deferred initialization and last-arguments-win', ET + 'index.ts: initialize'],
      ['singleton client', ET + 'experiment.ts: getInstance'],
    ],
    observe: ['window.webExperiment', 'live mutations', 'events tracked by the integration'],
    oracle: 'reference consent gate and the set of live variants of the arguments in force',
    note: trust,
  },
  {
    id: 'T03',
    title: 'A refusal erases what was stored and keeps it erased',
    statement:
      'When consent is refused, everything the tag has ever stored for that visitor on this origin (identity, behavioural history and session, attribution, redirect state, caches, exposure queue) is gone when the call returns, and nobody else’s data is touched. From then on the running page neither stores any of it again nor tracks impressions until consent is granted, and after a later grant nothing recorded before or during the refusal comes back.',
    over: ['schedules', 'histories', 'crash_points', 'fault_sequences'],
    quant: 'Every moment of refusal relative to start, events, pending timers, requests and page loads; repeated refusals and re-opt-ins.',
    why: 'The list of keys in the sweep is hand-written: only runs that record every key ever written can show that it is complete, and late timers and requests that write again need a controlled schedule.',
    files: [ET + 'consent/clear-data.ts', ET + 'consent/consent-gate.ts', ET + 'consent/consent-impression-buffer.ts', ET + 'consent/consent-cookie-storage.ts', ET + 'behavioral-targeting/event-storage.ts', ET + 'util/storage.ts', ET + 'index.ts'],
    mech: [
      ['denial sweep', ET + 'consent/clear-data.ts: clearAllPersistedData'],
      ['gated storage and cookies', ET + 'util/storage.ts, consent/consent-cookie-storage.ts'],
      ['gated impressions', ET + 'consent/consent-impression-buffer.ts'],
    ],
    observe: ['local and session storage', 'cookie jar', 'events reaching the integration'],
    oracle: 'every key written so far in the run is the list that must be gone; write-after-refusal monitor',
    note: trust,
  },
  {
    id: 'T04',
    title: 'One visitor identity per domain, until the visitor refuses',
    statement:
      'A visitor has the same identity and first-seen time on every subdomain, tab and visit as long as cookies work, and the same identity per origin where cookies are blocked; an identity from an earlier version is carried over. After a refusal the old identity is never used again on any subdomain that can see the refusal. Malformed cookies, storage errors and crashes never leave the visitor without an identity.',
    over: ['histories', 'crash_points', 'fault_sequences', 'configurations'],
    quant: 'Every sequence of visits from two tabs to three hosts with consent given, refused or withdrawn, blocked cookies, quota errors, crashes and malformed cookies.',
    why: 'Needs many page loads over several origins sharing one cookie jar; tests mock the cookie storage of a single page.',
    files: [ET + 'experiment.ts', ET + 'util/cookie.ts', ET + 'consent/clear-data.ts', ET + 'consent/consent-cookie-storage.ts'],
    mech: [
      ['cross-subdomain identity resolution', ET + 'util/cookie.ts: resolveCrossSubdomainObject'],
      ['erasure marker', ET + 'consent/clear-data.ts: markIdentityErased, clearIfErasedElsewhere'],
    ],
    state: [['identity cookie', 'the shared identity and first-seen time', ET + 'util/storage-keys.ts']],
    observe: ['the user the client evaluates with'],
    oracle: 'reference model of the identity established so far and retired by refusals',
    note: trust,
  },
  {
    id: 'T05',
    title: 'The event history is durable, bounded and unaltered',
    statement:
      'The behavioural history of an origin is exactly the targetable events received there, in order, unaltered, each with its own lasting identity, limited to the latest 500. Half a second after the last event, and as soon as the tab is hidden or left, it is on the device and is what the next visit starts from; a crash loses at most the events of that half second. Malformed stored history is treated as empty and history from earlier versions is kept.',
    over: ['schedules', 'crash_points', 'histories', 'fault_sequences'],
    quant: 'Every sequence of events, hides, unloads and crashes (at any storage write) over several visits to two origins, quota errors, bursts over the limit.',
    why: 'Durability is about crash points and debounce timers over several page lives; tests look at one manager object in one page.',
    files: [ET + 'behavioral-targeting/event-storage.ts', ET + 'behavioral-targeting/behavioral-targeting-manager.ts', ET + 'util/storage.ts'],
    mech: [
      ['debounced write and flush on hide/unload', ET + 'behavioral-targeting/event-storage.ts'],
      ['allow-list of event types', ET + 'behavioral-targeting/behavioral-targeting-manager.ts: buildEventToBehaviorsMap'],
    ],
    observe: ['the stored history at every write', 'what the next page starts with'],
    oracle: 'reference history compared with every write and at every durability point',
    note: trust,
  },
  {
    id: 'T06',
    title: 'Matched behaviours and variants follow the event history',
    statement:
      'The behaviours the visitor is targeted with are exactly the rules that hold over the event history (any combination of and, or, not, counts, properties, current session or rolling window) as of the last event concerning them or the page load. The variants of flags that depend on behaviours follow at once: newly matching ones are applied and ones that no longer match are withdrawn, also across single-page navigation and bursts of events.',
    over: ['schedules', 'inputs', 'histories'],
    quant: 'Random rules and event sequences over hours and days of simulated time, several visits, navigations and overlapping asynchronous variant applications.',
    why: 'Tests check single rules against a mocked clock; rules that stop matching, windows that expire between visits and overlapping applications are not covered.',
    files: [ET + 'behavioral-targeting/evaluator.ts', ET + 'behavioral-targeting/behavioral-targeting-manager.ts', ET + 'subscriptions/subscriptions.ts', ET + 'experiment.ts'],
    mech: [
      ['incremental evaluation per event type', ET + 'behavioral-targeting/behavioral-targeting-manager.ts: evaluateEvent'],
      ['user update and re-application on change', ET + 'subscriptions/subscriptions.ts: groupSubscribe callback'],
      ['reverting variants that no longer apply', ET + 'experiment.ts: applyVariants'],
    ],
    observe: ['user property behavioral_targeting', 'live mutations'],
    oracle: 'independent evaluation of the rules over the reference history',
    note: trust,
  },
  {
    id: 'T07',
    title: 'The relay merges histories of subdomains, and failing harms nothing',
    statement:
      'With a working relay a page’s history becomes the union (by event identity, in time order, latest 500) of its own and the other subdomains’ events, behaviours and variants follow, and every event of the page reaches the relay at least once, by the time the tab is hidden at the latest. A relay that is silent, late, failing or malformed changes nothing: start is not delayed, the own history stays intact and the frame is removed. Only the relay’s own frame and origin are believed or written to, with this visitor’s identity, and after a refusal no event is handed over.',
    over: ['schedules', 'fault_sequences', 'histories'],
    quant: 'Every latency, loss, duplication, error and malformed answer per message, forged messages from other windows and origins, refusals and page changes at any moment.',
    why: 'A two-party protocol with time-outs, retries and hostile windows; tests mock the relay client or answer promptly.',
    files: [ET + 'behavioral-targeting/relay-client.ts', ET + 'behavioral-targeting/event-storage.ts', ET + 'behavioral-targeting/behavioral-targeting-manager.ts', ET + 'experiment.ts'],
    mech: [
      ['origin and window check, request time-outs', ET + 'behavioral-targeting/relay-client.ts'],
      ['migrate, backfill, merge', ET + 'behavioral-targeting/event-storage.ts: syncFromRelay, mergeFromRelay'],
      ['life cycle and re-application', ET + 'experiment.ts: scheduleRelaySync, reapplyVariantsAfterRelaySync'],
    ],
    observe: ['messages posted to the frame', 'stored history', 'behaviours and live mutations'],
    oracle: 'scripted relay with a reference union model; monitors on every message and write',
    note: trust,
  },
  {
    id: 'T08',
    title: 'Sessions roll: same id while active, new id after a pause',
    statement:
      'Two consecutive events (of any type, on any subdomain when cookies work) carry the same session identity if and only if they are at most the session time-out apart. Events counted in the current session are exactly those carrying the identity of the session at that moment. With cookies blocked the same holds per page.',
    over: ['schedules', 'histories', 'configurations'],
    quant: 'Every spacing of events around the time-out, across visits, subdomains and crashes.',
    why: 'Boundary instants and several origins sharing a session cookie; tests use one page with a mocked store.',
    files: [ET + 'behavioral-targeting/session-manager.ts', ET + 'behavioral-targeting/event-storage.ts', ET + 'util/cookie.ts'],
    mech: [['recording activity in a shared cookie', ET + 'behavioral-targeting/session-manager.ts']],
    observe: ['session ids in the stored history'],
    oracle: 'reference session model, both directions (split and failure to rotate)',
    note: trust,
  },
  {
    id: 'T09',
    title: 'Events before start are replayed once, in order',
    statement:
      'Analytics events received before the client is running are processed exactly once, in the order received, before any later event, as soon as it is running, however long start takes; of more than 500 the latest 500 are kept. An event that activates a page does so whether it came before or after start.',
    over: ['schedules', 'histories', 'fault_sequences'],
    quant: 'Every number and timing of events relative to a start delayed by slow or failing requests, and single-page navigation.',
    why: 'The start is asynchronous over several awaits; tests call start to completion before sending events.',
    files: [ET + 'index.ts', ET + 'experiment.ts', ET + 'subscriptions/subscriptions.ts'],
    mech: [['event buffer', ET + 'index.ts: flushEventBuffer, createPlugin']],
    observe: ['stored history', 'page activation', 'live mutations'],
    oracle: 'reference buffer; history compared at every write',
    note: trust,
  },
  {
    id: 'T10',
    title: 'A page is active exactly while its URL condition and trigger hold',
    statement:
      'Once the visitor is known, a page of a flag is active when, and only when, its URL condition holds for the current URL and its trigger (URL, manual, analytics event, element appeared, element in view, exit intent, click, hover or focus, time in view, scroll) has fired since the URL last changed. A URL change resets every trigger, and what the visitor does to one element or page never hides or fires another’s.',
    over: ['inputs', 'schedules', 'histories'],
    quant: 'Every mix of page objects, DOM and layout changes, user actions, visibility changes and URL changes at any moment, including during start.',
    why: 'Nine triggers share observers, timers and per-URL state; tests fire one trigger of one page in isolation with hand-called handlers.',
    files: [ET + 'subscriptions/subscriptions.ts', ET + 'messages/message-bus.ts', ET + 'experiment.ts'],
    mech: [
      ['trigger publishers', ET + 'subscriptions/subscriptions.ts: setup*Publisher'],
      ['reset on URL change', ET + 'subscriptions/subscriptions.ts: resetTriggerStates'],
      ['active pages', ET + 'experiment.ts: updateActivePages, getActivePages'],
    ],
    observe: ['getActivePages', 'page change subscribers'],
    oracle: 'reference model of every trigger (must have fired / may have fired / cannot have fired), compared after quiet periods and at every notification',
    note: trust + ' Left open by the model: hover and focus timers that outlive a URL change or the element, and elements that stay observed after their class stops matching.',
  },
  {
    id: 'T11',
    title: 'What is live on the page is what the variants and active pages call for',
    statement:
      'While the client runs, the mutations and injections live in the document are exactly those of the variant each flag currently has, restricted to actions whose scope includes an active page, each applied once. When a variant or a page stops being active its changes are reverted, every injected script, style and clean-up function is released exactly once, and an exception in one experiment’s code affects no other.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'Every sequence of page activations, variant changes, reverts, previews and URL changes, with throwing site code, while applying is asynchronous.',
    why: 'Apply and revert race over awaits between page triggers, remote evaluation and site calls; tests apply and revert single actions sequentially.',
    files: [ET + 'experiment.ts', ET + 'inject-utils.ts', ET + 'subscriptions/subscriptions.ts'],
    mech: [
      ['applied mutations and injections', ET + 'experiment.ts: applyVariants, revertVariants, handleMutate, handleInject'],
      ['page change handling', ET + 'subscriptions/subscriptions.ts: setupPageObjectSubscriptions'],
    ],
    observe: ['live mutations of the recorder', 'injected styles and elements', 'clean-up calls'],
    oracle: 'reference function (variant, active pages, scope) -> live set, at quiet points; exactly-once ledger for injections',
    note: trust,
  },
  {
    id: 'T12',
    title: 'Impressions are tracked for what the visitor is shown, once per URL',
    statement:
      'An impression is tracked only for a flag with an active page, for the variant the visitor currently has, and not again for the same flag and variant while the URL stays the same. Every flag active on a page after start has its impression tracked, unless the site asked for no automatic applying.',
    over: ['schedules', 'histories', 'fault_sequences'],
    quant: 'Every timing of triggers, evaluation results, identity resolution and URL changes.',
    why: 'Whether an impression precedes identity or repeats depends on the order of asynchronous start-up steps.',
    files: [ET + 'experiment.ts', ET + 'subscriptions/subscriptions.ts'],
    mech: [['impressions', ET + 'experiment.ts: exposureWithDedupe, applyVariants'], ['identity before applying', ET + 'experiment.ts: start']],
    observe: ['events reaching the integration'],
    oracle: 'impression ledger against the evaluation current when it is tracked',
    note: trust,
  },
  {
    id: 'T13',
    title: 'Redirect experiments take visitors to their variant and never in circles',
    statement:
      'A visitor on a page where a redirect variant is active is sent to that variant\'s destination, with the query parameters of the page carried along, by one redirect at a time, and never from a page where the experiment is not active or that already is the destination. When the server or the app undoes a redirect (strips, reorders or prepends parameters, adds a slash, bounces, cancels it) the visitor is not sent round again and again: the redirect is tried at most once more and then suppressed, until the visitor acts (a few times more on a site that undoes it in another way every time). A page its site keeps hidden until the experiments have run is not shown while the visitor is being sent away (for the second such hiding lasts); but whatever happens, the page is shown in the end and the client ends up running.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'Every set of up to three redirect experiments over two hosts, every site that treats redirects as listed, and every order of links, typed URLs, reloads, single-page navigation, back and slow landings.',
    why: 'Loops arise over several page loads from what the server makes of the destination; tests hold one page load with a mocked location.',
    files: [ET + 'experiment.ts', ET + 'util/url.ts', ET + 'index.ts'],
    mech: [
      ['redirecting', ET + 'experiment.ts: handleRedirect, isAtDestination'],
      ['loop detection', ET + 'experiment.ts: reconcileRedirectMarkersOnLoad, markerBackAtSource, markerMatchesTarget, suppressRedirect'],
      ['destination', ET + 'util/url.ts: concatenateQueryParamsOf'],
    ],
    observe: ['location.replace', 'the redirect handler', 'the page the visitor ends up on'],
    oracle: 'reference destination function and a redirect ledger per visitor action; at rest, no active redirect is left undone',
    note: trust + ' Loop detection needs sessionStorage (the code says so): without it the loop clause is not checked. An app that moves the visitor back by a second hard navigation after landing is not generated.',
  },
  {
    id: 'T14',
    title: 'Every redirect has its impression tracked exactly once',
    statement:
      'When a redirect variant has sent a visitor away, the impression of that redirect, with its variant and experiment, is tracked on arrival: through sessionStorage on the same origin, and through the URL parameter or the cookie on another host when these are switched on. No redirect has its impression tracked twice, also when the visitor comes back later, the landing is slow, or other redirects are waiting for theirs.',
    over: ['schedules', 'histories', 'fault_sequences'],
    quant: 'As for the redirects themselves, times every combination of URL, cookie and session transport, blocked cookies and storage.',
    why: 'The impression crosses page loads and hosts through three stores that are read asynchronously while URLs change.',
    files: [ET + 'experiment.ts', ET + 'util/url.ts'],
    mech: [
      ['storing', ET + 'experiment.ts: storeRedirectImpressions, handleRedirect'],
      ['tracking', ET + 'experiment.ts: fireStoredRedirectImpressions, exposureWithDedupe'],
    ],
    state: [['stored impressions', 'impressions of redirects not yet tracked', 'EXP_<key>_REDIRECT in sessionStorage and cookie, AMP_REDIRECT parameter']],
    observe: ['events reaching the integration'],
    oracle: 'impression ledger: each impression is matched to a redirect; each redirect whose transport worked must be matched at rest',
    note: trust + ' Left open: a visitor who acts, or a site whose own navigation handler changes the URL, while the page is already being left; a repeat on the same base URL, which is deduplicated by design.',
  },
  {
    id: 'T16',
    title: 'A preview shows exactly the previewed variants, and only in its own tab',
    statement:
      'In a tab opened with preview parameters the tag shows the changes of exactly the previewed variants, from the latest configuration when it could be fetched within 10 s and from the built-in one otherwise, and every impression of a previewed flag carries the previewed variant. Flags that are not previewed behave as always, the preview lasts for the whole tab and reaches no other tab, its parameters are removed from the address, and the page is visible again and the client started whatever happens to that request.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All previewed variants (also unknown ones), page-object configurations, later navigations and other tabs, and outcomes of the configuration request.',
    why: 'Previewing combines an asynchronous start, tab storage and the variant life cycle; tests mock the request and look at the first page only.',
    files: [ET + 'experiment.ts', ET + 'preview/preview-api.ts'],
    mech: [
      ['entering a preview', ET + 'experiment.ts: initialize, setupPreviewMode, fetchPageConfigs'],
      ['showing previews', ET + 'experiment.ts: previewVariants, applyVariants'],
    ],
    state: [['preview session', 'previewed flag variants of this tab', 'sessionStorage amp-preview-mode']],
    observe: ['live mutations and injections', 'events reaching the integration', 'the address', 'page visibility'],
    oracle: 'executable model of active pages and previewed payloads, compared with the live changes at every quiet point',
    note: trust + ' Left open: other query parameters of a preview URL, variants changed by revertVariants()/applyVariants() called by the site during a preview.',
  },
  {
    id: 'T15',
    title: 'The tag always finishes starting and never leaves the page hidden',
    statement:
      'Once consent allows it the tag is running within the documented deadlines (10 s for preview configurations, the integration\'s set-up where the experiments need it, 1 s for remote flags), whatever the servers answer and whatever is wrong with stored data, cookies or storage; local experiments are applied without waiting for the network. The page is hidden only while changes that depend on a request are awaited, for at most a second each time, and once the tag runs neither its own overlay nor the site\'s anti-flicker snippet remains and the changes shown are those of the visitor\'s variants. Nothing thrown inside the tag reaches the page.',
    over: ['inputs', 'schedules', 'fault_sequences'],
    quant: 'All sets of local, remote, blocking, holdout and mutex experiments, integrations, previews, consent, response timings and failures, storage and cookie faults, damaged stored values, stalls and clock jumps.',
    why: 'Start-up is a chain of awaits on cookies, integrations and requests; any rejection or hang among them leaves a blank or unvaried page. Tests exercise single chains with mocks.',
    files: [ET + 'experiment.ts', ET + 'index.ts', ET + 'util/anti-flicker.ts', ET + 'util/storage.ts'],
    mech: [
      ['launch and fallback', ET + 'index.ts: launchClient, startClient'],
      ['start sequence', ET + 'experiment.ts: start, fetchRemoteFlags'],
      ['overlay', ET + 'util/anti-flicker.ts'],
    ],
    state: [['overlay', 'whether the page is hidden', 'document.adoptedStyleSheets, #amp-exp-css']],
    observe: ['window.webExperiment.isRunning', 'page visibility', 'live mutations', 'uncaught errors'],
    oracle: 'deadline computed from the configuration, invariant on the overlay after every step, reference set of live changes at rest',
    note: trust + ' Left open: integrations whose setup() throws or never settles; a browser without localStorage, where the tag by design does not start; well-formed stored values of the wrong type.',
  },
  {
    id: 'T18',
    title: 'Events tracked while the tag starts count exactly once',
    statement:
      'Every event the site\'s analytics passes to the tag\'s plugin, before, during or after the start, counts exactly once for behavioural targeting when the tag runs, also when initialize() is called again and whatever the servers do; and is passed on unaltered. Events before consent do not count.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All placements of events relative to the start, consent, preview fetches, remote fetches, repeated initialisation and later visits.',
    why: 'Events are buffered until an asynchronous start ends; losing or repeating one depends on where in the start it falls.',
    files: [ET + 'index.ts', ET + 'experiment.ts'],
    mech: [
      ['buffer and flush', ET + 'index.ts: createPlugin, flushEventBuffer'],
      ['counting', ET + 'experiment.ts: trackEvent'],
    ],
    observe: ['the visitor\'s matched behaviours'],
    oracle: 'count of events delivered to the plugin, compared with threshold rules at rest',
    note: trust + ' Left open: more than 500 events before the start (the oldest are dropped by design).',
  },
  {
    id: 'T17',
    title: 'The visual editor loads only Amplitude\'s scripts and edits an untouched page',
    statement:
      'Only https scripts from amplitude.com subdomains are ever loaded, in the editor or a preview, when a window of an amplitude.com subdomain asks or a valid editor session is stored, and never a second one unless the first failed; a valid request is served as soon as there is a body. In the editor no variant is applied, no impression or request sent, the page is not hidden, its active pages follow the address, the editor parameter is removed, an unreachable opener is reported, and the loading indicator ends with the load, its failure, or 10 s. No message, however malformed, raises an error in the page, and outside the editor none has any effect.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All message origins and contents, stored and tampered sessions, script load outcomes and delays, late bodies, severed openers, device frames and page sequences.',
    why: 'Loading foreign code into customer pages is guarded by a small state machine over messages, storage and load events arriving in any order.',
    files: [ET + 'util/messenger.ts', ET + 'util/loading-indicator.ts', ET + 'util/opener-channel.ts', ET + 'util/shell.ts', ET + 'experiment.ts'],
    mech: [
      ['origin and script validation', ET + 'util/messenger.ts: WindowMessenger.setup, getStoredSession'],
      ['editor start', ET + 'experiment.ts: start, setPageObjects'],
      ['device frame', ET + 'util/shell.ts: buildShell'],
    ],
    state: [['messenger state', 'closed, opening or open', 'WindowMessenger.setup closure'], ['editor session', 'script to load on later pages', 'sessionStorage visual-editor-state']],
    observe: ['scripts and frames inserted', 'loading indicator and banner', 'live mutations, impressions and requests', 'the address'],
    oracle: 'executable model of the loader (expected script after each message), invariants on the page after every operation',
    note: trust + ' Left open: a request after a stored session failed to load; a URL with both preview and editor parameters; the editor parameter reappearing while a device frame mirrors its address.',
  },
  {
    id: 'T19',
    title: 'What the tag shows of itself is true, and looking changes nothing',
    statement:
      'At any moment the debug state names exactly the configured flags, with the variant the client assigns, the segment that gave it (for flags evaluated in the browser), whether a page of theirs is active, each page object\'s URL conditions and trigger as they are, a reason exactly for flags that are off, and the current address. Page-change subscribers have heard of the active pages whenever the page has been quiet, are told nothing else than the truth, and nothing after they unsubscribed; debug subscribers likewise, about 100 ms after the last change and only when debugging is on. Reading state, subscribing and debugging never alter what is shown.',
    over: ['inputs', 'schedules', 'histories'],
    quant: 'All page-object and flag configurations with visitor and site actions, navigations and variant changes, subscriptions and cancellations, and looks in between at every event.',
    why: 'The state shown is assembled from a dozen live structures that change at different moments; tests compare single snapshots.',
    files: [ET + 'experiment.ts', ET + 'subscriptions/subscriptions.ts', ET + 'util/debug-recorder.ts'],
    mech: [
      ['snapshot', ET + 'experiment.ts: buildFlagDebugInfo; ' + ET + 'subscriptions/subscriptions.ts: getDebugPageObjects'],
      ['notification', ET + 'subscriptions/subscriptions.ts: setupPageObjectSubscriptions, scheduleDebugNotification'],
    ],
    observe: ['getDebugState, getVariants, getActivePages, getActiveExperiments', 'calls of subscribers', 'live mutations and injections'],
    oracle: 'model of triggers and URL conditions shared with T10 and of live changes shared with T11; subscribers\' last news compared with the state at every quiet point',
    note: trust + ' Left open: subscribers that throw (they may keep a later one from hearing), the recorded debug events beyond their order.',
  },
  {
    id: 'T20',
    title: 'What injected code puts into the page stays there until it is withdrawn',
    statement:
      'An element which a variant\'s injected code asks to insert is in the document, in the first place that matches (before the child it names), whenever such a place exists: at once on a page that changes moderately, and within about a second however much it changes or fights back, but never more than ten insertions a second. Its promise resolves with the first insertion and its callback runs once per insertion. An element waited for is reported as soon as it exists, and only an element that matches. Nothing is inserted or reported once the variant is withdrawn, and the observer of the declarative changes is never left paused.',
    over: ['inputs', 'schedules', 'histories'],
    quant: 'All sequences of page changes (containers coming, going, moving, renamed, the element removed again at once), bursts, navigations and withdrawals, with several insertions and waits at a time.',
    why: 'Insertion is driven by a stream of mutations and a rate limit measured in time; there are no tests of it at all.',
    files: [ET + 'util/inject-utils.ts', ET + 'experiment.ts'],
    mech: [
      ['waiting and inserting', ET + 'util/inject-utils.ts: getInjectUtils'],
      ['withdrawal', ET + 'experiment.ts: handleInject'],
    ],
    observe: ['where and when elements enter the document', 'promises and callbacks of the injected code'],
    oracle: 'reference selection of the place at every insertion, sliding-window count of insertions, presence checked after every step',
    note: trust + ' Left open: selectors that are not valid; a callback that throws or removes the element within the first insertion.',
  },
  {
    id: 'T21',
    title: 'Links changed by an experiment lead where they say, as the site\'s links do',
    statement:
      'A plain click on a router link of a single-page app whose address an experiment has changed leads to the changed address exactly once: within the app through its router (Next.js or history and popstate), by loading the page when it is of another origin. Every other click (links not changed or no longer changed, not of a router, opening elsewhere, with a modifier key, or cancelled by the site) is left to the page untouched, with one copy of the script or two. Removing a node that is no longer a child of its former parent neither throws nor removes it.',
    over: ['inputs', 'schedules', 'histories'],
    quant: 'All links, routers, targets, modifiers and addresses, with experiments applied and withdrawn and links rendered anew in between.',
    why: 'The interceptor works on every click of the site in the capture phase, where a wrong guess breaks navigation; there are no tests of it at all.',
    files: [ET + 'util/spa-link-interceptor.ts', ET + 'util/patch.ts', ET + 'experiment.ts'],
    mech: [
      ['interception', ET + 'util/spa-link-interceptor.ts: installSpaLinkInterceptor, navigateSpa'],
      ['node removal', ET + 'util/patch.ts: patchRemoveChild'],
    ],
    observe: ['page loads, new windows, router calls, popstate events, history entries, the address'],
    oracle: 'executable model of what each click leads to',
    note: trust + ' Left open: clicks the site cancels only after the capture phase; download links.',
  },
  {
    id: 'T22',
    title: 'The campaign a visitor came from decides targeting and is remembered',
    statement:
      'The utm parameters a visitor is targeted by are, each for itself, that of the address at the start, else that remembered from earlier pages of the origin, else that in the cookie of Amplitude Analytics; they decide local variants on the first page already, stay the same for as long as the page lives, and are remembered for the next one. Unreadable or unavailable storage and cookies only remove their own contribution. Before consent nothing is remembered. A redirect first leaves the whole campaign (utm, click identifiers and referrer) of the page it leaves in a cookie of the registrable domain.',
    over: ['inputs', 'histories', 'fault_sequences', 'crash_points'],
    quant: 'All sequences of visits with any parameters, referrers and cookies, on several subdomains, with blocked cookies, full or corrupted storage, crashes and late consent.',
    why: 'The result depends on the history of visits and on which of three stores worked at each.',
    files: [ET + 'util/campaign.ts', ET + 'util/cookie.ts', ET + 'experiment.ts', ET + 'util/storage.ts'],
    mech: [
      ['merge and memory', ET + 'util/campaign.ts: enrichUserWithCampaignData'],
      ['hand-over on redirect', ET + 'util/cookie.ts: setMarketingCookie'],
    ],
    state: [['remembered campaign', 'utm parameters of earlier pages', 'localStorage EXP_MKTG_<key>']],
    observe: ['the user of the experiment client', 'live variants', 'localStorage', 'cookies at the moment of a redirect'],
    oracle: 'reference merge over what was stored before each visit',
    note: trust,
  },
  {
    id: 'T23',
    title: 'A broken experiment leaves the others alone',
    statement:
      "Whatever in the content of one experiment cannot be used (a selector, destination, payload, trigger or regular expression; injected code that does not parse or throws, or whose clean-up throws) and whichever callback of the site throws (redirect handler, page-change or debugging subscriber), the tag starts, the page is shown, and the changes of every other experiment are applied, withdrawn and tracked as if the broken one did not exist; other subscribers are told the same. What works of the broken experiment is applied once on its own pages and is gone elsewhere. Apart from what its own code throws, nothing of it reaches the page as an uncaught error.",
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All sets of experiments of which some are broken in any of these ways, in every order, over all sequences of navigation, triggers, previews and network failures.',
    why: 'Which experiments come after the broken one depends on their order, the page and the trigger; tests try one broken experiment alone.',
    files: [ET + 'experiment.ts', ET + 'subscriptions/subscriptions.ts', ET + 'util/inject-utils.ts', 'packages/experiment-core/src/evaluation/evaluation.ts'],
    mech: [
      ['applying', ET + 'experiment.ts: handleVariantAction, handleMutate, handleInject, handleRedirect'],
      ['triggers', ET + 'subscriptions/subscriptions.ts: set-up of element, interaction and scroll triggers'],
    ],
    observe: ['live mutations and injections', 'events reaching the integration', 'isRunning', 'page-change subscribers', 'uncaught errors'],
    oracle: 'reference model of the working experiments alone',
    note: trust,
  },
  {
    id: 'T24',
    title: 'The tag and a feature experimentation client on one page leave each other alone',
    statement:
      "A site may load the web experimentation tag and, in a bundle of its own, a feature experimentation client of the same or another deployment and instance name; page, analytics and storage are shared. Each keeps to its own variants, flags, user and requests: the client reads only features, from one whole response of its own, and requests with its own user; the tag shows exactly its web experiments. On the next page load the client starts from what it had, whatever the tag stored or erased in between. Every exposure of the client reaches analytics once and in order, every impression of the tag once per URL and flag, and analytics is given nothing else. A refusal given to the tag changes nothing of what the client has; only what still waits in the queue shared by clients of one instance name, and their record of what was tracked, goes with it.",
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All orders of loading tag, client and analytics, over several page loads, with any interleaving of fetches, starts, clears, reads, navigation and refusals, under network faults.',
    why: 'Each package is tested alone; what they share (storage keys, connector, exposure queue, identity) is only exercised when both run on one page.',
    files: [ET + 'experiment.ts', 'packages/experiment-browser/src/experimentClient.ts', 'packages/experiment-browser/src/storage/cache.ts', 'packages/experiment-browser/src/integration/manager.ts', ET + 'consent/clear-data.ts'],
    mech: [
      ['storage namespaces', 'packages/experiment-browser/src/storage/cache.ts and integration/manager.ts: storage keys'],
      ['requests of the two kinds', 'packages/experiment-browser/src/experimentClient.ts: delivery method of flag requests'],
      ['erasure', ET + 'consent/clear-data.ts'],
    ],
    observe: ['variants, user and requests of both clients', 'live mutations', 'events received by analytics across page loads'],
    oracle: 'two independent reference models, one per side, over a shared page, storage and analytics',
    note: trust,
  },
  {
    id: 'T25',
    title: "Changes a site shows, takes back and previews by its own hand",
    statement:
      "A site may itself call applyVariants, revertVariants and previewVariants, for all or some experiments, between navigations. revertVariants takes the changes of the named experiments back at once, and they stay away until something puts them on again. applyVariants puts the variant assigned to the visitor on the page, previewVariants the variant named, each in place of whatever of that experiment was shown before and only what is scoped to the pages now active; names that do not exist do nothing but take back. Experiments not named are untouched. When calls overlap, either may prevail; but changes of two variants of one experiment are never on the page together, no change is there twice, and getActiveExperiments() lists exactly the experiments of which something is shown. The next navigation to another URL puts everything right.",
    over: ['inputs', 'schedules', 'histories'],
    quant: 'All sequences of apply, revert, preview and navigation, for any subsets of experiments, in any order, also overlapping, with single and several pages, scoped and unscoped changes and injected code.',
    why: 'The tests make one call on a fresh page; that the bookkeeping stays right over any sequence and overlap of calls they do not show.',
    files: [ET + 'experiment.ts'],
    mech: [
      ['applied changes by flag and variant', ET + 'experiment.ts: appliedMutations, handleMutate, handleInject'],
      ['calls by hand', ET + 'experiment.ts: applyVariants, revertVariants, previewVariants'],
    ],
    observe: ['live mutations and injections', 'getActiveExperiments()'],
    oracle: 'reference model of the variant last put on the page, per experiment',
    note: trust,
  },
  {
    id: 'T26',
    title: 'What is gathered before the visitor decides is held back until a grant',
    statement:
      'While a required consent is undecided, the storage, cookies, behavioural events and impressions the tag works with are held in memory: nothing of an earlier visit is read from the device, nothing is written to or removed from it (except Amplitude\'s own preview and editor state), and no impression is sent, yet everything reads back as it was put. A grant hands over exactly what was last put, as it was then, whatever its owner changed afterwards, keeping the identity and first-seen date an earlier visit stored (web_exp_id, web_exp_id_v2 and device_id of the stored user; first_seen of the user provider; web_exp_id_v2 and first_seen of the identity cookie) and the events it stored, among the new ones in order of time; reads and writes made at once after it see the whole. Held impressions are sent once, in order and with the time they happened, as soon as analytics takes them. After a refusal nothing of it ever appears, also after a later grant; under a refusal nothing is read, written or sent, and only removals reach the device. A full storage or failing analytics loses only what could not be written.',
    over: ['inputs', 'schedules', 'histories', 'fault_sequences'],
    quant: 'All sequences of reads, writes, removals and impressions before, between and after decisions, over data left by an earlier visit, with storage that fails and analytics that is late or throws.',
    why: 'The tests take each part through one decision; what the parts hold over any order of use and decisions they do not show.',
    files: [ET + 'util/storage.ts', ET + 'consent/consent-cookie-storage.ts', ET + 'consent/consent-impression-buffer.ts', ET + 'util/grant-flush-merge.ts', ET + 'util/cookie.ts', ET + 'consent/consent-gate.ts', ET + 'behavioral-targeting/event-storage.ts'],
    mech: [
      ['held writes', ET + 'util/storage.ts: pendingWrites, armConsentListener; ' + ET + 'consent/consent-cookie-storage.ts: buffered, armFlush'],
      ['held impressions', ET + 'consent/consent-impression-buffer.ts: ImpressionBuffer'],
      ['handing over', ET + 'util/grant-flush-merge.ts'],
    ],
    observe: ['what each read returns', 'the device after every step', 'impressions reaching analytics'],
    oracle: 'reference model of device and buffers, stepped with every call and decision',
    note: trust + ' initialize() builds no client before a grant, so the scenario makes the calls such a client would make. Left open: cookie writes begun under a grant that is withdrawn before they end; impressions granted, not yet taken by analytics, withdrawn and granted again.',
  },
];
