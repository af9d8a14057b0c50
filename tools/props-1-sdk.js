'use strict';
const EB = 'packages/experiment-browser/src/';
const EC = 'packages/experiment-core/src/';
const AC = 'packages/analytics-connector/src/';
const ET = 'packages/experiment-tag/src/';
const SEG = 'packages/plugin-segment/src/';
const trust =
  'Sampled, not exhaustive: evidence over the seeds run. Trusts the simulated browser (timers, fetch, storage, cookies) and the reference model in the scenario; real code is everything under the listed packages, bundled from the working tree.';
module.exports = [
  {
    id: 'B01',
    title: 'Fetched variants are applied atomically and failures change nothing',
    statement:
      'At every instant the variants a client exposes are exactly those obtained by applying, in order of arrival, each complete and valid response to its fetches: a response to an unrestricted fetch replaces all variants, a response to a fetch for given flags replaces exactly those flags. A failed, timed-out, malformed or interrupted response changes nothing. What another client on the same origin would read from storage is that same state.',
    over: ['schedules', 'fault_sequences', 'histories'],
    quant: 'Every interleaving of overlapping fetches, clears, reloads and retries with every latency and network fault.',
    why: 'The tests mock one response at a time in order; overlapping fetches with late, failed and malformed responses are not reachable with them, and the client test file is not even part of the offline suite.',
    files: [EB + 'experimentClient.ts', EB + 'storage/cache.ts', EB + 'transport/http.ts', EC + 'api/evaluation-api.ts'],
    mech: [
      ['parse fully, then replace and store', EB + 'experimentClient.ts: fetchInternal, storeVariants'],
      ['status check before parsing', EC + 'api/evaluation-api.ts: getVariants'],
    ],
    state: [['variant cache', 'the variants exposed by variant() and all()', EB + 'storage/cache.ts']],
    observe: ['Client.all()', 'Client.variant()', 'localStorage read by a fresh client'],
    oracle: 'reference model of accepted responses compared after every event',
    note: trust,
  },
  {
    id: 'B02',
    title: 'Fetch retry policy: which failures, when, how often, and superseding',
    statement:
      'After a fetch fails for a reason that may be transient (network error, time-out, status other than 4xx, or 429) it is retried in the background up to eight times with the documented exponential back-off, until one attempt succeeds or a newer fetch starts; after any other failure, or when retries are disabled, it is never retried. A newer fetch cancels every retry still pending from older ones. Once the network works again, the variants for a retried fetch are obtained without the caller doing anything.',
    over: ['schedules', 'fault_sequences'],
    quant: 'Every sequence of overlapping fetches and every outage pattern, status code, silence and recovery time.',
    why: 'Needs minutes of timer behaviour under overlapping failures; tests cover one failing fetch with real sleeps.',
    files: [EB + 'experimentClient.ts', EB + 'util/backoff.ts', EB + 'transport/http.ts'],
    mech: [
      ['back-off timer chain', EB + 'util/backoff.ts'],
      ['start/stop of retries and the retry filter', EB + 'experimentClient.ts: startRetries, stopRetries, shouldRetryFetch'],
    ],
    observe: ['instants of requests on the wire', 'Client.all()'],
    oracle: 'reference retry schedule, every request instant compared',
    note: trust,
  },
  {
    id: 'B03',
    title: 'fetch() and start() always settle, in time, with the documented outcome',
    statement:
      'Every call to fetch or start settles no later than the identity wait plus the configured request time-out, whatever the network and the integration do. It resolves unless errors are configured to be thrown, in which case it rejects exactly when its own request failed. It settles at the instant the response or the time-out arrives, never later.',
    over: ['schedules', 'fault_sequences', 'configurations'],
    quant: 'Every server latency, failure or silence and every integration that is late, failing or silent.',
    why: 'Liveness under silence and races with the deadline needs a controlled clock; tests use a handful of real-time cases.',
    files: [EB + 'experimentClient.ts', EB + 'transport/http.ts', EB + 'integration/manager.ts', EB + 'integration/amplitude.ts'],
    mech: [
      ['request time-out race', EB + 'transport/http.ts: timeout'],
      ['bounded identity wait', EB + 'integration/amplitude.ts: waitForConnectorIdentity'],
    ],
    observe: ['settlement of the returned promises'],
    oracle: 'bounded-liveness deadlines and outcome model per call',
    note: trust,
  },
  {
    id: 'B04',
    title: 'What was stored last is what the next page load starts from',
    statement:
      'A page load starts from the variants, flags and assignment-tracking option that the same instance (deployment, instance name, kind) last stored successfully, or from the state before a write that failed or was cut short by a crash, never from a mixture and never from another instance. Unreadable stored data is ignored and later overwritten. The tracking option set earlier is sent with every later fetch, across reloads.',
    over: ['crash_points', 'fault_sequences', 'histories'],
    quant: 'Every crash at a storage write, quota failure, corruption, and every mixture of instances sharing an origin.',
    why: 'Crash points and storage failures are not injected by any test; each test uses one instance and a fresh storage.',
    files: [EB + 'storage/cache.ts', EB + 'storage/local-storage.ts', EB + 'storage/session-storage.ts', EB + 'experimentClient.ts'],
    mech: [
      ['one key per instance and kind', EB + 'storage/cache.ts: getVariantStorage, getFlagStorage, getVariantsOptionsStorage'],
      ['single-write store, tolerant load', EB + 'storage/cache.ts: LoadStoreCache'],
    ],
    observe: ['Client.all() right after load', 'tracking header of requests', 'localStorage/sessionStorage'],
    oracle: 'model of durable state with crash alternatives',
    note: trust,
  },
  {
    id: 'B05',
    title: 'Storage and cookie failures never break the API',
    statement:
      'Whatever browser storage does (absent, forbidden, full, throwing on any access, holding garbage), initializing the client and calling any of its methods never throws or rejects for that reason, and fetched variants and flags remain available in memory. An exposure is still handed to a working exposure provider and integration.',
    over: ['fault_sequences', 'inputs'],
    quant: 'Every storage operation failing at any time in every way, with arbitrary bytes under every key.',
    why: 'Tests inject at most one kind of storage failure at one call site.',
    files: [EC + 'util/global.ts', EB + 'storage/', EB + 'integration/manager.ts', EB + 'util/userSessionExposureTracker.ts', EB + 'providers/default.ts'],
    mech: [
      ['guarded access to storage', EC + 'util/global.ts: getLocalStorage, getSessionStorage'],
      ['guarded store and load', EB + 'experimentClient.ts'],
    ],
    observe: ['absence of exceptions and rejections', 'Client.variant()'],
    oracle: 'no exception escapes and in-memory results equal the model',
    note: trust,
  },
  {
    id: 'B06',
    title: 'Exposures are tracked once per session and variant change',
    statement:
      'For each flag an exposure reaches the exposure provider, and the analytics integration, the first time and again exactly when its variant (or, where it matters, the identity) changed since the last one; repeated reads add nothing. No exposure is tracked when the variant forbids it or when a fallback without a default variant answered. The content (flag, variant, experiment, metadata) is that of the variant which was returned.',
    over: ['histories', 'configurations'],
    quant: 'Every history of reads, fetches, user and identity changes and reloads, in every combination of trackers.',
    why: 'Deduplication depends on the whole history; tests sample short fixed ones.',
    files: [EB + 'experimentClient.ts', EB + 'integration/manager.ts', EB + 'util/userSessionExposureTracker.ts', EB + 'util/sessionAnalyticsProvider.ts'],
    mech: [
      ['session dedupe cache', EB + 'integration/manager.ts: SessionDedupeCache'],
      ['provider-side dedupe', EB + 'util/userSessionExposureTracker.ts'],
    ],
    observe: ['calls of the exposure provider, integration and legacy analytics provider'],
    oracle: 'reference dedupe model for each tracker',
    note: trust,
  },
  {
    id: 'B07',
    title: 'Queued exposures are delivered in order, exactly once, across reloads',
    statement:
      'An exposure made while the analytics integration is absent, not ready, refusing or throwing is kept, also across page loads, and delivered in order once the integration accepts it, within about a second of it working again. It is delivered exactly once, except that a crash inside the delivery may repeat it. When more than 512 are waiting the oldest are dropped.',
    over: ['schedules', 'crash_points', 'fault_sequences'],
    quant: 'Every interleaving of exposures in several tabs with integration outages, crashes at storage writes, reloads and overflow.',
    why: 'Multi-tab, crash and outage interleavings are beyond the tests, which check one queue in one page.',
    files: [EB + 'integration/manager.ts'],
    mech: [
      ['persistent queue with poller', EB + 'integration/manager.ts: PersistentTrackingQueue'],
    ],
    state: [['unsent queue', 'exposures not accepted yet', 'localStorage EXP_unsent_*']],
    observe: ['events handed to the integration'],
    oracle: 'reference queue with at-most-once uncertainty only at crash points',
    note: trust,
  },
  {
    id: 'B08',
    title: 'Flag polling runs exactly while started and never exposes a broken update',
    statement:
      'Starting a client requests its flags once; after the start completed and until it is stopped, flags are requested once immediately and then every configured interval, but never more often than once a minute; while stopped none are requested, and starting twice is starting once. Each complete, valid response replaces all flags at once and any other leaves them unchanged. Flags given at initialization fill in only flags which the current configuration lacks.',
    over: ['schedules', 'fault_sequences', 'configurations'],
    quant: 'Every interleaving of start, stop and reload with every latency, failure and malformed response, every interval and clock jumps.',
    why: 'Hours of timer behaviour and stop-during-start races cannot be sampled with real timers.',
    files: [EB + 'experimentClient.ts', EC + 'util/poller.ts', EC + 'api/flag-api.ts'],
    mech: [
      ['poller', EC + 'util/poller.ts'],
      ['start/stop guard, minimum interval', EB + 'experimentClient.ts: start, stop, constructor'],
      ['replace flags after complete parse', EB + 'experimentClient.ts: doFlags'],
    ],
    observe: ['instants of flags requests', 'Client.all()'],
    oracle: 'reference poller, every request instant and every flag value compared',
    note: trust,
  },
  {
    id: 'B09',
    title: 'Every request carries the right identity and options',
    statement:
      'Each variants request carries the user given by the caller merged over the integration, the provider and the detected browser properties, field by field (a missing, null or undefined field falls back to the next source; user properties are merged), as they are when the request is sent and never before the integration is ready. It goes to the configured host or that of the configured data zone only, carries the requested flag keys and the tracking option in force, and never the page\'s cookies. The client keeps its own copy of the user and of its user properties: changing a field or property of an object passed in or handed out changes nothing.',
    over: ['schedules', 'histories', 'configurations'],
    quant: 'Every timing of identity changes relative to requests waiting for a late, failing or absent integration, with all combinations of missing fields.',
    why: 'The merge happens after an asynchronous wait; tests check a few static merges.',
    files: [EB + 'experimentClient.ts', EB + 'providers/default.ts', EC + 'api/evaluation-api.ts', EC + 'api/flag-api.ts', EB + 'integration/manager.ts'],
    mech: [
      ['wait for the integration, then merge', EB + 'experimentClient.ts: addContextOrWait, addContext'],
      ['headers', EC + 'api/evaluation-api.ts: getVariants'],
      ['detected properties, session landing page, first seen', EB + 'providers/default.ts'],
    ],
    observe: ['requests on the simulated wire', 'Client.getUser()'],
    oracle: 'reference merge applied at the instant of each request',
    note: trust,
  },
  {
    id: 'B10',
    title: 'variant() and all() answer from the documented source at every instant',
    statement:
      'For each flag the answer is that of the first source that has one in the documented order for the configured mode: local evaluation for locally evaluated flags, otherwise stored and initial variants in the configured preference, then the inline fallback, secondary and configured fallbacks, and finally the default variant. This holds at every instant of any history of fetches, flag updates, user changes, clears and reloads, including in the middle of failing updates. Reading all variants gives the primary source merged over the secondary one with locally evaluated flags on top.',
    over: ['histories', 'schedules', 'configurations'],
    quant: 'Every history and every combination of configured sources, flag modes, default variants and fallbacks.',
    why: 'Tests check individual precedence pairs on static state; combinations reached through histories are not.',
    files: [EB + 'experimentClient.ts', EB + 'storage/cache.ts', EB + 'types/source.ts'],
    mech: [
      ['source resolution', EB + 'experimentClient.ts: variantAndSource and the three resolution functions, all'],
    ],
    observe: ['Client.variant()', 'Client.all()'],
    oracle: 'reference resolution function evaluated after every event',
    note: trust,
  },
  {
    id: 'B11',
    title: 'Local evaluation targets the user, groups and page of the moment',
    statement:
      'The variant of a locally evaluated flag is, at every instant, the one its current configuration assigns to the current context: the user given by the caller merged over integration, provider and detected browser properties (browser, system, language, referrer, cookies, URL parameters), the first group of each type with its properties, the current page URL, and the results of the flags it depends on. Of the segments the first whose conditions hold and which yields a variant decides, bucketing depends only on salt and bucketing value (any Unicode text), evaluating changes nothing the caller can see, and a condition that cannot be read (a regular expression that is none) matches nothing instead of failing the others.',
    over: ['histories', 'schedules', 'inputs'],
    quant: 'Every history of user, provider, integration, cookie, URL and flag configuration changes, with configurations arriving late, malformed or not at all, for every read in between.',
    why: 'The context is assembled from live sources at each read; tests evaluate fixed contexts and never change the sources under a running client.',
    files: [EB + 'experimentClient.ts', EB + 'util/convert.ts', EB + 'providers/default.ts', EC + 'evaluation/evaluation.ts', EC + 'evaluation/murmur3.ts', EC + 'evaluation/topological-sort.ts', EC + 'evaluation/select.ts'],
    mech: [
      ['context assembly', EB + 'experimentClient.ts: evaluate, addContext; ' + EB + 'util/convert.ts: convertUserToContext'],
      ['evaluation engine', EC + 'evaluation/evaluation.ts: EvaluationEngine'],
      ['dependency order', EC + 'evaluation/topological-sort.ts'],
    ],
    observe: ['Client.variant(), all() and getUser() after every event'],
    oracle: 'independent evaluator (conditions, MurmurHash3 bucketing, dependencies) over a modelled context',
    note: trust,
  },
  {
    id: 'B12',
    title: 'A replaced integration gets nothing more and the new one everything',
    statement:
      'When another integration plugin is added to a client the former one is torn down once and from then on gets no event, whenever its own set-up completes. Exposures which no integration has accepted reach the current one in order and exactly once, within about a second of it being set up (or failing to be) and accepting. Requests carry the user of the current integration, and until an integration has been set up they wait for the current one.',
    over: ['schedules', 'fault_sequences'],
    quant: 'Every interleaving of additions, set-ups that complete late, fail or never complete, refusing or throwing integrations, exposures and requests.',
    why: 'Replacement while a set-up is pending is a race between promises; tests replace integrations that are ready.',
    files: [EB + 'integration/manager.ts', EB + 'experimentClient.ts'],
    mech: [
      ['set-up and replacement', EB + 'integration/manager.ts: IntegrationManager.setIntegration'],
      ['queue and tracker', EB + 'integration/manager.ts: PersistentTrackingQueue'],
    ],
    observe: ['calls each integration gets', 'requests on the wire'],
    oracle: 'model of the current integration and of the exposure queue',
    note: trust,
  },
  {
    id: 'B15',
    title: 'The client works where parts of a browser are missing',
    statement:
      'On a server, in a worker, in a sandboxed frame whose cookies and storage may not be touched, in an engine without timers, fetch, location, navigator, document or storage, with a null globalThis and with no global scope at all, loading the SDK, initializing a client (with or without Amplitude analytics) and calling any of its methods neither throws nor rejects for that reason. Fetched variants, local evaluation and initial flags work from memory, an initialize call with the same arguments returns the same client, exposures reach a working integration, and a fetch over fetch or a custom HTTP client completes once the network works.',
    over: ['inputs', 'fault_sequences', 'schedules', 'configurations'],
    quant: 'Every combination of missing facilities with every sequence of calls, under network faults.',
    why: 'Tests remove one facility for one helper function; which of them a sequence of calls meets depends on the whole client.',
    files: [EC + 'util/global.ts', EC + 'util/poller.ts', EB + 'factory.ts', EB + 'providers/default.ts', EB + 'util/convert.ts', EB + 'util/state.ts', EB + 'util/backoff.ts', EB + 'transport/http.ts', 'packages/analytics-connector/src/util/global.ts'],
    mech: [
      ['access to the global scope', EC + 'util/global.ts: getGlobalScope and its accessors'],
      ['detected context', EB + 'providers/default.ts'],
    ],
    observe: ['absence of exceptions and rejections', 'Client.variant(), all()', 'events received by the integration', 'requests'],
    oracle: 'reference model of variants and flags in memory',
    note: trust,
  },
  {
    id: 'C01',
    title: 'The analytics-experiment channel neither loses, repeats nor leaks',
    statement:
      'Events logged before a receiver exists are kept, up to 512, and received once, in order, when one is set; later events go at once to the newest receiver; no event is received twice even if a receiver throws or installs another one. An identity edit is invisible until it is committed, and then every current listener is told exactly once, with the new identity, if and only if it changed something; should a listener change it again, the last identity each listener is told is the current one. All SDKs on a page which name the same instance share one channel, and different instances share nothing.',
    over: ['histories', 'schedules', 'fault_sequences'],
    quant: 'Every interleaving of two SDKs logging, listening, editing concurrently and replacing failing or re-entrant receivers.',
    why: 'Tests exercise one well-behaved receiver and one editor at a time.',
    files: [AC + 'eventBridge.ts', AC + 'identityStore.ts', AC + 'analyticsConnector.ts', AC + 'util/equals.ts'],
    mech: [
      ['bounded queue flushed on receiver', AC + 'eventBridge.ts'],
      ['copy-on-edit, compare-and-notify', AC + 'identityStore.ts'],
      ['instances in the page global', AC + 'analyticsConnector.ts'],
    ],
    observe: ['calls of receivers and listeners', 'getIdentity()'],
    oracle: 'reference channel compared after every operation',
    note: trust,
  },
  {
    id: 'C02',
    title: 'Integration with the analytics SDK, however late it loads',
    statement:
      'A client initialized for analytics takes its identity from what the analytics SDK persisted (current cookie, then legacy cookie, then local, then session storage; unreadable ones are skipped) or else waits for the first identity, at most ten seconds, before its first request; each request carries the analytics identity of that moment. If configured, every effective identity change causes exactly one fetch. Exposures made before the analytics SDK listens reach it exactly once and in order within about a second after it does, also after reloads.',
    over: ['schedules', 'fault_sequences', 'inputs'],
    quant: 'Every time at which the analytics SDK loads, identifies and listens (or never does), every persisted identity valid or corrupt, blocked cookies or storage.',
    why: 'Load-order races between two SDKs need a controlled clock and page; tests fix one order.',
    files: [EB + 'integration/amplitude.ts', EB + 'util/state.ts', EB + 'integration/manager.ts', EB + 'factory.ts', AC + 'identityStore.ts', AC + 'eventBridge.ts'],
    mech: [
      ['persisted state loading', EB + 'integration/amplitude.ts: loadPersistedState; ' + EB + 'util/state.ts'],
      ['bounded wait', EB + 'integration/amplitude.ts: waitForConnectorIdentity'],
    ],
    observe: ['requests on the wire', 'events received through the channel'],
    oracle: 'model of readiness, identity and exposure queue',
    note: trust,
  },
  {
    id: 'B13',
    title: 'Requests go only to the configured region, under the own deployment key',
    statement:
      'Every request carries the key of the deployment its client was created for and goes to the server URL given for its kind (serverUrl for variants, flagsServerUrl for flags) or else to the servers of the configured serverZone, in whatever case it is written and whether it is passed to initialize or set on the window for the tag; never to another region. This includes retries, polls, the flag requests, preview configuration and behaviour relay frame of the web experiment tag, and holds for several clients with different settings on one page.',
    over: ['configurations', 'schedules', 'fault_sequences'],
    quant: 'Every combination of zones, URLs, deployments and clients on a page, under network failures, timeouts and retries.',
    why: 'Data residency has to hold for requests made by timers, retries and several clients sharing a page; tests look at single constructor results.',
    files: [EB + 'experimentClient.ts', EB + 'config.ts', ET + 'index.ts', ET + 'behavioral-targeting/relay-client.ts', ET + 'preview/preview-api.ts', 'packages/experiment-core/src/api/flag-api.ts', 'packages/experiment-core/src/api/evaluation-api.ts'],
    mech: [
      ['server URL selection', EB + 'experimentClient.ts: constructor'],
      ['preview configuration', ET + 'index.ts: fetchLatestConfigs'],
      ['relay frame URL', ET + 'behavioral-targeting/relay-client.ts: getRelayUrl'],
    ],
    observe: ['requests on the wire', 'frames inserted into the document'],
    oracle: 'destination and key of every request against the configuration of its client',
    note: trust,
  },
  {
    id: 'B14',
    title: 'One client per instance name and deployment, independent of the others',
    statement:
      'Initializing again, by either factory function and with whatever configuration, returns the client which that instance name and deployment already has, as it was first configured. Clients of different instance names or deployments on a page share nothing: each has its own variants, flags, user, options and providers, in memory and in what it stores for the next page load; no call on one changes what another reads, requests, polls or exposes.',
    over: ['histories', 'schedules', 'configurations'],
    quant: 'Every set of clients on a page, every interleaving of their calls, timers and responses, repeated initialization and page loads, under network faults.',
    why: 'Interference shows only in interleavings of several clients over page loads; tests use one client at a time.',
    files: [EB + 'factory.ts', EB + 'experimentClient.ts', EB + 'storage/cache.ts', EB + 'integration/manager.ts', EB + 'providers/default.ts'],
    mech: [
      ['instances by name and deployment', EB + 'factory.ts: getInstanceKey'],
      ['storage namespaces', EB + 'storage/cache.ts'],
    ],
    observe: ['variants and users of every client after every step', 'requests on the wire', 'exposures handed to every provider and integration'],
    oracle: 'every value is tagged with the client it was made for; snapshots of all other clients around every call',
    note: trust,
  },
  {
    id: 'S01',
    title: 'Segment integration: nothing before ready, nothing lost, nothing twice',
    statement:
      'Until Segment is ready nothing is sent to it and its user is not read: requests wait for it (unless configured not to) and identity comes from what Segment persisted, ignoring unreadable data. From at most 50 ms after it is ready, requests carry the Segment user, and every exposure made before is handed to it exactly once and in order within about a second. This holds however Segment is installed and whenever it loads, also with waiting disabled.',
    over: ['schedules', 'fault_sequences', 'configurations'],
    quant: 'Every arrival time and way of installing Segment, identity changes, corrupted storage, reloads.',
    why: 'Third-party load order and delivery after readiness are races; tests call the plugin methods in isolation.',
    files: [SEG + 'plugin.ts', SEG + 'snippet.ts', EB + 'integration/manager.ts'],
    mech: [
      ['ready callback and 50 ms poll', SEG + 'plugin.ts: setup'],
      ['snippet proxy', SEG + 'snippet.ts'],
    ],
    observe: ['calls on the Segment stand-in', 'requests on the wire'],
    oracle: 'model of readiness and of the exposure queue',
    note: trust,
  },
];
