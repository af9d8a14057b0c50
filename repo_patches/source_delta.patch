From 081eed100d3b9df96bb615054866433b878cf3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 01/67] fix: cancel every pending fetch retry when a new fetch
 starts

Overlapping fetches which both failed overwrote the reference to the first
retry sequence, so a later fetch could no longer cancel it and the stale
retries kept sending requests and overwriting newer variants.
---
 .../experiment-browser/src/experimentClient.ts     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..847d36b 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -95,7 +95,7 @@ export class ExperimentClient implements Client {
   private user: ExperimentUser | undefined;
   private userProvider: ExperimentUserProvider | undefined;
   private userSessionExposureTracker: UserSessionExposureTracker | undefined;
-  private retriesBackoff: Backoff | undefined;
+  private readonly retriesBackoffs: Set<Backoff> = new Set();
   private poller: Poller;
   private isRunning = false;
   private readonly integrationManager: IntegrationManager;
@@ -867,21 +867,23 @@ export class ExperimentClient implements Client {
     options: FetchOptions,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
-    this.retriesBackoff = new Backoff(
+    const retriesBackoff = new Backoff(
       fetchBackoffAttempts,
       fetchBackoffMinMillis,
       fetchBackoffMaxMillis,
       fetchBackoffScalar,
     );
-    void this.retriesBackoff.start(async () => {
+    // Overlapping fetches may each fail and start retrying, so keep track of all
+    // of them in order to be able to cancel every one.
+    this.retriesBackoffs.add(retriesBackoff);
+    void retriesBackoff.start(async () => {
       await this.fetchInternal(user, fetchBackoffTimeout, false, options);
     });
   }
 
   private stopRetries(): void {
-    if (this.retriesBackoff) {
-      this.retriesBackoff.cancel();
-    }
+    this.retriesBackoffs.forEach((backoff) => backoff.cancel());
+    this.retriesBackoffs.clear();
   }
 
   private addContext(user: ExperimentUser): ExperimentUser {
-- 
2.43.0


From e55c9b9b383b255e7157deb6fd7975578b3cd632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 02/67] fix: treat blocked browser storage as unavailable
 instead of throwing

Reading window.localStorage or window.sessionStorage throws a SecurityError
when site data is blocked, which made initialize() and variant() throw.
---
 packages/experiment-core/src/util/global.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-core/src/util/global.ts b/packages/experiment-core/src/util/global.ts
index 1efca4f..2033852 100644
--- a/packages/experiment-core/src/util/global.ts
+++ b/packages/experiment-core/src/util/global.ts
@@ -36,12 +36,22 @@ export const isLocalStorageAvailable = (): boolean => {
   return false;
 };
 
+// Accessing the storage properties throws a SecurityError if the browser is
+// configured to block them, which must be treated as unavailable.
 export const getLocalStorage = (): Storage | undefined => {
-  return getGlobalScope()?.localStorage;
+  try {
+    return getGlobalScope()?.localStorage;
+  } catch (e) {
+    return undefined;
+  }
 };
 
 export const getSessionStorage = (): Storage | undefined => {
-  return getGlobalScope()?.sessionStorage;
+  try {
+    return getGlobalScope()?.sessionStorage;
+  } catch (e) {
+    return undefined;
+  }
 };
 
 export const getDocument = (): Document | undefined => {
-- 
2.43.0


From 6aeb5a1e915f4ec6d01caca227ae172b35c5c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 03/67] fix: do not reject setTracksAssignment when storage is
 unavailable

---
 packages/experiment-browser/src/experimentClient.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 847d36b..e43a944 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -771,7 +771,11 @@ export class ExperimentClient implements Client {
       ...(this.fetchVariantsOptions.get() || {}),
       trackingOption: doTrack ? 'track' : 'no-track',
     });
-    this.fetchVariantsOptions.store();
+    try {
+      this.fetchVariantsOptions.store();
+    } catch (e) {
+      // catch localStorage undefined error
+    }
   }
 
   private cleanUserPropsForFetch(user: ExperimentUser): ExperimentUser {
-- 
2.43.0


From 59fce66d0dafbd263c3441715b50ed5e73276708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 04/67] fix: tolerate corrupted or failing storage when
 tracking exposures

A corrupted exposure queue or dedupe cache, or a storage write which exceeds
the quota, threw out of variant() and exposure() and prevented the integration
from ever becoming ready.
---
 .../src/integration/manager.ts                | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..abba62a 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -142,8 +142,12 @@ export class SessionDedupeCache {
     // Remove previous versions of storage if they exist.
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      sessionStorage.removeItem(`EXP_sent_${instanceName}`);
-      sessionStorage.removeItem(`EXP_sent_v2_${instanceName}`);
+      try {
+        sessionStorage.removeItem(`EXP_sent_${instanceName}`);
+        sessionStorage.removeItem(`EXP_sent_v2_${instanceName}`);
+      } catch (e) {
+        // Gracefully handle storage errors.
+      }
     }
   }
 
@@ -183,7 +187,11 @@ export class SessionDedupeCache {
     this.inMemoryCache = {};
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      sessionStorage.removeItem(this.storageKey);
+      try {
+        sessionStorage.removeItem(this.storageKey);
+      } catch (e) {
+        // Gracefully handle storage errors.
+      }
     }
   }
 
@@ -200,8 +208,13 @@ export class SessionDedupeCache {
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      try {
+        const storedCache = sessionStorage.getItem(this.storageKey);
+        this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      } catch (e) {
+        // Gracefully handle storage errors and corrupted values by continuing
+        // with the in-memory cache.
+      }
     }
   }
 
@@ -278,8 +291,13 @@ export class PersistentTrackingQueue {
   private loadQueue(): void {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      try {
+        const storedQueue = localStorage.getItem(this.storageKey);
+        this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      } catch (e) {
+        // Gracefully handle storage errors and corrupted values by continuing
+        // with the in-memory queue.
+      }
     }
   }
 
@@ -292,7 +310,14 @@ export class PersistentTrackingQueue {
           this.inMemoryQueue.length - this.maxQueueSize,
         );
       }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors.
+      }
     }
   }
 
-- 
2.43.0


From 76b3a684f5dd73346aaef0b1a5f2e90d12b68582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 05/67] fix: retry exposures rejected after the queue was
 flushed

The poller stopped for good once the queue drained, so an exposure the
integration rejected later was only retried on the next push. Restart it while
events remain, and do not leak a poller per setTracker call.
---
 .../experiment-browser/src/integration/manager.ts     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index abba62a..c855680 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -256,13 +256,18 @@ export class PersistentTrackingQueue {
 
   setTracker(tracker: (event: ExperimentEvent) => boolean): void {
     this.tracker = tracker;
+    this.startPoller();
+    this.loadFlushStore();
+  }
+
+  private startPoller(): void {
+    if (this.poller) return;
     const setInterval = getSetInterval();
     if (setInterval) {
       this.poller = setInterval(() => {
         this.loadFlushStore();
       }, 1000);
     }
-    this.loadFlushStore();
   }
 
   private flush(): void {
@@ -285,6 +290,10 @@ export class PersistentTrackingQueue {
         clearInterval(this.poller);
       }
       this.poller = undefined;
+    } else if (this.inMemoryQueue.length > 0) {
+      // Events which could not be tracked must be retried, even if the poller
+      // was stopped because the queue had previously been flushed.
+      this.startPoller();
     }
   }
 
-- 
2.43.0


From ca6c443be19e072702321cf371ebbde02b3e1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 06/67] fix: do not start polling when stopped while start() is
 in progress

stop() only stopped a poller which was already running, so a stop() during the
initial requests of start() was undone once these completed and the client kept
polling although it had been stopped.
---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index e43a944..7648a3c 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -271,7 +271,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // The client may have been stopped while awaiting the initial requests.
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From e07164f2e872d6ea20fcff462294c9e3da796326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 07/67] fix: copy the properties of the first user which is set

setUser() checked the previous user's properties rather than the new user's, so
the caller's object was shared with the client and later changes to it changed
the user of requests and evaluations.
---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 7648a3c..3ad5347 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -455,7 +455,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From f81179003c714ea4b1f47f56c257c1c9811bad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 08/67] fix: fall back on the provider for null user fields

The documentation of fetch() and setUserProvider() promises that fields which
are null or undefined fall back on the provider, but an explicit or integration
user with such a field erased the provided value.
---
 packages/experiment-browser/src/experimentClient.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 3ad5347..e45b549 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -902,8 +902,8 @@ export class ExperimentClient implements Client {
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
       ...providedUser,
-      ...integrationUser,
-      ...user,
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From b42fd214599f09891edade8f58e5309630b08907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 09/67] fix: receive each queued event once if a receiver
 throws

A receiver which threw while the queue was flushed left the entire queue in
place, so the next receiver received the already received events again.
---
 packages/analytics-connector/src/eventBridge.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/analytics-connector/src/eventBridge.ts b/packages/analytics-connector/src/eventBridge.ts
index e89ebff..a92cd3f 100644
--- a/packages/analytics-connector/src/eventBridge.ts
+++ b/packages/analytics-connector/src/eventBridge.ts
@@ -27,11 +27,10 @@ export class EventBridgeImpl implements EventBridge {
 
   setEventReceiver(receiver: AnalyticsEventReceiver): void {
     this.receiver = receiver;
-    if (this.queue.length > 0) {
-      this.queue.forEach((event) => {
-        receiver(event);
-      });
-      this.queue = [];
+    // Remove each event before it is received, so that a receiver which throws
+    // or sets another receiver does not cause events to be received again.
+    while (this.queue.length > 0) {
+      this.receiver(this.queue.shift());
     }
   }
 }
-- 
2.43.0


From 71272d68a5203e1efcbbaabfe2b48339a257909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 10/67] fix: do not change the committed identity through its
 editor

After commit() the editor shared its user properties with the store, so further
updates took effect before being committed, and committing them did not notify
the identity listeners.
---
 packages/analytics-connector/src/identityStore.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..7f21659 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -83,7 +83,8 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        // Copy, since the properties may be shared with a committed identity.
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0


From 0edf6686a5f6b52e3ee690a0f6dfe45c1df8726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 11/67] fix: ignore a malformed analytics cookie

A cookie which is not valid URI encoding made initializeWithAmplitudeAnalytics
throw instead of using the identity in the other storage locations.
---
 packages/experiment-browser/src/util/state.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..2d554d0 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -24,7 +24,11 @@ export const parseAmplitudeCookie = (
   for (const cookie of cookies) {
     const [cookieKey, cookieValue] = cookie.split('=', 2);
     if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
+      try {
+        value = decodeURIComponent(cookieValue);
+      } catch (e) {
+        // Malformed cookie
+      }
     }
   }
   if (!value) {
-- 
2.43.0


From 3aa38a8b11435585b221678c8f84614e026a2e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 12/67] fix: ignore malformed segment identity in local storage

A value which is not valid JSON made every fetch, variant and exposure call of
the client throw until the segment SDK was ready.
---
 packages/plugin-segment/src/plugin.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..0220615 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -62,7 +62,11 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
       const get = (key: string) => {
         const localStorage = getLocalStorage();
         if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From c8d21535423dbcdfb0a4da29e3b293f98c47729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 13/67] fix: track exposures once segment is ready with
 skipSetup

Only setup() noticed that the segment SDK is ready. With skipSetup it is never
called, so no exposure was ever tracked.
---
 packages/plugin-segment/src/plugin.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 0220615..6b8d487 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -82,6 +82,9 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
   };
   if (options.skipSetup) {
+    // Do not wait for, but still notice, the segment SDK being ready.
+    const setup = plugin.setup as () => Promise<void>;
+    void setup();
     plugin.setup = undefined;
   }
 
-- 
2.43.0


From a579238e591f14d3d701b1b1ae395de0d4a5ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 14/67] fix: erase the redirect loop detector's session state
 on consent denial

The denial sweep left EXP_<slice>_REDIRECT_MARKER and _REDIRECT_SUPPRESSED,
which name the URLs the visitor was redirected between, in sessionStorage.
---
 packages/experiment-tag/src/consent/clear-data.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/experiment-tag/src/consent/clear-data.ts b/packages/experiment-tag/src/consent/clear-data.ts
index 62734bf..b42fe90 100644
--- a/packages/experiment-tag/src/consent/clear-data.ts
+++ b/packages/experiment-tag/src/consent/clear-data.ts
@@ -178,6 +178,12 @@ export const clearAllPersistedData = (
   for (const key of keys.sessionStorage) {
     removeStorageItem('sessionStorage', key);
   }
+  // The redirect loop detector's per-tab state: it names the URLs the visitor was
+  // sent between. Keys match `redirectMarkerStorageKey` and
+  // `redirectSuppressStorageKey` in `experiment.ts`.
+  const slice = apiKey.slice(0, 10);
+  removeStorageItem('sessionStorage', `EXP_${slice}_REDIRECT_MARKER`);
+  removeStorageItem('sessionStorage', `EXP_${slice}_REDIRECT_SUPPRESSED`);
 
   const hostname = getGlobalScope()?.location?.hostname ?? '';
   const domains = getCookieDomainLevels(hostname).map((domain) => `.${domain}`);
-- 
2.43.0


From 90c47425cd3981ade765fc663ec69a2932cc2a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 15/67] fix: forget behavioural events when consent is refused
 mid-session

A running client kept its in-memory event history across a refusal, so the
first write after a re-opt-in put back on the device the events the denial
sweep had erased, plus those gathered while consent was refused. Events were
also still written to the relay's storage after a refusal.
---
 .../src/behavioral-targeting/event-storage.ts | 53 ++++++++++++++++---
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..be18ceb 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -1,6 +1,7 @@
 import { getGlobalScope } from '@amplitude/experiment-core';
 
 import {
+  consentGate,
   isConsentPending,
   isConsentWithheld,
   onConsentDecision,
@@ -79,6 +80,7 @@ export class EventStorageManager {
   private persistedEvents?: Set<string>; // Optional set of event types to persist
   private storageKey: string;
   private relayClient: RelayClient | null = null;
+  private unsubscribeRefusal: (() => void) | null = null;
 
   constructor(
     apiKey: string,
@@ -98,6 +100,7 @@ export class EventStorageManager {
     if (isConsentPending()) {
       this.armConsentListener();
     }
+    this.armRefusalListener();
 
     // Setup flush handlers to prevent data loss
     this.setupFlushHandlers();
@@ -143,7 +146,10 @@ export class EventStorageManager {
     // Trigger debounced write to localStorage
     this.scheduleDebouncedWrite();
 
-    this.relayClient?.writeEvent(event);
+    // The relay persists on the device too, so refusal holds it back as well.
+    if (!isConsentWithheld()) {
+      this.relayClient?.writeEvent(event);
+    }
   }
 
   /**
@@ -157,7 +163,9 @@ export class EventStorageManager {
    * Flushes pending relay writes (e.g. on page unload).
    */
   flushRelay(): void {
-    this.relayClient?.flush();
+    if (!isConsentWithheld()) {
+      this.relayClient?.flush();
+    }
   }
 
   /**
@@ -218,6 +226,9 @@ export class EventStorageManager {
       }
 
       const relayStore = await relay.readEvents();
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // Backfill any local events the relay is missing, regardless of migrated
       // state. Both MIGRATE_EVENTS and the store dedupe on uuid, so this is a
@@ -432,15 +443,38 @@ export class EventStorageManager {
         this.flushToLocalStorage();
         return;
       }
-      this.memoryCache = { events: [], nextId: 1 };
-      this.hasPendingWrites = false;
-      if (this.debouncedWriteTimeout) {
-        clearTimeout(this.debouncedWriteTimeout);
-        this.debouncedWriteTimeout = null;
-      }
+      this.dropEvents();
     });
   }
 
+  /**
+   * Forgets what is in memory when consent is refused mid-session, and again on
+   * a later re-opt-in. The denial sweep erases the device store, but the next
+   * write after a re-opt-in persists the whole cache — which would bring back
+   * the events from before the refusal, and add those gathered during it.
+   */
+  private armRefusalListener(): void {
+    this.unsubscribeRefusal = consentGate.manager.onChange(
+      (status, previousStatus) => {
+        if (
+          consentGate.required &&
+          (status === 'denied' || previousStatus === 'denied')
+        ) {
+          this.dropEvents();
+        }
+      },
+    );
+  }
+
+  private dropEvents(): void {
+    this.memoryCache = { events: [], nextId: 1 };
+    this.hasPendingWrites = false;
+    if (this.debouncedWriteTimeout) {
+      clearTimeout(this.debouncedWriteTimeout);
+      this.debouncedWriteTimeout = null;
+    }
+  }
+
   /**
    * Sets up event handlers to flush data before page unload or when tab is hidden.
    * This prevents data loss on page close or backgrounding.
@@ -489,6 +523,9 @@ export class EventStorageManager {
       this.debouncedWriteTimeout = null;
     }
 
+    this.unsubscribeRefusal?.();
+    this.unsubscribeRefusal = null;
+
     // Remove event listeners
     getGlobalScope()?.removeEventListener(
       'beforeunload',
-- 
2.43.0


From 9bac9e5fa4ed761a55c8dcf29ce0bb9b8c0a46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 16/67] fix: drop analytics events received while consent is
 refused

Events arriving after a mid-start refusal were buffered, and replayed into
behavioural targeting when the start completed after a re-opt-in.
---
 packages/experiment-tag/src/index.ts | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..03903ad 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -2,7 +2,11 @@ import { Event, Plugin } from '@amplitude/analytics-types';
 import { getGlobalScope } from '@amplitude/experiment-core';
 
 import { armDenialCleanup } from './consent/clear-data';
-import { consentGate, parseConsentStatus } from './consent/consent-gate';
+import {
+  consentGate,
+  isConsentWithheld,
+  parseConsentStatus,
+} from './consent/consent-gate';
 import { DefaultWebExperimentClient } from './experiment';
 import { HttpClient } from './preview/http';
 import { SdkPreviewApi } from './preview/preview-api';
@@ -55,6 +59,11 @@ export const setConsentStatus = (status: ConsentStatus): void => {
     return;
   }
   consentGate.manager.setStatus(parsed);
+  if (isConsentWithheld()) {
+    // Refused while a start is in flight: what is waiting for it must not be
+    // replayed by a start that completes after a re-opt-in.
+    eventBuffer.length = 0;
+  }
   const deferred = consentGate.deferredStart;
   if (
     consentGate.manager.getStatus() === 'granted' &&
@@ -237,7 +246,7 @@ export const createPlugin = (): Plugin => ({
         context.event_type,
         context.event_properties as Record<string, unknown>,
       );
-    } else if (isConsentDeferred()) {
+    } else if (isConsentDeferred() || isConsentWithheld()) {
       // Consent withheld: do not buffer — pre-grant events are not replayed.
     } else {
       bufferAnalyticsEvent({
-- 
2.43.0


From 10cec0fb0a05fd0becdbe3dffca56ee6aa7f8fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 17/67] fix: withdraw behaviors matched before the last reset

The behaviors compared with the matched ones started out empty and were
emptied again by each url change, so a behavior that the user was given on
start up and that then ceased to match was never taken from the user. Compare
with the behaviors the user was last updated with.
---
 packages/experiment-tag/src/experiment.ts     | 11 +++++---
 .../src/subscriptions/subscriptions.ts        | 25 ++++---------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..99b37c0 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -311,6 +311,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public readonly behavioralTargetingManager:
     | BehavioralTargetingManager
     | undefined;
+  /** The matched behaviors the user was last updated with. */
+  public userBehaviors: Map<string, Set<string>> = new Map();
   private relayClient: RelayClient | null = null;
   private subscriptionManager: SubscriptionManager | undefined;
   private isVisualEditorMode = false;
@@ -1086,10 +1088,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       return;
     }
     const behaviorIds: string[] = [];
-    for (const behaviorSet of this.behavioralTargetingManager
-      .getMatchedBehaviors()
-      .values()) {
+    this.userBehaviors = new Map();
+    for (const [
+      flagKey,
+      behaviorSet,
+    ] of this.behavioralTargetingManager.getMatchedBehaviors()) {
       behaviorIds.push(...behaviorSet);
+      this.userBehaviors.set(flagKey, new Set(behaviorSet));
     }
 
     // Get the current user from the experiment client
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..2d36997 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -65,8 +65,6 @@ export class SubscriptionManager {
   private pageChangeSubscribers: Set<(event: PageChangeEvent) => void> =
     new Set();
   private lastNotifiedActivePages: PageObjects = {};
-  private lastNotifiedActiveBehavioralFlags: Map<string, Set<string>> =
-    new Map();
   private intersectionObservers: Map<string, IntersectionObserver> = new Map();
   private elementVisibilityState: Map<string, boolean> = new Map();
   private elementAppearedState: Set<string> = new Set();
@@ -396,16 +394,15 @@ export class SubscriptionManager {
             this.lastNotifiedActivePages,
           );
 
-          // Get current behavioral state and check if it changed
+          // Get current behavioral state and check if it differs from the one
+          // the user carries
+          const userBehaviors = this.webExperimentClient.userBehaviors;
           const activeBehavioralFlags =
             this.webExperimentClient.behavioralTargetingManager?.getMatchedBehaviors();
 
           const behaviorsChanged =
             isAnalyticsEvent &&
-            !areBehaviorsEqual(
-              activeBehavioralFlags,
-              this.lastNotifiedActiveBehavioralFlags,
-            );
+            !areBehaviorsEqual(activeBehavioralFlags, userBehaviors);
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
@@ -432,9 +429,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(userBehaviors.keys()),
                     ]),
                   )
                 : [];
@@ -479,15 +474,6 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
@@ -513,7 +499,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From a88d9c742539128193377518f3a12d46f26e336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 18/67] fix: apply the current variant after a wait

applyVariants read all variants before it waited, so of two overlapping calls
the older could apply variants of a user that has since changed, last.
---
 packages/experiment-tag/src/experiment.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 99b37c0..d268a60 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -821,7 +821,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {
         continue;
       }
-      const variant = variants[key];
+      // Read the variant anew: the user may have changed while awaiting
+      const variant = this.experimentClient.variant(key);
       const variantKey = variant.key || '';
 
       // Check if the variant key has changed for this experiment
-- 
2.43.0


From b0c9478fef704a6860b2b4e3d257af4802927b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 19/67] fix: hand no events to the relay after a refusal

Consent refused while the migration check was in flight did not stop the
migration of events recorded since.
---
 .../experiment-tag/src/behavioral-targeting/event-storage.ts   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index be18ceb..c222435 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -215,6 +215,9 @@ export class EventStorageManager {
         return false;
       }
       const migrated = await relay.checkMigrated(origin);
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // First-time origins migrate their local store in bulk (one RPC). The
       // backfill below then reconciles anything the bulk push dropped.
-- 
2.43.0


From 2f5f7b6e4ce463084a3d293303f8c5f718409763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 20/67] fix: follow behaviors when a relay merge undoes an
 event's effect

The behaviors compared to decide whether variants are applied again were taken
before waiting for the relay. When an event tracked while waiting had changed
them and the merge changed them back, the user and the variants kept the
behavior that no longer matched.
---
 .../src/behavioral-targeting/behavioral-targeting-manager.ts  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
index 3a39154..22b53a1 100644
--- a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
@@ -79,8 +79,6 @@ export class BehavioralTargetingManager {
   public async beginRelaySync(
     relayClient: RelayClient,
   ): Promise<RelaySyncResult> {
-    const behaviorsBefore = this.serializeMatchedBehaviors();
-
     await relayClient.init();
     if (!relayClient.relayAvailable) {
       await relayClient.waitForAvailable();
@@ -94,6 +92,8 @@ export class BehavioralTargetingManager {
       return { status: 'sync_failed' };
     }
 
+    // Taken after the waits: events tracked meanwhile changed the behaviors too
+    const behaviorsBefore = this.serializeMatchedBehaviors();
     this.evaluateAll();
     return behaviorsBefore !== this.serializeMatchedBehaviors()
       ? { status: 'behaviors_changed' }
-- 
2.43.0


From eed32b456d35e0ef79e6feb1ea446b4e55aeacb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 21/67] fix: keep the event history when the relay sends no
 valid nextId

A missing or malformed nextId in the relay's answer became NaN, was stored as
null, and made the next page load discard the whole event history.
---
 .../src/behavioral-targeting/event-storage.ts               | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index c222435..7bf8e5b 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -187,7 +187,11 @@ export class EventStorageManager {
       events = events.slice(-EventStorageManager.MAX_EVENTS);
     }
 
-    let nextId = Math.max(this.memoryCache.nextId, relayStore.nextId);
+    // Anything but a number would make the next load discard the whole store
+    let nextId = Math.max(
+      this.memoryCache.nextId,
+      Number(relayStore.nextId) || 0,
+    );
     for (const event of events) {
       if (event.id + 1 > nextId) {
         nextId = event.id + 1;
-- 
2.43.0


From 0da6ef78129fea29d9927411dafd3f65262f4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 22/67] fix: apply variants from page triggers only once the
 visitor is known

---
 packages/experiment-tag/src/experiment.ts                  | 4 ++++
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index d268a60..6baab2a 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -304,6 +304,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  // False until start() has resolved the visitor's identity: a variant evaluated
+  // before that is not the visitor's, so page triggers must not apply it.
+  public isIdentified = false;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
   private activePages: PageObjects = {};
@@ -706,6 +709,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // apply local variants
+    this.isIdentified = true;
     await this.applyVariants({ flagKeys: this.localFlagKeys });
     await this.previewVariants({
       keyToVariant: this.previewFlags,
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 2d36997..e05ff6c 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -406,12 +406,14 @@ export class SubscriptionManager {
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
-          // Skip processing in visual editor mode or internal updates
+          // Skip processing in visual editor mode or internal updates, and
+          // until the visitor is known (start() then applies every variant)
           const isInternalUpdate =
             'updateActivePages' in payload && payload.updateActivePages;
           const shouldApplyVariants =
             !isInternalUpdate &&
             !this.options.isVisualEditorMode &&
+            this.webExperimentClient.isIdentified &&
             (pagesChanged || behaviorsChanged || isUrlChange);
 
           if (shouldApplyVariants) {
-- 
2.43.0


From 63b1464c73e77f622b0db245546d599d595c2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 23/67] fix: revert an injection when its scope stops being
 active

---
 packages/experiment-tag/src/experiment.ts | 24 ++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6baab2a..bd4a7f7 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1708,19 +1708,29 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
+      // Revert and delete the injection if it exists
+      const variantActions = this.appliedMutations[flagKey]?.[variantKey];
+      const injections = variantActions?.[INJECT_ACTION];
+      if (injections?.[id]) {
+        injections[id].revert();
+        delete injections[id];
+        if (Object.keys(injections).length === 0) {
+          delete variantActions[INJECT_ACTION];
+        }
+        if (Object.keys(variantActions).length === 0) {
+          delete this.appliedMutations[flagKey];
+        }
+      }
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
-- 
2.43.0


From 790f5f37af4558918f756cf12ccf3e066683bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 24/67] fix: notice page changes made while variants are being
 applied

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index e05ff6c..fb225c4 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -393,6 +393,11 @@ export class SubscriptionManager {
             activePages,
             this.lastNotifiedActivePages,
           );
+          if (pagesChanged) {
+            // Before any await: a change made while variants are being applied
+            // must be seen as a change.
+            this.lastNotifiedActivePages = clonePageObjects(activePages);
+          }
 
           // Get current behavioral state and check if it differs from the one
           // the user carries
@@ -465,7 +470,6 @@ export class SubscriptionManager {
 
           // Notify subscribers if pages actually changed
           if (pagesChanged) {
-            this.lastNotifiedActivePages = clonePageObjects(activePages);
             for (const subscriber of this.pageChangeSubscribers) {
               subscriber({ activePages });
             }
-- 
2.43.0


From f210f00f921630ac9f511220b292567c1e0195f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 25/67] fix: do not count time on page while the page is hidden

---
 .../src/subscriptions/subscriptions.ts              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index fb225c4..be32475 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -74,8 +74,10 @@ export class SubscriptionManager {
   private scrolledToElementState: Map<string, boolean> = new Map();
   private analyticsEventState: Set<string> = new Set();
   private maxScrollPercentage = 0;
-  private timeOnPageTimeouts: Record<number, ReturnType<typeof setTimeout>> =
-    {};
+  private timeOnPageTimeouts: Record<
+    number,
+    ReturnType<typeof setTimeout> | undefined
+  > = {};
   private firedUserInteractions: Set<string> = new Set();
   private clickTimeouts: Map<string, ReturnType<typeof setTimeout>> = new Map();
   private hoverTimeouts: WeakMap<
@@ -1123,7 +1125,14 @@ export class SubscriptionManager {
   };
 
   private setUpTimeouts = (durations: Set<number>) => {
+    const { hidden } = this.globalScope.document;
     durations.forEach((durationMs) => {
+      // Only time in view counts: on a hidden page the timer waits for the
+      // visibility change handler
+      if (hidden) {
+        this.timeOnPageTimeouts[durationMs] = undefined;
+        return;
+      }
       this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
         this.messageBus.publish('time_on_page', { durationMs });
         delete this.timeOnPageTimeouts[durationMs];
-- 
2.43.0


From 11df6604bbdd373d42b3767a2e515070bf06ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 26/67] fix: report elements already in view after a URL change

---
 .../experiment-tag/src/subscriptions/subscriptions.ts    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index be32475..aa7d479 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -525,6 +525,15 @@ export class SubscriptionManager {
 
     this.setupTimeOnPagePublisher();
 
+    // Observing an element anew reports whether it is in view; observing one
+    // that is already observed does nothing
+    for (const observer of [
+      ...this.intersectionObservers.values(),
+      ...this.scrolledToObservers.values(),
+    ]) {
+      observer.disconnect();
+    }
+
     // Trigger initial check for elements that already exist on new page
     this.checkInitialElements();
   };
-- 
2.43.0


From c1381d98a83c22883932c1b99fa241044a110645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 27/67] fix: element_visible holds while any matching element
 is in view

---
 .../src/subscriptions/subscriptions.ts        | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index aa7d479..5de0ae3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -66,7 +66,7 @@ export class SubscriptionManager {
     new Set();
   private lastNotifiedActivePages: PageObjects = {};
   private intersectionObservers: Map<string, IntersectionObserver> = new Map();
-  private elementVisibilityState: Map<string, boolean> = new Map();
+  private elementVisibilityState: Map<string, Set<Element>> = new Map();
   private elementAppearedState: Set<string> = new Set();
   private manuallyActivatedPageObjects: Set<string> = new Set();
   private targetedElementSelectors: Set<string> = new Set();
@@ -227,7 +227,7 @@ export class SubscriptionManager {
         const key = `${selector}\0${visibilityRatio}`;
         return {
           type: 'element_visible',
-          passed: this.elementVisibilityState.get(key) ?? false,
+          passed: !!this.elementVisibilityState.get(key)?.size,
           config: { selector, visibilityRatio },
         };
       }
@@ -717,18 +717,28 @@ export class SubscriptionManager {
           // Create IntersectionObserver for this threshold
           const observer = new IntersectionObserver(
             (entries) => {
-              entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
-
-                // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
-
-                // Publish event when element becomes visible
-                // Observer continues running; state check prevents duplicate firing
+              // The selector may match several elements: one in view is enough
+              const visible =
+                this.elementVisibilityState.get(observerKey) ?? new Set();
+              this.elementVisibilityState.set(observerKey, visible);
+              const becameVisible = entries.filter((entry) => {
+                // Every target is reported once when observed, in view or not
+                const isVisible =
+                  entry.isIntersecting &&
+                  entry.intersectionRatio >= visibilityRatio;
                 if (isVisible) {
-                  this.messageBus.publish('element_visible');
+                  visible.add(entry.target);
+                } else {
+                  visible.delete(entry.target);
                 }
+                return isVisible;
               });
+
+              // Publish event when an element becomes visible
+              // Observer continues running; state check prevents duplicate firing
+              if (becameVisible.length > 0) {
+                this.messageBus.publish('element_visible');
+              }
             },
             {
               threshold: visibilityRatio,
@@ -1397,7 +1407,7 @@ export class SubscriptionManager {
         const selector = triggerValue.selector;
         const visibilityRatio = triggerValue.visibilityRatio ?? 0;
         const observerKey = `${selector}\0${visibilityRatio}`;
-        return this.elementVisibilityState.get(observerKey) ?? false;
+        return !!this.elementVisibilityState.get(observerKey)?.size;
       }
 
       case 'exit_intent': {
-- 
2.43.0


From 1b796839c609265526ea3f619083b4d60d069009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 28/67] fix: one interaction can fire the triggers of several
 selectors

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 5de0ae3..74ac246 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -978,7 +978,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1048,7 +1047,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1080,7 +1078,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From 19dc79446aead4afe0cd2a668040fee8be992dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 29/67] fix: recognise a redirect destination however its URL
 is spelled

---
 packages/experiment-tag/src/experiment.ts | 17 ++++++++++++---
 packages/experiment-tag/src/util/url.ts   | 26 +++++++++++++++++++++++
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index bd4a7f7..7bc6146 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -87,7 +87,9 @@ import {
   PREVIEW_MODE_SESSION_KEY,
 } from './util/storage-keys';
 import {
+  canonicalUrl,
   getUrlParams,
+  isSameOrigin,
   removeQueryParams,
   urlWithoutHash,
   urlWithoutParamsAndAnchor,
@@ -1455,7 +1457,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private isAtDestination(targetUrl: string): boolean {
-    const currentUrl = this.globalScope.location.href;
+    // Servers and apps reorder params and add or drop a trailing slash: sending
+    // the user back to the other spelling would loop.
+    const currentUrl = canonicalUrl(this.globalScope.location.href);
+    targetUrl = canonicalUrl(targetUrl);
     if (currentUrl === targetUrl) {
       return true;
     }
@@ -1545,7 +1550,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     marker: RedirectMarker,
   ): boolean {
     try {
-      if (urlWithoutQuery(current) !== urlWithoutQuery(marker.target)) {
+      if (
+        canonicalUrl(urlWithoutQuery(current)) !==
+        canonicalUrl(urlWithoutQuery(marker.target))
+      ) {
         return false;
       }
       const currentParams = new URL(current).searchParams;
@@ -1565,7 +1573,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
    */
   private markerBackAtSource(current: string, marker: RedirectMarker): boolean {
     try {
-      if (urlWithoutQuery(current) !== urlWithoutQuery(marker.from)) {
+      if (
+        canonicalUrl(urlWithoutQuery(current)) !==
+        canonicalUrl(urlWithoutQuery(marker.from))
+      ) {
         return false;
       }
       if (marker.distinguishingParams.length === 0) {
diff --git a/packages/experiment-tag/src/util/url.ts b/packages/experiment-tag/src/util/url.ts
index 666d220..977a579 100644
--- a/packages/experiment-tag/src/util/url.ts
+++ b/packages/experiment-tag/src/util/url.ts
@@ -57,6 +57,32 @@ export const urlWithoutHash = (url: string): string => {
   }
 };
 
+/**
+ * Rewrite a URL so that the spellings servers and apps choose between compare
+ * equal: query params in any order, path with or without a trailing slash.
+ */
+export const canonicalUrl = (url: string): string => {
+  if (!url) {
+    return '';
+  }
+  try {
+    const urlObj = new URL(url);
+    urlObj.searchParams.sort();
+    urlObj.pathname = urlObj.pathname.replace(/\/+$/, '');
+    return urlObj.toString();
+  } catch {
+    return url;
+  }
+};
+
+export const isSameOrigin = (url1: string, url2: string): boolean => {
+  try {
+    return new URL(url1).origin === new URL(url2).origin;
+  } catch {
+    return false;
+  }
+};
+
 export const removeQueryParams = (
   url: string,
   paramsToRemove: string[],
-- 
2.43.0


From 70f862a053e4ae09e91cc88d3871e3dea0b1906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 30/67] fix: keep redirect markers while another redirect lands

---
 packages/experiment-tag/src/experiment.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 7bc6146..e521112 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1611,8 +1611,18 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       return;
     }
     const current = this.globalScope.location.href;
+    // An unlanded redirect within this site brought us here, wherever it ended
+    // up, not the user: the markers of earlier redirects stay, or two redirects
+    // that an app strips together would reset each other and loop. (A redirect to
+    // another origin lands there; coming back later is up to the user.)
+    const isLanding = Object.values(markers).some(
+      (marker) => !marker.landed && isSameOrigin(marker.from, marker.target),
+    );
     for (const flagKey of Object.keys(markers)) {
       const marker = markers[flagKey];
+      if (isLanding && marker.landed) {
+        continue;
+      }
       if (this.markerMatchesTarget(current, marker)) {
         if (marker.landed) {
           delete markers[flagKey];
-- 
2.43.0


From 7e2e976602e323c1544965939b799abee19b62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 31/67] fix: a URL change by the app does not end a redirect
 under way

---
 packages/experiment-tag/src/experiment.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index e521112..50732ae 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -304,6 +304,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   // a redirect is in-flight — location.replace() doesn't suspend painting, so
   // tearing the overlay down before the navigation commits flashes the source page.
   public isRedirecting = false;
+  // The flag whose redirect is unloading the page: URL changes the app makes meanwhile do not end it.
+  private leavingForFlag: string | undefined;
+  private impressionTask: Promise<void> | undefined;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
   // False until start() has resolved the visitor's identity: a variant evaluated
@@ -686,10 +689,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       // isRedirecting would otherwise leak true forever — suppressing anti-flicker
       // teardown and remote-flag handling on the destination route. url_change is
       // the SDK's own post-navigation signal, so the first one after a redirect
-      // marks it committed: clear the flag and tear down the overlay. A hard
-      // location.replace() unloads the page before this fires, so it is a no-op
-      // there (which is correct — that path needs no reset).
-      if (this.isRedirecting) {
+      // marks it committed: clear the flag and tear down the overlay. Not so for a
+      // hard location.replace(): until it unloads the page the app may still tidy
+      // its URL, which must not read as a strip loop or start another redirect.
+      if (this.isRedirecting && !this.leavingForFlag) {
         this.isRedirecting = false;
         removeAntiFlickerCss();
       }
@@ -1446,12 +1449,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         this.customRedirectHandler(targetUrl);
         return;
       }
+      this.leavingForFlag = flagKey;
       this.globalScope.location.replace(targetUrl);
     } catch (error) {
       // Navigation never started, so the marker would read as a loop on the
       // next evaluation and suppress the flag for the rest of the session.
       this.clearRedirectMarker(flagKey);
       this.isRedirecting = false;
+      this.leavingForFlag = undefined;
       throw error;
     }
   }
@@ -1654,8 +1659,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (typeof this.globalScope?.addEventListener !== 'function') {
       return;
     }
-    const clearMarkers = () =>
+    const clearMarkers = () => {
+      this.leavingForFlag = undefined;
       setStorageItem('sessionStorage', this.redirectMarkerStorageKey(), {});
+    };
     for (const event of USER_INTERACTION_EVENTS) {
       this.globalScope.addEventListener(event, clearMarkers, {
         capture: true,
-- 
2.43.0


From e96e79cd918d08cf126857b4fb82394b82e2cbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 32/67] fix: track the first redirect impression on a new URL

---
 packages/experiment-tag/src/experiment.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 50732ae..e91931b 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1837,6 +1837,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
+    // A redirect impression can be the first exposure on a new URL
+    if (!this.urlExposureCache[currentUrl]) {
+      this.urlExposureCache = { [currentUrl]: {} };
+    }
+
     // if on the same base URL, only track exposure if variant has changed or has not been tracked
     const hasTrackedVariant =
       this.urlExposureCache?.[currentUrl]?.[key] === variant.key;
@@ -1854,7 +1859,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       } else {
         this.experimentClient.exposure(key);
       }
-      (this.urlExposureCache[currentUrl] ??= {})[key] = variant.key;
+      this.urlExposureCache[currentUrl][key] = variant.key;
     }
   }
 
-- 
2.43.0


From 1170bb399cc47954fcd9b2347c219dc5f8325006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 33/67] fix: store a redirect impression where it can be
 tracked once

---
 packages/experiment-tag/src/experiment.ts | 28 +++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index e91931b..d8d3627 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1907,16 +1907,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       ...(variant.metadata !== undefined ? { metadata: variant.metadata } : {}),
     };
 
-    // Always write to sessionStorage
-    const stored =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
-    stored[flagKey] = impression;
-    setStorageItem('sessionStorage', storageKey, stored);
+    // The destination cannot see this origin's sessionStorage across subdomains.
+    // Storing the impression there as well would track it again when the user
+    // comes back.
+    let carried =
+      !!this.config.redirectConfig?.encodeRedirectInUrl && isCrossSubdomain;
 
-    // Also write to cookie when opted in and redirect crosses subdomains
+    // Write to cookie when opted in and redirect crosses subdomains
     if (
       this.config.redirectConfig?.encodeRedirectInCookie &&
       isCrossSubdomain
@@ -1937,6 +1934,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         const redirects = storedRedirects || {};
         redirects[flagKey] = impression;
         await storage.set(storageKey, redirects);
+        carried ||=
+          `.${new URL(redirectUrl).hostname}`.endsWith(domain || ' ') &&
+          !!(await storage.get(storageKey))?.[flagKey];
       } catch (error) {
         console.error(
           `Failed to store redirect impression in cookie for ${flagKey}:`,
@@ -1944,6 +1944,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         );
       }
     }
+
+    if (!carried) {
+      const stored =
+        getStorageItem<Record<string, StoredRedirectImpression>>(
+          'sessionStorage',
+          storageKey,
+        ) || {};
+      stored[flagKey] = impression;
+      setStorageItem('sessionStorage', storageKey, stored);
+    }
   }
 
   private async fireStoredRedirectImpressions() {
-- 
2.43.0


From 450c7d3f66c74bcae06665573c84454b53689772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 34/67] fix: track each redirect impression by itself and only
 once

---
 packages/experiment-tag/src/experiment.ts | 169 +++++++++++++++-------
 1 file changed, 118 insertions(+), 51 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index d8d3627..0c1a982 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1391,11 +1391,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
     })();
 
-    await this.storeRedirectImpressions(
-      flagKey,
-      variant,
-      redirectUrl,
-      isCrossSubdomain,
+    await this.inImpressionOrder(() =>
+      this.storeRedirectImpressions(
+        flagKey,
+        variant,
+        redirectUrl,
+        isCrossSubdomain,
+      ),
     );
 
     if (this.config.redirectConfig?.encodeRedirectInUrl && isCrossSubdomain) {
@@ -1956,7 +1958,27 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
-  private async fireStoredRedirectImpressions() {
+  private fireStoredRedirectImpressions(): Promise<void> {
+    return this.inImpressionOrder(() => this.fireRedirectImpressions());
+  }
+
+  /**
+   * One task at a time: while one awaits the cookie, a URL change must not track
+   * the same impressions again, nor a redirect lose the one it stores. Runs the task at once when none is under way.
+   */
+  private inImpressionOrder(task: () => Promise<void>): Promise<void> {
+    const run = this.impressionTask ? this.impressionTask.then(task) : task();
+    const clear = () => {
+      if (this.impressionTask === settled) {
+        this.impressionTask = undefined;
+      }
+    };
+    const settled = run.then(clear, clear);
+    this.impressionTask = settled;
+    return run;
+  }
+
+  private async fireRedirectImpressions() {
     const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
 
     // Read URL param impressions (highest priority)
@@ -1979,15 +2001,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
     }
 
-    // Read sessionStorage impressions
-    const sessionImpressions =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
-
-    // Read cookie impressions (lowest priority) when opted in
-    let cookieImpressions: Record<string, StoredRedirectImpression> = {};
+    // Cookie impressions (lowest priority) when opted in
     let cookieStorage:
       | AsyncCookieStore<Record<string, StoredRedirectImpression>>
       | undefined;
@@ -2000,72 +2014,125 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
+    }
+
+    const readSession = () =>
+      getStorageItem<Record<string, StoredRedirectImpression>>(
+        'sessionStorage',
+        storageKey,
+      ) || {};
+
+    const readCookie = async () => {
       try {
-        cookieImpressions = (await cookieStorage.get(storageKey)) || {};
+        return (await cookieStorage?.get(storageKey)) || {};
       } catch (error) {
         console.error(
           `Failed to retrieve redirect impressions from cookie ${storageKey}:`,
           error,
         );
+        return {};
       }
-    }
+    };
+
+    // Each is removed as it is tracked: the URL may change again, or another
+    // redirect be stored, while the others wait
+    const trackAndRemove = async (
+      impressions: Record<string, StoredRedirectImpression>,
+    ) => {
+      const session = readSession();
+      for (const flagKey in impressions) {
+        const { variantKey, expKey, metadata } = impressions[flagKey];
+        this.exposureWithDedupe(
+          flagKey,
+          { key: variantKey, expKey, metadata },
+          true,
+        );
+        delete session[flagKey];
+      }
+      if (Object.keys(session).length > 0) {
+        setStorageItem('sessionStorage', storageKey, session);
+      } else {
+        removeStorageItem('sessionStorage', storageKey);
+      }
+      if (cookieStorage) {
+        const cookie = await readCookie();
+        Object.keys(impressions).forEach((flagKey) => {
+          delete cookie[flagKey];
+        });
+        const removal =
+          Object.keys(cookie).length > 0
+            ? cookieStorage.set(storageKey, cookie)
+            : cookieStorage.remove(storageKey);
+        await removal.catch((error) => {
+          console.error(
+            `Failed to remove redirect impressions from cookie ${storageKey}:`,
+            error,
+          );
+        });
+      }
+    };
 
+    const cookieImpressions = cookieStorage ? await readCookie() : {};
     // Merge with priority: url > session > cookie
     const merged: Record<string, StoredRedirectImpression> = {
       ...cookieImpressions,
-      ...sessionImpressions,
+      ...readSession(),
       ...urlImpressions,
     };
 
-    if (Object.keys(merged).length === 0) {
-      return;
-    }
-
     const currentUrl = urlWithoutParamsAndAnchor(
       this.globalScope.location.href,
     );
 
+    const landed: Record<string, StoredRedirectImpression> = {};
     for (const flagKey in merged) {
-      const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
+      const { redirectUrl } = merged[flagKey];
       if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
-        this.exposureWithDedupe(
-          flagKey,
-          { key: variantKey, expKey, metadata },
-          true,
-        );
+        landed[flagKey] = merged[flagKey];
         delete merged[flagKey];
       }
     }
-
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
-      if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
-          console.error(
-            `Failed to remove redirect impressions from cookie ${storageKey}:`,
-            error,
-          );
-        });
+    // The impression of a redirect under way to another host is tracked there, and
+    // that of a redirect begun while this run waits is not this run's
+    const leavingForFlag = this.leavingForFlag;
+    const isDue = (flagKey: string) =>
+      flagKey !== this.leavingForFlag ||
+      (flagKey === leavingForFlag &&
+        isSameOrigin(
+          merged[flagKey].redirectUrl,
+          this.globalScope.location.href,
+        ));
+    for (const flagKey in merged) {
+      if (!isDue(flagKey)) {
+        delete merged[flagKey];
       }
-    };
+    }
+
+    if (Object.keys(landed).length > 0) {
+      await trackAndRemove(landed);
+    }
 
     if (Object.keys(merged).length > 0) {
       this.globalScope.setTimeout(() => {
-        void (async () => {
-          for (const flagKey in merged) {
-            const { variantKey, expKey, metadata } = merged[flagKey];
-            this.exposureWithDedupe(
-              flagKey,
-              { key: variantKey, expKey, metadata },
-              true,
-            );
+        this.inImpressionOrder(async () => {
+          // Those tracked since are no longer stored
+          const pending = {
+            ...(cookieStorage ? await readCookie() : {}),
+            ...readSession(),
+            ...urlImpressions,
+          };
+          for (const flagKey in pending) {
+            if (!merged[flagKey] || !isDue(flagKey)) {
+              delete pending[flagKey];
+            }
           }
-          await cleanup();
-        })();
+          await trackAndRemove(pending);
+        }).catch(() => {
+          // do nothing
+        });
       }, 500);
-    } else {
-      await cleanup();
     }
   }
 
-- 
2.43.0


From e004448ab91eca22f500759c93bb05e1f27fab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 35/67] fix: ignore malformed visual editor messages

---
 packages/experiment-tag/src/util/messenger.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/util/messenger.ts b/packages/experiment-tag/src/util/messenger.ts
index e9adf31..c0115bb 100644
--- a/packages/experiment-tag/src/util/messenger.ts
+++ b/packages/experiment-tag/src/util/messenger.ts
@@ -94,14 +94,20 @@ export class WindowMessenger {
           );
           return;
         }
-        if (e.data.type === 'OpenOverlay') {
+        if (e.data?.type === 'OpenOverlay') {
           DebugRecorder.push(
             'message_received',
             `origin=${e.origin}, type=OpenOverlay`,
           );
           DebugRecorder.push('origin_validation', 'PASS');
 
-          const injectSrc = new URL(e.data.context.injectSrc);
+          let injectSrc: URL;
+          try {
+            injectSrc = new URL(e.data.context.injectSrc);
+          } catch {
+            DebugRecorder.push('injectSrc_validation', 'FAIL: not a URL');
+            return;
+          }
           if (state !== 'closed') {
             DebugRecorder.push('state_guard', `rejected: state=${state}`);
             return;
-- 
2.43.0


From d4f218d5a399296d2d4912a98b2ccc68a38ebcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 36/67] fix: let detected user properties fill in empty fields
 of the user provider

---
 packages/experiment-browser/src/providers/default.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..7600ea3 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -5,6 +5,7 @@ import { LocalStorage } from '../storage/local-storage';
 import { SessionStorage } from '../storage/session-storage';
 import { ExperimentUserProvider } from '../types/provider';
 import { ExperimentUser } from '../types/user';
+import { filterNullUndefined } from '../util';
 
 export class DefaultUserProvider implements ExperimentUserProvider {
   globalScope = getGlobalScope();
@@ -41,7 +42,8 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       first_seen: this.getFirstSeen(),
       url_param: this.getUrlParam(),
       user_agent: this.userAgent,
-      ...user,
+      // Fields the wrapped provider leaves empty must not hide detected values.
+      ...filterNullUndefined(user),
     };
   }
 
-- 
2.43.0


From 0a2e0434fc73e41d2df2a648f0f33f4e69afd790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 37/67] fix: keep cookie values which contain an equals sign
 intact for targeting

---
 packages/experiment-browser/src/providers/default.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index 7600ea3..2a10983 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -82,7 +82,11 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
+      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+        // Only the first equals sign separates the name from the value.
+        const [name, ...value] = c.split('=');
+        return [name, value.join('=')];
+      }),
     );
   }
 
-- 
2.43.0


From 11ed95460c2f3f92ad8de51e3b54267ebbba9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 38/67] fix: stop handing events to an integration which has
 been replaced

---
 .../src/integration/manager.ts                | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index c855680..4b44825 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -65,21 +65,19 @@ export class IntegrationManager {
     if (this.integration && this.integration.teardown) {
       void this.integration.teardown();
     }
+    // A replaced integration must not be given any more events.
+    this.queue.removeTracker();
     this.integration = integration;
+    const onSetup = () => {
+      // Ignore the setup of an integration which has been replaced meanwhile.
+      if (this.integration !== integration) return;
+      this.queue.setTracker(integration.track.bind(integration));
+      this.resolve();
+    };
     if (integration.setup) {
-      this.integration.setup(this.config, this.client).then(
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-      );
+      integration.setup(this.config, this.client).then(onSetup, onSetup);
     } else {
-      this.queue.setTracker(this.integration.track.bind(integration));
-      this.resolve();
+      onSetup();
     }
   }
 
@@ -260,6 +258,10 @@ export class PersistentTrackingQueue {
     this.loadFlushStore();
   }
 
+  removeTracker(): void {
+    this.tracker = undefined;
+  }
+
   private startPoller(): void {
     if (this.poller) return;
     const setInterval = getSetInterval();
-- 
2.43.0


From 6999c6b39d43ae690c89a53cc4745ced9d8a0e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 39/67] fix: read user ids of legacy analytics cookies as UTF-8

---
 packages/experiment-browser/src/util/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index 2d554d0..ba52c67 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -45,7 +45,8 @@ export const parseAmplitudeCookie = (
     const values = value.split('.');
     let userId = undefined;
     if (values.length >= 2 && values[1]) {
-      userId = atob(values[1]);
+      // The user id is base64 encoded UTF-8.
+      userId = decodeURIComponent(escape(atob(values[1])));
     }
     return {
       deviceId: values[0],
-- 
2.43.0


From 1c027749a623c7ae1e414de08beaaf3c4769392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 40/67] fix: redirect with the impression in the URL when its
 metadata is not Latin-1

---
 packages/experiment-tag/src/experiment.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 0c1a982..d0a6265 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1426,7 +1426,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        // btoa only takes Latin-1, metadata is free text
+        btoa(
+          JSON.stringify(urlPayload).replace(
+            /[\u0080-\uffff]/g,
+            (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'),
+          ),
+        ),
       );
       targetUrl = targetUrlObj.toString();
     }
-- 
2.43.0


From 43a69ba9cac36dae4a5c1c90fdb4ef99ebdefed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 41/67] fix: revert the remaining variants when an injection's
 own clean-up throws

---
 packages/experiment-tag/src/experiment.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index d0a6265..f8b9c86 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1827,7 +1827,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.appliedMutations[flagKey][variantKey][INJECT_ACTION][id] = {
       revert: () => {
         state.cancelled = true;
-        utils.remove?.();
+        try {
+          utils.remove?.();
+        } catch (e) {
+          console.error(
+            `Experiment inject cleanup failed for ${flagKey} variant ${
+              variant.key ?? ''
+            }. Reason:`,
+            e,
+          );
+        }
         sheetHandle?.revert();
         script?.remove();
         this.appliedInjections.delete(id);
-- 
2.43.0


From 7ee8134507eba63a3b844cb4551106bd78d2c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 42/67] fix: deliver a queued exposure once when the
 integration exposes another while tracking it

---
 .../experiment-browser/src/integration/manager.ts   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 4b44825..50d8303 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -239,6 +239,7 @@ export class PersistentTrackingQueue {
   private inMemoryQueue: ExperimentEvent[] = [];
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
+  private isFlushing = false;
 
   constructor(instanceName: string, maxQueueSize: number = MAX_QUEUE_SIZE) {
     this.storageKey = `EXP_unsent_${instanceName}`;
@@ -246,6 +247,13 @@ export class PersistentTrackingQueue {
   }
 
   push(event: ExperimentEvent): void {
+    if (this.isFlushing) {
+      // Pushed by the tracker itself: the flush in progress delivers the event
+      // after the ones before it. Reloading the queue here would bring back
+      // the events which that flush has already delivered.
+      this.inMemoryQueue.push(event);
+      return;
+    }
     this.loadQueue();
     this.inMemoryQueue.push(event);
     this.flush();
@@ -276,15 +284,17 @@ export class PersistentTrackingQueue {
     if (!this.tracker) return;
     if (this.inMemoryQueue.length === 0) return;
     let i = 0;
+    this.isFlushing = true;
     for (; i < this.inMemoryQueue.length; i++) {
       try {
-        if (!this.tracker(this.inMemoryQueue[i])) {
+        if (!this.tracker || !this.tracker(this.inMemoryQueue[i])) {
           break;
         }
       } catch (e) {
         break;
       }
     }
+    this.isFlushing = false;
     this.inMemoryQueue = this.inMemoryQueue.slice(i);
     if (this.inMemoryQueue.length === 0 && this.poller) {
       const clearInterval = getClearInterval();
@@ -333,6 +343,7 @@ export class PersistentTrackingQueue {
   }
 
   private loadFlushStore(): void {
+    if (this.isFlushing) return;
     this.loadQueue();
     this.flush();
     this.storeQueue();
-- 
2.43.0


From dfb5fc170046117b2f998ae406bfa396ab82a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 43/67] fix: end a hover or focus although the element no
 longer matches the selector

---
 .../src/subscriptions/subscriptions.ts        | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 74ac246..2fb2907 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1062,25 +1062,24 @@ export class SubscriptionManager {
       const relatedTarget = (event as MouseEvent | FocusEvent)
         .relatedTarget as Element | null;
 
-      for (const [selector] of selectors) {
-        try {
-          const matchedAncestor = target.closest(selector);
-          if (matchedAncestor) {
-            // Only clear timeouts if we're actually leaving the matched ancestor
-            // (not just moving to a child element)
-            if (!relatedTarget || !matchedAncestor.contains(relatedTarget)) {
-              const timeoutMap = config.timeoutStorage.get(matchedAncestor);
-              if (timeoutMap) {
-                // Clear all timeouts for this ancestor
-                for (const timeout of timeoutMap.values()) {
-                  this.globalScope.clearTimeout(timeout);
-                }
-                config.timeoutStorage.delete(matchedAncestor);
-              }
-            }
+      // Whatever is left is no longer interacted with, even if it has stopped
+      // matching the selector meanwhile.
+      for (
+        let element: Element | null = target;
+        element;
+        element = element.parentElement
+      ) {
+        const timeoutMap = config.timeoutStorage.get(element);
+        // Only clear timeouts if we're actually leaving the element
+        // (not just moving to a child element)
+        if (
+          timeoutMap &&
+          (!relatedTarget || !element.contains(relatedTarget))
+        ) {
+          for (const timeout of timeoutMap.values()) {
+            this.globalScope.clearTimeout(timeout);
           }
-        } catch (e) {
-          // Invalid selector, skip
+          config.timeoutStorage.delete(element);
         }
       }
     };
-- 
2.43.0


From 0c02b603483d1f3ffefb2f8bb277d79c488f673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 44/67] fix: track an injection's impression before its code
 can change the variant

---
 packages/experiment-tag/src/experiment.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index f8b9c86..cb6b582 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1804,6 +1804,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     const state = { cancelled: false }; // individual state per injection
     const utils = getInjectUtils(state);
     this.appliedInjections.add(id);
+    // Before the code runs: it may change the variant or leave the page
+    this.exposureWithDedupe(flagKey, variant);
     try {
       const fn = this.globalScope[id];
       if (fn && typeof fn === 'function') {
@@ -1842,7 +1844,6 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         this.appliedInjections.delete(id);
       },
     };
-    this.exposureWithDedupe(flagKey, variant);
   }
 
   private exposureWithDedupe(
-- 
2.43.0


From 3a730deb18479c6ee2328ecfccee1302b563fb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 45/67] fix: read serverZone in any case for preview configs
 and the relay as the SDK does

---
 .../experiment-tag/src/behavioral-targeting/relay-client.ts   | 4 +++-
 packages/experiment-tag/src/index.ts                          | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
index fceb291..f547d78 100644
--- a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
@@ -22,7 +22,9 @@ export function getRelayUrl(
     return `${relayUrl.replace(/\/+$/, '')}/script/${apiKey}.relay.html`;
   }
   const cdnHost =
-    serverZone === 'EU' ? 'cdn.eu.amplitude.com' : 'cdn.amplitude.com';
+    serverZone?.toLowerCase() === 'eu'
+      ? 'cdn.eu.amplitude.com'
+      : 'cdn.amplitude.com';
   return `https://${cdnHost}/script/${apiKey}.relay.html`;
 }
 
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index 03903ad..7930a9b 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -222,7 +222,7 @@ const startClient = (
 
 const fetchLatestConfigs = async (apiKey: string, serverZone?: string) => {
   const serverUrl =
-    serverZone === 'EU'
+    serverZone?.toLowerCase() === 'eu'
       ? 'https://api.lab.eu.amplitude.com'
       : 'https://api.lab.amplitude.com';
   const api = new SdkPreviewApi(apiKey, serverUrl, HttpClient);
-- 
2.43.0


From 12adb78459e2cf170e47d432c2bfacdb6e15bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 46/67] fix: fetch preview configs from the region set on the
 window

---
 packages/experiment-tag/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index 7930a9b..e111c78 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -172,7 +172,8 @@ const launchClient = (
     // to startClient so it stays gated on isRedirecting — a redirect experiment
     // surfaced in preview mode must keep the overlay up while navigation is
     // in-flight, just like the normal path.
-    fetchLatestConfigs(apiKey, config.serverZone)
+    const { serverZone } = mergeWithWindowConfig(config, globalScope);
+    fetchLatestConfigs(apiKey, serverZone)
       .then((previewState) => {
         const initialFlags = JSON.stringify(previewState.flags);
         const pageObjects = JSON.stringify(previewState.pageViewObjects);
-- 
2.43.0


From bb28750f7ef6bcd45a9f6616367c60e015b23573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 47/67] fix: put the URL of a web exposure in a copy of the
 variant's metadata

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index e45b549..7177fc9 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -974,7 +974,8 @@ export class ExperimentClient implements Client {
         try {
           const url = globalScope.location.href;
           // Add URL without query parameters
-          exposure.metadata.url = url.split('?')[0] || '';
+          // (in a copy: the metadata belongs to the variant)
+          exposure.metadata = { ...metadata, url: url.split('?')[0] || '' };
         } catch (e) {
           // If there's any error getting the URL, continue without it
         }
-- 
2.43.0


From b539d6ac287fa7cb155995445178730facd00656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 48/67] fix: do not store the initial flags when a flag request
 times out

---
 packages/experiment-browser/src/experimentClient.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 7177fc9..e37fcf9 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -823,6 +823,12 @@ export class ExperimentClient implements Client {
       });
       this.flags.clear();
       this.flags.putAll(flags);
+      // Store before merging initial flags, which must not outlive this page.
+      try {
+        this.flags.store();
+      } catch (e) {
+        // catch localStorage undefined error
+      }
     } catch (e) {
       if (e instanceof TimeoutError) {
         this.logger.debug(e);
@@ -834,12 +840,6 @@ export class ExperimentClient implements Client {
         throw e;
       }
     }
-
-    try {
-      this.flags.store();
-    } catch (e) {
-      // catch localStorage undefined error
-    }
     this.mergeInitialFlagsWithStorage();
   }
 
-- 
2.43.0


From b974a1f212a6ac9f644468adfddb1d223101e7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:30 +0000
Subject: [PATCH 49/67] fix: insert an injected element before a child of its
 parent only

---
 packages/experiment-tag/src/util/inject-utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..8b104f4 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -112,8 +112,11 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           if (!parent) {
             return;
           }
+          // only a child of the parent is a sibling, not a deeper match
           const sibling = options.insertBeforeSelector
-            ? parent.querySelector(options.insertBeforeSelector)
+            ? Array.from(
+                parent.querySelectorAll(options.insertBeforeSelector),
+              ).find((match) => match.parentNode === parent) ?? null
             : null;
 
           if (options.insertBeforeSelector && !sibling) {
-- 
2.43.0


From 9f6d8df34a14ec1b33cbee9dfa82628168620efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 50/67] fix: insert an injected element once the rate limit
 allows it again

---
 packages/experiment-tag/src/util/inject-utils.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 8b104f4..301010f 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -90,6 +90,7 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
     ): Promise<void> {
       return new Promise((resolve) => {
         let rateLimit = 0;
+        let limited = false;
         let observer: MutationObserver | undefined = undefined;
 
         const checkElementInserted = () => {
@@ -103,10 +104,18 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           }
 
           if (rateLimit >= 10) {
+            limited = true;
             return;
           }
           rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
+          setTimeout(() => {
+            rateLimit--;
+            // the page may not change again after the check that was skipped
+            if (limited) {
+              limited = false;
+              checkElementInserted();
+            }
+          }, 1000);
 
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
-- 
2.43.0


From 05f76cdfcd905ec5ab0b42bc967b22a21a723003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 51/67] fix: leave a link click alone that the site has
 cancelled

---
 packages/experiment-tag/src/util/spa-link-interceptor.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-tag/src/util/spa-link-interceptor.ts b/packages/experiment-tag/src/util/spa-link-interceptor.ts
index 60a1956..541aa09 100644
--- a/packages/experiment-tag/src/util/spa-link-interceptor.ts
+++ b/packages/experiment-tag/src/util/spa-link-interceptor.ts
@@ -59,6 +59,9 @@ export function installSpaLinkInterceptor() {
   globalScope[initFlag] = true;
 
   const handler = (e: MouseEvent) => {
+    // the site has cancelled this click
+    if (e.defaultPrevented) return;
+
     const eventTarget = e.target;
     if (!(eventTarget instanceof Element)) {
       return;
-- 
2.43.0


From 4ff5e88bf5ad86fcbaa69ceda19247bb5742dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 52/67] fix: start a client only once when two copies of the
 script are on the page

---
 packages/experiment-tag/src/experiment.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index cb6b582..4fe576a 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -309,6 +309,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private impressionTask: Promise<void> | undefined;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  private starting: Promise<void> | undefined;
   // False until start() has resolved the visitor's identity: a variant evaluated
   // before that is not the visitor's, so page triggers must not apply it.
   public isIdentified = false;
@@ -439,6 +440,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (this.isRunning) {
       return;
     }
+    // Another copy of the script may be starting this client already
+    this.starting ??= this.startOnce().finally(() => {
+      this.starting = undefined;
+    });
+    return this.starting;
+  }
+
+  private async startOnce() {
     patchRemoveChild();
     installSpaLinkInterceptor();
     const urlParams = getUrlParams();
-- 
2.43.0


From 88dab15d38bde1a9bc94b24bc138dc34320d72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:44 +0000
Subject: [PATCH 53/67] fix: a preview of several flags shows its notice once

---
 packages/experiment-tag/src/preview/preview.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..7b11e9c 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,12 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // (another one may have been shown since the check in show())
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From 361b7ffa3a1e164247db70d1b2f7f697317f923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:15 +0000
Subject: [PATCH 54/67] fix: do not tell an identity listener of an identity
 already replaced

---
 packages/analytics-connector/src/identityStore.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 7f21659..39ab373 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -122,6 +122,11 @@ export class IdentityStoreImpl implements IdentityStore {
     this.identity = { ...identity };
     if (!isEqual(originalIdentity, this.identity)) {
       this.listeners.forEach((listener) => {
+        // A listener which sets the identity has already notified all listeners
+        // of the newer identity; do not follow up with the one it replaced.
+        if (!isEqual(this.identity, identity)) {
+          return;
+        }
         listener(identity);
       });
     }
-- 
2.43.0


From b653f7cdaad11eb8e5ef1966e92c550b2f331089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 55/67] fix: keep the user a fetch was made for when the caller
 changes its object

A fetch which waits for the user provider or the integration, and every
retry, read the object the caller had passed. Changing that object
afterwards changed the user whose variants were requested and stored.
---
 packages/experiment-browser/src/experimentClient.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index e37fcf9..22ccddd 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -317,6 +317,8 @@ export class ExperimentClient implements Client {
     options?: FetchOptions,
   ): Promise<ExperimentClient> {
     this.setUser(user || {});
+    // The caller may change its object while the request waits or is retried.
+    user = this.getUser();
     try {
       await this.fetchInternal(
         user,
-- 
2.43.0


From 6798c1ca687d4d93f394b3c634b2d8b9e2aac893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 56/67] fix: deduplicate exposures in memory while session
 storage is full

A failed write of the sent exposures was followed by reading the old ones
back, so every further read of the flag sent its exposure again.
---
 packages/experiment-browser/src/integration/manager.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 50d8303..d3b22e9 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -133,6 +133,8 @@ export class SessionDedupeCache {
   private readonly storageKey: string;
   private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
+  // Whether what is stored is out of date because it could not be written.
+  private isStoredCacheStale = false;
   private identity: Identity = {};
 
   constructor(instanceName: string) {
@@ -187,8 +189,10 @@ export class SessionDedupeCache {
     if (this.isSessionStorageAvailable && sessionStorage) {
       try {
         sessionStorage.removeItem(this.storageKey);
+        this.isStoredCacheStale = false;
       } catch (e) {
         // Gracefully handle storage errors.
+        this.isStoredCacheStale = true;
       }
     }
   }
@@ -204,6 +208,7 @@ export class SessionDedupeCache {
   }
 
   private loadCache(): void {
+    if (this.isStoredCacheStale) return;
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
       try {
@@ -224,7 +229,9 @@ export class SessionDedupeCache {
           this.storageKey,
           JSON.stringify(this.inMemoryCache),
         );
+        this.isStoredCacheStale = false;
       } catch (e) {
+        this.isStoredCacheStale = true;
         // Gracefully handle QuotaExceededError or other storage errors.
         // The in-memory cache will still work for deduplication within this session.
       }
-- 
2.43.0


From 11e37a6164142c72cd9ea89f2cc5b81ca103f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 57/67] fix: keep queued exposures in memory while local
 storage is full

A failed write of the queue was followed by reading the old queue back, so
the exposures waiting for the integration were lost.
---
 packages/experiment-browser/src/integration/manager.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index d3b22e9..3c88a5b 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -244,6 +244,8 @@ export class PersistentTrackingQueue {
   private readonly maxQueueSize: number;
   private readonly isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
+  // Whether what is stored is out of date because it could not be written.
+  private isStoredQueueStale = false;
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
   private isFlushing = false;
@@ -317,6 +319,7 @@ export class PersistentTrackingQueue {
   }
 
   private loadQueue(): void {
+    if (this.isStoredQueueStale) return;
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
       try {
@@ -343,8 +346,11 @@ export class PersistentTrackingQueue {
           this.storageKey,
           JSON.stringify(this.inMemoryQueue),
         );
+        this.isStoredQueueStale = false;
       } catch (e) {
         // Gracefully handle QuotaExceededError or other storage errors.
+        // The queue in memory still holds the events.
+        this.isStoredQueueStale = true;
       }
     }
   }
-- 
2.43.0


From 36242b9a946d2fccd76138d3b31685955eef797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 58/67] fix: keep analytics events as they were when the site
 edits them afterwards

Events waiting for the client to start, and the event history until it is
stored, held the properties object of the analytics event. Plugins that run
after the tag's edit that object in place, so an event was evaluated and
stored with properties it did not have.
---
 .../src/behavioral-targeting/event-storage.ts |  3 +-
 packages/experiment-tag/src/index.ts          |  5 +++-
 .../src/util/copy-properties.ts               | 29 +++++++++++++++++++
 3 files changed, 35 insertions(+), 2 deletions(-)
 create mode 100644 packages/experiment-tag/src/util/copy-properties.ts

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 7bf8e5b..62cd1c1 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -6,6 +6,7 @@ import {
   isConsentWithheld,
   onConsentDecision,
 } from '../consent/consent-gate';
+import { copyProperties } from '../util/copy-properties';
 import { getStorageItem, setStorageItem } from '../util/storage';
 
 import { RelayClient } from './relay-client';
@@ -129,7 +130,7 @@ export class EventStorageManager {
       event_type: eventType,
       timestamp: eventTime ?? Date.now(),
       session_id: sessionId,
-      properties,
+      properties: copyProperties(properties),
     };
 
     this.memoryCache.events.push(event);
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index e111c78..89f9b78 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -13,6 +13,7 @@ import { SdkPreviewApi } from './preview/preview-api';
 import { ConsentStatus, InitConfigs, WebExperimentConfig } from './types';
 import { applyAntiFlickerCss, removeAntiFlickerCss } from './util/anti-flicker';
 import { mergeWithWindowConfig } from './util/config';
+import { copyProperties } from './util/copy-properties';
 import { isPreviewMode } from './util/url';
 
 const eventBuffer: Array<{
@@ -252,7 +253,9 @@ export const createPlugin = (): Plugin => ({
     } else {
       bufferAnalyticsEvent({
         event_type: context.event_type,
-        event_properties: context.event_properties as Record<string, unknown>,
+        event_properties: copyProperties(
+          context.event_properties as Record<string, unknown>,
+        ),
       });
     }
     return context;
diff --git a/packages/experiment-tag/src/util/copy-properties.ts b/packages/experiment-tag/src/util/copy-properties.ts
new file mode 100644
index 0000000..fd17488
--- /dev/null
+++ b/packages/experiment-tag/src/util/copy-properties.ts
@@ -0,0 +1,29 @@
+/**
+ * Copies event properties, so that what is kept of an event does not change
+ * when the site or a later analytics plugin edits the event in place.
+ */
+export const copyProperties = <T>(properties: T): T => {
+  try {
+    return copy(properties) as T;
+  } catch {
+    // too deep or cyclic
+    return properties;
+  }
+};
+
+const copy = (value: unknown): unknown => {
+  if (Array.isArray(value)) {
+    return value.map(copy);
+  }
+  if (
+    Object.prototype.toString.call(value) !== '[object Object]' ||
+    typeof (value as { toJSON?: unknown }).toJSON === 'function'
+  ) {
+    return value;
+  }
+  const result: Record<string, unknown> = {};
+  for (const [key, property] of Object.entries(value as object)) {
+    result[key] = copy(property);
+  }
+  return result;
+};
-- 
2.43.0


From 85f4f30dd28dfb33d0b7875d5d165ce7d12ebad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 59/67] fix: do not loop when a hash router undoes a redirect
 to another fragment

A redirect that differs only in the fragment keeps the document and fires a
popstate, which was taken for the visitor's: it cleared the redirect's
marker, so a router sending the visitor back was answered with the same
redirect for ever. Such a redirect does not unload the page either.
---
 packages/experiment-tag/src/experiment.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 4fe576a..bf88d89 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -306,6 +306,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   // The flag whose redirect is unloading the page: URL changes the app makes meanwhile do not end it.
   private leavingForFlag: string | undefined;
+  // A redirect to another fragment of this document fires a popstate of its own
+  private isOwnPopstate = false;
   private impressionTask: Promise<void> | undefined;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
@@ -1466,7 +1468,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         this.customRedirectHandler(targetUrl);
         return;
       }
-      this.leavingForFlag = flagKey;
+      this.isOwnPopstate =
+        !!new URL(targetUrl).hash &&
+        urlWithoutHash(targetUrl) ===
+          urlWithoutHash(this.globalScope.location.href);
+      if (!this.isOwnPopstate) {
+        this.leavingForFlag = flagKey;
+      }
       this.globalScope.location.replace(targetUrl);
     } catch (error) {
       // Navigation never started, so the marker would read as a loop on the
@@ -1474,6 +1482,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.clearRedirectMarker(flagKey);
       this.isRedirecting = false;
       this.leavingForFlag = undefined;
+      this.isOwnPopstate = false;
       throw error;
     }
   }
@@ -1676,7 +1685,15 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (typeof this.globalScope?.addEventListener !== 'function') {
       return;
     }
-    const clearMarkers = () => {
+    const clearMarkers = (event: Event) => {
+      const isOwn = event.type === 'popstate' && this.isOwnPopstate;
+      this.isOwnPopstate = false;
+      if (isOwn) {
+        // Committed, also when the app undid it before any url_change
+        this.isRedirecting = false;
+        removeAntiFlickerCss();
+        return;
+      }
       this.leavingForFlag = undefined;
       setStorageItem('sessionStorage', this.redirectMarkerStorageKey(), {});
     };
-- 
2.43.0


From 5b89eccdd89309e678e00e6e1f24acdf1dd5607b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 60/67] fix: type of the listener that tells the redirect's own
 popstate apart

---
 packages/experiment-tag/src/experiment.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index bf88d89..7d8d779 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1685,7 +1685,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (typeof this.globalScope?.addEventListener !== 'function') {
       return;
     }
-    const clearMarkers = (event: Event) => {
+    const clearMarkers = (event: { type: string }) => {
       const isOwn = event.type === 'popstate' && this.isOwnPopstate;
       this.isOwnPopstate = false;
       if (isOwn) {
-- 
2.43.0


From 5e6371f6c506b4c073c265deef4da72dc971dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 61/67] fix: a regular expression JavaScript cannot parse
 matches nothing instead of failing every flag

---
 packages/experiment-core/src/evaluation/evaluation.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-core/src/evaluation/evaluation.ts b/packages/experiment-core/src/evaluation/evaluation.ts
index cff7021..72c286b 100644
--- a/packages/experiment-core/src/evaluation/evaluation.ts
+++ b/packages/experiment-core/src/evaluation/evaluation.ts
@@ -528,9 +528,14 @@ export class EvaluationEngine {
   }
 
   private matchesRegex(propValue: string, filterValues: string[]): boolean {
-    return filterValues.some((filterValue) =>
-      Boolean(new RegExp(filterValue).exec(propValue)),
-    );
+    return filterValues.some((filterValue) => {
+      try {
+        return Boolean(new RegExp(filterValue).exec(propValue));
+      } catch {
+        // Not an expression JavaScript knows: one flag must not fail them all
+        return false;
+      }
+    });
   }
 
   private containsNone(filterValues: string[]): boolean {
-- 
2.43.0


From 6ecdce23292b26d3e7b22a2cfe2a6f91b2f218ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 62/67] fix: broken content of one experiment does not keep the
 others from the page

---
 packages/experiment-tag/src/experiment.ts | 32 ++++++++++++++++++-----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 7d8d779..f53b1cb 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1326,12 +1326,22 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
   private async handleVariantAction(key: string, variant: Variant) {
     for (const action of variant.payload) {
-      if (action.action === REDIRECT_ACTION) {
-        await this.handleRedirect(action, key, variant);
-      } else if (action.action === MUTATE_ACTION) {
-        this.handleMutate(action, key, variant);
-      } else if (action.action === INJECT_ACTION) {
-        this.handleInject(action, key, variant);
+      try {
+        if (action.action === REDIRECT_ACTION) {
+          await this.handleRedirect(action, key, variant);
+        } else if (action.action === MUTATE_ACTION) {
+          this.handleMutate(action, key, variant);
+        } else if (action.action === INJECT_ACTION) {
+          this.handleInject(action, key, variant);
+        }
+      } catch (e) {
+        // Broken content must not keep the other experiments from the page
+        console.error(
+          `Experiment action failed for ${key} variant ${
+            variant.key ?? ''
+          }. Reason:`,
+          e,
+        );
       }
     }
   }
@@ -1739,7 +1749,15 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           ]
         ) {
           // Apply mutation
-          mutationControllers[index] = mutate.declarative(m);
+          try {
+            mutationControllers[index] = mutate.declarative(m);
+          } catch (e) {
+            // e.g. an invalid selector; the other mutations still apply
+            console.error(
+              `Experiment mutation failed for ${flagKey} variant ${variantKey}. Reason:`,
+              e,
+            );
+          }
         }
       }
     });
-- 
2.43.0


From 7fc1fbcabe3d6338eaf3891effc3437e194d90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:59 +0000
Subject: [PATCH 63/67] fix: a subscriber that throws does not keep the others
 from being told

---
 .../src/subscriptions/subscriptions.ts        | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 2fb2907..1611e22 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -165,6 +165,20 @@ export class SubscriptionManager {
     };
   };
 
+  private notifySubscribers<T>(
+    subscribers: Set<(value: T) => void>,
+    value: T,
+  ): void {
+    for (const subscriber of subscribers) {
+      try {
+        subscriber(value);
+      } catch (e) {
+        // The others must be told nevertheless
+        console.error('Experiment subscriber failed. Reason:', e);
+      }
+    }
+  }
+
   public getDebugPageObjects(): Record<string, PageObjectDebugInfo[]> {
     const result: Record<string, PageObjectDebugInfo[]> = {};
     const activePages = this.webExperimentClient.getActivePages();
@@ -322,9 +336,7 @@ export class SubscriptionManager {
     this.debugDebounceTimer = this.globalScope.setTimeout(() => {
       this.debugDebounceTimer = null;
       const state = this.webExperimentClient.getDebugState();
-      for (const subscriber of this.debugStateSubscribers) {
-        subscriber(state);
-      }
+      this.notifySubscribers(this.debugStateSubscribers, state);
     }, DEBUG_DEBOUNCE_MS);
   };
 
@@ -472,9 +484,7 @@ export class SubscriptionManager {
 
           // Notify subscribers if pages actually changed
           if (pagesChanged) {
-            for (const subscriber of this.pageChangeSubscribers) {
-              subscriber({ activePages });
-            }
+            this.notifySubscribers(this.pageChangeSubscribers, { activePages });
           }
 
           // Debug subscribers fire on any URL change or page change,
-- 
2.43.0


From ac8000f0003be48400dfb931aee8fbdf2bd21d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:25 +0000
Subject: [PATCH 64/67] fix: an impression made after a refusal does not wait
 in the SDK's queue

---
 packages/experiment-tag/src/experiment.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index f53b1cb..b3db7ba 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -28,7 +28,11 @@ import {
   type AsyncCookieStore,
   createCookieStorage,
 } from './consent/consent-cookie-storage';
-import { consentGate } from './consent/consent-gate';
+import {
+  consentGate,
+  isConsentPending,
+  isConsentWithheld,
+} from './consent/consent-gate';
 import { wrapIntegrationTrack } from './consent/consent-impression-buffer';
 import { showPreviewModeModal } from './preview/preview';
 import { MessageBus } from './subscriptions/message-bus';
@@ -1908,6 +1912,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     const hasTrackedVariant =
       this.urlExposureCache?.[currentUrl]?.[key] === variant.key;
 
+    if (isConsentWithheld() && !isConsentPending()) {
+      // The SDK would keep it until its integration is ready, to be sent after
+      // a later grant, or by another client of the same instance name
+      this.urlExposureCache[currentUrl][key] = variant.key;
+      return;
+    }
+
     if (!hasTrackedVariant) {
       if (forceVariant || !!this.previewFlags[key]) {
         const variantAndSource = {
-- 
2.43.0


From ab0acaf7476deb40c839c582325a62c9f591f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:37 +0000
Subject: [PATCH 65/67] fix: a document whose cookies may not be read does not
 break the client

---
 packages/experiment-browser/src/providers/default.ts | 10 ++++++++--
 packages/experiment-browser/src/util/state.ts        |  8 +++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index 2a10983..2a9f32c 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -78,11 +78,17 @@ export class DefaultUserProvider implements ExperimentUserProvider {
   }
 
   private getCookie(): Record<string, string> {
-    if (!this.globalScope?.document?.cookie) {
+    let cookie: string | undefined;
+    try {
+      cookie = this.globalScope?.document?.cookie;
+    } catch {
+      // Reading cookies throws in a sandboxed document.
+    }
+    if (!cookie) {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+      cookie.split('; ').map((c) => {
         // Only the first equals sign separates the name from the value.
         const [name, ...value] = c.split('=');
         return [name, value.join('=')];
diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index ba52c67..4ff3832 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -20,7 +20,13 @@ export const parseAmplitudeCookie = (
   if (!document) {
     return;
   }
-  const cookies = document.cookie.split('; ');
+  let cookies: string[];
+  try {
+    cookies = document.cookie.split('; ');
+  } catch (e) {
+    // Reading cookies throws in a sandboxed document
+    return;
+  }
   for (const cookie of cookies) {
     const [cookieKey, cookieValue] = cookie.split('=', 2);
     if (cookieKey === key) {
-- 
2.43.0


From 86503e1f9ecb8753f793af8aaa8616c1703fda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:37 +0000
Subject: [PATCH 66/67] fix: the connector works where globalThis is null

---
 .../analytics-connector/src/util/global.ts    | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/packages/analytics-connector/src/util/global.ts b/packages/analytics-connector/src/util/global.ts
index 465f436..afdaf70 100644
--- a/packages/analytics-connector/src/util/global.ts
+++ b/packages/analytics-connector/src/util/global.ts
@@ -1,7 +1,20 @@
 /* eslint-disable no-restricted-globals -- standalone global shim; cannot depend on experiment-core */
-export const safeGlobal =
-  typeof globalThis !== 'undefined'
-    ? globalThis
-    : typeof global !== 'undefined'
-    ? global
-    : self;
+const getSafeGlobal = (): typeof globalThis => {
+  // Some iOS Safari versions report globalThis as null.
+  if (typeof globalThis !== 'undefined' && globalThis !== null) {
+    return globalThis;
+  }
+  if (typeof window !== 'undefined' && window !== null) {
+    return window as unknown as typeof globalThis;
+  }
+  if (typeof global !== 'undefined' && global !== null) {
+    return global;
+  }
+  if (typeof self !== 'undefined' && self !== null) {
+    return self as unknown as typeof globalThis;
+  }
+  // No global scope to share: what is kept here is shared within this module.
+  return {} as typeof globalThis;
+};
+
+export const safeGlobal = getSafeGlobal();
-- 
2.43.0


From f78d68bcedbf96ad4d9a8424fef532842f4f2eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:01 +0000
Subject: [PATCH 67/67] fix: overlapping previews do not leave two variants of
 an experiment on the page

---
 packages/experiment-tag/src/experiment.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index b3db7ba..fa1999d 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -950,6 +950,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         }
         continue;
       }
+      // An overlapping call may have applied another variant in the meantime
+      this.revertVariants({ flagKeys: [key] });
       await this.handleVariantAction(key, variantObject);
     }
   }
-- 
2.43.0

