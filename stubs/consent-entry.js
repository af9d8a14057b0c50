export * as tag from "@TAG@/index.ts";
export * as gate from "@TAG@/consent/consent-gate.ts";
export * as storage from "@TAG@/util/storage.ts";
export * as cookies from "@TAG@/consent/consent-cookie-storage.ts";
export * as sync from "@TAG@/util/cookie.ts";
export * as impressions from "@TAG@/consent/consent-impression-buffer.ts";
export * as events from "@TAG@/behavioral-targeting/event-storage.ts";
export * as sessions from "@TAG@/behavioral-targeting/session-manager.ts";
