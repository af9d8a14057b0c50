export * as tag from "@TAG@/index.ts";
export * as connector from "@amplitude/analytics-connector";
