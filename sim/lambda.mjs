// Models of the managed platform around the code: Lambda (cold/warm, freeze, timeout, crash, concurrency),
// SQS queues with redrive, SQS event source mappings, and schedules.
import { Instance } from "./runtime.mjs";

export class LambdaFn {
  constructor(world, name, code, o = {}) {
    this.world = world;
    this.name = name;
    this.code = code;
    this.env = o.env ?? {};
    this.svc = o.svc ?? {};
    this.timeoutMs = (o.timeoutSec ?? 60) * 1000;
    this.reserved = o.reserved ?? 1000;
    this.exportName = o.exportName ?? "handler";
    this.region = o.region;
    this.warm = [];
    this.active = 0;
    this.invocations = 0;
    this.coldStarts = 0;
    this.stats = { ok: 0, error: 0, timeout: 0, crash: 0, throttled: 0 };
    this.skewMs = o.skewMs;
  }
  canInvoke() {
    return this.active < this.reserved;
  }
  instance(site, invN) {
    const w = this.world;
    while (this.warm.length) {
      const i = this.warm.pop();
      if (i.state === "dead") continue;
      if (w.fault(`${this.name}:warm`, "recycle")) {
        i.crash("recycled");
        continue;
      }
      return i;
    }
    this.coldStarts++;
    return new Instance(w, this.name, this.code, { env: { ...this.env }, svc: this.svc, region: this.region, site, invN, clockSkew: this.skewMs ? this.skewMs(this.coldStarts) : 0 });
  }
  /** Resolves {status:'ok',value} | {status:'error'|'timeout'|'crash'|'throttled', error}. */
  invoke(event, o = {}) {
    const w = this.world;
    const n = o.key ?? this.invocations;
    this.invocations++;
    if (!this.canInvoke()) {
      this.stats.throttled++;
      return Promise.resolve({ status: "throttled", error: new Error("throttled") });
    }
    this.active++;
    return new Promise((resolve) => {
      w.after(w.delay(`${this.name}:${n}:start`, 1, 20), `invoke:${this.name}`, () => {
        let inst;
        try {
          inst = this.instance(`${this.name}:${n}`, n);
        } catch (e) {
          if (e?.name === "Unsupported") w.fail(e);
          this.active--;
          this.stats.error++;
          resolve({ status: "error", error: e, init: true });
          return;
        }
        inst.invN = n;
        inst.startedRun = w.now;
        inst.site = `${this.name}:${n}`;
        const started = w.now;
        let done = false;
        const finish = (r) => {
          if (done) return;
          done = true;
          killer.cancelled = true;
          this.active--;
          this.stats[r.status] = (this.stats[r.status] ?? 0) + 1;
          w.trace("inv", `${this.name}:${n} ${r.status}`);
          if (inst.state !== "dead") {
            inst.freeze();
            this.warm.push(inst);
          }
          w.after(w.delay(`${this.name}:${n}:end`, 0.5, 5), `result:${this.name}`, () => resolve({ ...r, tookMs: w.now - started }));
        };
        const killer = w.after(this.timeoutMs, `timeout:${this.name}`, () => {
          if (done) return;
          inst.onCrash = [];
          inst.crash("lambda timeout");
          finish({ status: "timeout", error: new Error("Task timed out") });
        });
        inst.onCrash = [(reason) => finish({ status: "crash", error: new Error(`crash: ${reason}`) })];
        inst.thaw();
        const ctx = {
          functionName: this.name,
          awsRequestId: `req-${this.name}-${n}`,
          invokedFunctionArn: `arn:aws:lambda:eu-west-1:000000000000:function:${this.name}`,
          memoryLimitInMB: "128",
          logGroupName: "lg",
          logStreamName: "ls",
          callbackWaitsForEmptyEventLoop: true,
          getRemainingTimeInMillis: () => Math.max(0, Math.floor(started + this.timeoutMs - w.now)),
        };
        if (inst.state === "dead") { finish({ status: "crash", error: new Error("crash: during initialisation") }); return; }
        const start = () => inst.deliverNow(() => {
          let p;
          try {
            const handler = inst.exports[this.exportName];
            if (typeof handler !== "function") throw new Error(`no handler ${this.exportName}`);
            const payload = event === undefined ? undefined : JSON.parse(JSON.stringify(event));
            p = handler.length >= 3
              ? new Promise((res, rej) => { const r = handler(payload, ctx, (err, v) => (err ? rej(err) : res(v))); if (r && typeof r.then === "function") r.then(res, rej); })
              : handler(payload, ctx);
          } catch (e) {
            p = Promise.reject(e);
          }
          Promise.resolve(p).then(
            (v) => {
              if (inst.state === "dead") return;
              let value;
              try {
                value = v === undefined ? undefined : JSON.parse(JSON.stringify(v));
              } catch (e) {
                finish({ status: "error", error: e });
                return;
              }
              finish({ status: "ok", value, raw: v });
            },
            (e) => {
              if (inst.state === "dead") return;
              if (e?.name === "Unsupported") w.fail(e);
              w.logged(inst.site, `Invoke Error ${e?.stack ?? e}`);
              finish({ status: "error", error: e });
            },
          );
        });
        if (!inst.ready) { start(); return; }
        inst.ready.then(start, (e) => {
          if (inst.state === "dead") return;
          if (e?.name === "Unsupported") w.fail(e);
          inst.onCrash = [];
          inst.crash("initialisation failed");
          finish({ status: "error", error: e, init: true });
        });
      });
    });
  }
  /** Asynchronous (EventBridge/SNS/S3) invocation: retried twice on failure. */
  async invokeAsync(event, o = {}) {
    let r;
    for (let a = 0; a <= (o.retries ?? 2); a++) {
      r = await this.invoke(event, o.key ? { key: `${o.key}.${a}` } : {});
      if (r.status === "ok") return r;
      await this.world.sleep(r.status === "throttled" ? 1000 : 60000 * (a + 1), `async-retry:${this.name}`);
    }
    return r;
  }
}

let msgSerial = 0;
export class Queue {
  constructor(world, name, o = {}) {
    this.world = world;
    this.name = name;
    this.url = o.url ?? `https://sqs.eu-west-1.amazonaws.com/000000000000/${name}`;
    this.arn = `arn:aws:sqs:eu-west-1:000000000000:${name}`;
    this.visibilityMs = (o.visibilitySec ?? 30) * 1000;
    this.maxReceive = o.maxReceive ?? Infinity;
    this.dlq = o.dlq;
    this.retentionMs = (o.retentionSec ?? 345600) * 1000;
    this.expired = 0;
    this.messages = [];
    this.listeners = [];
    this.sent = 0;
    this.delivered = 0;
    this.redelivered = 0;
    this.deadLettered = 0;
    this.n = 0;
  }
  send(body, o = {}) {
    const m = { id: `${this.name}-m${this.n++}`, body, receiveCount: 0, visibleAt: this.world.now + (o.delayMs ?? 0), deleted: false, sentAt: this.world.now, attrs: o.attrs, serial: msgSerial++, origin: o.origin };
    this.messages.push(m);
    this.sent++;
    this.world.trace("sqs", `send ${this.name} ${m.id}`);
    for (const l of this.listeners) l.wake(o.delayMs ?? 0);
    return m;
  }
  remaining() {
    return this.messages.filter((m) => !m.deleted);
  }
  /** Receive up to n visible messages. Standard queue: any order. */
  receive(n, site) {
    const w = this.world;
    for (const m of this.messages) if (!m.deleted && w.now - m.sentAt > this.retentionMs) { m.deleted = true; this.expired++; }
    let vis = this.messages.filter((m) => !m.deleted && m.visibleAt <= w.now);
    const out = [];
    if (w.fault(`${site}:rcv`, "sqs.reorder")) {
      const keyed = vis.map((m) => [w.u32(`${site}:ord:${m.id}`), m]);
      keyed.sort((a, b) => a[0] - b[0]);
      vis = keyed.map((k) => k[1]);
    }
    for (const m of vis) {
      if (out.length >= n) break;
      if (m.receiveCount >= this.maxReceive) {
        m.deleted = true;
        this.deadLettered++;
        w.trace("sqs", `dead-letter ${m.id}`);
        this.dlq?.send(m.body, { attrs: m.attrs, origin: m });
        continue;
      }
      m.receiveCount++;
      if (m.receiveCount > 1) this.redelivered++;
      m.visibleAt = w.now + this.visibilityMs;
      if (w.fault(`${site}:dup:${m.id}`, "sqs.duplicate")) {
        // at-least-once delivery: a replica still shows the message
        m.visibleAt = w.now + 0.01;
      }
      m.receipt = `r-${m.id}-${m.receiveCount}`;
      this.delivered++;
      out.push({ m, receipt: m.receipt });
    }
    this.messages = this.messages.filter((m) => !m.deleted);
    return out;
  }
}

export class EventSource {
  constructor(queue, fn, o = {}) {
    this.queue = queue;
    this.fn = fn;
    this.world = queue.world;
    this.batchSize = o.batchSize ?? 10;
    this.report = o.reportBatchItemFailures ?? false;
    this.windowMs = (o.maxBatchingWindowSec ?? 0) * 1000;
    this.maxConcurrency = o.maxConcurrency ?? 5;
    this.enabled = o.enabled ?? true;
    this.inFlight = 0;
    this.armed = undefined;
    this.batches = 0;
    queue.listeners.push(this);
    this.onBatch = o.onBatch;
  }
  wake(ms = 0) {
    const w = this.world;
    const d = ms + this.windowMs + w.delay(`esm:${this.queue.name}:poll`, 5, 80);
    if (this.armed && !this.armed.cancelled && this.armed.t <= w.now + d && this.armed.t > w.now) return;
    if (this.armed) this.armed.cancelled = true;
    this.armed = w.after(d, `poll:${this.queue.name}`, () => { this.armed = undefined; this.poll(); });
  }
  poll() {
    const w = this.world;
    const q = this.queue;
    if (!this.enabled) return;
    const cap = Math.min(this.maxConcurrency, this.fn.reserved);
    while (this.inFlight < cap && this.fn.canInvoke()) {
      const got = q.receive(this.batchSize, `esm:${q.name}:${this.batches}`);
      if (!got.length) break;
      this.dispatch(got, this.batches++);
    }
    const next = q.messages.reduce((a, m) => Math.min(a, m.visibleAt), Infinity);
    if (next !== Infinity) this.wake(Math.max(0, next - w.now));
  }
  dispatch(got, n) {
    const w = this.world;
    const q = this.queue;
    this.inFlight++;
    const Records = got.map(({ m, receipt }) => ({
      messageId: m.id,
      receiptHandle: receipt,
      body: m.body,
      attributes: { ApproximateReceiveCount: String(m.receiveCount), SentTimestamp: String(Math.floor(m.sentAt)), SenderId: "sim", ApproximateFirstReceiveTimestamp: String(Math.floor(m.sentAt)) },
      messageAttributes: Object.fromEntries(Object.entries(m.attrs ?? {}).map(([k, v]) => [k, v?.DataType ? { stringValue: v.StringValue, binaryValue: v.BinaryValue, stringListValues: [], binaryListValues: [], dataType: v.DataType } : v])),
      md5OfBody: "",
      eventSource: "aws:sqs",
      eventSourceARN: q.arn,
      awsRegion: "eu-west-1",
    }));
    this.onBatch?.(got.map((g) => g.m), n);
    const key = `${q.name}.b${n}`;
    this.fn.invoke({ Records }, { key }).then((r) => {
      this.inFlight--;
      let failed = new Set();
      if (r.status !== "ok") {
        failed = new Set(Records.map((x) => x.messageId));
      } else if (this.report) {
        const v = r.value;
        const ids = new Set(Records.map((x) => x.messageId));
        if (v && Array.isArray(v.batchItemFailures)) {
          const bad = v.batchItemFailures.some((b) => !b || !b.itemIdentifier || !ids.has(b.itemIdentifier));
          failed = bad ? ids : new Set(v.batchItemFailures.map((b) => b.itemIdentifier));
        } else if (v && typeof v === "object" && v.batchItemFailures !== undefined && v.batchItemFailures !== null) {
          failed = ids;
        }
      }
      for (const { m, receipt } of got) {
        if (failed.has(m.id)) {
          w.trace("sqs", `failed ${m.id}`);
          continue;
        }
        if (w.fault(`esm:${key}:del:${m.id}`, "sqs.delete-lost")) continue; // reappears after the visibility timeout
        if (m.receipt !== receipt && w.now > m.visibleAt) continue;
        m.deleted = true;
        m.doneBy = key;
        w.trace("sqs", `deleted ${m.id}`);
      }
      q.messages = q.messages.filter((m) => !m.deleted);
      this.wake();
    });
    this.wake();
  }
}

/**
 * Builds the functions, queues and triggers of a synthesised wiring inside the world.
 * @param parts  {fn: {key: {re, code, svc, exportName?, env?}}, aws, only?: [queue regex]}
 */
export function deploy(world, wiring, { fns, aws, resources = {} }) {
  const out = { fns: {}, queues: {}, esms: [] };
  const byQ = new Map(), byF = new Map();
  const names = new Map(wiring.buckets.map((b) => [b.id, b.name]));
  for (const q of wiring.queues) byQ.set(q.id, new Queue(world, q.name, { visibilitySec: q.visibilitySec, maxReceive: q.maxReceive ?? Infinity, retentionSec: q.retentionSec }));
  for (const q of wiring.queues) { const s = byQ.get(q.id); if (q.dlq) s.dlq = byQ.get(q.dlq); out.queues[q.name] = s; aws.addQueue(s); }
  const res = (v) => (byQ.has(v) ? byQ.get(v).url : names.has(v) ? names.get(v) : resources[v] ?? v);
  for (const [key, f] of Object.entries(fns)) {
    const w = wiring.fns.filter((x) => f.re.test(x.name));
    if (w.length !== 1) throw new Error(`deploy: ${w.length} functions match ${f.re}`);
    const env = {};
    for (const [k, v] of Object.entries(w[0].env)) env[k] = res(v);
    const fn = new LambdaFn(world, key, f.code, { env: { ...env, ...f.env }, svc: f.svc, timeoutSec: w[0].timeoutSec, reserved: w[0].reserved, exportName: f.exportName, region: f.region, skewMs: f.skewMs });
    fn.schedule = wiring.scheduleOf(w[0].id);
    byF.set(w[0].id, fn);
    out.fns[key] = fn;
  }
  /** Functions subscribed to a topic. */
  out.subscribers = (topic) => (wiring.subs ?? []).filter((s) => s.topic === topic).map((s) => byF.get(s.fn)).filter(Boolean);
  for (const e of wiring.esms) {
    const fn = byF.get(e.fn), q = byQ.get(e.queue);
    if (!fn || !q) continue;
    out.esms.push(new EventSource(q, fn, { batchSize: e.batchSize, maxBatchingWindowSec: e.windowSec, reportBatchItemFailures: e.report, maxConcurrency: e.maxConcurrency ?? 5, enabled: e.enabled }));
  }
  out.queue = (re) => { const m = wiring.queues.filter((q) => re.test(q.name)); if (m.length !== 1) throw new Error(`deploy: ${m.length} queues match ${re}`); return byQ.get(m[0].id); };
  return out;
}
