// Deterministic discrete-event world: virtual clock, seeded decisions, fault plan, event-log digest.
// Every decision is hash(seed, site, n) with a per-site counter n, so removing one op or fault during
// minimisation leaves the decisions of unrelated sites unchanged.

export function hash32(...parts) {
  let h = 0x811c9dc5 >>> 0;
  for (const p of parts) {
    const s = typeof p === "string" ? p : String(p);
    for (let i = 0; i < s.length; i++) {
      h ^= s.charCodeAt(i);
      h = Math.imul(h, 0x01000193) >>> 0;
    }
    h ^= 0xff;
    h = Math.imul(h, 0x01000193) >>> 0;
  }
  // murmur3 finaliser
  h ^= h >>> 16;
  h = Math.imul(h, 0x85ebca6b) >>> 0;
  h ^= h >>> 13;
  h = Math.imul(h, 0xc2b2ae35) >>> 0;
  h ^= h >>> 16;
  return h >>> 0;
}

/** Small stand-alone generator used for generating scenarios (ops), not for decisions during a run. */
export class Rng {
  constructor(seed) {
    this.s = hash32("rng", seed) || 1;
  }
  u32() {
    // mulberry32
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  float() {
    return this.u32() / 4294967296;
  }
  int(lo, hi) {
    return lo + (this.u32() % (hi - lo + 1));
  }
  bool(p = 0.5) {
    return this.float() < p;
  }
  pick(arr) {
    return arr[this.u32() % arr.length];
  }
  shuffle(arr) {
    const a = [...arr];
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.u32() % (i + 1);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  sample(arr, n) {
    return this.shuffle(arr).slice(0, n);
  }
}

class Heap {
  constructor() {
    this.a = [];
  }
  less(x, y) {
    return x.t < y.t || (x.t === y.t && x.seq < y.seq);
  }
  push(e) {
    const a = this.a;
    a.push(e);
    let i = a.length - 1;
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (!this.less(a[i], a[p])) break;
      [a[i], a[p]] = [a[p], a[i]];
      i = p;
    }
  }
  pop() {
    const a = this.a;
    const top = a[0];
    const last = a.pop();
    if (a.length) {
      a[0] = last;
      let i = 0;
      for (;;) {
        const l = 2 * i + 1;
        const r = l + 1;
        let m = i;
        if (l < a.length && this.less(a[l], a[m])) m = l;
        if (r < a.length && this.less(a[r], a[m])) m = r;
        if (m === i) break;
        [a[i], a[m]] = [a[m], a[i]];
        i = m;
      }
    }
    return top;
  }
  get size() {
    return this.a.length;
  }
}

export class Unsupported extends Error {
  constructor(msg) {
    super(`UNSUPPORTED: ${msg}`);
    this.name = "Unsupported";
  }
}

export const DEFAULT_START = Date.UTC(2025, 2, 3, 8, 0, 0); // Mon 2025-03-03T08:00:00Z

const realSetImmediate = setImmediate;
export function drain() {
  return new Promise((r) => realSetImmediate(() => realSetImmediate(r)));
}

/** Names of fields, headers and variables whose values are credentials. */
const SECRET_NAME = /pass(word)?$|_pass|secret$|token$|api_?key$|apikey|api-key|subscription-key|auth$|authHeaderValue|^authorization$|privatekey|pat$|hook|reportUrl$/i;

export class World {
  /**
   * @param o.seed
   * @param o.faults  {kind: probability} for seeded mode
   * @param o.replay  array of {site,n,kind} → exactly those faults fire (replay mode), or undefined
   * @param o.flatDelays use minimum delays everywhere (minimiser simplification)
   */
  constructor(o) {
    this.secretValues = new Map();
    this.logLines = [];
    this.watchLogs = o.watchLogs ?? false;
    this.seed = o.seed;
    this.now = o.start ?? DEFAULT_START;
    this.start = this.now;
    this.faultProb = o.faults ?? {};
    this.replay = o.replay ? new Set(o.replay.map((f) => `${f.kind}@${f.site}#${f.n}`)) : undefined;
    this.flatDelays = o.flatDelays ?? false;
    this.keepLog = o.keepLog ?? false;
    this.counters = new Map();
    this.heap = new Heap();
    this.seq = 0;
    this.digest = 0x811c9dc5 >>> 0;
    this.events = 0;
    this.firedFaults = []; // {site,n,kind}
    this.faultCounts = {}; // kind → fired
    this.faultOffered = {}; // kind → times it could have fired
    this.log = [];
    this.history = []; // domain events recorded for the oracles
    this.probes = {};
    this.faultsEnabled = true;
    this.fatal = undefined;
    this.interleave = new Set(); // distinct (prev actor -> actor, label class) edges
    this.lastActor = "";
    this.orderHash = 0;
    this.currentInst = undefined;
    this.maxEvents = o.maxEvents ?? 200000;
    this.stalled = false;
  }
  n(site) {
    const c = this.counters.get(site) ?? 0;
    this.counters.set(site, c + 1);
    return c;
  }
  u32(site) {
    return hash32(this.seed, site, this.n(site));
  }
  rand(site) {
    return this.u32(site) / 4294967296;
  }
  int(site, lo, hi) {
    return lo + (this.u32(site) % (hi - lo + 1));
  }
  pick(site, arr) {
    return arr[this.u32(site) % arr.length];
  }
  /** Should a fault of this kind fire here? */
  fault(site, kind, scale = 1) {
    const n = this.n(`F:${kind}@${site}`);
    if (!this.faultsEnabled) return false;
    this.faultOffered[kind] = (this.faultOffered[kind] ?? 0) + 1;
    let fire;
    if (this.replay) {
      fire = this.replay.has(`${kind}@${site}#${n}`);
    } else {
      const p = (this.faultProb[kind] ?? 0) * scale;
      fire = p > 0 && hash32(this.seed, "fault", kind, site, n) / 4294967296 < p;
    }
    if (fire) {
      this.firedFaults.push({ site, n, kind });
      this.faultCounts[kind] = (this.faultCounts[kind] ?? 0) + 1;
      this.trace("fault", `${kind}@${site}#${n}`);
    }
    return fire;
  }
  /** Skewed delay: mostly short, sometimes long. Fractional so that I/O events never tie with timers. */
  delay(site, lo, hi) {
    if (this.flatDelays) return lo + 0.001 * (this.u32(`D:${site}`) % 997) + 0.0001;
    const r = this.rand(`D:${site}`);
    const skew = r * r * r;
    return lo + (hi - lo) * skew + 0.0001;
  }
  at(t, label, fn) {
    const e = { t: Math.max(t, this.now), seq: this.seq++, label, fn, cancelled: false };
    this.heap.push(e);
    return e;
  }
  after(ms, label, fn) {
    return this.at(this.now + ms, label, fn);
  }
  trace(kind, text) {
    const s = `${this.now.toFixed(4)} ${kind} ${text}`;
    let h = this.digest;
    for (let i = 0; i < s.length; i++) {
      h ^= s.charCodeAt(i);
      h = Math.imul(h, 0x01000193) >>> 0;
    }
    this.digest = h;
    if (this.keepLog) this.log.push(s);
  }
  /** Record a domain event for history checks (also feeds the digest). */
  record(type, data) {
    this.history.push({ t: this.now, type, ...data });
    let txt;
    try {
      txt = JSON.stringify(data);
    } catch {
      txt = "?";
    }
    this.trace("rec", `${type} ${txt}`);
    this.orderHash = hash32(this.orderHash, type);
  }
  /** A failure scripted by the scenario itself (counted with the injected faults in the evidence). */
  scripted(kind) {
    this.faultCounts[kind] = (this.faultCounts[kind] ?? 0) + 1;
  }
  probe(name) {
    this.probes[name] = (this.probes[name] ?? 0) + 1;
  }
  actorStep(actor) {
    if (actor !== this.lastActor) {
      this.orderHash = hash32(this.orderHash, actor);
      this.lastActor = actor;
    }
  }
  /** Values nobody may find in a log (L06), and what the code logged; kept only when a check watches for them. */
  secret(key, v) {
    if (!this.watchLogs || typeof v !== "string" || v.length < 6 || !SECRET_NAME.test(key)) return;
    if (!this.secretValues.has(v)) this.secretValues.set(v, key);
  }
  logged(by, line) {
    if (this.watchLogs) this.logLines.push([by, String(line)]);
  }
  fail(err) {
    if (!this.fatal) this.fatal = err;
  }
  /** Runs until the queue is empty, `until()` holds or the virtual deadline passes. */
  async run({ until, deadline } = {}) {
    await drain();
    while (this.heap.size) {
      if (this.fatal) throw this.fatal;
      if (until?.()) return "until";
      const top = this.heap.a[0];
      if (deadline !== undefined && top.t > deadline) {
        this.now = deadline;
        return "deadline";
      }
      const e = this.heap.pop();
      if (e.cancelled) continue;
      this.now = e.t;
      this.events++;
      if (this.events > this.maxEvents) {
        this.stalled = true;
        throw Object.assign(new Error(`event limit ${this.maxEvents} reached`), { eventLimit: true });
      }
      this.trace("ev", e.label);
      this.orderHash = hash32(this.orderHash, e.label);
      this.currentInst = undefined;
      e.fn();
      await drain();
    }
    if (this.fatal) throw this.fatal;
    return until?.() ? "until" : "idle";
  }
  /** Awaitable virtual sleep for harness drivers. */
  sleep(ms, label = "driver-sleep") {
    return new Promise((r) => this.after(ms, label, r));
  }
}
