// The services around other/status: NodePing, the cState status page, GitHub actions and Slack.
import { check } from "../check.mjs";

export const SECRET = { nodePingToken: "nodeping-tok", nodePingSubAccountId: "sub1", gitHubPat: "github-pat-5", reportUrl: "https://slack.example/hook", nodePingContactIdSlack1: "SLACK1", nodePingContactIdSlack2: "SLACK2" };
const NP = "https://api.nodeping.com/api/1";
export const PROPS = { defaultLambdaDurationSeconds: 60, nodePingTimeoutSeconds: 10, nodePingCheckInterval: 5, cStatePageUrl: "https://status.example", gitHubRepo: "cstate", gitHubOwner: "tmfg", gitHubBranch: "prod", gitHubWorkflowFile: "update.yml", gitHubUpdateMaintenanceWorkflowFile: "maintenance.yml" };

export class StatusServices {
  constructor(world, http, aws) {
    this.world = world;
    this.aws = aws;
    this.token = 0;
    this.rotated = []; // [when token n was replaced]
    this.checks = new Map(); // id → check
    this.contacts = new Map();
    this.seq = 0;
    this.refuse = new Set(); // ids of checks that cannot be changed one by one
    this.dispatches = [];
    this.slack = [];
    this.changes = []; // every executed change of NodePing
    this.issues = [];
    this.systems = [];
    this.setSecret();
    const json = (status, body) => ({ status, body: JSON.stringify(body), headers: { "content-type": "application/json" } });
    http.route("nodeping", (r) => r.url.startsWith(NP), (r, inst) => {
      const body = r.body ? JSON.parse(r.body) : {};
      const [sub, tok] = r.method === "GET" ? [r.query.get("customerid"), Buffer.from((r.headers.authorization ?? "").replace(/^Basic /, ""), "base64").toString()] : [body.customerid, body.token];
      if (sub !== "sub1" || !this.tokenOk(tok)) return json(403, { error: "not authorized" });
      const { token: _t, customerid: _c, ...data } = body;
      const path = r.path.slice("/api/1".length);
      const change = (kind, o) => { const c = { t: world.now, kind, inst, ...o }; this.changes.push(c); this.onChange?.(c); };
      if (path === "/contacts") {
        if (r.method === "GET") return json(200, Object.fromEntries(this.contacts));
        check(r.method === "POST", `${r.method} of contacts`, "api");
        const id = `sub1-C${++this.seq}`;
        this.contacts.set(id, { _id: id, name: data.name, custrole: data.custrole, addresses: Object.fromEntries(data.newaddresses.map((a, i) => [`A${this.seq}${i}`, a])) });
        change("contact", { data });
        return json(200, this.contacts.get(id));
      }
      if (path === "/checks" && r.method === "GET") return json(200, Object.fromEntries([...this.checks].map(([k, v]) => [k, structuredClone(v)])));
      if (path === "/checks" && r.method === "POST") {
        const id = `sub1-N${++this.seq}`;
        this.checks.set(id, this.make(id, data));
        change("create", { id, data });
        return json(200, this.checks.get(id));
      }
      if (path === "/checks" && r.method === "PUT" && r.query.has("disableall")) {
        const off = r.query.get("disableall") === "true";
        let count = 0;
        for (const c of this.checks.values()) {
          if (off && c.enable === "active") { c.enable = "disabled"; count++; }
          if (!off && c.enable === "disabled") { c.enable = "active"; count++; }
        }
        change(off ? "disableall" : "enableall", { count });
        const all = [...this.checks.values()], on = all.filter((c) => c.enable === "active").length;
        return json(200, { enabled: on, disabled: all.length - on, disableall: all.filter((c) => c.enable === "disabled").length });
      }
      if (r.method === "PUT") {
        const id = path === "/checks" ? data.id : path.slice("/checks/".length);
        const c = this.checks.get(id);
        if (!c) return json(404, { error: "no such check" });
        if (this.refuse.has(id)) return this.ignoreRefused ? json(200, c) : json(400, { error: "check cannot be changed" });
        const { id: _id, enabled, ...rest } = data;
        if (enabled !== undefined) c.enable = enabled ? "active" : "inactive";
        if (Object.keys(rest).length) this.checks.set(id, { ...c, ...this.make(id, { ...c, ...c.parameters, ...rest }), enable: c.enable, label: rest.label ?? c.label, state: c.state });
        change(enabled === undefined ? "update" : "enable", { id, data });
        return json(200, this.checks.get(id));
      }
      throw new Error(`NodePing has no ${r.method} ${r.url}`);
    });
    http.route("page", (r) => r.url === `${PROPS.cStatePageUrl}/index.json`, () => json(200, { is: "index", baseURL: PROPS.cStatePageUrl, pinnedIssues: structuredClone(this.issues), systems: structuredClone(this.systems) }));
    http.route("github", (r) => r.url.startsWith("https://api.github.com/"), (r, inst) => {
      if (r.headers.authorization !== "token github-pat-5") return json(401, { message: "bad credentials" });
      this.dispatches.push({ t: world.now, url: r.url, body: JSON.parse(r.body), inst });
      this.onDispatch?.(this.dispatches.at(-1));
      return { status: 204, body: "" };
    });
    http.route("slack", (r) => r.url === SECRET.reportUrl, (r, inst) => { this.slack.push({ t: world.now, text: JSON.parse(r.body).text, inst }); this.onSlack?.(this.slack.at(-1)); return { status: 200, body: "ok" }; });
  }
  add(label, d = {}) {
    const id = `sub1-N${++this.seq}`;
    this.checks.set(id, this.make(id, { label, type: "HTTPADV", interval: 5, threshold: 10, method: "HEAD", target: `https://x.example/${label}`, sendheaders: {}, ...d }));
    return this.checks.get(id);
  }
  make(id, d) {
    return { _id: id, label: d.label, type: d.type, enable: d.enabled === false ? "inactive" : "active", state: 1, interval: d.interval, notifications: d.notifications ?? [], parameters: { target: d.target, method: d.method, threshold: d.threshold, sendheaders: d.sendheaders, follow: d.follow, postdata: d.postdata, contentstring: d.contentstring, invert: d.invert, regex: d.regex } };
  }
  tokenName(n) { return n ? `nodeping-tok${n}` : "nodeping-tok"; }
  tokenOk(t) { return t === this.tokenName(this.token) || this.rotated.some((at, n) => t === this.tokenName(n) && this.world.now - at < 6 * 60000); }
  setSecret() { this.aws.secrets.set("sec", JSON.stringify({ ...SECRET, nodePingToken: this.tokenName(this.token) })); }
  rotate() { this.rotated[this.token] = this.world.now; this.token++; this.setSecret(); }
}

/** Time as the status page writes it. */
export const cstateTime = (t) => { const s = new Date(Math.floor(t)).toISOString(); return `${s.slice(0, 10)} ${s.slice(11, 23)}186 +0000 UTC`; };
