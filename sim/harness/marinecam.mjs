// Shared by K01: a camera server speaking the session protocol, with a check of the protocol itself.
import { check } from "../check.mjs";
import { parseDoc } from "../stubs/xml.mjs";

const find = (n, name) => n.children?.find((c) => c.name === name);
const text = (n) => (n?.children ?? []).map((c) => c.text ?? "").join("");

export class CameraServer {
  constructor(world, http, o) {
    this.world = world;
    this.o = o; // {url, username, password, mode(cam) -> string}
    this.conns = new Map();
    this.streams = new Map();
    this.frames = []; // {cam, t, bytes, conn}
    this.n = 0;
    this.maxOpen = 0;
    this.foreign = 0;
    http.route("communication", (r) => r.url === `${o.url}/Communication`, (r) => this.command(r));
    http.route("video", (r) => r.url.startsWith(`${o.url}/Video/`), (r) => this.video(r));
  }
  answer(name, params = [], extra = "") {
    return { status: 200, body: `<?xml version="1.0" encoding="utf-8"?><Communication><Command SequenceId="1"><Type>Response</Type><Name>${name}</Name><Result>OK</Result><OutputParams>${params.map(([k, v]) => `<Param Name="${k}" Value="${v}"/>`).join("")}</OutputParams>${extra}<Items/></Command></Communication>` };
  }
  error(name, code) {
    return { status: 200, body: `<Communication><Command SequenceId="1"><Name>${name}</Name><Result>Error</Result><ErrorCode>${code}</ErrorCode><OutputParams/></Command></Communication>` };
  }
  open(conn) { return [...this.streams.values()].filter((s) => s.open && (!conn || s.conn === conn)); }
  command(r) {
    check(r.method === "POST", `command by ${r.method}`, "protocol");
    check(r.headers.host === this.o.hostname, `command for host ${r.headers.host}`, "host");
    check(r.tls?.cert === "CERT" && r.tls?.ca === "CA", "request without the certificate", "certificate");
    const doc = parseDoc(String(r.body).trim());
    const cmd = find(doc, "Command"), name = text(find(cmd, "Name")), connId = text(find(doc, "ConnectionId"));
    const p = Object.fromEntries((find(cmd, "InputParams")?.children ?? []).filter((c) => c.name === "Param").map((c) => [c.attrs.Name, c.attrs.Value]));
    const seq = cmd.attrs.SequenceId;
    if (name === "Connect") {
      const id = `conn-${++this.n}`;
      this.conns.set(id, { id, seqs: new Map(), t: this.world.now });
      return this.answer(name, [["ConnectionId", id]]);
    }
    const c = this.conns.get(connId);
    if (!c || c.closed) return this.error(name, "no connection");
    // a repeated request is the same command; otherwise numbers differ
    const was = c.seqs.get(seq);
    check(was === undefined || was === String(r.body), `two different commands with the number ${seq}`, "sequence");
    c.seqs.set(seq, String(r.body));
    if (name === "Login") {
      if (p.Username !== this.o.username || p.Password !== this.o.password) { this.refused = true; return this.error(name, "wrong password"); }
      if (this.o.loginFails?.()) return this.error(name, "no logins today");
      c.login = true;
      return this.answer(name);
    }
    if (name === "Disconnect") { c.closed = true; for (const s of this.open(c)) s.open = false; return this.o.disconnectFails?.() ? this.error(name, "odd state") : this.answer(name); }
    if (!c.login) return this.error(name, "not logged in");
    if (name === "RequestStream") {
      const mode = this.o.mode(p.CameraId);
      if (mode === undefined) { this.foreign++; return this.error(name, "no such camera"); }
      if (mode === "error") return this.error(name, "camera is off");
      const id = `vid-${++this.n}`;
      this.streams.set(id, { id, cam: p.CameraId, conn: c, open: true });
      this.maxOpen = Math.max(this.maxOpen, this.open(c).length);
      return this.answer(name, [["Width", "1280"], ["VideoId", id]]);
    }
    const s = this.streams.get(p.VideoId);
    if (!s || !s.open) return this.error(name, "no such stream");
    if (name === "ChangeStream") {
      if (this.o.mode(s.cam) === "noseek") return this.error(name, "cannot seek");
      s.time = Number(p.Time);
      return this.answer(name);
    }
    if (name === "CloseStream") { s.open = false; return this.answer(name); }
    return this.error(name, "unknown command");
  }
  video(r) {
    const s = this.streams.get(r.url.split("/").pop());
    const mode = s && this.o.mode(s.cam);
    if (!s || !s.open || mode === "notfound") return { status: 404, body: `<html><body><h1>404 Not found</h1>${"<p>this stream is not here</p>".repeat(2000)}</body></html>` };
    if (mode === "short") return { status: 200, body: Buffer.from("oops") };
    const now = this.world.now;
    const jpeg = mode === "empty" ? Buffer.alloc(0) : Buffer.from(`JPEG\u0000\u00ff of ${s.cam} at ${now} seen ${s.time}`, "latin1");
    const headerSize = mode === "ext" ? 60 : 36;
    const h = Buffer.alloc(headerSize);
    h.write(s.id.slice(0, 16), 0, "latin1");
    h.writeBigUInt64LE(BigInt(s.time ?? 0), 16);
    h.writeUInt32LE(1, 24);
    h.writeUInt32LE(jpeg.length, 28);
    h.writeUInt16LE(headerSize, 32);
    if (jpeg.length) this.frames.push({ cam: s.cam, t: now, seen: s.time, bytes: jpeg.toString("latin1"), conn: s.conn });
    return { status: 200, body: Buffer.concat([h, jpeg]) };
  }
}

/** The user pool: logins check name and password, a user whose password was given by an administrator must set a new one. */
export class UserPool {
  constructor(world, d) {
    this.world = world;
    this.d = d;
    this.users = new Map(); // name -> {password, groups, enabled, change}
    this.logins = [];
  }
  rpc(inst, label, fn) {
    const err = (m) => Object.assign(new Error(m), { code: "NetworkError" });
    return inst.rpc({ kind: "cognito", label: `cognito.${label}`, lo: 20, hi: 400, slowMs: 15000, before: () => err("Network error"), lost: () => err("Network error"), exec: async () => { try { return fn(); } catch (e) { this.world.fail(e); throw e; } } }).catch((e) => ({ error: e.message, code: "NetworkError" }));
  }
  session(name, u) { return { payload: { sub: name, username: name, token_use: "access", exp: Math.floor(this.world.now / 1000) + 3600, ...(u.groups.length && { "cognito:groups": [...u.groups] }) } }; }
  login(inst, pool, name, password) {
    return this.rpc(inst, "login", () => {
      check(pool.UserPoolId === this.d.pool && pool.ClientId === this.d.client, `login to the pool ${JSON.stringify(pool)}`, "pool");
      this.logins.push({ t: this.world.now, name });
      const u = this.users.get(name);
      if (!u || u.password !== password) return { error: "Incorrect username or password.", code: "NotAuthorizedException" };
      if (!u.enabled) return { error: "User is disabled.", code: "NotAuthorizedException" };
      if (u.change) { u.session = `s${this.logins.length}`; return { challenge: u.session, attributes: {} }; }
      return this.session(name, u);
    });
  }
  newPassword(inst, pool, name, challenge, password) {
    return this.rpc(inst, "challenge", () => {
      const u = this.users.get(name);
      if (!u?.enabled || !u.change || u.session !== challenge) return { error: "Invalid session for the user.", code: "NotAuthorizedException" };
      if (password.length < 8) return { error: "Password does not conform to policy", code: "InvalidPasswordException" };
      u.change = false;
      u.session = undefined;
      u.password = password;
      return this.session(name, u);
    });
  }
}
