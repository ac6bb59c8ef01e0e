export class HttpRequest {
  constructor(o) {
    this.method = o.method || "GET";
    this.hostname = o.hostname || "localhost";
    this.port = o.port;
    this.query = o.query || {};
    this.headers = o.headers || {};
    this.body = o.body;
    this.protocol = o.protocol ? (o.protocol.endsWith(":") ? o.protocol : `${o.protocol}:`) : "https:";
    this.path = o.path ? (o.path.startsWith("/") ? o.path : `/${o.path}`) : "/";
  }
}
export class HttpResponse {
  constructor(o) { Object.assign(this, { headers: {}, ...o }); }
}
