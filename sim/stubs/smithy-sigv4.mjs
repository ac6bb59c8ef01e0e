// Signing puts the credentials it was given into the authorization header, where the simulated service checks them.
export class SignatureV4 {
  constructor(o) { this.o = o; }
  async sign(request) {
    const c = typeof this.o.credentials === "function" ? await this.o.credentials() : this.o.credentials;
    const body = request.body;
    return Object.assign(Object.create(Object.getPrototypeOf(request)), request, { headers: { ...request.headers, authorization: `AWS4-HMAC-SHA256 Credential=${c.accessKeyId}/${this.o.region}/${this.o.service}/aws4_request, Signature=${c.secretAccessKey}:${String(body ?? "").length}`, "x-amz-security-token": c.sessionToken } });
  }
}
