// Managed upload: one request per Upload.done(), body consumed from strings, buffers and streams.
export class Upload {
  constructor({ client, params, ...rest }) { this.client = client; this.params = params; this.rest = rest; this.listeners = []; }
  on() { return this; }
  async done() { return __SIM__.svc.aws.call(__SIM__, "s3", "PutObject", this.params, { multipart: true }); }
  async abort() {}
}
