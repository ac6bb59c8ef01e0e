export class Violation extends Error {
  constructor(msg, fingerprint) {
    super(msg);
    this.fingerprint = fingerprint ?? msg;
    this.violation = true;
  }
}
export function check(cond, msg, fingerprint) {
  if (!cond) throw new Violation(typeof msg === "function" ? msg() : msg, typeof fingerprint === "function" ? fingerprint() : fingerprint);
}
