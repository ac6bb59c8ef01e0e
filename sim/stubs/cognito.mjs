// amazon-cognito-identity-js on top of the simulated user pool.
const sim = __SIM__;
export class AuthenticationDetails {
  constructor(d) { this.username = d.Username; this.password = d.Password; }
  getUsername() { return this.username; }
  getPassword() { return this.password; }
}
export class CognitoUserPool {
  constructor(d) {
    if (!d?.UserPoolId || !d?.ClientId) throw new Error("Both UserPoolId and ClientId are required.");
    this.d = d;
  }
  getUserPoolId() { return this.d.UserPoolId; }
  getClientId() { return this.d.ClientId; }
}
const b64 = (o) => Buffer.from(JSON.stringify(o)).toString("base64url");
class Token {
  constructor(payload, use) {
    this.payload = { ...payload, token_use: use };
    this.jwtToken = `${b64({ kid: "k", alg: "RS256" })}.${b64(this.payload)}.${use}-signature-of-${b64([payload.sub, payload.exp])}`;
    sim.world?.secret("token", this.jwtToken);
  }
  getJwtToken() { return this.jwtToken; }
  decodePayload() { return this.payload; }
  getExpiration() { return this.payload.exp; }
}
class RefreshToken {
  constructor(payload) { this.token = `refresh-token-of-${b64([payload.sub, payload.exp])}`; sim.world?.secret("token", this.token); }
  getToken() { return this.token; }
}
class CognitoUserSession {
  constructor(p) {
    this.idToken = new Token(p, "id");
    this.refreshToken = new RefreshToken(p);
    this.accessToken = new Token(p, "access");
    this.clockDrift = 0;
  }
  getAccessToken() { return this.accessToken; }
  getIdToken() { return this.idToken; }
  getRefreshToken() { return this.refreshToken; }
  getClockDrift() { return this.clockDrift; }
  isValid() { return true; }
}
export class CognitoUser {
  constructor(d) {
    if (!d?.Username || !d?.Pool) throw new Error("Username and Pool information are required.");
    this.username = d.Username;
    this.pool = d.Pool;
  }
  getUsername() { return this.username; }
  finish(r, cb) {
    if (r.error) return cb.onFailure(Object.assign(new Error(r.error), { code: r.code ?? r.error, name: r.code ?? r.error }));
    if (r.challenge) { this.challenge = r.challenge; return cb.newPasswordRequired(r.attributes, []); }
    return cb.onSuccess(new CognitoUserSession(r.payload));
  }
  authenticateUser(details, cb) {
    sim.svc.cognito.login(sim, this.pool.d, details.getUsername(), details.getPassword()).then((r) => this.finish(r, cb));
  }
  completeNewPasswordChallenge(pw, attrs, cb) {
    sim.svc.cognito.newPassword(sim, this.pool.d, this.username, this.challenge, pw).then((r) => this.finish(r, cb));
  }
  signOut() {}
}
