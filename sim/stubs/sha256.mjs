export class Sha256 { constructor(secret) { this.secret = secret; } update() {} async digest() { return new Uint8Array(32); } }
