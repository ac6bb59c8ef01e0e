// Thin AWS SDK v3 client package: every command becomes a request to the World's simulated service.
const sim = __SIM__;
module.exports = (svc, extra = {}) => {
  const call = (cmd, input, region) => sim.svc.aws.call(sim, svc, cmd, input ?? {}, { region });
  class Client {
    constructor(config) {
      this.config = { region: async () => config?.region ?? "eu-west-1", ...(config ?? {}) };
      this.simRegion = typeof config?.region === "string" ? config.region : sim.env?.AWS_REGION;
      this.middlewareStack = { add() {}, use() {}, remove() {}, clone() { return this; } };
    }
    async send(c) { return call(c.constructor.cmdName, c.input, this.simRegion); }
    destroy() {}
  }
  Object.setPrototypeOf(Client.prototype, new Proxy({}, {
    get: (_t, k, self) => (typeof k === "string" && /^[a-z]\w*$/.test(k) && !["then", "toJSON", "constructor", "simRegion"].includes(k) ? (input) => call(k[0].toUpperCase() + k.slice(1), input, self.simRegion) : undefined),
  }));
  const cache = { ...extra };
  const make = (k) => {
    if (typeof k !== "string") return undefined;
    if (k in cache) return cache[k];
    if (k === "__esModule") return true;
    if (k === "default") return self;
    if (/^waitUntil|^paginate/.test(k)) return undefined;
    if (k.endsWith("Command")) {
      const C = class { constructor(input) { this.input = input ?? {}; } };
      C.cmdName = k.slice(0, -7);
      Object.defineProperty(C, "name", { value: k });
      return (cache[k] = C);
    }
    if (/Exception$|^NoSuch|^NotFound$|Error$/.test(k)) {
      const E = class extends Error { static [Symbol.hasInstance](e) { return e instanceof Error && e.name === k; } };
      return (cache[k] = E);
    }
    return (cache[k] = class extends Client {});
  };
  const self = new Proxy({}, { get: (_t, k) => make(k), has: () => true, getPrototypeOf: () => self });
  return self;
};
