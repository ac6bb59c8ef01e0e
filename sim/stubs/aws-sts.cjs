const generic = require("./aws-generic.cjs");
const base = generic("sts", {});
// the aggregated client also takes a callback
class STS extends base.STS {
  assumeRole(input, cb) {
    const p = super.assumeRole(input);
    if (typeof cb !== "function") return p;
    p.then((d) => cb(null, d), (e) => cb(e));
  }
}
module.exports = generic("sts", { STS });
