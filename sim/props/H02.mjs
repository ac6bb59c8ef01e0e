// H02: callers are limited as configured, each by its own requests, and nobody else is.
import { synth } from "../synth.mjs";
import { WebAcl } from "../edge.mjs";
import { check } from "../check.mjs";
import { Unsupported } from "../world.mjs";

const WINDOW = 300000;
/** What the rules of the glue below mean. ip/path: limits per caller and per caller and path; heavy: per caller on paths that match. */
const SITES = {
  full: { user: { ip: 120, path: 80 }, anon: { ip: 70, path: 50, heavy: { re: /^\/heavy\//, limit: 55 } } },
  plain: { user: { ip: 100 }, anon: { ip: 60 } },
  counted: { user: { ip: 90, path: 60 }, anon: { ip: 80 } },
  some: { user: { ip: 150, path: 50 }, anon: { ip: 50, path: 60 } },
  onlyCounted: { user: {}, anon: {} },
  lib: { user: {}, anon: { ip: 50 }, denied: (ip) => ip.startsWith("10.9.") || ip === "10.0.0.7", maxQuery: 20 },
  libAllowed: { user: {}, anon: {}, denied: (ip) => !ip.startsWith("10.0.0.") && ip !== "10.9.0.1" },
};
const GLUE = `
import { CloudfrontCdkStack } from "REPO/other/cloudfront/src/cloudfront-cdk-stack.ts";
import { WafRules } from "REPO/other/cloudfront/src/acl/waf-rules.ts";
import { Behavior } from "REPO/other/cloudfront/src/distribution/behavior.ts";
import { AclBuilder } from "@digitraffic/common/dist/aws/infra/acl-builder";
export function build(cdk, app) {
  const env = { account: "123456789012", region: "us-east-1" };
  const edge = new CloudfrontCdkStack(app, "Edge", { env }).withLogConfig("arn:aws:cloudfront::123456789012:realtime-log-config/x").withAclRule(WafRules.per5min(100, 60));
  const site = (name, ...rules) => edge.withDistribution(name, "arn:aws:acm:us-east-1:123456789012:certificate/1", (b) => { b.withAliasName(name.toLowerCase() + ".example").withBehaviors(Behavior.nginxPlain("*", "o.example")); if (rules.length) b.withAclRule(...rules); });
  site("full", WafRules.per5min(120, 70, 80, 50, { path: /^\\/heavy\\//, limit: 55 }));
  site("plain");
  site("counted", WafRules.per5minCount(50, 51, 52, 53), WafRules.per5min(90, 80, 60));
  site("some", WafRules.per5minWithSelectedCommon(["SQLiRuleSet"], 150, 50, 50, 60));
  site("onlyCounted", WafRules.per5minCount(50, 60));
  const s = new cdk.Stack(app, "Lib", { env });
  new AclBuilder(s, "lib").withAWSManagedRules("all").withIpBlacklistRule(["10.9.0.0/16", "10.0.0.7/32"]).withQueryStringSizeRestriction(20).withThrottleAnonymousUserIp(50).build();
  const t = new cdk.Stack(app, "Lib2", { env });
  new AclBuilder(t, "libAllowed").withIpWhitelistRule(["10.0.0.0/24", "10.9.0.1/32"]).build();
  return edge;
}`;
const HEADERS = [undefined, undefined, "", "tester/1", "a"];
const PATHS = ["/api/a", "/API/A", "/api//a", "/api/b", "/heavy/x", "/heavy/y", "/light/heavy/x", "/"];

export default {
  id: "H02",
  quickSec: 10,
  thoroughSec: 90,
  real: ["web ACLs as synthesised by the edge stack and by the library's builder"],
  stubs: ["AWS WAF (statements, order of rules, rate windows)"],
  assumptions: ["rates are counted exactly over a sliding window of five minutes", "managed rule groups let every request pass", "a size statement does not match a header that is missing"],
  mustReach: ["h02.limited", "h02.passed", "h02.again", "h02.empty-header", "h02.denied", "h02.path", "h02.heavy", "h02.query"],
  async setup() {
    const w = await synth({ app: "other/cloudfront", code: GLUE });
    const acls = {};
    for (const t of w.templates) for (const [id, r] of Object.entries(t.Resources ?? {})) {
      if (r.Type === "AWS::CloudFront::Distribution") acls[r.Properties.DistributionConfig.Aliases[0].replace(".example", "")] = { res: t.Resources, id: r.Properties.DistributionConfig.WebACLId?.["Fn::GetAtt"]?.[0] };
      if (r.Type === "AWS::WAFv2::WebACL" && /^lib/.test(id)) acls[id.replace(/[0-9A-F]*$/, "").toLowerCase()] = { res: t.Resources, id };
    }
    return { acls };
  },
  scenarios: [
    {
      name: "limits",
      gen(rng, tier) {
        const ops = [];
        const hosts = rng.sample(Object.keys(SITES), rng.int(1, 2));
        const ips = rng.sample(["10.0.0.1", "10.0.0.2", "10.0.0.7", "10.9.0.1", "10.9.3.4", "10.90.0.1", "11.0.0.1"], rng.int(1, 3));
        const paths = rng.sample(PATHS, rng.int(1, 3));
        for (let n = rng.int(1, tier === "thorough" ? 20 : 9); n > 0; n--) ops.push({ gap: rng.pick([0, 1, 30, 200, 290, 301, 600]), host: rng.pick(hosts), ip: rng.pick(ips), header: rng.int(0, HEADERS.length - 1), paths: rng.sample(paths, rng.pick([1, 1, 2])), n: rng.pick([1, 2, 49, 50, 51, 60, 75, 85, 130]), spread: rng.pick([0, 10, 150, 299, 320, 900]), query: rng.pick(["", "", "", "a=12345678901234567890", "a=123456789012345678", "ä=1234567890123456"]) });
        return { ops, cfg: {} };
      },
      faults: {},
      maxEvents: 60000,
      async run(world, plan, ctx) {
        const acl = {};
        for (const k of Object.keys(SITES)) {
          const a = ctx.acls[k.toLowerCase()];
          check(a?.id && a.res[a.id]?.Type === "AWS::WAFv2::WebACL", `the site ${k} has no web ACL`, "no-acl");
          acl[k] = new WebAcl(world, a.res, a.id, (m) => { throw new Unsupported(`web ACL: ${m}`); });
        }
        const past = []; // {t, host, ip, user, path, query, passed}
        const one = (op, i) => {
          const site = SITES[op.host], header = HEADERS[op.header], path = op.paths[i % op.paths.length];
          const r = { ip: op.ip, path, query: op.query, method: "GET", headers: { host: "x", ...(header !== undefined && { "digitraffic-user": header }) } };
          const v = acl[op.host].judge(r);
          const me = { t: world.now, host: op.host, ip: op.ip, user: !!header, norm: path.toLowerCase().replace(/\/+/g, "/"), path, passed: v.allow };
          past.push(me);
          const near = past.filter((x) => x.t > world.now - WINDOW && x.host === me.host && x.ip === me.ip && x.user === me.user);
          const lim = me.user ? site.user : site.anon;
          const what = `request ${near.length} of ${op.ip} ${me.user ? "with" : header === "" ? "with an empty" : "without"} header to ${op.host}${path}`;
          if (header === "") world.probe("h02.empty-header");
          const over = [];
          const at = (list, limit, name) => {
            if (limit === undefined) return;
            if (list.length > limit) { over.push(limit); world.probe(name); }
            check(!v.allow || list.filter((x) => x.passed).length <= limit, `${what} passes, as the ${list.filter((x) => x.passed).length}th in five minutes with a limit of ${limit}`, "not-limited");
          };
          at(near, lim.ip, "h02.limited");
          at(near.filter((x) => x.norm === me.norm), lim.path, "h02.path");
          if (lim.heavy?.re.test(path)) at(near.filter((x) => lim.heavy.re.test(x.path)), lim.heavy.limit, "h02.heavy");
          if (site.denied?.(op.ip)) { check(!v.allow && v.status === 403, `${what}: the address is not allowed, answer ${v.status}`, "denied"); world.probe("h02.denied"); return; }
          if (site.maxQuery && Buffer.byteLength(op.query) > site.maxQuery) { check(!v.allow, `${what}: a query of ${op.query.length} passes`, "query"); world.probe("h02.query"); return; }
          if (v.allow) { world.probe("h02.passed"); if (past.some((x) => !x.passed && x.ip === me.ip && x.t < me.t - WINDOW)) world.probe("h02.again"); return; }
          check(over.length, `${what} is refused (${v.status}) within every limit`, "refused");
          check(v.status === 429 && over.some((l) => new RegExp(`\\b${l}\\b`).test(v.body)), `${what} is answered ${v.status} ${JSON.stringify(v.body)}, over ${over}`, "answer");
        };
        let fin = false;
        (async () => {
          const all = [];
          for (const op of plan.ops) {
            await world.sleep((op.gap ?? 0) * 1000 + 1);
            all.push((async () => { for (let i = 0; i < op.n; i++) { one(op, i); if (op.spread) await world.sleep((op.spread * 1000) / op.n); } })().catch((e) => world.fail(e)));
          }
          await Promise.all(all);
          fin = true;
        })().catch((e) => world.fail(e));
        await world.run({ until: () => fin, deadline: world.now + 12 * 3600000 });
        check(fin, "unfinished", "unfinished");
      },
    },
  ],
};
