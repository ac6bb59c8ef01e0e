// Wiring (queues, triggers, timeouts) of the applications, read from their real CDK code.
import { synth } from "./synth.mjs";

const CFG = (extra) => `({
  shortName: "T", secretId: "sec", alarmTopicArn: "arn:aws:sns:eu-west-1:123456789012:alarm", warningTopicArn: "arn:aws:sns:eu-west-1:123456789012:warn",
  vpcId: "vpc-1", lambdaDbSgId: "sg-1", privateSubnetIds: ["s-1","s-2"], availabilityZones: ["eu-west-1a","eu-west-1b"], trafficType: "Marine", production: false,
  stackProps: { env: { account: "123456789012", region: "eu-west-1" } }, ${extra ?? ""} })`;

export const WIRINGS = {
  lib: () => synth({ code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { DigitrafficSqsQueue } from "@digitraffic/common/dist/aws/infra/sqs-queue";
    import { Duration } from "aws-cdk-lib";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "TestStack", ${CFG()}); DigitrafficSqsQueue.create(s, "Thing", { visibilityTimeout: Duration.seconds(20) }); return s; }` }),
  portactivity: () => synth({ app: "marine/portactivity", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as Sqs from "REPO/marine/portactivity/src/sqs.ts";
    import * as InternalLambdas from "REPO/marine/portactivity/src/internal-lambdas-stack.ts";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    export function build(cdk, app) {
      const s = new DigitrafficStack(app, "PortActivity", ${CFG("awakeATx: {}, enableETBForAllPorts: true")});
      s.portActivityConfig = s.configuration;
      const q = Sqs.createQueue(s);
      const b = new Bucket(s, "DLQBucket", { bucketName: "dlq-bucket" });
      InternalLambdas.create(s, q, b);
      return s; }` }),
  maintenance: () => synth({ app: "road/maintenance-tracking", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as Sqs from "REPO/road/maintenance-tracking/src/sqs.ts";
    import * as InternalLambdas from "REPO/road/maintenance-tracking/src/internal-lambdas.ts";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    export function build(cdk, app) {
      const c = ${CFG('sqsDlqBucketName: "dlq-bucket", sqsMessageBucketName: "msg-bucket", trafficType: "Road"')};
      const s = new DigitrafficStack(app, "MaintenanceTracking", c);
      const q = Sqs.createQueue(s);
      const b = new Bucket(s, "DLQBucket", { bucketName: "dlq-bucket" });
      InternalLambdas.createProcessQueueAndDlqLambda(q, b, "arn:aws:s3:::msg-bucket", c, s);
      InternalLambdas.createCleanMaintenanceTrackingDataLambda(s);
      return s; }` }),
  rami: () => synth({ app: "rail/rami", code: `
    import { RamiStack } from "REPO/rail/rami/src/rami-stack.ts";
    export function build(cdk, app) { return new RamiStack(app, "Rami", ${CFG('dlqBucketName: "dlq-bucket", trafficType: "Rail"')}); }` }),
  dataUpload: () => synth({ app: "road/data-upload", code: `
    import { DataUploadStack } from "REPO/road/data-upload/src/data-upload-stack.ts";
    export function build(cdk, app) { return new DataUploadStack(app, "DataUpload", ${CFG('rttiTopicArn: "arn:aws:sns:eu-west-1:123456789012:rtti.fifo", sendMqtt: true, trafficType: "Road"')}); }` }),
  winter: () => synth({ app: "marine/winter-navigation", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as InternalLambdas from "REPO/marine/winter-navigation/src/internal-lambdas.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "WinterNavigation", ${CFG()}); InternalLambdas.create(s); return s; }` }),
  portCall: () => synth({ app: "marine/port-call", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { InternalLambdas } from "REPO/marine/port-call/src/internal-lambdas.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "PortCall", ${CFG()}); new InternalLambdas(s, true); return s; }` }),
  portCallPublic: () => synth({ app: "marine/port-call", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PublicApi } from "REPO/marine/port-call/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "PortCall", ${CFG()}); new PublicApi(s); return s; }` }),
  sse: () => synth({ app: "marine/sea-state-estimate", code: `
    import { SseStack } from "REPO/marine/sea-state-estimate/src/sse-stack.ts";
    export function build(cdk, app) { return new SseStack(app, "SSE", ${CFG()}); }` }),
  aton: () => synth({ app: "marine/aton-faults", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as InternalLambdas from "REPO/marine/aton-faults/src/internal-lambdas.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "ATON", ${CFG('integrations: [{ domain: "C_NA", url: "https://aton.example/c" }, { domain: "NC_NA", url: "https://aton.example/nc" }]')}); InternalLambdas.create(s); return s; }` }),
  shiplight: () => synth({ app: "marine/shiplight", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as InternalLambdas from "REPO/marine/shiplight/src/internal-lambdas.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Shiplight", ${CFG()}); InternalLambdas.create(s); return s; }` }),
  variableSigns: () => synth({ app: "road/variable-signs", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { IntegrationApi } from "REPO/road/variable-signs/src/integration-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "VariableSigns", ${CFG('trafficType: "Road", enableDatexII35: true, enableDatexII37: true')}); new IntegrationApi(s); return s; }` }),
  marinecam: () => synth({ app: "marine/marinecam", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as InternalLambdas from "REPO/marine/marinecam/src/internal-lambdas.ts";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Marinecam", ${CFG()}); InternalLambdas.create(s, new Bucket(s, "Images", { bucketName: "cam-bucket" })); return s; }` }),
  marinecamApi: () => synth({ app: "marine/marinecam", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PrivateApi } from "REPO/marine/marinecam/src/private-api.ts";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Marinecam", ${CFG("enablePasswordProtectedApi: true, enableKeyProtectedApi: true")}); new PrivateApi(s, new Bucket(s, "Images", { bucketName: "cam-bucket" })); return s; }` }),
  countingSite: () => synth({ app: "road/counting-site", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { InternalLambdas } from "REPO/road/counting-site/src/internal-lambdas.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "CountingSite", ${CFG('trafficType: "Road"')}); new InternalLambdas(s); return s; }` }),
  municipality: () => synth({ app: "road/maintenance-tracking-municipality", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { InternalLambdasCdk } from "REPO/road/maintenance-tracking-municipality/src/internal-lambdas.cdk.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "MaintenanceTrackingMunicipality", ${CFG('trafficType: "Road"')}); new InternalLambdasCdk(s); return s; }` }),
  yearlyPlans: () => synth({ app: "rail/yearly-plans", code: `
    import { YearlyPlansStack } from "REPO/rail/yearly-plans/src/yearly-plans-stack.ts";
    export function build(cdk, app) { return new YearlyPlansStack(app, "YearlyPlans", ${CFG('yearlyPlansBucketName: "yearly-bucket", projectPlansBucketName: "project-bucket", cloudFrontArn: "arn:aws:cloudfront::123456789012:distribution/X"')}); }` }),
  dataDump: () => synth({ app: "rail/data-dump", code: `
    import { Code } from "aws-cdk-lib/aws-lambda";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    import { DataDumpStack } from "REPO/rail/data-dump/src/data-dump-stack.ts";
    export function build(cdk, app) {
      const assets = new cdk.Stack(app, "Assets", { env: { account: "123456789012", region: "eu-west-1" } });
      const bucket = Bucket.fromBucketName(assets, "B", "assets");
      Code.fromAsset = (p) => Code.fromBucket(bucket, p);
      return new DataDumpStack(app, "DataDump", ${CFG('compositionDumpBucket: "comp-bucket", trainDumpBucket: "train-bucket", trainLocationDumpBucket: "loc-bucket"')}); }` }),
  apiLib: () => synth({ code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { DigitrafficRestApi } from "@digitraffic/common/dist/aws/infra/stack/rest-api";
    import { DigitrafficIntegration } from "@digitraffic/common/dist/aws/infra/api/integration";
    import { Code, Function as Fn, Runtime } from "aws-cdk-lib/aws-lambda";
    import { MediaType } from "@digitraffic/common/dist/aws/types/mediatypes";
    export function build(cdk, app) {
      const s = new DigitrafficStack(app, "ApiLib", ${CFG()});
      const api = new DigitrafficRestApi(s, "Lib-public", "Lib public API");
      const fn = new Fn(s, "Echo", { functionName: "Echo", code: Code.fromInline("x"), handler: "index.handler", runtime: Runtime.NODEJS_22_X, timeout: cdk.Duration.seconds(60), reservedConcurrentExecutions: 3 });
      const root = api.root.addResource("api");
      const add = (method, path, i) => path.split("/").reduce((r, x) => r.getResource(x) ?? r.addResource(x), root).addMethod(method, i.build(), { apiKeyRequired: true });
      const on = (...a) => new DigitrafficIntegration(fn, ...a);
      add("GET", "all/{id}", on(MediaType.APPLICATION_JSON).addPathParameter("id").passAllQueryParameters());
      add("GET", "all", on(MediaType.APPLICATION_XML).passAllQueryParameters());
      add("GET", "named", on().addQueryParameter("a", "b"));
      add("GET", "named/{id}/{sub}", on().addPathParameter("id", "sub").addQueryParameter("a").addHeaderParameter("x-client"));
      add("GET", "multi/{id}", on().passAllQueryParameters().addMultiValueQueryParameter("m").addPathParameter("id"));
      add("POST", "body", on().passBody());
      add("POST", "body/{id}", on().passBody().addPathParameter("id").addQueryParameter("a"));
      add("GET", "none", on());
      add("GET", "old/{id}", on(MediaType.TEXT_PLAIN, true, "2025-12-20").addPathParameter("id"));
      return s; }` }),
  apiRami: () => synth({ app: "rail/rami", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PublicApi } from "REPO/rail/rami/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Rami", ${CFG('trafficType: "Rail"')}); new PublicApi(s); return s; }` }),
  apiSigns: () => synth({ app: "road/variable-signs", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PublicApi } from "REPO/road/variable-signs/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "VariableSigns", ${CFG('trafficType: "Road", enableDatexII35: true, enableDatexII37: true')}); new PublicApi(s); return s; }` }),
  apiCounting: () => synth({ app: "road/counting-site", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PublicApiV2 } from "REPO/road/counting-site/src/public-api-v2.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "CountingSite", ${CFG('trafficType: "Road"')}); new PublicApiV2(s); return s; }` }),
  apiAton: () => synth({ app: "marine/aton-faults", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as PublicApi from "REPO/marine/aton-faults/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Aton", ${CFG()}); PublicApi.create(s); return s; }` }),
  apiWinter: () => synth({ app: "marine/winter-navigation", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as PublicApi from "REPO/marine/winter-navigation/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "WinterNavigation", ${CFG()}); PublicApi.create(s); return s; }` }),
  apiPort: () => synth({ app: "marine/portactivity", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { PublicApi } from "REPO/marine/portactivity/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "PortActivity", ${CFG()}); new PublicApi(s); return s; }` }),
  apiTest: () => synth({ app: "other/test-api-stack", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import * as PublicApi from "REPO/other/test-api-stack/src/public-api.ts";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "Test", ${CFG()}); PublicApi.create(s); return s; }` }),
  lamHistory: () => synth({ app: "road/lam-history", code: `
    import { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
    import { InternalLambdas } from "REPO/road/lam-history/src/internal-lambdas.ts";
    import { Bucket } from "aws-cdk-lib/aws-s3";
    export function build(cdk, app) { const s = new DigitrafficStack(app, "LamHistory", ${CFG('trafficType: "Road"')}); new InternalLambdas(s, new Bucket(s, "Files", { bucketName: "lam-bucket" })); return s; }` }),
  status: () => synth({ app: "other/status", code: `
    import * as InternalLambdas from "REPO/other/status/src/internal-lambdas.ts";
    export function build(cdk, app) {
      const s = new cdk.Stack(app, "Status", { env: { account: "123456789012", region: "eu-west-1" } });
      const topic = { topicArn: "arn:aws:sns:eu-west-1:123456789012:alarm" };
      InternalLambdas.create(s, topic, topic, { defaultLambdaDurationSeconds: 60, secretId: "sec", nodePingTimeoutSeconds: 10, nodePingCheckInterval: 5, allowFromIpAddresses: [], cStatePageUrl: "https://status.example", gitHubRepo: "cstate", gitHubOwner: "tmfg", gitHubBranch: "prod", gitHubWorkflowFile: "update.yml", gitHubUpdateMaintenanceWorkflowFile: "maintenance.yml" });
      return s; }` }),
  osKeyFigures: () => synth({ app: "other/os-key-figures", code: `
    import { OsKeyFiguresStack } from "REPO/other/os-key-figures/src/os-key-figures-stack.ts";
    export function build(cdk, app) {
      return new OsKeyFiguresStack(app, "OsKeyFigures", { openSearchVPCEndpoint: "os-vpc.example", openSearchHost: "os.example", openSearchLambdaRoleArn: "arn:aws:iam::123456789012:role/os", slackWebhook: "https://slack.example/x", mysql: { password: "p", database: "d", host: "db-rw", user: "u" }, allowedIpAddresses: ["1.2.3.4"], rdsSecurityGroupId: "sg-1", marineAccountName: "acc-marine", railAccountName: "acc-rail", roadAccountName: "acc-road", afirAccountName: "acc-afir", osIndex: "access", osAfirIndex: "afir", visualizationsBucketName: "visu" }, { env: { account: "123456789012", region: "eu-west-1" } }); }` }),
  voyagePlan: () => synth({ app: "marine/voyage-plan-gateway", code: `
    import { VoyagePlanGatewayStack } from "REPO/marine/voyage-plan-gateway/src/voyage-plan-gateway-stack.ts";
    export function build(cdk, app) { return new VoyagePlanGatewayStack(app, "VPGW", ${CFG()}); }` }),
  osMonitors: () => synth({ app: "other/opensearch-monitors", code: `
    import fs from "node:fs";
    import { UpdateOSMonitorsStack } from "REPO/other/opensearch-monitors/src/monitor-stack.ts";
    export function build(cdk, app) {
      for (const d of ["cdk.out", "dist/lambda/update-os-monitors"]) fs.mkdirSync(d, { recursive: true });
      return new UpdateOSMonitorsStack(app, "Monitors", { env: { account: "123456789012", region: "eu-west-1" }, vpcId: "vpc-1", osRoleArn: "arn:aws:iam::123456789012:role/os", osHost: "os.example", osVpcEndpoint: "os-vpc.example", createLambda: true, monitors: [{ name: "m" }], secretId: "sec" });
    }` }),
  swagger: (full) => synth({ app: "other/swagger-joiner", code: `
    import fs from "node:fs";
    import { SwaggerJoinerStack } from "REPO/other/swagger-joiner/src/swagger-joiner-stack.ts";
    export function build(cdk, app) {
      for (const d of ["resources", "dist/lambda/update-swagger", "dist/lambda/update-api-gateway-documentation"]) { fs.mkdirSync(d, { recursive: true }); fs.writeFileSync(d + "/f", ""); }
      return new SwaggerJoinerStack(app, "Swagger", { shortName: "Sw", alarmTopicArn: "arn:aws:sns:eu-west-1:123456789012:alarms", warningTopicArn: "arn:aws:sns:eu-west-1:123456789012:warnings", production: true, stackProps: { env: { account: "123456789012", region: "eu-west-1" } }, bucketName: "swagger-bucket", ${full ? `apiGwAppIds: ["api1", "api2", "api3"], appUrl: "https://app.example/v3/api-docs", betaAppUrl: "https://beta.example/v3/api-docs", directory: "swagger", host: "https://tie.example", title: "Otsikko Ä", description: "Kuvaus", termsOfService: "https://tos.example", contact: { name: "C", url: "https://c.example" }, license: { name: "L", url: "https://l.example" }, removeSecurity: true` : `apiGwAppIds: ["api1", "api2"]`} });
    }` }),
};
