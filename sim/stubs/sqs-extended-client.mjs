// sqs-extended-client: payloads over the SQS limit travel through S3 (attribute S3MessageBodyKey).
import aws from "./aws-generic.cjs";
const LIMIT = 256 * 1024;
export class ExtendedSqsClient {
  constructor(o = {}) { this.bucketName = o.bucketName; this.always = o.alwaysUseS3 ?? false; this.sqs = new (aws("sqs").SQSClient)(); this.s3 = new (aws("s3").S3Client)(); }
  async sendMessage(p) {
    if (this.always || Buffer.byteLength(p.MessageBody) > LIMIT) {
      const key = globalThis.crypto.randomUUID();
      await __SIM__.svc.aws.call(__SIM__, "s3", "PutObject", { Bucket: this.bucketName, Key: key, Body: p.MessageBody });
      return __SIM__.svc.aws.call(__SIM__, "sqs", "SendMessage", { ...p, MessageBody: key, MessageAttributes: { ...p.MessageAttributes, S3MessageBodyKey: { DataType: "String", StringValue: `(${this.bucketName})${key}` } } });
    }
    return __SIM__.svc.aws.call(__SIM__, "sqs", "SendMessage", p);
  }
  async _processReceive(response) {
    if (response.Messages) {
      await Promise.all(response.Messages.map(async (m) => {
        const v = m.MessageAttributes?.S3MessageBodyKey?.StringValue;
        const x = v && /^\((.*)\)(.*)$/.exec(v);
        if (!x) return;
        const o = await __SIM__.svc.aws.call(__SIM__, "s3", "GetObject", { Bucket: x[1], Key: x[2] });
        m.Body = await o.Body.transformToString();
        m.ReceiptHandle = `-..s3BucketName..-${x[1]}-..s3BucketName..--..s3Key..-${x[2]}-..s3Key..-${m.ReceiptHandle}`;
      }));
    }
    return response;
  }
}
export default ExtendedSqsClient;
