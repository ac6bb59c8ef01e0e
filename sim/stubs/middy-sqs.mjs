// @middy/sqs-partial-batch-failure: maps Promise.allSettled results to the batch failure response.
export default function sqsPartialBatchFailure(opts = {}) {
  const logger = opts.logger;
  const getResponse = (records, settled) => {
    const batchItemFailures = [];
    records.forEach((record, i) => {
      const r = settled?.[i];
      if (!r || r.status === "rejected") {
        batchItemFailures.push({ itemIdentifier: record.messageId });
        if (typeof logger === "function") logger(r?.reason, record);
      }
    });
    return { batchItemFailures };
  };
  return {
    after: async (request) => { request.response = getResponse(request.event.Records, request.response); },
    onError: async (request) => {
      if (request.response !== undefined) return;
      request.response = getResponse(request.event.Records, request.event.Records.map(() => ({ status: "rejected", reason: request.error })));
    },
  };
}
