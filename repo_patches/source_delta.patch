From b4a0b7bedbe0c438e7cf7431554c78d14a307cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:42 +0000
Subject: [PATCH 01/89] fix: database canary must enforce a minimum or maximum
 count of zero

---
 .../src/aws/infra/canaries/database-checker.ts       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..828fc8b 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -52,13 +52,21 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      if (
+        this.minCount !== null &&
+        this.minCount !== undefined &&
+        value.count < this.minCount
+      ) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (
+        this.maxCount !== null &&
+        this.maxCount !== undefined &&
+        value.count > this.maxCount
+      ) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 5ada3514e94b33a421b91e32b7e900e3c1101138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 02/89] fix: canary URL check must fail when one of its checks
 fails, and read gzipped answers

---
 .../src/aws/infra/canaries/url-checker.ts                 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..349fb95 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -96,7 +96,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map(async (c) => await c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
@@ -181,8 +181,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,7 +190,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From 00cce790127a983fb13e222198a93c309a55bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 03/89] fix: a failed S3 upload must fail the dead-letter
 handler instead of losing the message

---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 4 +++-
 lib/digitraffic-common/src/aws/runtime/s3.ts               | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..934cb26 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,13 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // fail the invocation, so that the messages stay in the queue and are tried again
+    throw error;
   }
 }
 
diff --git a/lib/digitraffic-common/src/aws/runtime/s3.ts b/lib/digitraffic-common/src/aws/runtime/s3.ts
index 531a8d3..17643b5 100644
--- a/lib/digitraffic-common/src/aws/runtime/s3.ts
+++ b/lib/digitraffic-common/src/aws/runtime/s3.ts
@@ -20,10 +20,11 @@ export async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    throw error;
   }
 }
-- 
2.43.0


From 478a20e4e58afd7b42927d5e1467677d00a3f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 04/89] fix: portactivity dead letters archived in the same
 millisecond must not overwrite each other

---
 .../src/lambda/process-dlq/lambda-process-dlq.ts      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts b/marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts
index 55df971..71b3025 100644
--- a/marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts
+++ b/marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts
@@ -8,6 +8,7 @@ const bucketName = getEnvVariable(PortactivityEnvKeys.BUCKET_NAME);
 
 interface DlqEvent {
   readonly Records: {
+    readonly messageId: string;
     readonly body: string;
   }[];
 }
@@ -20,8 +21,14 @@ export const handler = async (event: DlqEvent): Promise<void> => {
     method: "PortactivityTimestampsProcessDLQ.handler",
     customPortcallDLQRecordsReceivedCount: event.Records.length,
   });
-  const uploads = event.Records.map((e, idx: number) =>
-    uploadToS3(s3, bucketName, e.body, `timestamp-${millis}-${idx}.json`),
+  // message id keeps the names of concurrent invocations apart
+  const uploads = event.Records.map((e) =>
+    uploadToS3(
+      s3,
+      bucketName,
+      e.body,
+      `timestamp-${millis}-${e.messageId}.json`,
+    ),
   );
   await Promise.all(uploads);
 };
-- 
2.43.0


From 90f0a25e7d9c00f33a8fd6c190209375652e3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 05/89] fix: rami dead letters must be archived whatever their
 content, and retried when the upload fails

---
 .../src/lambda/process-dlq/process-dlq.ts     | 47 ++++++++++++-------
 rail/rami/src/util/s3.ts                      |  3 +-
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..bfa1048 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -9,6 +9,7 @@ const bucketName = getEnvVariable(RamiEnvKeys.SQS_DLQ_BUCKET_NAME);
 
 interface DlqEvent {
   readonly Records: {
+    readonly messageId: string;
     readonly body: string;
   }[];
 }
@@ -20,28 +21,38 @@ export const handler = async (event: DlqEvent): Promise<void> => {
     customRamiDLQMessagesReceived: event.Records.length,
   });
 
-  const uploads = event.Records.map((e, idx: number) => {
+  const uploads = event.Records.map((e) => {
     logger.debug(`event ${JSON.stringify(e)}`);
 
-    try {
-      const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
-        dlqMessage.message,
-      )}]`;
-      const folder = `${dlqMessage.messageType}/${new Date()
-        .toISOString()
-        .substring(0, 10)}`;
-      const fileName = `${folder}/message-${millis}-${idx}.json`;
+    const { messageType, body } = createContent(e.body);
+    const folder = `${messageType}/${new Date().toISOString().substring(0, 10)}`;
+    // message id keeps the names of concurrent invocations apart
+    const fileName = `${folder}/message-${millis}-${e.messageId}.json`;
 
-      logger.debug(`Uploading to ${fileName}`);
+    logger.debug(`Uploading to ${fileName}`);
 
-      return uploadToS3(bucketName, body, fileName);
-    } catch (error) {
-      logException(logger, error);
-
-      return Promise.resolve();
-    }
+    return uploadToS3(bucketName, body, fileName);
   });
 
-  await Promise.allSettled(uploads);
+  // fails when any upload fails, so that the messages stay in the queue
+  await Promise.all(uploads);
 };
+
+function createContent(body: string): { messageType: string; body: string } {
+  try {
+    const dlqMessage = JSON.parse(body) as Partial<DlqMessage> | null;
+    if (dlqMessage?.messageType) {
+      return {
+        messageType: dlqMessage.messageType,
+        body: JSON.stringify([
+          { errors: dlqMessage.errors },
+          dlqMessage.message,
+        ]),
+      };
+    }
+  } catch (error) {
+    logException(logger, error);
+  }
+  // not a DlqMessage but a message the queues have moved here after failed attempts
+  return { messageType: "UNKNOWN", body };
+}
diff --git a/rail/rami/src/util/s3.ts b/rail/rami/src/util/s3.ts
index ba1af78..75932be 100644
--- a/rail/rami/src/util/s3.ts
+++ b/rail/rami/src/util/s3.ts
@@ -17,11 +17,12 @@ export async function uploadToS3(
     });
     try {
       await doUpload(s3, bucketName, body, objectName);
-    } catch (_error2) {
+    } catch (error2) {
       logger.error({
         method: "RAMI-ProcessDLQ.uploadToS3",
         message: `upload failed, retrying upload to bucket ${bucketName}`,
       });
+      throw error2;
     }
   }
 }
-- 
2.43.0


From 780e20879f0115cca97b392d3ca905b5cacdfa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 06/89] fix: portactivity queue must keep the timestamps its
 handler reports as failed

---
 marine/portactivity/src/internal-lambdas-stack.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/internal-lambdas-stack.ts b/marine/portactivity/src/internal-lambdas-stack.ts
index ac38b0d..2c950a2 100644
--- a/marine/portactivity/src/internal-lambdas-stack.ts
+++ b/marine/portactivity/src/internal-lambdas-stack.ts
@@ -274,7 +274,10 @@ function createProcessQueueLambda(
     },
   );
 
-  processQueueLambda.addEventSource(new SqsEventSource(queue));
+  // the handler answers with the messages that failed
+  processQueueLambda.addEventSource(
+    new SqsEventSource(queue, { reportBatchItemFailures: true }),
+  );
 
   return processQueueLambda;
 }
-- 
2.43.0


From 9fd1e950d1bc756f8c5b7e1e11a8a90ec3a1b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 07/89] fix: a malformed portactivity message must not fail the
 rest of its batch

---
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 212dee0a6af2e10e41f467ee31aa3daf47eff7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 08/89] fix: pilotweb timestamps must survive a failure between
 saving and sending

A new or changed pilotage was saved before its timestamp was sent, and a
failed send was ignored, so the timestamp was never sent again. Timestamps
are now sent first, and a failed send fails the run. The timestamps of a
removed pilotage are removed in the transaction that removes the pilotage.
---
 marine/portactivity/src/dao/pilotages.ts      |  2 +-
 .../update-timestamps-from-pilotweb.ts        |  9 +--
 marine/portactivity/src/service/pilotweb.ts   | 65 ++++++++++---------
 3 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/marine/portactivity/src/dao/pilotages.ts b/marine/portactivity/src/dao/pilotages.ts
index a570408..2bab465 100644
--- a/marine/portactivity/src/dao/pilotages.ts
+++ b/marine/portactivity/src/dao/pilotages.ts
@@ -163,7 +163,7 @@ export function updatePilotages(
 }
 
 export function deletePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotageIds: number[],
 ): Promise<number[]> {
   if (pilotageIds.length > 0) {
diff --git a/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts b/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
index d947b89..3072110 100644
--- a/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
+++ b/marine/portactivity/src/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts
@@ -26,15 +26,16 @@ export const handler = (): Promise<void> =>
       const timestamps = await PilotwebService.getMessagesFromPilotweb(
         secret.url,
         secret.auth,
+        async (timestamps) => {
+          await Promise.all(
+            timestamps.map((ts) => sendMessage(ts, sqsQueueUrl)),
+          );
+        },
       );
       logger.info({
         method: "UpdatePilotwebTimestamps.handler",
         customTimestampsReceivedCount: timestamps.length,
       });
-
-      await Promise.allSettled(
-        timestamps.map((ts) => sendMessage(ts, sqsQueueUrl)),
-      );
     })
     .catch((error) => {
       logException(logger, error);
diff --git a/marine/portactivity/src/service/pilotweb.ts b/marine/portactivity/src/service/pilotweb.ts
index ecbb70d..53ed85a 100644
--- a/marine/portactivity/src/service/pilotweb.ts
+++ b/marine/portactivity/src/service/pilotweb.ts
@@ -16,6 +16,7 @@ import * as LocationConverter from "./location-converter.js";
 export async function getMessagesFromPilotweb(
   host: string,
   authHeader: string,
+  sendTimestamps: (timestamps: ApiTimestamp[]) => Promise<void>,
 ): Promise<ApiTimestamp[]> {
   const message = await PilotwebAPI.getMessages(host, authHeader);
   const pilotages = JSON.parse(message) as Pilotage[];
@@ -28,7 +29,7 @@ export async function getMessagesFromPilotweb(
   return inDatabase(async (db: DTDatabase) => {
     const idMap = await PilotagesDAO.getTimestamps(db);
     const pilotageIds = await removeMissingPilotages(db, idMap, pilotages);
-    const updated = await updateAllPilotages(db, idMap, pilotages);
+    const updated = findNewAndUpdated(idMap, pilotages);
 
     logger.debug({
       method: "PilotwebService.getMessagesFromPilotweb",
@@ -39,46 +40,26 @@ export async function getMessagesFromPilotweb(
       message: `timestamps to remove: ${JSON.stringify(pilotageIds)}`,
     });
 
-    await removeTimestamps(db, pilotageIds);
+    // A saved pilotage is not sent again before it changes, so it must be
+    // saved only after its timestamp has been sent.
+    const timestamps = await convertUpdatedTimestamps(db, updated);
+    await sendTimestamps(timestamps);
+    await updateAllPilotages(db, updated);
 
-    return convertUpdatedTimestamps(db, updated);
+    return timestamps;
   });
 }
 
-async function removeTimestamps(
-  db: DTDatabase,
-  pilotageIds: number[],
-): Promise<void> {
-  if (pilotageIds.length > 0) {
-    const sourceIds = pilotageIds.map((id) => id.toString());
-
-    const timestampsRemoved = await TimestampDAO.removeTimestamps(
-      db,
-      EventSource.PILOTWEB,
-      sourceIds,
-    );
-    logger.info({
-      method: "PilotwebService.removeTimestamps",
-      message: `removed: ${JSON.stringify(timestampsRemoved)}`,
-    });
-  }
-}
-
 async function updateAllPilotages(
   db: DTDatabase,
-  idMap: PilotagesDAO.TimestampMap,
-  pilotages: Pilotage[],
-): Promise<Pilotage[]> {
-  const newAndUpdated = findNewAndUpdated(idMap, pilotages);
-
+  newAndUpdated: Pilotage[],
+): Promise<void> {
   logger.info({
     method: "PilotwebService.updateAllPilotages",
     customPilotagesUpdatedCount: newAndUpdated.length,
   });
 
   await PilotagesDAO.updatePilotages(db, newAndUpdated);
-
-  return newAndUpdated;
 }
 
 async function removeMissingPilotages(
@@ -93,11 +74,35 @@ async function removeMissingPilotages(
     customDeletedPilotagesCount: removedIds.length,
   });
 
-  await PilotagesDAO.deletePilotages(db, removedIds);
+  // Removed pilotages are not seen again, so their timestamps must be removed
+  // in the same transaction.
+  await db.tx(async (tx) => {
+    await PilotagesDAO.deletePilotages(tx, removedIds);
+    await removeTimestamps(tx, removedIds);
+  });
 
   return removedIds;
 }
 
+async function removeTimestamps(
+  db: DTDatabase | DTTransaction,
+  pilotageIds: number[],
+): Promise<void> {
+  if (pilotageIds.length > 0) {
+    const sourceIds = pilotageIds.map((id) => id.toString());
+
+    const timestampsRemoved = await TimestampDAO.removeTimestamps(
+      db,
+      EventSource.PILOTWEB,
+      sourceIds,
+    );
+    logger.info({
+      method: "PilotwebService.removeTimestamps",
+      message: `removed: ${JSON.stringify(timestampsRemoved)}`,
+    });
+  }
+}
+
 async function convertUpdatedTimestamps(
   db: DTDatabase,
   newAndUpdated: Pilotage[],
-- 
2.43.0


From a175763be96db12259528f98cb357ea51a584c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 09/89] fix: pilotweb answer must not corrupt characters split
 between two chunks

---
 marine/portactivity/src/api/pilotweb.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index 484a8c3..ecb4671 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -18,6 +18,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           },
         },
         (response) => {
+          // a character can be split between two chunks
+          response.setEncoding("utf8");
+
           //another chunk of data has been received, so append it to `str`
           response.on("data", (chunk) => {
             content += chunk;
-- 
2.43.0


From 89c02d20cf7949d6a5fed2e7661642c3329fc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 10/89] fix: maintenance tracking messages whose handling fails
 must be retried and dead-lettered

The handler returned the settled results, which SQS takes as success, so a
message was deleted when saving it failed.
---
 .../src/lambda/process-queue/process-queue.ts     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
index f5c7bfe..14e1fa8 100644
--- a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
+++ b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
@@ -29,9 +29,22 @@ function getRdsHolder(): RdsHolder {
   return rdsHolder;
 }
 
+const processRecords = handlerFn(sqsExtendedClient);
+
 export const handler: (
   event: SQSEvent,
-) => Promise<PromiseSettledResult<void>[]> = handlerFn(sqsExtendedClient);
+) => Promise<PromiseSettledResult<void>[]> = async (event: SQSEvent) => {
+  const results = await processRecords(event);
+  // A returned value tells SQS to delete the messages, so a failed message must
+  // fail the invocation to be retried and finally moved to the dead-letter queue.
+  const failedCount = results.filter((r) => r.status === "rejected").length;
+  if (failedCount > 0) {
+    throw new Error(
+      `Handling of ${failedCount}/${results.length} messages failed`,
+    );
+  }
+  return results;
+};
 
 export function handlerFn(
   sqsExtendedClient: ExtendedSqsClient,
-- 
2.43.0


From a9230cfda950c68f644ba43a572967a9bccb6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:53 +0000
Subject: [PATCH 11/89] fix: maintenance tracking cleanup must be awaited by
 its handler

The handler returned before the cleanup had run, and a failed cleanup was not
reported.
---
 .../clean-maintenance-tracking-data.ts                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
index 2b27940..46cc55d 100644
--- a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
+++ b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
@@ -5,9 +5,9 @@ import { cleanMaintenanceTrackingData } from "../../service/maintenance-tracking
 
 const proxyHolder = ProxyHolder.create();
 
-export const handler: Handler = (): void => {
+export const handler: Handler = (): Promise<void> => {
   const start = Date.now();
-  proxyHolder
+  return proxyHolder
     .setCredentials()
     .then(() => {
       logger.debug(
-- 
2.43.0


From 77a7c0e792567084f2153e81e9b362ea0213ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 12/89] fix: winter navigation suspension locations must follow
 changes and restorations of their source

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From f59fe0cf5b05105e5c0ee1422413410879956dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 13/89] fix: a deleted winter navigation vessel must not be
 served by its number

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..f889994 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE (imo = $3 OR mmsi = $3) AND deleted = false
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From a118cb674a9404ef6e586abbb866da962736e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:29 +0000
Subject: [PATCH 14/89] fix: winter navigation check and update times must
 survive crashes and not claim failed fetches

---
 marine/winter-navigation/src/api/ibnet-api.ts        | 11 +++++++++--
 marine/winter-navigation/src/service/data-updater.ts |  8 +++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/marine/winter-navigation/src/api/ibnet-api.ts b/marine/winter-navigation/src/api/ibnet-api.ts
index bb79537..18aa516 100644
--- a/marine/winter-navigation/src/api/ibnet-api.ts
+++ b/marine/winter-navigation/src/api/ibnet-api.ts
@@ -55,7 +55,14 @@ export class IbnetApi {
       });
   }
 
-  async fetch<T>(path: ApiPath, from: number, to: number): Promise<T[]> {
+  /**
+   * @returns the objects changed after version from, or undefined if fetching them failed
+   */
+  async fetch<T>(
+    path: ApiPath,
+    from: number,
+    to: number,
+  ): Promise<T[] | undefined> {
     const start = Date.now();
     const url = `${this._baseUrl}${path}?from=${from}&to=${to}`;
 
@@ -64,7 +71,7 @@ export class IbnetApi {
     } catch (error) {
       logException(logger, error);
 
-      return [];
+      return undefined;
     } finally {
       logger.info({
         method: "IbnetApi.fetch",
diff --git a/marine/winter-navigation/src/service/data-updater.ts b/marine/winter-navigation/src/service/data-updater.ts
index 2ca1f1e..f6dcbc4 100644
--- a/marine/winter-navigation/src/service/data-updater.ts
+++ b/marine/winter-navigation/src/service/data-updater.ts
@@ -102,6 +102,11 @@ export class DataUpdater {
     }
 
     const objects = await this._api.fetch<T>(apiPath, from, to);
+    if (!objects) {
+      // nothing is known about this table now, the next run tries again
+      return;
+    }
+
     const deleted: Deleted[] = [];
     const updated: T[] = [];
 
@@ -128,12 +133,13 @@ export class DataUpdater {
     }
 
     if (deleted.length > 0 || updated.length > 0) {
-      await updateDataVersion(db, tableName, to);
+      // the version goes last: until it is stored, the next run does all of this again
       await LastUpdatedDB.updateUpdatedTimestamp(
         db,
         `${tableName.toUpperCase()}`,
         start,
       );
+      await updateDataVersion(db, tableName, to);
     }
 
     logger.info({
-- 
2.43.0


From fee398db85e9ebe30eb8e24812cf2e93888f0f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 15/89] fix: aton faults must be stored atomically, and a
 failed fetch must not count as a check

---
 marine/aton-faults/src/api/faults.ts            |  9 ++++++---
 marine/aton-faults/src/db/faults.ts             |  7 +++++--
 marine/aton-faults/src/service/update-faults.ts | 10 ++++++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/marine/aton-faults/src/api/faults.ts b/marine/aton-faults/src/api/faults.ts
index 144ce43..b0cf15c 100644
--- a/marine/aton-faults/src/api/faults.ts
+++ b/marine/aton-faults/src/api/faults.ts
@@ -15,7 +15,10 @@ export class FaultsApi {
     this.endpointUrl = endpointUrl;
   }
 
-  public async getFaults(): Promise<FaultFeature[]> {
+  /**
+   * @returns Faults from the source, or undefined if they could not be fetched.
+   */
+  public async getFaults(): Promise<FaultFeature[] | undefined> {
     const start = Date.now();
 
     return ky
@@ -33,7 +36,7 @@ export class FaultsApi {
             customDetails: resp.statusText,
           });
 
-          return [];
+          return undefined;
         }
 
         const features = await resp.json<ApiFeatures>();
@@ -50,7 +53,7 @@ export class FaultsApi {
       .catch((error) => {
         logException(logger, error);
 
-        return [];
+        return undefined;
       });
   }
 }
diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 1492c93..a975891 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,5 +1,8 @@
 import { TZDate } from "@date-fns/tz";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
 import { subHours } from "date-fns";
@@ -132,7 +135,7 @@ export function findFaultIdsByRoute(
 }
 
 export function updateFaults(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   domain: string,
   faults: FaultFeature[],
 ): Promise<unknown>[] {
diff --git a/marine/aton-faults/src/service/update-faults.ts b/marine/aton-faults/src/service/update-faults.ts
index b1e6e4e..b2bd777 100644
--- a/marine/aton-faults/src/service/update-faults.ts
+++ b/marine/aton-faults/src/service/update-faults.ts
@@ -14,14 +14,20 @@ export async function updateFaults(url: string, domain: string): Promise<void> {
   const start = Date.now();
 
   const newFaults = await new FaultsApi(url).getFaults();
+
+  if (!newFaults) {
+    // the source did not answer: nothing was checked, the error is logged by the api
+    return;
+  }
+
   const validated = newFaults.filter(validate);
 
   await inDatabase((db: DTDatabase) => {
     return db.tx((t: DTTransaction) => {
       return t.batch([
-        ...FaultsDB.updateFaults(db, domain, validated),
+        ...FaultsDB.updateFaults(t, domain, validated),
         LastUpdatedDB.updateUpdatedTimestamp(
-          db,
+          t,
           ATON_FAULTS_CHECK,
           new Date(start),
         ),
-- 
2.43.0


From 6930651dc7f20bf7559d39b03c7cf3e2175c4db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:23 +0000
Subject: [PATCH 16/89] fix: aton fault times must be read as Finnish time

---
 marine/aton-faults/src/db/faults.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index a975891..7b15cc6 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,11 +1,11 @@
-import { TZDate } from "@date-fns/tz";
+import { tz } from "@date-fns/tz";
 import type {
   DTDatabase,
   DTTransaction,
 } from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
-import { subHours } from "date-fns";
+import { subHours, transpose } from "date-fns";
 import { default as pgPromise } from "pg-promise";
 import type { LineString } from "wkx";
 import type { DbFault, FaultFeature } from "../model/fault.js";
@@ -187,8 +187,8 @@ export function findAll<T>(
 
 function parseHelsinkiTime(date: string | null): Date | undefined {
   if (date !== null) {
-    // incoming dates are in Finnish-time without timezone-info, this probably handles it correctly
-    return new TZDate(date, "Europe/Helsinki");
+    // incoming dates are in Finnish-time without timezone-info, so parse the fields and move them to Finnish time
+    return transpose(new Date(date), tz("Europe/Helsinki"));
   }
 
   return undefined;
-- 
2.43.0


From 631c96c60caf2caa76de52acd41b7315fadf4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:55 +0000
Subject: [PATCH 17/89] fix: shiplight must use rotated secrets in a warm
 function

---
 .../src/lambda/update-lights/update-lights.ts | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/marine/shiplight/src/lambda/update-lights/update-lights.ts b/marine/shiplight/src/lambda/update-lights/update-lights.ts
index ef1e089..55946a0 100644
--- a/marine/shiplight/src/lambda/update-lights/update-lights.ts
+++ b/marine/shiplight/src/lambda/update-lights/update-lights.ts
@@ -12,9 +12,6 @@ import { AreaVisibilityService } from "../../service/areavisibility.js";
 const secretHolder = SecretHolder.create<ShiplightSecret>("shiplight");
 const proxyHolder = ProxyHolder.create();
 
-let visibilityApi: AreaVisibilityApi | undefined;
-let lightsApi: AreaLightsApi | undefined;
-
 export async function handlerFn(
   AreaVisibilityServiceClass: new (
     api: AreaVisibilityApi,
@@ -24,20 +21,16 @@ export async function handlerFn(
   return secretHolder.get().then(async (secret) => {
     await proxyHolder.setCredentials();
 
-    if (!visibilityApi) {
-      visibilityApi = new AreaVisibilityApi(
-        secret.visibilityEndpointUrl,
-        secret.visibilityApiKey,
-      );
-    }
+    const visibilityApi = new AreaVisibilityApi(
+      secret.visibilityEndpointUrl,
+      secret.visibilityApiKey,
+    );
     const visibilityService = new AreaVisibilityServiceClass(visibilityApi);
 
-    if (!lightsApi) {
-      lightsApi = new AreaLightsApi(
-        secret.lightsControlEndpointUrl,
-        secret.lightsControlApiKey,
-      );
-    }
+    const lightsApi = new AreaLightsApi(
+      secret.lightsControlEndpointUrl,
+      secret.lightsControlApiKey,
+    );
     const lightsService = new AreaLightsServiceClass(lightsApi);
 
     const areas = await AreaTrafficService.getAreaTraffic();
-- 
2.43.0


From 4798f5c91ad7c9183487ada2e5d09cad726084dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:54 +0000
Subject: [PATCH 18/89] fix: a datex2 message with an unclosed situation must
 be refused instead of looping forever

---
 .../src/service/datex2-update-service.ts            | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..13520d7 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -123,6 +123,19 @@ function validate(datex2: string): boolean {
     return false;
   }
 
+  // every situation must be closed, or its block can't be parsed
+  if (
+    datex2.lastIndexOf(DATEX2_SITUATION_TAG_START) >
+    datex2.lastIndexOf(DATEX2_SITUATION_TAG_END)
+  ) {
+    logger.error({
+      method: "Datex2UpdateService.validate",
+      message: "situation is not closed",
+    });
+
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From f1fb52c019badd9f08cc53379978945b5c2e3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 19/89] fix: dollar signs in variable sign messages must not be
 taken as replacement patterns

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From d8f78654d8b5e5cf7bb046eb2b3e4313d9673aee Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:55:57 +0000
Subject: [PATCH 20/89] fix: counting site data and its timestamp must be
 stored together, one failing site must not stop others

---
 road/counting-site/src/dao/data.ts            |  7 +-
 road/counting-site/src/dao/site.ts            |  7 +-
 .../src/service/update-service.ts             | 85 +++++++++++--------
 3 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/road/counting-site/src/dao/data.ts b/road/counting-site/src/dao/data.ts
index 37aaa61..4733bd4 100644
--- a/road/counting-site/src/dao/data.ts
+++ b/road/counting-site/src/dao/data.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { ApiData } from "../model/v2/api-model.js";
 import type { DbCsvData, DbValues } from "../model/v2/db-model.js";
 import type { TravelMode } from "../model/v2/types.js";
@@ -124,7 +127,7 @@ export async function findCsvValuesForMonth(
 }
 
 export async function addSiteData(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   data: ApiData[],
 ): Promise<number> {
diff --git a/road/counting-site/src/dao/site.ts b/road/counting-site/src/dao/site.ts
index fc73a57..62db37d 100644
--- a/road/counting-site/src/dao/site.ts
+++ b/road/counting-site/src/dao/site.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { FeatureCollection } from "geojson";
 import { sql } from "kysely";
 import { default as pgPromise } from "pg-promise";
@@ -153,7 +156,7 @@ export async function updateSites(
 }
 
 export async function updateSiteTimestamp(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   timestamp: Date,
 ): Promise<void> {
diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 169704c..c327f73 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -1,5 +1,8 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import {
   inDatabase,
   inDatabaseReadonly,
@@ -88,7 +91,7 @@ export async function updateData(
   const sitesInDb = await getAllSitesFromDb(domain); // site_id -> counter
 
   return await inDatabase(async (db: DTDatabase) => {
-    await Promise.all(
+    const results = await Promise.allSettled(
       sitesInDb.map(async (site: DbSite) => {
         if (site.removed_timestamp) {
           logger.info({
@@ -124,46 +127,49 @@ export async function updateData(
             customUpdatedCount: data.length,
           });
 
-          const pointCount = await addSiteData(db, site.id, data);
-
-          if (pointCount === 0) {
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              message: "Skipping update, no values",
-              customSite: site.id,
-            });
-            if (
-              site.last_data_timestamp &&
-              site.last_data_timestamp < subDays(new Date(), 7)
-            ) {
-              // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
-              await updateSiteTimestamp(
-                db,
-                site.id,
-                addDays(site.last_data_timestamp, 1),
+          // data and timestamp must be saved together, or data would be fetched and saved again
+          await db.tx(async (tx: DTTransaction) => {
+            const pointCount = await addSiteData(tx, site.id, data);
+
+            if (pointCount === 0) {
+              logger.info({
+                method: "V2UpdateService.updateDataForDomain",
+                message: "Skipping update, no values",
+                customSite: site.id,
+              });
+              if (
+                site.last_data_timestamp &&
+                site.last_data_timestamp < subDays(new Date(), 7)
+              ) {
+                // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
+                await updateSiteTimestamp(
+                  tx,
+                  site.id,
+                  addDays(site.last_data_timestamp, 1),
+                );
+                logger.info({
+                  method: "V2UpdateService.updateDataForDomain",
+                  message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
+                  customSite: site.id,
+                  customPreviousLastDataTimestamp: site.last_data_timestamp,
+                });
+              }
+            } else {
+              const actualEndStamp = max(
+                data.flatMap((d) => d.data).map((p) => p.timestamp),
               );
+
               logger.info({
                 method: "V2UpdateService.updateDataForDomain",
-                message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
                 customSite: site.id,
-                customPreviousLastDataTimestamp: site.last_data_timestamp,
+                customObjectType: "point",
+                customUpdatedCount: pointCount,
+                customEndTime: actualEndStamp,
               });
+
+              await updateSiteTimestamp(tx, site.id, actualEndStamp);
             }
-          } else {
-            const actualEndStamp = max(
-              data.flatMap((d) => d.data).map((p) => p.timestamp),
-            );
-
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              customSite: site.id,
-              customObjectType: "point",
-              customUpdatedCount: pointCount,
-              customEndTime: actualEndStamp,
-            });
-
-            await updateSiteTimestamp(db, site.id, actualEndStamp);
-          }
+          });
         } else {
           logger.info({
             method: "V2UpdateService.updateDataForDomain",
@@ -177,6 +183,13 @@ export async function updateData(
       }),
     );
 
+    // all sites have been handled, now fail if any of them failed
+    for (const result of results) {
+      if (result.status === "rejected") {
+        throw result.reason;
+      }
+    }
+
     await updateLastUpdated(db, DataType.COUNTING_SITES_DATA, new Date());
   });
 }
-- 
2.43.0


From e905a79c0434671eae6fbf7d0170211d6379bc3e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:03:01 +0000
Subject: [PATCH 21/89] fix: removed counting site must keep the time it was
 removed

---
 road/counting-site/src/service/update-service.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index c327f73..331b279 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -210,7 +210,10 @@ function compareSites(
   const dbSiteIdSet = new Set(sitesInDb.map((s) => s.id));
 
   const newSites = sitesInApi.filter((s) => !dbSiteIdSet.has(s.id));
-  const removedSites = sitesInDb.filter((s) => !apiSiteIdSet.has(s.id));
+  // sites already marked as removed keep their original removed_timestamp
+  const removedSites = sitesInDb.filter(
+    (s) => !apiSiteIdSet.has(s.id) && !s.removed_timestamp,
+  );
   const updatedSites = sitesInApi.filter((s) => dbSiteIdSet.has(s.id));
 
   return [newSites, removedSites, updatedSites];
-- 
2.43.0


From 707a809593b5abe34ad8672e1fd4a75a61ef81d1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:06:07 +0000
Subject: [PATCH 22/89] fix: change of tasks must split a municipality tracking
 also when the number of tasks stays the same

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 39b8df9f78b052e2efd0274ce6dbd04d8b9467a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:06:07 +0000
Subject: [PATCH 23/89] fix: end direction of an extended municipality tracking
 must be that of its new end point

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 3226fcb..bf52d5d 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -498,6 +498,6 @@ export function createDbMaintenanceTracking(
     message_original_id: "none",
     finished: true,
     // This is additional metadata, not saved to db but used to update previous tracking
-    start_direction: lastEvent.heading,
+    start_direction: firstEvent.heading,
   };
 }
-- 
2.43.0


From 471251777bfb9569056b60091102e71833123a37 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 24/89] fix: passenger information messages must keep the
 seconds of their times

---
 rail/rami/src/dao/message.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..5eba75f 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -1,7 +1,4 @@
-import {
-  dateToUTCString,
-  MYSQL_DATETIME_FORMAT,
-} from "@digitraffic/common/dist/utils/date-utils";
+import { dateToUTCString } from "@digitraffic/common/dist/utils/date-utils";
 import type { Connection } from "mysql2/promise.js";
 import type { DtRosmMessage } from "../model/dt-rami-message.js";
 import { inDatabase, inTransaction } from "../util/database.js";
@@ -52,6 +49,9 @@ export interface DbRamiMessage {
   readonly video: DbRamiVideo;
 }
 
+// with seconds, so that messages are not missed when asked for by their creation time
+const MYSQL_DATETIME_FORMAT = "yyyy-MM-dd HH:mm:ss";
+
 const INSERT_RAMI_MESSAGE =
   "INSERT INTO rami_message(id, version, message_type, created_source, start_validity, end_validity, train_number, train_departure_date, journey_ref) VALUES (:id, :version, :messageType, :created, :startValidity, :endValidity, :trainNumber, :trainDepartureDate, :journeyRef)";
 
-- 
2.43.0


From d7b61df12982309c6a8d1fc7ad4d1644578f0f1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 25/89] fix: passenger information messages that cannot be
 parsed must go to the dead-letter queue

---
 .../src/lambda/process-rosm-queue/process-rosm-queue.ts    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
index 79d2ab8..82c96e2 100644
--- a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
+++ b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
@@ -37,6 +37,13 @@ export function handlerFn(): (
 
             return Promise.reject(error);
           }
+        } else {
+          // send unparseable message to dlq
+          await sendDlq({
+            messageType: "ROSM",
+            errors: "could not parse ROSM message",
+            message: recordBody,
+          });
         }
         logger.info({
           method: "RAMI-ProcessRosmQueue.handler",
-- 
2.43.0


From cbc4983fe87c53997cd86fc4ac3ff33f1612c834 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 26/89] fix: stop monitoring messages whose handling fails must
 stay in the queue

---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..b2505c2 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,9 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+
+            // report the failure, so that the message stays in the queue
+            throw error;
           }
         }),
       );
-- 
2.43.0


From 66384db53ed3b2928bffe8a42200bdb1a6daba6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 27/89] fix: database connections must be released also when a
 query or the start of a transaction fails

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From 1b7f15c95255239ff2acfeb06eef46240c374779 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 28/89] fix: unknown delay and track values must be retried as
 a whole transaction, not statement by statement

---
 rail/rami/src/dao/udot.ts                     | 42 +---------------
 rail/rami/src/service/process-udot-message.ts | 48 ++++++++++++-------
 2 files changed, 32 insertions(+), 58 deletions(-)

diff --git a/rail/rami/src/dao/udot.ts b/rail/rami/src/dao/udot.ts
index 17dacdb..5e02344 100644
--- a/rail/rami/src/dao/udot.ts
+++ b/rail/rami/src/dao/udot.ts
@@ -1,5 +1,5 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
-import type { Connection, QueryResult, ResultSetHeader } from "mysql2/promise";
+import type { Connection, ResultSetHeader } from "mysql2/promise";
 import { getTraceFields } from "../util/tracing.js";
 
 const SQL_DELETE_OLD_UDOT_VALUES = `
@@ -58,12 +58,7 @@ export async function insertOrUpdate(
       values.ud === false && values.ut === false
         ? SQL_UPDATE_FALSE_VALUES
         : SQL_UPSERT_UDOT_VALUES;
-    const result = await executeWithRetry<ResultSetHeader>(
-      conn,
-      updateSql,
-      values,
-      3,
-    );
+    const [result] = await conn.execute<ResultSetHeader>(updateSql, values);
 
     if (result.affectedRows > 0) {
       logger.info({
@@ -97,39 +92,6 @@ export async function insertOrUpdate(
   }
 }
 
-async function executeWithRetry<T extends QueryResult>(
-  conn: Connection,
-  sql: string,
-  values: UdotUpsertValues,
-  retries: number = 3,
-): Promise<T> {
-  let lastError: unknown;
-  for (let i = 0; i < retries; i++) {
-    try {
-      return (await conn.execute<T>(sql, values))[0];
-    } catch (err: unknown) {
-      lastError = err;
-      logger.warn({
-        ...getTraceFields(),
-        method: "UdotDao.executeWithRetry",
-        message: `Query failed on attempt ${i + 1} of ${retries}.`,
-        customWillRetry: i < retries - 1,
-        customTrainNumber: values.trainNumber,
-        customTrainDepartureDate: values.trainDepartureDate,
-        customAttapId: values.attapId,
-        error: err,
-      });
-      if (i < retries - 1) {
-        // Wait only if we will retry again
-        await new Promise((resolve) => setTimeout(resolve, 50));
-      } else {
-        throw err;
-      }
-    }
-  }
-  throw lastError;
-}
-
 export async function deleteOldValues(conn: Connection): Promise<void> {
   await conn.execute(SQL_DELETE_OLD_UDOT_VALUES);
   await conn.execute(SQL_DELETE_OLD_UDOT_HISTORY_VALUES);
diff --git a/rail/rami/src/service/process-udot-message.ts b/rail/rami/src/service/process-udot-message.ts
index 21fbf22..af13273 100644
--- a/rail/rami/src/service/process-udot-message.ts
+++ b/rail/rami/src/service/process-udot-message.ts
@@ -1,4 +1,5 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
+import { RetryLogError, retry } from "@digitraffic/common/dist/utils/retry";
 import type { Connection } from "mysql2/promise";
 import type { TimeTableRow } from "../dao/time_table_row.js";
 import { findTimeTableRows } from "../dao/time_table_row.js";
@@ -35,26 +36,37 @@ export async function processUdotMessage(
       return Promise.resolve();
     }
 
-    await inTransaction(async (conn: Connection): Promise<void> => {
-      for (const datarow of message.data) {
-        const attapId = findAttapId(rows, datarow);
+    // a deadlock rolls the whole transaction back, so the transaction must be retried as a whole
+    await retry(
+      async () => {
+        foundCount = 0;
+        notFoundCount = 0;
 
-        if (attapId) {
-          foundCount++;
+        await inTransaction(async (conn: Connection): Promise<void> => {
+          for (const datarow of message.data) {
+            const attapId = findAttapId(rows, datarow);
 
-          await insertOrUpdate(conn, {
-            trainNumber: message.trainNumber,
-            trainDepartureDate: message.departureDate,
-            attapId,
-            messageId: message.messageId,
-            ut: datarow.unknownTrack,
-            ud: datarow.unknownDelay,
-          });
-        } else {
-          notFoundCount++;
-        }
-      }
-    });
+            if (attapId) {
+              foundCount++;
+
+              await insertOrUpdate(conn, {
+                trainNumber: message.trainNumber,
+                trainDepartureDate: message.departureDate,
+                attapId,
+                messageId: message.messageId,
+                ut: datarow.unknownTrack,
+                ud: datarow.unknownDelay,
+              });
+            } else {
+              notFoundCount++;
+            }
+          }
+        });
+      },
+      2,
+      RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS,
+      () => 50,
+    );
   } finally {
     logger.info({
       ...getTraceFields(),
-- 
2.43.0


From 2d1d7e2841ef30dd2e1861feb9b205c77cc3800b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:32:27 +0000
Subject: [PATCH 29/89] fix: delivery time of an audio message must be included
 in the answer

---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 5eba75f..f827fce 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..20b429e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,8 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt:
+              message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From 1e70b49186484d6650e55d59cc2119d751e10a67 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 30/89] fix: camera must not be marked as updated when its
 image could not be stored

---
 marine/marinecam/src/service/image-fetcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 705869e..a6f056c 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -49,8 +49,8 @@ async function updateAllImages(
             message: `empty picture from camera ${cameraId}`,
           });
         } else {
+          await ImageStore.storeImage(cameraId, image, bucketName);
           updatedCameras.push(cameraId);
-          return ImageStore.storeImage(cameraId, image, bucketName);
         }
 
         return Promise.resolve();
-- 
2.43.0


From e6f7e04a0bf6aafcf35fc1700bd178408434d3c4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 31/89] fix: camera streams and sessions must be closed also
 after a failure, which must not leave stored images unmarked

---
 marine/marinecam/src/service/image-fetcher.ts | 59 +++++++++----------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index a6f056c..2549b50 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -1,4 +1,5 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
+import { logException } from "@digitraffic/common/dist/utils/logging";
 import pLimit from "p-limit";
 import * as ImageStore from "./image-store.js";
 import * as MetadataService from "./metadata.js";
@@ -19,23 +20,25 @@ export async function updateAllCameras(
 ): Promise<void> {
   const cameraIds =
     await MetadataService.getAllCameraIdsForGroup(CAMERA_GROUP_ID);
-  const session = await loginToCameraServer(
-    url,
-    username,
-    password,
-    certificate,
-    ca,
-    hostname,
-  );
+  const session = new Session(url, certificate, ca, hostname);
+  await session.connect();
 
-  return updateAllImages(cameraIds, session, bucketName);
+  let updatedCameras: string[];
+  try {
+    await session.login(username, password);
+    updatedCameras = await updateAllImages(cameraIds, session, bucketName);
+  } finally {
+    await disconnect(session);
+  }
+
+  return MetadataService.updateMetadataUpdated(updatedCameras, new Date());
 }
 
 async function updateAllImages(
   cameraIds: string[],
   session: Session,
   bucketName: string,
-): Promise<void> {
+): Promise<string[]> {
   const updatedCameras = [] as string[];
 
   await Promise.allSettled(
@@ -58,24 +61,16 @@ async function updateAllImages(
     ),
   );
 
-  await session.disconnect();
-
-  return MetadataService.updateMetadataUpdated(updatedCameras, new Date());
+  return updatedCameras;
 }
 
-async function loginToCameraServer(
-  url: string,
-  username: string,
-  password: string,
-  certificate: string,
-  ca: string,
-  hostname: string,
-): Promise<Session> {
-  const session = new Session(url, certificate, ca, hostname);
-  await session.connect();
-  await session.login(username, password);
-
-  return session;
+/** Images are already stored when disconnecting, so its failure is only logged. */
+async function disconnect(session: Session): Promise<void> {
+  try {
+    await session.disconnect();
+  } catch (error) {
+    logException(logger, error);
+  }
 }
 
 async function getImageFromCamera(
@@ -85,10 +80,10 @@ async function getImageFromCamera(
   // to get image, we need to request stream, rewind stream to current time and then request on frame from the stream
   // of course close stream after
   const videoId = await session.requestStream(cameraId);
-  await session.setStreamTime(videoId);
-  const image = await session.getFrameFromStream(videoId);
-
-  await session.closeStream(videoId);
-
-  return image;
+  try {
+    await session.setStreamTime(videoId);
+    return await session.getFrameFromStream(videoId);
+  } finally {
+    await session.closeStream(videoId);
+  }
 }
-- 
2.43.0


From 37e827aa51805e1ca3f58011fb69741fae7eda8f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 32/89] fix: error page of the camera server must not be stored
 as an image

---
 marine/marinecam/src/service/session.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marine/marinecam/src/service/session.ts b/marine/marinecam/src/service/session.ts
index 9257f65..ebb4283 100644
--- a/marine/marinecam/src/service/session.ts
+++ b/marine/marinecam/src/service/session.ts
@@ -205,6 +205,10 @@ export class Session {
 
     const response = await this.post(streamUrl, "");
 
+    if (response.statusCode !== 200) {
+      throw Error(`getFrameFromStream failed with ${response.statusCode}`);
+    }
+
     // format is uuid(16) timestamp(8) datasize(4) headersize(2) headerExtension(2)...
     const buffer = Buffer.from(await response.body.arrayBuffer());
     const dataSize = buffer.readUInt32LE(16 + 8 + 4);
-- 
2.43.0


From 76ce8b8d88bd4def969ace074c4a0655173dd3db Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:53:12 +0000
Subject: [PATCH 33/89] fix: special characters of camera server parameters
 must be escaped

---
 marine/marinecam/src/service/command.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/service/command.ts b/marine/marinecam/src/service/command.ts
index 34da818..17e5543 100644
--- a/marine/marinecam/src/service/command.ts
+++ b/marine/marinecam/src/service/command.ts
@@ -43,6 +43,14 @@ export type InputParameter =
   | "VideoId"
   | "Speed";
 
+function escapeXml(value: string): string {
+  return value
+    .replaceAll("&", "&amp;")
+    .replaceAll("<", "&lt;")
+    .replaceAll(">", "&gt;")
+    .replaceAll('"', "&quot;");
+}
+
 export abstract class Command<T> {
   readonly name: string;
   readonly inputParameters: Record<string, string>;
@@ -62,7 +70,7 @@ export abstract class Command<T> {
     let inputs = "";
 
     for (const [key, value] of Object.entries(this.inputParameters)) {
-      inputs += `<Param Name="${key}" Value="${value}"/>`;
+      inputs += `<Param Name="${key}" Value="${escapeXml(value)}"/>`;
     }
 
     return `<InputParams>${inputs}</InputParams>`;
-- 
2.43.0


From f9a19aa4054eadd34efd97d75c57e2807f788d11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 34/89] fix: list of cameras must be given by the user's groups
 and as a response of the integration

The integration passes the groups of the authorizer as a JSON array named authorizer.groups and maps a LambdaResponse.
---
 .../src/lambda/list-cameras/list-cameras.ts   | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
index ba0eb8c..dbd08c6 100644
--- a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
+++ b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
@@ -1,35 +1,31 @@
 import { RdsHolder } from "@digitraffic/common/dist/aws/runtime/secrets/rds-holder";
+import { LambdaResponse } from "@digitraffic/common/dist/aws/types/lambda-response";
 
-import type { Camera } from "../../model/camera.js";
 import * as MetadataService from "../../service/metadata.js";
 
 const rdsHolder = RdsHolder.create();
 
-const GROUP_SEPARATOR = ",";
-
 interface ListCamerasEvent {
-  groups: string;
+  "authorizer.groups": string;
 }
 
-export function handler(event: ListCamerasEvent): Promise<Camera[]> {
-  const usersGroups = getUserGroups(event.groups);
+export async function handler(
+  event: ListCamerasEvent,
+): Promise<LambdaResponse> {
+  const usersGroups = getUserGroups(event["authorizer.groups"]);
 
   if (usersGroups.length === 0) {
-    return Promise.resolve([] as Camera[]);
+    return LambdaResponse.okJson([]);
   }
 
-  return rdsHolder
-    .setCredentials()
-    .then(() => MetadataService.listAllCameras(usersGroups));
+  await rdsHolder.setCredentials();
+
+  return LambdaResponse.okJson(
+    await MetadataService.listAllCameras(usersGroups),
+  );
 }
 
-// eventGroups is in form [group1, group2...]
+// eventGroups is the JSON array that the authorizer has put into its context
 function getUserGroups(eventGroups: string): string[] {
-  if (!eventGroups) {
-    return [];
-  }
-
-  const withoutBraces = eventGroups.substring(1, eventGroups.length - 1);
-
-  return withoutBraces.split(GROUP_SEPARATOR).map((s) => s.trim());
+  return eventGroups ? (JSON.parse(eventGroups) as string[]) : [];
 }
-- 
2.43.0


From 94fb2da4ae1d5481ebddf02d41739d783b1833ba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 35/89] fix: password of the restricted camera API may contain
 a colon

---
 marine/marinecam/src/lambda/authorizer/authorizer.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/authorizer.ts b/marine/marinecam/src/lambda/authorizer/authorizer.ts
index 54a5e79..056e6a6 100644
--- a/marine/marinecam/src/lambda/authorizer/authorizer.ts
+++ b/marine/marinecam/src/lambda/authorizer/authorizer.ts
@@ -49,14 +49,16 @@ function parseAuthentication(
     if (!encodedCreds) {
       return undefined;
     }
-    const plainCreds = Buffer.from(encodedCreds, "base64")
-      .toString()
-      .split(":");
+    const plainCreds = Buffer.from(encodedCreds, "base64").toString();
+    // username can't contain a colon, but password can
+    const separator = plainCreds.indexOf(":");
+    const username = plainCreds.substring(0, separator);
+    const password = plainCreds.substring(separator + 1);
 
-    if (plainCreds.length !== 2 || !plainCreds[0] || !plainCreds[1]) {
+    if (separator < 0 || !username || !password) {
       return undefined;
     }
-    return [plainCreds[0], plainCreds[1]];
+    return [username, password];
   }
 }
 
-- 
2.43.0


From 0ef3002979a6ba3119716655ea3116bcb69e49a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:02:18 +0000
Subject: [PATCH 36/89] fix: first login of a restricted camera API user must
 be answered

Promise of the login was never resolved when the user was required to give a new password.
---
 .../marinecam/src/lambda/authorizer/cognito_backend.ts   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index a3c865b..ec94de9 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -53,7 +53,7 @@ export function loginUser(
         },
 
         newPasswordRequired: (userAttributes: object) => {
-          return changeUserPassword(cognitoUser, password, userAttributes);
+          changeUserPassword(cognitoUser, password, userAttributes, resolve);
         },
       });
     } catch (error) {
@@ -62,6 +62,8 @@ export function loginUser(
         message: "authenticateUser failed",
         customDetails: JSON.stringify(error),
       });
+
+      resolve(undefined);
     }
   });
 }
@@ -70,6 +72,7 @@ function changeUserPassword(
   cognitoUser: CognitoUser,
   newPassword: string,
   userAttributes: object,
+  resolve: (session: CognitoUserSession | undefined) => void,
 ): void {
   cognitoUser.completeNewPasswordChallenge(newPassword, userAttributes, {
     onSuccess: (result) => {
@@ -78,6 +81,8 @@ function changeUserPassword(
         message: "success",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(result);
     },
     onFailure: (result) => {
       logger.info({
@@ -85,6 +90,8 @@ function changeUserPassword(
         message: "failure",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(undefined);
     },
   });
 }
-- 
2.43.0


From d82f026acfcd42ec5d14bbadeb5156f4faed57bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:02:45 +0000
Subject: [PATCH 37/89] fix: cached authorization of a camera image must not be
 used for the other images

Result of the authorizer is cached by the identity sources for 5 minutes, and the policy covers only the requested image, so the other images were refused.
---
 marine/marinecam/src/private-api.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/private-api.ts b/marine/marinecam/src/private-api.ts
index 23b0001..a6c26b6 100644
--- a/marine/marinecam/src/private-api.ts
+++ b/marine/marinecam/src/private-api.ts
@@ -406,7 +406,11 @@ export class PrivateApi {
 
     return new RequestAuthorizer(this.stack, "images-authorizer", {
       handler: authFunction,
-      identitySources: [IdentitySource.header("Authorization")],
+      // authorizer's policy covers only the requested resource, so it can't be cached for the other resources
+      identitySources: [
+        IdentitySource.header("Authorization"),
+        IdentitySource.context("path"),
+      ],
     });
   }
 }
-- 
2.43.0


From ed57aa3c37d2e88c0eb972857a0a1da42930aa65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:11:41 +0000
Subject: [PATCH 38/89] fix: traffic message that could not be stored must be
 left in the queue

A malformed message ended handling of the whole batch, and messages whose storing failed were removed from the queue.
---
 road/data-upload/src/data-upload-stack.ts     |  1 +
 .../src/lambda/handle-rtti/handle-rtti.ts     | 69 ++++++++++++++-----
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/road/data-upload/src/data-upload-stack.ts b/road/data-upload/src/data-upload-stack.ts
index 22b6a3c..c661185 100644
--- a/road/data-upload/src/data-upload-stack.ts
+++ b/road/data-upload/src/data-upload-stack.ts
@@ -64,6 +64,7 @@ export class DataUploadStack extends DigitrafficStack {
       new SqsEventSource(queue, {
         batchSize: 20,
         maxBatchingWindow: Duration.seconds(3),
+        reportBatchItemFailures: true,
       }),
     );
   }
diff --git a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
index f80f3df..12f9f0e 100644
--- a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
+++ b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
@@ -1,6 +1,11 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { ProxyHolder } from "@digitraffic/common/dist/aws/runtime/secrets/proxy-holder";
-import type { SNSMessage, SQSEvent } from "aws-lambda";
+import type {
+  SNSMessage,
+  SQSBatchItemFailure,
+  SQSBatchResponse,
+  SQSEvent,
+} from "aws-lambda";
 import type { UpdateObject } from "../../model/sqs-message-schema.js";
 import { messageSchema } from "../../model/sqs-message-schema.js";
 import { updateRtti } from "../../service/datex2-update.js";
@@ -9,38 +14,66 @@ const method = "HandleRtti.handler" as const;
 
 const proxyHolder = ProxyHolder.create();
 
-export const handler = async (event: SQSEvent): Promise<void> => {
+export const handler = async (event: SQSEvent): Promise<SQSBatchResponse> => {
   const start = Date.now();
 
   await proxyHolder.setCredentials();
 
-  try {
-    await Promise.all(
-      event.Records.map(async (record) => {
-        const { messageId, body } = record;
+  const batchItemFailures: SQSBatchItemFailure[] = [];
+
+  await Promise.all(
+    event.Records.map(async (record) => {
+      const { messageId, body } = record;
 
-        const parsedMessage = parsePayload(body);
+      const parsedMessage = parseRecord(messageId, body);
 
-        logger.debug(
-          `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
-        );
+      if (!parsedMessage) {
+        return;
+      }
 
+      try {
         await updateRtti(parsedMessage);
-      }),
+      } catch (error) {
+        logger.error({
+          method,
+          error,
+        });
+        // message will be handled again
+        batchItemFailures.push({ itemIdentifier: messageId });
+      }
+    }),
+  );
+
+  logger.info({
+    method,
+    tookMs: Date.now() - start,
+  });
+
+  return { batchItemFailures };
+};
+
+function parseRecord(
+  messageId: string,
+  body: string,
+): UpdateObject | undefined {
+  try {
+    const parsedMessage = parsePayload(body);
+
+    logger.debug(
+      `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
     );
+
+    return parsedMessage;
   } catch (error) {
-    logger.debug(`Error handling message: ${JSON.stringify(event)}`);
+    logger.debug(`Error handling message ${messageId}: ${body}`);
     logger.error({
       method,
       error,
     });
-  } finally {
-    logger.info({
-      method,
-      tookMs: Date.now() - start,
-    });
+
+    return undefined;
   }
-};
+}
 
 function parsePayload(body: string): UpdateObject {
   // message comes actually from SNS, so we need to parse it
-- 
2.43.0


From daa830bd57db87f2af67aa9c588c49c5904da777 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 39/89] fix: upload that could not be stored must not be
 accepted

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..ca7e156 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  INTERNAL_ERROR: "Internal error",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,11 @@ export const handler = async (
         method,
         error,
       });
+
+      return {
+        statusCode: 500,
+        body: ERRORS.INTERNAL_ERROR,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From 9d5a67554e6f25bd978bee8180177663ba47c6e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 40/89] fix: unterminated situation must not keep the parser
 looping forever

Data stayed new, so that it stopped handling of all data uploaded after it.
---
 road/data-upload/src/service/vs-datex2-223-parser.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..7b4b599 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,11 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("Cannot find end of situation!");
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 65b70ee132c22ee4bf40c4d9896b7cdcae53b24e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:13:50 +0000
Subject: [PATCH 41/89] fix: received traffic message must trigger its handling

Url of the queue was not given to the function, so messages waited for the next upload of other data.
---
 road/data-upload/src/data-upload-stack.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/road/data-upload/src/data-upload-stack.ts b/road/data-upload/src/data-upload-stack.ts
index c661185..55a1d15 100644
--- a/road/data-upload/src/data-upload-stack.ts
+++ b/road/data-upload/src/data-upload-stack.ts
@@ -28,7 +28,7 @@ export class DataUploadStack extends DigitrafficStack {
     const mqttQueue = this.createSqsQueue("Mqtt");
 
     if (configuration.rttiTopicArn) {
-      this.createRttiSqsReader(configuration.rttiTopicArn);
+      this.createRttiSqsReader(configuration.rttiTopicArn, dataQueue);
     }
 
     createInternalLambdas(
@@ -41,8 +41,9 @@ export class DataUploadStack extends DigitrafficStack {
     new IntegrationApi(this, dataQueue);
   }
 
-  createRttiSqsReader(topicArn: string): void {
+  createRttiSqsReader(topicArn: string, dataQueue: Queue): void {
     const lambda = FunctionBuilder.create(this, "handle-rtti")
+      .withEnvironment({ QUEUE_URL: dataQueue.queueUrl })
       .withMemorySize(128)
       .withReservedConcurrentExecutions(3)
       .withTimeout(Duration.seconds(10))
@@ -60,6 +61,7 @@ export class DataUploadStack extends DigitrafficStack {
 
     topic.addSubscription(new SqsSubscription(queue));
     queue.grantConsumeMessages(lambda);
+    dataQueue.grantSendMessages(lambda);
     lambda.addEventSource(
       new SqsEventSource(queue, {
         batchSize: 20,
-- 
2.43.0


From b72b80ada8f8565ab4f0233ec9fdc11f02bffe6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:14:12 +0000
Subject: [PATCH 42/89] fix: overlapping runs must not replace content of
 devices with older content

Data is handled in order, each in a transaction that locks it. Data of which a part could not be stored is no longer marked as processed.
---
 road/data-upload/src/dao/data.ts              | 13 +++++++
 .../data-upload/src/service/variable-signs.ts | 39 ++++++++++---------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/road/data-upload/src/dao/data.ts b/road/data-upload/src/dao/data.ts
index c2ff92d..92cd7b3 100644
--- a/road/data-upload/src/dao/data.ts
+++ b/road/data-upload/src/dao/data.ts
@@ -53,6 +53,19 @@ const PS_UPDATE_DATA = new pgPromise.PreparedStatement({
   text: "update data_incoming set status = $2 where data_id = $1",
 });
 
+const PS_LOCK_NEW_DATA = new pgPromise.PreparedStatement({
+  name: "lock-new-data",
+  text: "select data_id from data_incoming where data_id = $1 and status = 'NEW' for update",
+});
+
+/** Locks data until the end of the transaction. Returns false if it has already been handled. */
+export async function lockNewData(
+  db: DTDatabase,
+  dataId: number,
+): Promise<boolean> {
+  return (await db.oneOrNone(PS_LOCK_NEW_DATA, [dataId])) !== null;
+}
+
 export async function updateStatus(
   db: DTDatabase,
   dataId: number,
diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index e70b8e7..4830d54 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -3,7 +3,7 @@ import type { DTDatabase } from "@digitraffic/common/dist/database/database";
 import { inDatabase } from "@digitraffic/common/dist/database/database";
 import { logException } from "@digitraffic/common/dist/utils/logging";
 import type { DataIncomingDb } from "../dao/data.js";
-import { getNewData, updateStatus } from "../dao/data.js";
+import { getNewData, lockNewData, updateStatus } from "../dao/data.js";
 import { updateDatex2 } from "../dao/variable-signs.js";
 import { Datex2Version, SOURCES, TYPES } from "../model/types.js";
 import { parseDatex35 } from "./vs-datex2-35-parser.js";
@@ -25,23 +25,26 @@ export async function handleVariableSignMessages(): Promise<void> {
       TYPES.VMS_DATEX2_METADATA_XML,
     ]);
 
-    await Promise.allSettled(
-      unhandled.map(async (data) => {
-        try {
-          await handleVariableSign(db, data);
-
-          await updateStatus(db, data.data_id, "PROCESSED");
-        } catch (error) {
-          logger.error({
-            method: "VariableSignsService.handleVariableSignMessages",
-            customDataId: data.data_id,
-            error,
-          });
-
-          await updateStatus(db, data.data_id, "FAILED");
-        }
-      }),
-    );
+    // data must be handled in order, also when another lambda is handling the same data
+    for (const data of unhandled) {
+      try {
+        await db.tx(async (tx) => {
+          if (await lockNewData(tx, data.data_id)) {
+            await handleVariableSign(tx, data);
+
+            await updateStatus(tx, data.data_id, "PROCESSED");
+          }
+        });
+      } catch (error) {
+        logger.error({
+          method: "VariableSignsService.handleVariableSignMessages",
+          customDataId: data.data_id,
+          error,
+        });
+
+        await updateStatus(db, data.data_id, "FAILED");
+      }
+    }
   });
 }
 
-- 
2.43.0


From 84406b75dd964290a572fd0f2e9693d568e943ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:14:12 +0000
Subject: [PATCH 43/89] fix: start time of a traffic message without an end
 time must be stored

---
 road/data-upload/src/service/rtti-35-parser.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/data-upload/src/service/rtti-35-parser.ts b/road/data-upload/src/service/rtti-35-parser.ts
index 18fce38..ab8446a 100644
--- a/road/data-upload/src/service/rtti-35-parser.ts
+++ b/road/data-upload/src/service/rtti-35-parser.ts
@@ -70,7 +70,7 @@ function getValidityPeriod(situation: Situation): {
       if (timeSpec) {
         const overallStartTime = timeSpec["com:overallStartTime"][0];
         const overallEndTime = timeSpec["com:overallEndTime"]?.[0];
-        if (overallStartTime && overallEndTime) {
+        if (overallStartTime) {
           return { startTime: overallStartTime, endTime: overallEndTime };
         }
       }
-- 
2.43.0


From da4117afa7d1191c5ffcdfdaef4db96b2e2028f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:14:38 +0000
Subject: [PATCH 44/89] fix: traffic message that could not be stored or queued
 must not be marked as processed

---
 road/data-upload/src/service/rtti.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/road/data-upload/src/service/rtti.ts b/road/data-upload/src/service/rtti.ts
index c5f6b13..b749de7 100644
--- a/road/data-upload/src/service/rtti.ts
+++ b/road/data-upload/src/service/rtti.ts
@@ -86,6 +86,8 @@ async function handleRtti(db: DTDatabase, data: DataIncomingDb) {
       } catch (error) {
         logException(logger, error);
         error35Count++;
+        // data must not be marked as processed
+        throw error;
       }
 
       break;
-- 
2.43.0


From 7b9378874b8da2748fc20eb1d47f9078bf4ef95d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 45/89] fix: situation must be published unchanged even if it
 contains replacement patterns

---
 road/data-upload/src/service/mqtt-sending-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 3178329..1ff35e5 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -79,8 +79,9 @@ export async function sendMqttUpdates(
 }
 
 function createMessage(datexSituation: string): string {
+  // function as replacement: the situation may contain replacement patterns ($&, $1, ...)
   return PAYLOAD_TEMPLATE.replace(
     "PUBLICATION_TIME",
     new Date().toISOString(),
-  ).replace("SITUATION", datexSituation);
+  ).replace("SITUATION", () => datexSituation);
 }
-- 
2.43.0


From a56dd9391e2eacf6853d80f0c937612ec57dff4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:16:54 +0000
Subject: [PATCH 46/89] fix: updates that could not be published must be left
 in the queue

---
 .../src/lambda/send-mqtt/send-mqtt.ts            |  3 +++
 .../src/service/mqtt-sending-service.ts          | 16 +++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
index 630b5e4..16c37da 100644
--- a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
+++ b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
@@ -45,5 +45,8 @@ export const handler = async (event: SQSEvent): Promise<void> => {
       method,
       error,
     });
+
+    // leave the updates in the queue to be sent again
+    throw error;
   }
 };
diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 1ff35e5..404d20b 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -61,15 +61,17 @@ export async function sendMqttUpdates(
       clientId,
     });
 
-    for (const rtti of rttiData) {
-      // first zip and then base64 encode the message
-      //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
-      const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
+    try {
+      for (const rtti of rttiData) {
+        // first zip and then base64 encode the message
+        //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
+        const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
 
-      await client.publishAsync(topic, createMessage(rtti.message));
+        await client.publishAsync(topic, createMessage(rtti.message));
+      }
+    } finally {
+      await client.endAsync();
     }
-
-    await client.endAsync();
   } else {
     logger.error({
       method: "MqttSendingService.sendMqttUpdate",
-- 
2.43.0


From cf9169830cfc04cb80abd53e6251e75eb3300e43 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:33:20 +0000
Subject: [PATCH 47/89] fix: trigger cState maintenance before NodePing checks
 are disabled so that a failed trigger is retried

---
 other/status/src/service/maintenance-service.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/other/status/src/service/maintenance-service.ts b/other/status/src/service/maintenance-service.ts
index 093a2d9..c9b3862 100644
--- a/other/status/src/service/maintenance-service.ts
+++ b/other/status/src/service/maintenance-service.ts
@@ -31,6 +31,9 @@ export async function handleMaintenance(
       method: method,
       message: `Active maintenances found, disabling ${enabledChecksCount} NodePing checks`,
     });
+    // Trigger before disabling: if this fails, checks are still enabled and the next run will try again
+    await cStateApi.triggerUpdateMaintenanceGithubAction(activeMaintenance);
+
     await nodePingApi.disableNodePingChecks();
     const checksToDisable = JSON.stringify(enabledChecks.map((c) => c.label));
 
@@ -39,8 +42,6 @@ export async function handleMaintenance(
       message: `NodePing checks disabled ${enabledChecksCount}, maintenance has started!\nDisabled: ${checksToDisable}`,
     });
 
-    await cStateApi.triggerUpdateMaintenanceGithubAction(activeMaintenance);
-
     await slackNotifyApi.notify(
       `NodePing checks disabled ${enabledChecksCount} and cStateStatus maintenance triggered. Maintenance has started!`,
     );
-- 
2.43.0


From 1c4c8d3d699843c13df73210524c08d929949ef6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:33:38 +0000
Subject: [PATCH 48/89] fix: a NodePing check that can't be enabled no longer
 keeps the others disabled after maintenance

---
 other/status/src/api/nodeping-api.ts | 31 ++++++++++++++++++----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index fc62ce3..8e376c9 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -643,17 +643,26 @@ export class NodePingApi {
       for (const id of Object.keys(allChecks)) {
         const check = allChecks[id];
         if (check && check.enable !== "active") {
-          const response = await this.doPut<
-            { enabled: boolean },
-            NodePingCheck
-          >(
-            `${this.nodePingApi}/checks/${id}`, // This is same as ${check._id}
-            { enabled: true },
-          );
-          logger.info({
-            method,
-            message: `Re-enabled check ${check.label}, id: ${id}, state: ${response.state}`,
-          });
+          // One check that can't be enabled must not prevent enabling the others
+          try {
+            const response = await this.doPut<
+              { enabled: boolean },
+              NodePingCheck
+            >(
+              `${this.nodePingApi}/checks/${id}`, // This is same as ${check._id}
+              { enabled: true },
+            );
+            logger.info({
+              method,
+              message: `Re-enabled check ${check.label}, id: ${id}, state: ${response.state}`,
+            });
+          } catch (error) {
+            logger.error({
+              method,
+              message: `Failed to re-enable check ${check.label}, id: ${id}`,
+              error,
+            });
+          }
         }
       }
     }
-- 
2.43.0


From d01b694a64d56f5a6f2a05f92d3ba9a9c066d525 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 49/89] fix: content-type of one NodePing check no longer leaks
 to the headers of the checks after it

---
 other/status/src/api/nodeping-api.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index 8e376c9..3417617 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -370,7 +370,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       enabled: true,
       follow: true,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       method: checkMethod,
       notifications: this.createNotificationsPostData(contactIds),
     };
@@ -434,7 +434,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       method: checkMethod,
       interval: this.checkIntervalMinutes,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       notifications: this.createNotificationsPostData(contactIds),
     } as const satisfies NodePingCheckPutData;
 
-- 
2.43.0


From 1bfd08f8b5fdb04ac33ca0e6a270a052486b22ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 50/89] fix: NodePing check of an endpoint named without app is
 found by its label when the url changes

---
 other/status/src/service/status-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index dbd5778..8a42ed3 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -260,7 +260,9 @@ export async function updateChecks(
     const correspondingExtraEndpoint = extraEndpoints.find(
       (e) =>
         e.url === check.parameters.target ||
-        e.name.toLowerCase() === check.label.toLowerCase(),
+        e.name.toLowerCase() === check.label.toLowerCase() ||
+        // Checks of endpoints without app in the name are created with app as prefix
+        `${app} ${e.name}`.toLowerCase() === check.label.toLowerCase(),
     );
 
     const checksContactIds = getContactIds(
-- 
2.43.0


From 83ab29a8e233025fedba3da3a50aa4b0ea166149 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 51/89] fix: comparison of NodePing checks and status page
 keeps components of different apps apart

---
 other/status/src/service/status-service.ts | 53 ++++++++++++++--------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index 8a42ed3..41fd4d0 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -1,10 +1,8 @@
 import type { LoggerMethodType } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import type { SecretHolder } from "@digitraffic/common/dist/aws/runtime/secrets/secret-holder";
-import type {
-  CStateStatuspageApi,
-  CStateSystem,
-} from "../api/cstate-statuspage-api.js";
+import { TrafficType } from "@digitraffic/common/dist/types/traffictype";
+import type { CStateStatuspageApi } from "../api/cstate-statuspage-api.js";
 import type { DigitrafficApi } from "../api/digitraffic-api.js";
 import type {
   NodePingApi,
@@ -27,34 +25,30 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
   const cStateStatus = await cStateStatuspageApi.getStatus();
   const cStateMaintenanceOn = await cStateStatuspageApi.isActiveMaintenances();
 
-  const nodePingCheckMap: Record<string, NodePingCheck> = {};
-  for (const npc of nodePingChecks) {
-    nodePingCheckMap[convertToCstateNameWithoutApp(npc.label).toLowerCase()] =
-      npc;
-  }
-
-  const cStateSystemsMap: Record<string, CStateSystem> = {};
-  for (const system of cStateStatus.systems) {
-    cStateSystemsMap[convertToCstateNameWithoutApp(system.name)] = system;
-  }
+  const findNodePingCheck = (
+    systemName: string,
+  ): NodePingCheck | undefined =>
+    nodePingChecks.find((npc) => isSameComponent(npc.label, systemName));
 
   const missingCStateSystems = nodePingChecks
     .filter((npc) => !isBeta(npc.label))
     .filter(
-      (npc) => !(convertToCstateNameWithoutApp(npc.label) in cStateSystemsMap),
+      (npc) =>
+        !cStateStatus.systems.some((system) =>
+          isSameComponent(npc.label, system.name),
+        ),
     )
     .map((npc) => `${npc.label}: cState Statuspage system missing`);
 
   const missingNodePingChecksVsCState = cStateStatus.systems
-    .filter((sc) => !(removeAppAndTrim(sc.name) in nodePingCheckMap))
+    .filter((sc) => !findNodePingCheck(sc.name))
     .map((sc) => `${sc.name}: NodePing check missing`);
 
   const outOfSyncWithCStateStatusPage = cStateMaintenanceOn
     ? []
     : cStateStatus.systems
         .map((cStateSystem) => {
-          const nodePingCheck =
-            nodePingCheckMap[convertToCstateNameWithoutApp(cStateSystem.name)];
+          const nodePingCheck = findNodePingCheck(cStateSystem.name);
           if (!nodePingCheck) {
             return null;
           }
@@ -75,6 +69,29 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
     .concat(outOfSyncWithCStateStatusPage);
 }
 
+/**
+ * Different apps can have components with the same name, i.e. Road Swagger UI and Rail Swagger UI.
+ * NodePing label without app matches to component of any app.
+ */
+function isSameComponent(checkLabel: string, systemName: string): boolean {
+  const checkApp = getApp(checkLabel);
+  return (
+    convertToCstateNameWithoutApp(checkLabel) ===
+      convertToCstateNameWithoutApp(systemName) &&
+    (!checkApp || checkApp === getApp(systemName))
+  );
+}
+
+function getApp(name: string): string | undefined {
+  const lowerCaseName = name.toLowerCase();
+  return Object.values(TrafficType)
+    .map((app) => app.toLowerCase())
+    .find(
+      (app) =>
+        lowerCaseName.startsWith(app) || lowerCaseName.startsWith(`/${app}`),
+    );
+}
+
 /**
  * Statuspage labels:
  * Rail Swagger -> /swagger
-- 
2.43.0


From 543fc0538a7695f20d0c0b9e25f5bad03e10e264 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 52/89] fix: OpenSearch response that breaks off or cannot be
 parsed fails the key figure query instead of never settling

---
 other/os-key-figures/src/api/opensearch.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 9ebf4f2..73aec50 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -55,9 +55,8 @@ export class OpenSearch {
     const client = new NodeHttpHandler();
 
     const makeRequest = async (): Promise<OpenSearchResponse> => {
-      // biome-ignore lint/suspicious/noAsyncPromiseExecutor: fix later
-      return new Promise(async (resolve, reject) => {
-        const { response } = await client.handle(signedRequest);
+      const { response } = await client.handle(signedRequest);
+      return new Promise((resolve, reject) => {
         this.handleResponseFromOs(
           response,
           (result) => {
@@ -103,14 +102,24 @@ export class OpenSearch {
       responseBody += chunk;
     });
     response.body.on("end", () => {
+      let result: OpenSearchResponse;
       try {
-        successCallback(JSON.parse(responseBody));
+        result = JSON.parse(responseBody);
       } catch (_e) {
         logger.info({
           message: `Failed to parse response body: ${responseBody}`,
           method: "os-query.handleResponseFromOs",
         });
+        failedCallback(statusCode, "Failed to parse OpenSearch response");
+        return;
       }
+      successCallback(result);
+    });
+    response.body.on("error", (error: Error) => {
+      failedCallback(
+        statusCode,
+        `Failed to read OpenSearch response: ${error.message}`,
+      );
     });
   }
 
-- 
2.43.0


From 85b8f13c51f1baba904f0c67e8229b2ee1de25c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 53/89] fix: key figures collected again are stored for the
 metrics that are missing and only for them

---
 .../driven/mysql/mysql-metric-store.ts        | 47 +++++++++++++------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
index dc59730..60467ca 100644
--- a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
+++ b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
@@ -34,31 +34,48 @@ export class MySqlMetricStore implements ForPersistingMetrics {
   }
 
   async persist(metrics: CollectedMetric[]): Promise<void> {
-    if (metrics.length === 0 || !metrics[0]) {
-      return;
+    const missing: CollectedMetric[] = [];
+    const existing: CollectedMetric[] = [];
+    for (const metric of metrics) {
+      const exists = await this.existsForPeriod(
+        metric.scope.storageTag,
+        metric.definition.name,
+        metric.period.from,
+      );
+      (exists ? existing : missing).push(metric);
     }
 
-    const firstMetric = metrics[0];
-    const startDate = firstMetric.period.from;
-    const existingRows = await this.existsForPeriod(
-      firstMetric.scope.storageTag,
-      firstMetric.definition.name,
-      startDate,
-    );
-
-    const tableName = existingRows
-      ? DUPLICATES_TABLE_NAME
-      : KEY_FIGURES_TABLE_NAME;
+    const errors: unknown[] = [];
+    errors.push(...(await this.insertMetrics(missing, KEY_FIGURES_TABLE_NAME)));
 
-    if (existingRows) {
+    if (existing.length > 0) {
       // Drop and recreate duplicates table for duplicate data
       await this.execute("DROP TABLE IF EXISTS ??", [DUPLICATES_TABLE_NAME]);
       await this.createTable(DUPLICATES_TABLE_NAME);
+      errors.push(
+        ...(await this.insertMetrics(existing, DUPLICATES_TABLE_NAME)),
+      );
     }
 
+    if (errors.length > 0) {
+      throw errors[0];
+    }
+  }
+
+  /** Inserts all the metrics it can and returns the errors of the others. */
+  private async insertMetrics(
+    metrics: CollectedMetric[],
+    tableName: string,
+  ): Promise<unknown[]> {
+    const errors: unknown[] = [];
     for (const metric of metrics) {
-      await this.insertMetric(metric, tableName);
+      try {
+        await this.insertMetric(metric, tableName);
+      } catch (error) {
+        errors.push(error);
+      }
     }
+    return errors;
   }
 
   async existsForPeriod(
-- 
2.43.0


From 96f4e9f8c07baeae2f45998a495b95b25f43fc99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 54/89] fix: request at the first instant of a month is counted
 in one month only

---
 .../src/adapters/driven/opensearch/metric-query.ts              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 060a83b..035a7ab 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -99,7 +99,7 @@ export abstract class AccessLogQuery extends MetricQuery {
           range: {
             "@timestamp": {
               gte: startTime,
-              lte: endTime,
+              lt: endTime,
               format: "strict_date_optional_time",
             },
           },
-- 
2.43.0


From 40dddc6cd7d42a64be7f4ad56085bf994b4c9728 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:55:12 +0000
Subject: [PATCH 55/89] fix: key figures of values that differ only in quotes
 are added up

---
 .../src/adapters/driven/opensearch/metric-query.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 035a7ab..3862488 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -271,11 +271,12 @@ export class TermsMetricQuery extends AccessLogQuery {
       throw new Error("Expected SEARCH response with aggregations");
     }
     const buckets = response.aggregations.agg.buckets ?? [];
-    const result: Record<string, number> = {};
+    const result = new Map<string, number>();
     for (const bucket of buckets) {
-      result[sanitizeKey(bucket.key)] = bucket.doc_count;
+      const key = sanitizeKey(bucket.key);
+      result.set(key, (result.get(key) ?? 0) + bucket.doc_count);
     }
-    return result;
+    return Object.fromEntries(result);
   }
 }
 
@@ -316,10 +317,11 @@ export class TermsWithSubAggMetricQuery extends AccessLogQuery {
       throw new Error("Expected SEARCH response with aggregations");
     }
     const buckets = response.aggregations.agg.buckets ?? [];
-    const result: Record<string, number> = {};
+    const result = new Map<string, number>();
     for (const bucket of buckets) {
-      result[sanitizeKey(bucket.key)] = bucket.agg?.value ?? 0;
+      const key = sanitizeKey(bucket.key);
+      result.set(key, (result.get(key) ?? 0) + (bucket.agg?.value ?? 0));
     }
-    return result;
+    return Object.fromEntries(result);
   }
 }
-- 
2.43.0


From 2a35f2e2b1bf4c267c5cab325ce6cbfb4d9e3d89 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:55:30 +0000
Subject: [PATCH 56/89] fix: key figures are not stored from an OpenSearch
 response that lacks some of the shards

---
 other/os-key-figures/src/api/opensearch.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 73aec50..667b97b 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -18,6 +18,14 @@ type OpenSearchApiMethodAndParams =
   | `${OpenSearchApiMethod}`
   | `${OpenSearchApiMethod}?${string}`;
 
+/** Does the response lack the results of some of the shards? */
+function isPartial(response: {
+  timed_out?: boolean;
+  _shards?: { failed?: number };
+}): boolean {
+  return response.timed_out === true || (response._shards?.failed ?? 0) > 0;
+}
+
 export class OpenSearch {
   private readonly actualHost: string;
   private readonly endpointHost: string;
@@ -102,7 +110,7 @@ export class OpenSearch {
       responseBody += chunk;
     });
     response.body.on("end", () => {
-      let result: OpenSearchResponse;
+      let result: OpenSearchResponse & Parameters<typeof isPartial>[0];
       try {
         result = JSON.parse(responseBody);
       } catch (_e) {
@@ -113,6 +121,10 @@ export class OpenSearch {
         failedCallback(statusCode, "Failed to parse OpenSearch response");
         return;
       }
+      if (isPartial(result)) {
+        failedCallback(statusCode, "OpenSearch response covers only a part");
+        return;
+      }
       successCallback(result);
     });
     response.body.on("error", (error: Error) => {
-- 
2.43.0


From bb7add8093472965d4e71c1947257ce41e5cf266 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 57/89] fix: public ship list without an interval covers four
 days, not four hours

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..d3c8602 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -81,7 +81,7 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(parameters.interval ?? "96", 10);
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From ec7d020ac7cef512efd4dce5b964108f23d0dad7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:04:38 +0000
Subject: [PATCH 58/89] fix: public ship list shows the merged time of an event

---
 marine/portactivity/src/service/shiplist.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marine/portactivity/src/service/shiplist.ts b/marine/portactivity/src/service/shiplist.ts
index f0d117b..a0b22f4 100644
--- a/marine/portactivity/src/service/shiplist.ts
+++ b/marine/portactivity/src/service/shiplist.ts
@@ -43,6 +43,8 @@ export async function getShiplist(
     (ts) =>
       ({
         ...ts,
+        // merging may have changed the time of the event
+        event_time: new Date(ts.eventTime),
         source: getDisplayableNameForEventSource(ts.source),
       }) as ShiplistTimestamp,
   );
-- 
2.43.0


From 2ddc0d00096becaccb978b2648a728dba3baaca4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:27:57 +0000
Subject: [PATCH 59/89] fix: port activity schedules answer without schedules
 does not fail the whole update

---
 marine/portactivity/src/api/schedules.ts     | 3 ++-
 marine/portactivity/src/service/schedules.ts | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/api/schedules.ts b/marine/portactivity/src/api/schedules.ts
index 7ecbe85..e4c0242 100644
--- a/marine/portactivity/src/api/schedules.ts
+++ b/marine/portactivity/src/api/schedules.ts
@@ -84,6 +84,7 @@ export interface Schedule {
 
 export interface SchedulesResponse {
   readonly schedules: {
-    readonly schedule: Schedule[];
+    // missing when there are no schedules
+    readonly schedule?: Schedule[];
   };
 }
diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index 92b2866..afef0f8 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -65,7 +65,7 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return resp.schedules.schedule.flatMap((s) => {
+    return (resp.schedules.schedule ?? []).flatMap((s) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
-- 
2.43.0


From 44534e3c755d85fe6b01a98370a3307a352d1f21 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:23 +0000
Subject: [PATCH 60/89] fix: unusable schedule does not keep back the
 timestamps of the other schedules

---
 marine/portactivity/src/service/schedules.ts   |  5 ++++-
 .../portactivity/src/service/skip-unusable.ts  | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)
 create mode 100644 marine/portactivity/src/service/skip-unusable.ts

diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index afef0f8..915c9b7 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -2,6 +2,7 @@ import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { parseISO, subMinutes } from "date-fns";
 import type {
   Destination,
+  Schedule,
   SchedulesApi,
   SchedulesResponse,
   Timestamp,
@@ -15,6 +16,7 @@ import { EventType } from "../model/timestamp.js";
 import { VTS_A_ETB_PORTS } from "../model/vts-a-etb-ports.js";
 import type { Port } from "./portareas.js";
 import { ports } from "./portareas.js";
+import { skipUnusable } from "./skip-unusable.js";
 
 export class SchedulesService {
   private readonly api: SchedulesApi;
@@ -65,7 +67,7 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return (resp.schedules.schedule ?? []).flatMap((s) => {
+    const toTimestamps = skipUnusable((s: Schedule) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
@@ -109,6 +111,7 @@ export class SchedulesService {
       }
       return timestamps;
     });
+    return (resp.schedules.schedule ?? []).flatMap(toTimestamps);
   }
 
   toTimestamp(
diff --git a/marine/portactivity/src/service/skip-unusable.ts b/marine/portactivity/src/service/skip-unusable.ts
new file mode 100644
index 0000000..0e6ef18
--- /dev/null
+++ b/marine/portactivity/src/service/skip-unusable.ts
@@ -0,0 +1,18 @@
+import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
+import { logException } from "@digitraffic/common/dist/utils/logging";
+
+/**
+ * Logs and leaves out the items of a source that can't be converted so that they don't keep back the others.
+ */
+export function skipUnusable<T, R>(
+  convert: (item: T) => R[],
+): (item: T) => R[] {
+  return (item) => {
+    try {
+      return convert(item);
+    } catch (error) {
+      logException(logger, error);
+      return [];
+    }
+  };
+}
-- 
2.43.0


From cb5ede47962e2e680db48d7e7b9c09957b26b36f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 61/89] fix: unusable voyage does not keep back the estimates
 of the other ships of the port

---
 .../src/service/awake-ai-eta-port.ts          | 42 +++++----
 .../src/service/awake-ai-etd-port.ts          | 91 ++++++++++---------
 2 files changed, 70 insertions(+), 63 deletions(-)

diff --git a/marine/portactivity/src/service/awake-ai-eta-port.ts b/marine/portactivity/src/service/awake-ai-eta-port.ts
index d86c855..3e406be 100644
--- a/marine/portactivity/src/service/awake-ai-eta-port.ts
+++ b/marine/portactivity/src/service/awake-ai-eta-port.ts
@@ -18,6 +18,7 @@ import {
   isDigitrafficEtaPrediction,
   voyageUnderwayOrNotStarted,
 } from "./awake-ai-etx-helper.js";
+import { skipUnusable } from "./skip-unusable.js";
 
 export class AwakeAiETAPortService {
   private readonly api: AwakeAiPortApi;
@@ -91,27 +92,30 @@ export class AwakeAiETAPortService {
       resp.schedule
         // filter out stopped voyages
         .filter(voyageUnderwayOrNotStarted)
-        .flatMap((schedule) => {
-          const etaPredictions = this.getEtaPredictions(schedule);
+        .flatMap(
+          skipUnusable((schedule) => {
+            const etaPredictions = this.getEtaPredictions(schedule);
 
-          const portcallPrediction = schedule.voyage.predictions.find(
-            (p) => p.predictionType === AwakeAiPredictionType.ARRIVAL_PORT_CALL,
-          ) as AwakeArrivalPortCallPrediction | undefined;
+            const portcallPrediction = schedule.voyage.predictions.find(
+              (p) =>
+                p.predictionType === AwakeAiPredictionType.ARRIVAL_PORT_CALL,
+            ) as AwakeArrivalPortCallPrediction | undefined;
 
-          return etaPredictions.map((eta) => {
-            if (!this.validateArrivalTime(eta)) return undefined;
-            return etaPredictionToTimestamp(
-              eta,
-              EventSource.AWAKE_AI_PRED,
-              locode,
-              schedule.ship.mmsi,
-              schedule.ship.imo,
-              undefined,
-              undefined,
-              portcallPrediction,
-            );
-          });
-        })
+            return etaPredictions.map((eta) => {
+              if (!this.validateArrivalTime(eta)) return undefined;
+              return etaPredictionToTimestamp(
+                eta,
+                EventSource.AWAKE_AI_PRED,
+                locode,
+                schedule.ship.mmsi,
+                schedule.ship.imo,
+                undefined,
+                undefined,
+                portcallPrediction,
+              );
+            });
+          }),
+        )
         .filter((ts): ts is ApiTimestamp => !!ts)
     );
   }
diff --git a/marine/portactivity/src/service/awake-ai-etd-port.ts b/marine/portactivity/src/service/awake-ai-etd-port.ts
index 9cd8407..e4aa675 100644
--- a/marine/portactivity/src/service/awake-ai-etd-port.ts
+++ b/marine/portactivity/src/service/awake-ai-etd-port.ts
@@ -11,6 +11,7 @@ import {
   isDigitrafficEtdPrediction,
   voyageUnderwayOrNotStarted,
 } from "./awake-ai-etx-helper.js";
+import { skipUnusable } from "./skip-unusable.js";
 
 export class AwakeAiETDPortService {
   private readonly api: AwakeAiPortApi;
@@ -46,51 +47,53 @@ export class AwakeAiETDPortService {
       resp.schedule
         // filter out stopped voyages
         .filter(voyageUnderwayOrNotStarted)
-        .flatMap((schedule) => {
-          const etdPredictions = schedule.voyage.predictions
-            .filter(isAwakeEtdPrediction)
-            .filter((etdPrediction) => {
-              if (this.departureTimeInThePast(etdPrediction.departureTime)) {
-                logger.warn({
-                  method: "AwakeAiETDPortService.getAwakeAiTimestamps",
-                  message: `ETD prediction event time in the past, IMO: ${schedule.ship.imo}, MMSI: ${schedule.ship.mmsi}, prediction: ${JSON.stringify(
-                    etdPrediction,
-                  )}`,
-                });
-                return false;
-              }
-              return true;
-            })
-            // filter out predictions originating from digitraffic portcall api
-            .filter((etdPrediction) => {
-              if (isDigitrafficEtdPrediction(etdPrediction)) {
-                logger.warn({
-                  method: "AwakeAiETDPortService.getAwakeAiTimestamps",
-                  message: `received Digitraffic ETD prediction, IMO: ${schedule.ship.imo}, MMSI: ${schedule.ship.mmsi}, prediction: ${JSON.stringify(
-                    etdPrediction,
-                  )}`,
-                });
-                return false;
-              }
-              return true;
-            })
-            .filter(
-              (etdPrediction) =>
-                etdPrediction.zoneType === AwakeAiZoneType.BERTH,
-            );
+        .flatMap(
+          skipUnusable((schedule) => {
+            const etdPredictions = schedule.voyage.predictions
+              .filter(isAwakeEtdPrediction)
+              .filter((etdPrediction) => {
+                if (this.departureTimeInThePast(etdPrediction.departureTime)) {
+                  logger.warn({
+                    method: "AwakeAiETDPortService.getAwakeAiTimestamps",
+                    message: `ETD prediction event time in the past, IMO: ${schedule.ship.imo}, MMSI: ${schedule.ship.mmsi}, prediction: ${JSON.stringify(
+                      etdPrediction,
+                    )}`,
+                  });
+                  return false;
+                }
+                return true;
+              })
+              // filter out predictions originating from digitraffic portcall api
+              .filter((etdPrediction) => {
+                if (isDigitrafficEtdPrediction(etdPrediction)) {
+                  logger.warn({
+                    method: "AwakeAiETDPortService.getAwakeAiTimestamps",
+                    message: `received Digitraffic ETD prediction, IMO: ${schedule.ship.imo}, MMSI: ${schedule.ship.mmsi}, prediction: ${JSON.stringify(
+                      etdPrediction,
+                    )}`,
+                  });
+                  return false;
+                }
+                return true;
+              })
+              .filter(
+                (etdPrediction) =>
+                  etdPrediction.zoneType === AwakeAiZoneType.BERTH,
+              );
 
-          return etdPredictions.map((etdPrediction) => {
-            return etdPredictionToTimestamp(
-              etdPrediction,
-              EventSource.AWAKE_AI_PRED,
-              locode,
-              schedule.ship.mmsi,
-              schedule.ship.imo,
-              undefined,
-              undefined,
-            );
-          });
-        })
+            return etdPredictions.map((etdPrediction) => {
+              return etdPredictionToTimestamp(
+                etdPrediction,
+                EventSource.AWAKE_AI_PRED,
+                locode,
+                schedule.ship.mmsi,
+                schedule.ship.imo,
+                undefined,
+                undefined,
+              );
+            });
+          }),
+        )
         .filter((ts): ts is ApiTimestamp => !!ts)
     );
   }
-- 
2.43.0


From e2e45e7f27284787871657e9a4d2ad9c5480dff8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:39 +0000
Subject: [PATCH 62/89] fix: prediction without time does not keep back the
 other predictions of the voyage

---
 marine/portactivity/src/service/awake-ai-eta-port.ts | 2 ++
 marine/portactivity/src/service/awake-ai-etd-port.ts | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marine/portactivity/src/service/awake-ai-eta-port.ts b/marine/portactivity/src/service/awake-ai-eta-port.ts
index 3e406be..77f98fc 100644
--- a/marine/portactivity/src/service/awake-ai-eta-port.ts
+++ b/marine/portactivity/src/service/awake-ai-eta-port.ts
@@ -32,7 +32,9 @@ export class AwakeAiETAPortService {
   private validateArrivalTime(
     etaPrediction: AwakeAiVoyageEtaPrediction,
   ): boolean {
+    // a missing arrival time is reported when converting the prediction
     if (
+      etaPrediction.arrivalTime &&
       isBefore(parseISO(etaPrediction.arrivalTime), addHours(Date.now(), 24))
     ) {
       logger.warn({
diff --git a/marine/portactivity/src/service/awake-ai-etd-port.ts b/marine/portactivity/src/service/awake-ai-etd-port.ts
index e4aa675..5e7b0ee 100644
--- a/marine/portactivity/src/service/awake-ai-etd-port.ts
+++ b/marine/portactivity/src/service/awake-ai-etd-port.ts
@@ -22,8 +22,9 @@ export class AwakeAiETDPortService {
     this.oAuthTokenApi = oAuthTokenApi;
   }
 
-  private departureTimeInThePast(date: string): boolean {
-    return isBefore(parseISO(date), Date.now());
+  private departureTimeInThePast(date: string | undefined): boolean {
+    // a missing departure time is reported when converting the prediction
+    return !!date && isBefore(parseISO(date), Date.now());
   }
 
   async getAwakeAiTimestamps(locode: string): Promise<ApiTimestamp[]> {
-- 
2.43.0


From 83937cbc87b9a2c8a7c246fea37106ca3722096f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:28:53 +0000
Subject: [PATCH 63/89] fix: message of the Awake.AI event service that can't
 be parsed does not end the process

---
 marine/portactivity/src/api/awake-ai-atx.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/api/awake-ai-atx.ts b/marine/portactivity/src/api/awake-ai-atx.ts
index bfdad1b..5768906 100644
--- a/marine/portactivity/src/api/awake-ai-atx.ts
+++ b/marine/portactivity/src/api/awake-ai-atx.ts
@@ -160,7 +160,14 @@ export class AwakeAiATXApi {
     const atxs: AwakeAIATXTimestampMessage[] = [];
 
     webSocket.on("message", (messageRaw: string) => {
-      const message = JSON.parse(messageRaw) as unknown as AwakeAiATXMessage;
+      let message: AwakeAiATXMessage;
+      try {
+        message = JSON.parse(messageRaw) as unknown as AwakeAiATXMessage;
+      } catch (error) {
+        // an exception in the listener would end the whole process
+        logException(logger, error);
+        return;
+      }
 
       switch (message.msgType) {
         case AwakeAiATXEventType.SUBSCRIPTION_STATUS: {
-- 
2.43.0


From a60fc79e66eb6b1966a33e3a8ef7cabc0d3f321e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:29:07 +0000
Subject: [PATCH 64/89] fix: Awake.AI events received before the connection
 breaks off are not lost

---
 marine/portactivity/src/api/awake-ai-atx.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/api/awake-ai-atx.ts b/marine/portactivity/src/api/awake-ai-atx.ts
index 5768906..c46396b 100644
--- a/marine/portactivity/src/api/awake-ai-atx.ts
+++ b/marine/portactivity/src/api/awake-ai-atx.ts
@@ -221,7 +221,12 @@ export class AwakeAiATXApi {
     return new Promise((resolve, reject) => {
       webSocket.on("error", (error) => {
         logException(logger, error);
-        reject("Error");
+        if (atxs.length) {
+          // events are not sent again, don't lose those received before the error
+          resolve(atxs);
+        } else {
+          reject("Error");
+        }
       });
       setTimeout(() => {
         webSocket.close();
-- 
2.43.0


From 245bf21cc819fbfcbcafdea763436bee4b339453 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:29:24 +0000
Subject: [PATCH 65/89] fix: unusable answer for a ship does not keep back the
 estimates of the other ships

---
 marine/portactivity/src/service/awake-ai-eta-ship.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/service/awake-ai-eta-ship.ts b/marine/portactivity/src/service/awake-ai-eta-ship.ts
index 82959a0..60f962e 100644
--- a/marine/portactivity/src/service/awake-ai-eta-ship.ts
+++ b/marine/portactivity/src/service/awake-ai-eta-ship.ts
@@ -25,6 +25,7 @@ import {
   isAwakeEtaPrediction,
   isDigitrafficEtaPrediction,
 } from "./awake-ai-etx-helper.js";
+import { skipUnusable } from "./skip-unusable.js";
 
 interface AwakeAiETAResponseAndShip {
   readonly response: AwakeAiShipApiResponse;
@@ -67,6 +68,9 @@ export class AwakeAiETAShipService {
   }
 
   getAwakeAiTimestamps(ships: DbETAShip[]): Promise<ApiTimestamp[]> {
+    const toTimeStamps = skipUnusable((resp: AwakeAiETAResponseAndShip) =>
+      this.toTimeStamps(resp),
+    );
     return Promise.allSettled(
       ships.map(this.getAwakeAiTimestamp.bind(this)),
     ).then((responses) =>
@@ -79,7 +83,7 @@ export class AwakeAiETAShipService {
           method: "AwakeAiETAShipService.getAwakeAiTimestamps",
           message: `Received ETA response: ${JSON.stringify(val)}`,
         });
-        const timestamps = this.toTimeStamps(val);
+        const timestamps = toTimeStamps(val);
 
         // ETA timestamps from VTS A sources must also be published as ETB timestamps
         // for the moment only timestamps related to specific ports may be published as ETB in production
-- 
2.43.0


From 5f15c6901881d8c2ecabbcd6073da71fbc0a2c3c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 66/89] fix: failed update of one plan or station file does not
 keep back the other file

---
 .../src/lambda/update-plans/update-plans.ts   | 60 ++++++++++++-------
 .../update-lam-stations.ts                    | 24 +++++---
 2 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/rail/yearly-plans/src/lambda/update-plans/update-plans.ts b/rail/yearly-plans/src/lambda/update-plans/update-plans.ts
index 73e2af7..41f8328 100644
--- a/rail/yearly-plans/src/lambda/update-plans/update-plans.ts
+++ b/rail/yearly-plans/src/lambda/update-plans/update-plans.ts
@@ -1,6 +1,7 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import type { GenericSecret } from "@digitraffic/common/dist/aws/runtime/secrets/secret";
 import { SecretHolder } from "@digitraffic/common/dist/aws/runtime/secrets/secret-holder";
+import { logException } from "@digitraffic/common/dist/utils/logging";
 import { getEnvVariable } from "@digitraffic/common/dist/utils/utils";
 import { Ajv } from "ajv";
 import addFormats from "ajv-formats";
@@ -49,32 +50,41 @@ export const handler = async (): Promise<void> => {
   try {
     const secret = await secretHolder.get();
 
-    const yearlyPlansData = await fetchData(
-      `${secret.url}/yearly-plan`,
-      secret.apiKey,
-    );
-
-    if (!validateYearlyPlans(yearlyPlansData)) {
-      logger.error({
-        method: "YearlyPlans.handler",
-        message: "Error validating yearly-plans data",
-        customErrors: JSON.stringify(validateYearlyPlans.errors),
+    // a failure in the yearly plans must not keep back the project plans
+    let yearlyPlansError: unknown;
+    try {
+      const yearlyPlansData = await fetchData(
+        `${secret.url}/yearly-plan`,
+        secret.apiKey,
+      );
+
+      if (!validateYearlyPlans(yearlyPlansData)) {
+        logger.error({
+          method: "YearlyPlans.handler",
+          message: "Error validating yearly-plans data",
+          customErrors: JSON.stringify(validateYearlyPlans.errors),
+        });
+        throw new Error(
+          "Yearly plans validation failed. See logs for details.",
+        );
+      }
+
+      const yearlyPlansDataString = JSON.stringify(yearlyPlansData, null, 2);
+      const yearlyPlansS3Key = await uploadDataToS3(
+        yearlyPlansBucketName,
+        yearlyPlansDataString,
+        "yearly-plans",
+      );
+
+      logger.info({
+        method: "UpdatePlans.handler",
+        message: `Successfully uploaded ${yearlyPlansS3Key}`,
       });
-      throw new Error("Yearly plans validation failed. See logs for details.");
+    } catch (error) {
+      logException(logger, error);
+      yearlyPlansError = error;
     }
 
-    const yearlyPlansDataString = JSON.stringify(yearlyPlansData, null, 2);
-    const yearlyPlansS3Key = await uploadDataToS3(
-      yearlyPlansBucketName,
-      yearlyPlansDataString,
-      "yearly-plans",
-    );
-
-    logger.info({
-      method: "UpdatePlans.handler",
-      message: `Successfully uploaded ${yearlyPlansS3Key}`,
-    });
-
     const projectPlansData = await fetchData(
       `${secret.url}/project-plan`,
       secret.apiKey,
@@ -100,6 +110,10 @@ export const handler = async (): Promise<void> => {
       method: "UpdatePlans.handler",
       message: `Successfully uploaded ${projectPlansS3Key}`,
     });
+
+    if (yearlyPlansError) {
+      throw yearlyPlansError;
+    }
   } finally {
     logger.info({
       method: "UpdatePlans.handler",
diff --git a/road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts b/road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts
index ca725ed..86a5c08 100644
--- a/road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts
+++ b/road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts
@@ -14,13 +14,19 @@ export const handler = async (): Promise<void> => {
 
   const secret = await secretHolder.get();
 
-  // Update piste-data
-  await handleMetadataUpdate(
-    secret.pisteUrl,
-    secret.snowflakeApikey,
-    bucketName,
-    "pisteet.json",
-  );
+  // Update piste-data; a failure must not keep back the pistejoukko-data
+  let pisteFailed = false;
+  try {
+    await handleMetadataUpdate(
+      secret.pisteUrl,
+      secret.snowflakeApikey,
+      bucketName,
+      "pisteet.json",
+    );
+  } catch {
+    // already logged
+    pisteFailed = true;
+  }
 
   // Update pistejoukko-data
   await handleMetadataUpdate(
@@ -30,6 +36,10 @@ export const handler = async (): Promise<void> => {
     "pistejoukot.json",
   );
 
+  if (pisteFailed) {
+    throw new Error("update of pisteet.json failed");
+  }
+
   logger.info({
     method: "TmsHistory.updateLamStations",
     tookMs: Date.now() - start,
-- 
2.43.0


From 5c66ebc71e2d00b7e46f962b72bb75a039fe312e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:37:45 +0000
Subject: [PATCH 67/89] fix: answer that is not JSON does not replace the
 published station file

---
 road/lam-history/src/service/update.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/road/lam-history/src/service/update.ts b/road/lam-history/src/service/update.ts
index f11b1e5..49855da 100644
--- a/road/lam-history/src/service/update.ts
+++ b/road/lam-history/src/service/update.ts
@@ -79,7 +79,10 @@ async function getFromServer(url: string, apikey: string): Promise<string> {
       });
       return Promise.reject();
     }
-    return await result.text();
+    const text = await result.text();
+    // anything but JSON (e.g. an error page or a cut off answer) must not replace the published file
+    JSON.parse(text);
+    return text;
   } catch (error) {
     if (error instanceof HTTPError) {
       const response = error.response;
-- 
2.43.0


From 792f9b5e5f384628ed5e7c642a08861dcd52fcaf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 04:43:52 +0000
Subject: [PATCH 68/89] fix: failed train list does not publish an empty train
 location archive

---
 .../src/lambda/dump-train-locations/dump-train-locations.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py b/rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py
index fc6a951..6e59ab1 100644
--- a/rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py
+++ b/rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py
@@ -37,6 +37,7 @@ def getTrainNumbers(departureDate):
     logger.info('Fetching train numbers', departure_date=str(departureDate))
     r = requests.get(f'https://rata.digitraffic.fi/api/v1/trains/{departureDate}', headers=HEADERS)
     logger.info('Trains response', status=r.status_code, length=len(r.content))
+    r.raise_for_status()
     trains = r.json()
 
     trainNumbers = [train['trainNumber'] for train in trains]
-- 
2.43.0


From 65e406f4fdbf1063eeddc1035bd717cf72e3a1d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 69/89] fix: request parameters are escaped to valid JSON and
 do not override each other

---
 .../src/aws/infra/api/integration.ts          | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..369d355 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,16 @@ interface ApiParameter {
   name: string;
 }
 
+/**
+ * escapeJavaScript escapes also single quotes, which is not allowed in JSON, so they must be turned back.
+ */
+function escapeForJson(expression: string): string {
+  return `$util.escapeJavaScript(${expression}).replaceAll("\\\\'", "'")`;
+}
+
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+    #if( ! ($paramName.startsWith("_") || $paramMap.containsKey("_$paramName") || $paramMap.containsKey($paramName)))
+        #set($tmp = $paramMap.put(${escapeForJson("$paramName")}, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
@@ -177,7 +184,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -186,15 +193,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -213,7 +220,7 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 #if( $paramName.substring(0, 1) != '_')
     "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From 75f3c9f12a67b072d57906b5c54162af06855c6f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:05:05 +0000
Subject: [PATCH 70/89] fix: passing only the body of the request uses the
 request template

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 369d355..caa2a28 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -153,7 +153,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From 4f1476577052cbdd8a9e01d3d4aa0d4ef75ead8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 71/89] fix: failed lambda is not answered as 200 OK

---
 lib/digitraffic-common/src/aws/infra/api/response.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 5232f12..5dd5bba 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -16,6 +16,9 @@ import { MediaType } from "../../types/mediatypes.js";
  * It will always return the body and status, but if status in something else than 200 OK the content-type
  * will be overridden to text/plain. (it's assumed, that lambda will return error text).
  *
+ * If the lambda fails (throws an error, times out or crashes) there is no status, as API Gateway gives the error
+ * document of the lambda instead of the response.  This must not be returned as 200 OK.
+ *
  * Body content must be base64-encoded! use LambdaResponse for this! This way you can also return
  * non-textual content.
  *
@@ -23,7 +26,10 @@ import { MediaType } from "../../types/mediatypes.js";
  * If timestamp is set, then ETag & Last-Modified headers will be set
  */
 export const RESPONSE_DEFAULT_LAMBDA = `#set($inputRoot = $input.path('$'))##
-#if ($inputRoot.status != 200)##
+#if ("$!inputRoot.status" == "")##
+#set ($context.responseOverride.status = 500)##
+#set ($context.responseOverride.header.Content-Type = 'text/plain')##
+#elseif ($inputRoot.status != 200)##
 #set ($context.responseOverride.status = $inputRoot.status)##
 #set ($context.responseOverride.header.Content-Type = 'text/plain')##
 #end##
@@ -38,7 +44,7 @@ export const RESPONSE_DEFAULT_LAMBDA = `#set($inputRoot = $input.path('$'))##
 #set ($disposition = 'attachment; filename="FN"')##
 #set ($context.responseOverride.header.Content-Disposition = $disposition.replaceAll('FN', $inputRoot.fileName))##
 #end##
-$util.base64Decode($inputRoot.body)`;
+#if ("$!inputRoot.status" != "")$util.base64Decode($inputRoot.body)#{else}Internal Error#end`;
 
 /**
  * Use this for deprecated integrations.
-- 
2.43.0


From 0034d2764b86f0e981ad22a39e4427033c20ef70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 72/89] fix: headers of deprecated response do not add
 whitespace to the body

---
 .../src/aws/infra/api/response.ts             | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/response.ts b/lib/digitraffic-common/src/aws/infra/api/response.ts
index 5dd5bba..db64f35 100644
--- a/lib/digitraffic-common/src/aws/infra/api/response.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/response.ts
@@ -56,15 +56,16 @@ export const RESPONSE_DEFAULT_LAMBDA = `#set($inputRoot = $input.path('$'))##
  */
 
 export const getDeprecatedDefaultLambdaResponse = (sunset?: string): string => {
-  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')
-    ${
-      sunset
-        ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
-            sunset,
-          ).toUTCString()}')`
-        : ""
-    }`;
-  return RESPONSE_DEFAULT_LAMBDA.concat(setDeprecationHeaders);
+  const setDeprecationHeaders = `#set ($context.responseOverride.header.Deprecation = 'true')##
+${
+  sunset
+    ? `#set ($context.responseOverride.header.Sunset = '${dateFromIsoString(
+        sunset,
+      ).toUTCString()}')##
+`
+    : ""
+}`;
+  return setDeprecationHeaders.concat(RESPONSE_DEFAULT_LAMBDA);
 };
 
 const BODY_FROM_INPUT_PATH = "$input.path('$').body";
-- 
2.43.0


From 1b8009407428f86f59b2599f495cd7b2ed87ba24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:11:02 +0000
Subject: [PATCH 73/89] fix: failed sea state update, such as a timeout, is not
 answered as 200 OK

---
 marine/sea-state-estimate/src/integration-api.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/marine/sea-state-estimate/src/integration-api.ts b/marine/sea-state-estimate/src/integration-api.ts
index a0c51eb..6402fbb 100644
--- a/marine/sea-state-estimate/src/integration-api.ts
+++ b/marine/sea-state-estimate/src/integration-api.ts
@@ -10,10 +10,7 @@ import {
 import { FunctionBuilder } from "@digitraffic/common/dist/aws/infra/stack/dt-function";
 import { DigitrafficRestApi } from "@digitraffic/common/dist/aws/infra/stack/rest-api";
 import type { DigitrafficStack } from "@digitraffic/common/dist/aws/infra/stack/stack";
-import {
-  BAD_REQUEST_MESSAGE,
-  ERROR_MESSAGE,
-} from "@digitraffic/common/dist/aws/types/errors";
+import { BAD_REQUEST_MESSAGE } from "@digitraffic/common/dist/aws/types/errors";
 import { MediaType } from "@digitraffic/common/dist/aws/types/mediatypes";
 import {
   addDefaultValidator,
@@ -86,7 +83,8 @@ const RESPONSE_400_BAD_REQUEST: IntegrationResponse = {
 
 const RESPONSE_500_SERVER_ERROR: IntegrationResponse = {
   statusCode: "500",
-  selectionPattern: `.*${ERROR_MESSAGE}.*`,
+  // all other errors, also those that are not from the handler, such as timeouts
+  selectionPattern: `(?!.*${BAD_REQUEST_MESSAGE})(.|\\n)+`,
   responseTemplates: {
     "application/json":
       '{ "message" : "Internal server error. $util.parseJson($input.path(\'$.errorMessage\')).errorMessage" }',
-- 
2.43.0


From fdf6f28c5c43967362db5dfd3714e98942ecdb2d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 74/89] fix: broken OpenSearch response does not hang the
 update of monitors

---
 other/opensearch-monitors/src/api/opensearch.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 45d58e0..269526e 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -112,7 +112,9 @@ export class OpenSearch {
     }
 
     let responseBody = "";
-    await new Promise((resolve) => {
+    await new Promise((resolve, reject) => {
+      response.body.on("error", reject);
+
       response.body.on("data", (chunk: string) => {
         responseBody += chunk;
       });
-- 
2.43.0


From ffe84b149b73fef70e9dfa2206188cff886835b4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:18:38 +0000
Subject: [PATCH 75/89] fix: monitors are not reported as updated when outdated
 ones remain

---
 .../opensearch-monitors/src/api/opensearch.ts | 30 +++++++++++++++++--
 .../src/lambda/update-os-monitors.ts          |  4 +--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 269526e..aca8d2d 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -165,7 +165,8 @@ export class OpenSearch {
     );
   }
 
-  async deleteAllMonitors(): Promise<void> {
+  /** Returns the monitors that were there before deleting. */
+  async deleteAllMonitors(): Promise<MonitorNameAndId[]> {
     const monitors = await this.getAllMonitors();
 
     logger.info({
@@ -176,6 +177,8 @@ export class OpenSearch {
     await Promise.allSettled(
       monitors.map(async (monitor) => this.deleteMonitor(monitor)),
     );
+
+    return monitors;
   }
 
   async addMonitors(monitors: OSMonitor[]): Promise<void> {
@@ -208,8 +211,31 @@ export class OpenSearch {
     );
   }
 
-  async checkMonitorsUptodate(expectedMonitors: OSMonitor[]): Promise<void> {
+  async checkMonitorsUptodate(
+    expectedMonitors: OSMonitor[],
+    deletedMonitors: MonitorNameAndId[],
+  ): Promise<void> {
     const currentMonitors = await this.getAllMonitors();
+
+    // Monitors that were there before the update are outdated, even if the name is expected
+    const deletedIds = new Set(deletedMonitors.map((m) => m.id));
+    const outdatedMonitors = currentMonitors
+      .filter((m) => deletedIds.has(m.id))
+      .map((m) => m.name);
+
+    if (outdatedMonitors.length > 0) {
+      logger.error({
+        method: "UpdateOsMonitors.checkMonitorsUptodate",
+        message: "Outdated monitors found",
+        customOutdatedMonitors: outdatedMonitors.join(", "),
+      });
+      throw new Error(
+        `UpdateOsMonitors.checkMonitorsUptodate failed. Outdated monitors found: ${outdatedMonitors.join(
+          ", ",
+        )}`,
+      );
+    }
+
     // Build a Set of names from currentMonitors
     const currentNames = new Set(currentMonitors.map((m) => m.name));
     const expectedNames = new Set(expectedMonitors.map((m) => m.name));
diff --git a/other/opensearch-monitors/src/lambda/update-os-monitors.ts b/other/opensearch-monitors/src/lambda/update-os-monitors.ts
index 5539c4d..c0e2d67 100644
--- a/other/opensearch-monitors/src/lambda/update-os-monitors.ts
+++ b/other/opensearch-monitors/src/lambda/update-os-monitors.ts
@@ -62,9 +62,9 @@ export const handler = async (): Promise<void> => {
       const role = await assumeRole(ROLE_ARN);
 
       const os = new OpenSearch(OS_HOST, OS_VPC_ENDPOINT, role);
-      await os.deleteAllMonitors();
+      const deletedMonitors = await os.deleteAllMonitors();
       await os.addMonitors(monitors);
-      await os.checkMonitorsUptodate(monitors);
+      await os.checkMonitorsUptodate(monitors, deletedMonitors);
       await slackApiSuccess.notify(
         `UpdateOsMonitors.checkMonitorsUptodate success: ${monitors.length} monitors added/updated`,
       );
-- 
2.43.0


From 6f708e68c10480ce2359cbe82bc977030be73a77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 76/89] fix: characters split between chunks of OpenSearch
 responses stay intact in monitors

---
 other/opensearch-monitors/src/api/opensearch.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index aca8d2d..8e68b01 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -111,24 +111,25 @@ export class OpenSearch {
       });
     }
 
-    let responseBody = "";
+    // a character can be split between two chunks
+    const chunks: Buffer[] = [];
     await new Promise((resolve, reject) => {
       response.body.on("error", reject);
 
-      response.body.on("data", (chunk: string) => {
-        responseBody += chunk;
+      response.body.on("data", (chunk: Buffer | string) => {
+        chunks.push(Buffer.from(chunk as string));
       });
 
-      response.body.on("end", () => {
-        resolve(responseBody);
-      });
+      response.body.on("end", resolve);
     }).catch((error) => {
       logException(logger, error);
 
       return undefined;
     });
 
-    return JSON.parse(responseBody) as OSMonitorsResponse;
+    return JSON.parse(
+      Buffer.concat(chunks).toString("utf-8"),
+    ) as OSMonitorsResponse;
   }
 
   async getAllMonitors(): Promise<MonitorNameAndId[]> {
-- 
2.43.0


From a4a937a61224cd68800388dcef2241c08f873371 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 77/89] fix: characters split between chunks of OpenSearch
 responses stay intact in key figures

---
 other/os-key-figures/src/api/opensearch.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 667b97b..f675d15 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -105,11 +105,13 @@ export class OpenSearch {
       );
       return;
     }
-    let responseBody = "";
-    response.body.on("data", (chunk: string) => {
-      responseBody += chunk;
+    // a character can be split between two chunks
+    const chunks: Buffer[] = [];
+    response.body.on("data", (chunk: Buffer | string) => {
+      chunks.push(Buffer.from(chunk as string));
     });
     response.body.on("end", () => {
+      const responseBody = Buffer.concat(chunks).toString("utf-8");
       let result: OpenSearchResponse & Parameters<typeof isPartial>[0];
       try {
         result = JSON.parse(responseBody);
-- 
2.43.0


From e870509294d51c157fe13b33f8a21e6f2d62ce2d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:52:07 +0000
Subject: [PATCH 78/89] fix: a ship without a known MMSI is not attached to the
 port call of another such ship

---
 marine/portactivity/src/dao/timestamps.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marine/portactivity/src/dao/timestamps.ts b/marine/portactivity/src/dao/timestamps.ts
index d302609..da690a0 100644
--- a/marine/portactivity/src/dao/timestamps.ts
+++ b/marine/portactivity/src/dao/timestamps.ts
@@ -342,9 +342,9 @@ const FIND_PORTCALL_ID_SQL = `
     JOIN public.port_area_details pac ON pac.port_call_id = pc.port_call_id
     WHERE (
         pc.mmsi = COALESCE(
-            $1,
-            (SELECT DISTINCT FIRST_VALUE(mmsi) OVER (ORDER BY timestamp DESC) FROM public.vessel WHERE imo = $2),
-            (SELECT DISTINCT FIRST_VALUE(mmsi) OVER (ORDER BY port_call_timestamp DESC) FROM public.port_call WHERE imo_lloyds = $2)
+            NULLIF($1, 0),
+            (SELECT DISTINCT FIRST_VALUE(mmsi) OVER (ORDER BY timestamp DESC) FROM public.vessel WHERE imo = $2 AND mmsi > 0),
+            (SELECT DISTINCT FIRST_VALUE(mmsi) OVER (ORDER BY port_call_timestamp DESC) FROM public.port_call WHERE imo_lloyds = $2 AND mmsi > 0)
         )
         OR
         pc.imo_lloyds = COALESCE(
-- 
2.43.0


From 34ba777f17f8f639c6d3fcbd37233cc5116191a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 79/89] fix: OpenAPI parameters with explode are accepted, it
 is a boolean

---
 lib/digitraffic-common/src/types/openapi-schema.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/types/openapi-schema.ts b/lib/digitraffic-common/src/types/openapi-schema.ts
index 9b51058..cbf8924 100644
--- a/lib/digitraffic-common/src/types/openapi-schema.ts
+++ b/lib/digitraffic-common/src/types/openapi-schema.ts
@@ -24,7 +24,7 @@ export const parameterObject = z.object({
       "deepObject",
     ])
     .optional(),
-  explode: z.string().optional(),
+  explode: z.boolean().optional(),
   allowReserved: z.boolean().optional(),
   schema: z.unknown().optional(),
   example: z.unknown().optional(),
-- 
2.43.0


From dd1e1a309e7fe82f97cd1e27cb7c5d895c286570 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:00:45 +0000
Subject: [PATCH 80/89] fix: tags of joined API descriptions are merged by name

---
 other/swagger-joiner/src/swagger-utils.ts | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/other/swagger-joiner/src/swagger-utils.ts b/other/swagger-joiner/src/swagger-utils.ts
index 428e3d5..d404377 100644
--- a/other/swagger-joiner/src/swagger-utils.ts
+++ b/other/swagger-joiner/src/swagger-utils.ts
@@ -79,11 +79,27 @@ export function mergeApiDescriptions(allApis: OpenApiSchema[]): OpenApiSchema {
   }
   // Use the first element as the base, then merge the rest into it
   return allApis.slice(1).reduce<OpenApiSchema>(
-    (acc, curr) => merge(acc, curr),
+    (acc, curr) => {
+      // tags are merged by name, merge would combine them by their position in the list
+      const { tags: currTags, ...rest } = curr;
+      const tags = mergeTags(acc.tags, currTags);
+      return { ...merge(acc, rest), ...(tags && { tags }) };
+    },
     cloneDeep(allApis[0] as OpenApiSchema), // clone to avoid mutating caller's object
   );
 }
 
+function mergeTags(
+  tags: OpenApiSchema["tags"],
+  newTags: OpenApiSchema["tags"],
+): OpenApiSchema["tags"] {
+  if (!tags || !newTags) {
+    return tags ?? newTags;
+  }
+  const newNames = new Set(newTags.map((tag) => tag.name));
+  return [...tags.filter((tag) => !newNames.has(tag.name)), ...newTags];
+}
+
 function methodIsDeprecated(operation: OpenApiOperation): boolean {
   const deprecationTextMatcher = /will be removed/i;
   const summaryMatch =
-- 
2.43.0


From 8076872ac99fc99d9eb4fd5074ee292c180038a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:11:56 +0000
Subject: [PATCH 81/89] fix: statistics pages work whatever names the clients
 have

The names of users, user agents and referers come from the clients. A name such
as "constructor" made the update fail, and one with </script> broke the page or
added scripts to it.
---
 .../src/lambda/create-visualizations.ts       | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 3505acd..3b28e4b 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -68,29 +68,31 @@ function createGraph(
   `;
 }
 
+/** String literal for an inline script; names come from the clients and may contain anything, e.g. tags. */
+function toScriptString(value: string): string {
+  return JSON.stringify(value).replace(/</g, "\\u003c");
+}
+
 function topDataToGraphData(
   data: KeyFigure[],
 ): { values: [Date, number][]; key: string }[] {
-  const output: { [key: string]: [Date, number][] } = {};
+  const output = new Map<string, [Date, number][]>();
   for (const rivi of data) {
     const valueJson = JSON.parse(rivi.value as string) as Record<
       string,
       number
     >;
     for (const [key, value] of Object.entries(valueJson)) {
-      let item = output[key];
-      if (!item) {
-        item = [];
-      }
+      const item = output.get(key) ?? [];
 
       item.push([rivi.from, value]);
-      output[key] = item;
+      output.set(key, item);
     }
   }
 
   const highlightData: { values: [Date, number][]; key: string }[] = [];
 
-  for (const [key, values] of Object.entries(output)) {
+  for (const [key, values] of output) {
     highlightData.push({ key, values });
   }
 
@@ -191,7 +193,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -205,7 +207,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -219,7 +221,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -233,7 +235,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -384,7 +386,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -399,7 +401,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -414,7 +416,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -429,7 +431,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -444,7 +446,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -459,7 +461,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -474,7 +476,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
-- 
2.43.0


From af8364174f12b5070ec6ef6c145ac18b6105751e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 82/89] fix: a filter without a request count does not stop the
 update of statistics pages

---
 .../src/lambda/create-visualizations.ts       | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 3b28e4b..7f2a502 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -276,7 +276,7 @@ async function createDetailPage(filter: string): Promise<string> {
 async function createIndex(): Promise<string> {
   const filters = (await query(
     "select distinct kf_outer.filter as filter, (select kf_inner.value from key_figures kf_inner where kf_inner.filter = kf_outer.filter and kf_inner.name = 'Http req' order by kf_inner.`from` desc limit 1) as filterValue from key_figures kf_outer  order by filterValue desc",
-  )) as { filter: string; filterValue: number }[];
+  )) as { filter: string; filterValue: number | null }[];
   const filterHeader =
     "<table><tr><th>Endpoint</th><th>Requests (last month)</th></tr>";
 
@@ -286,9 +286,7 @@ async function createIndex(): Promise<string> {
   )) {
     roadFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatCount(row.filterValue)}</td></tr>`;
   }
   roadFilterHtml += "</table>";
 
@@ -298,9 +296,7 @@ async function createIndex(): Promise<string> {
   )) {
     railFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatCount(row.filterValue)}</td></tr>`;
   }
   railFilterHtml += "</table>";
 
@@ -310,9 +306,7 @@ async function createIndex(): Promise<string> {
   )) {
     marineFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatCount(row.filterValue)}</td></tr>`;
   }
   marineFilterHtml += "</table>";
 
@@ -322,9 +316,7 @@ async function createIndex(): Promise<string> {
   )) {
     afirFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
-      .toString()
-      .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${formatCount(row.filterValue)}</td></tr>`;
   }
   afirFilterHtml += "</table>";
 
@@ -515,6 +507,10 @@ function base64encodeFilter(filter: string): string {
   return Buffer.from(filter).toString("base64");
 }
 
+function formatCount(count: number | null): string {
+  return (count ?? "").toString().replace(/\B(?=(\d{3})+(?!\d))/g, ",");
+}
+
 function friendlyFilterString(filter: string): string {
   return filter.match('request_uri:"(.*)"')?.[1] ?? filter;
 }
-- 
2.43.0


From ed409e2b48f723063e1a66c35d2eb3ed64396ae0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 83/89] fix: updating the statistics pages recovers from a lost
 database connection

---
 .../src/lambda/create-visualizations.ts          | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 7f2a502..8ce98da 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -25,9 +25,11 @@ const mysqlOpts = {
   database: getEnvVariable("MYSQL_DATABASE"),
 };
 
-const conn = mysql.createConnection(mysqlOpts);
+let conn: mysql.Connection;
 
-const query = util.promisify(conn.query).bind(conn);
+function query(sql: string): Promise<unknown> {
+  return util.promisify(conn.query).bind(conn)(sql);
+}
 
 const BUCKET_NAME = getEnvVariable("BUCKET_NAME");
 
@@ -516,6 +518,16 @@ function friendlyFilterString(filter: string): string {
 }
 
 export async function handler(): Promise<boolean> {
+  // a connection does not survive an error, so each run has its own
+  conn = mysql.createConnection(mysqlOpts);
+  try {
+    return await updatePages();
+  } finally {
+    conn.destroy();
+  }
+}
+
+async function updatePages(): Promise<boolean> {
   const filters = (await query("select distinct filter from key_figures")) as {
     filter: string;
   }[];
-- 
2.43.0


From 9d2337b9df47e30a329c827c1942e34efe0d455b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:20:09 +0000
Subject: [PATCH 84/89] fix: parameters of schedule requests are passed on as
 they are

They were put in the URL unescaped, so that a value could add or change other
parameters.
---
 .../src/lambda/get-schedules/lambda-get-schedules.ts         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
index bccc7fd..a1d9364 100644
--- a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
+++ b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
@@ -70,7 +70,8 @@ function handleQueryParam(
   queryParams: Record<string, string | undefined>,
   params: string[],
 ): void {
-  if (queryParams[param] !== undefined) {
-    params.push(`${param}=${queryParams[param]}`);
+  const value = queryParams[param];
+  if (value !== undefined) {
+    params.push(`${param}=${encodeURIComponent(value)}`);
   }
 }
-- 
2.43.0


From 93da37ed48a851a7ed4408d46adc95487b400bc8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:37:59 +0000
Subject: [PATCH 85/89] fix: requests with an empty Digitraffic-User header are
 limited as those without one

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..6d35395 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches a digitraffic-user -header that is not empty
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                 -> size > 0
+  // header not present or empty    -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From e97dd7d2a59571bddc2aff0c38e632d0661b9183 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:09:48 +0000
Subject: [PATCH 86/89] fix: the key of the history service is not written to
 the log

---
 other/cloudfront/src/lambda/lambda-lam-redirect.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/lambda/lambda-lam-redirect.ts b/other/cloudfront/src/lambda/lambda-lam-redirect.ts
index 25cca39..77542d5 100644
--- a/other/cloudfront/src/lambda/lambda-lam-redirect.ts
+++ b/other/cloudfront/src/lambda/lambda-lam-redirect.ts
@@ -209,7 +209,8 @@ export const handler: CloudFrontRequestHandler = async (
 
     logger.info({
       method: "lambda-lam-redirect.handler",
-      message: `Return request ${JSON.stringify(request)}`,
+      // the origin has the api key of the history service
+      message: `Return request ${JSON.stringify({ ...request, origin: undefined })}`,
     });
 
     return request;
-- 
2.43.0


From 22cc621de5102324c396b3527d1f5c76f4698518 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:09:48 +0000
Subject: [PATCH 87/89] fix: the url of a Slack webhook is not written to the
 log

---
 lib/digitraffic-common/src/utils/slack.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/slack.ts b/lib/digitraffic-common/src/utils/slack.ts
index 27df02c..d873dc4 100644
--- a/lib/digitraffic-common/src/utils/slack.ts
+++ b/lib/digitraffic-common/src/utils/slack.ts
@@ -1,6 +1,5 @@
-import ky from "ky";
+import ky, { HTTPError } from "ky";
 import { logger } from "../aws/runtime/dt-logger-default.js";
-import { logException } from "./logging.js";
 
 export class SlackApi {
   private readonly url: string;
@@ -20,7 +19,15 @@ export class SlackApi {
         json: { text: text },
       });
     } catch (error) {
-      logException(logger, error);
+      // the message of the error has the url of the webhook, which is a secret
+      const name = error instanceof Error ? error.name : typeof error;
+      const status =
+        error instanceof HTTPError ? ` ${error.response.status}` : "";
+
+      logger.error({
+        method: "SlackApi.notify",
+        message: `Sending slack notification failed: ${name}${status}`,
+      });
     }
   }
 }
-- 
2.43.0


From 12491f0b58a4e08906308dbe9352b7063c0125be Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:10:37 +0000
Subject: [PATCH 88/89] fix: values that are not valid json can be logged

---
 .../src/aws/runtime/dt-logger.ts              | 33 ++++++++++++++++---
 lib/digitraffic-common/src/utils/logging.ts   |  4 +--
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..a6e8e64 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -1,4 +1,5 @@
 import type { Writable } from "node:stream";
+import { inspect } from "node:util";
 import { lowerFirst, mapKeys } from "es-toolkit";
 import { getEnvVariableOrElse } from "../../utils/utils.js";
 
@@ -115,7 +116,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${stringify(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +178,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : stringify(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +199,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${stringify(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -235,11 +236,33 @@ function valueToString(value: unknown): string {
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    return Number.isNaN(value.getTime()) ? "Invalid Date" : value.toISOString();
+  } else if (typeof value === "bigint") {
+    return value.toString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return stringify(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
   return value;
 }
+
+/**
+ * Logging must not fail, so values that are not valid json are logged in the form they are shown by node.
+ */
+export function stringify(value: unknown): string {
+  try {
+    return JSON.stringify(value, (_key, v: unknown) =>
+      typeof v === "bigint" ? v.toString() : v,
+    );
+  } catch {
+    return JSON.stringify(
+      Object.fromEntries(
+        Object.entries(value as object).map(([key, v]) => [
+          key,
+          typeof v === "string" ? v : inspect(v),
+        ]),
+      ),
+    );
+  }
+}
diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..cecc8a1 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -1,4 +1,4 @@
-import { DtLogger } from "../aws/runtime/dt-logger.js";
+import { DtLogger, stringify } from "../aws/runtime/dt-logger.js";
 import { getEnvVariableOrElse } from "./utils.js";
 
 const functionName = getEnvVariableOrElse("AWS_LAMBDA_FUNCTION_NAME", "test");
@@ -54,7 +54,7 @@ export function logException(
       ? error.message
       : typeof error === "string"
         ? error
-        : JSON.stringify(error);
+        : stringify(error);
 
   const stack =
     error instanceof Error && includeStack ? error.stack : undefined;
-- 
2.43.0


From 2fe777f36492c2dd719503fb54e7a8c65c3d8fda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 07:42:37 +0000
Subject: [PATCH 89/89] fix: the tokens of a marinecam user's session are not
 written to the log

---
 marine/marinecam/src/lambda/authorizer/cognito_backend.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index ec94de9..5b94a9e 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -79,7 +79,6 @@ function changeUserPassword(
       logger.info({
         method: "CognitoBackend.changeUserPassword",
         message: "success",
-        customDetails: JSON.stringify(result),
       });
 
       resolve(result);
-- 
2.43.0

