// Source of properties.jsonl and MANIFEST.json: `node tools/gen.mjs` regenerates both.
export const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, o = {}) =>
  P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, ...(o.state ? { state: o.state } : {}), mechanism, observe_at: o.observe ?? [], hook_needed: null } });
const m = (name, where) => ({ name, where });
const st = (name, meaning, where) => ({ name, meaning, where });
const LIB = "lib/digitraffic-common/src";

p("L01", "Retry helpers start the operation exactly as often and as late as promised",
  "A retried operation is started at most once plus the given number of retries, never again after it has succeeded, and never while an earlier attempt is still running unless that attempt exceeded the 30-minute limit; the first success is returned, and the call is rejected when attempts run out or the predicate declines the error. Before the k-th retry the caller's back-off for k has passed, independently of other retried calls in the same process. A retry count that is not finite or exceeds 100 is rejected without starting the operation, and the HTTP helper retries up to five times with waits of 2, 4, 8, 16 and 32 seconds and only on HTTP errors 403 and 429.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of attempt durations and outcomes, every retry count, back-off and predicate, and any number of overlapping calls",
  "Unit tests sample a few attempt sequences with real or zero delays; they never run the 30-minute limit, overlapping calls or back-off timing.",
  [`${LIB}/utils/retry.ts`], [m("retry loop with back-off, predicate and time limit", `${LIB}/utils/retry.ts`)],
  { observe: ["start and settle times of the operation on the virtual clock"] });

p("L02", "Database helpers: atomic transactions, faithful errors, no leaked connections",
  "A transaction run through the shared database helpers is all-or-nothing at the server whatever fails and whenever the process dies, and it is committed whenever the helper reports success. An error thrown by the caller's work reaches the caller unchanged, and once a call has settled it holds no database connection, whether it succeeded or failed. Each call discards leftover session state before its first query, read-only calls go to the read-only endpoint and all others to the writer, and 64-bit and numeric columns arrive as numbers (and NULLs as undefined exactly where asked for).",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of concurrent calls from several processes, every connection, statement or commit failure, and a crash at any step",
  "The unit tests have no database at all for these helpers; none injects connection loss or crashes.",
  [`${LIB}/database/database.ts`], [m("per-call pool, DISCARD ALL, finally-close", `${LIB}/database/database.ts`), m("transaction wrapper", `${LIB}/database/database.ts`)],
  { state: [st("committed rows", "what other sessions see", "simulated PostgreSQL"), st("open sessions", "connections held", "simulated PostgreSQL")], observe: ["server-side sessions and committed rows"] });

p("L03", "Cached secrets are never stale beyond five minutes, nor fetched needlessly",
  "A secret handed out by a secret holder, and the database credentials set from one, equal the content the secret store had at some moment within the last five minutes before the request (plus one fetch), restricted to the requested prefix. A holder that fetched successfully does not fetch again within five minutes; a failed fetch is reported to that caller and the next request tries again. When an expected key is missing the request fails instead of returning an incomplete secret.",
  ["schedules", "fault_sequences", "histories"], "every history of rotations, requests, process freezes and restarts, slow and failing fetches",
  "Tests check one fetch and one cached read with a mocked clock; expiry races, rotation and failing refreshes are not reached.",
  [`${LIB}/aws/runtime/secrets/secret-holder.ts`, `${LIB}/aws/runtime/secrets/proxy-holder.ts`, `${LIB}/aws/runtime/secrets/rds-holder.ts`, `${LIB}/aws/runtime/secrets/secret.ts`, `${LIB}/aws/runtime/secrets/dbsecret.ts`],
  [m("expiry check before each use", `${LIB}/aws/runtime/secrets/secret-holder.ts`), m("expected-key check", `${LIB}/aws/runtime/secrets/dbsecret.ts`)],
  { state: [st("cached secret and expiry", "in-process cache", `${LIB}/aws/runtime/secrets/secret-holder.ts`)], observe: ["values returned and requests reaching the secret store"] });

p("L05", "Canaries report success only when every expectation held",
  "A database canary succeeds only if each of its queries was answered with a count inside the limits declared for it, including limits of zero. A URL canary step succeeds only if every check given to it (status, content type, CORS, headers, content of a possibly compressed body) holds for the complete answer. Conversely, with no fault and every expectation met the canary succeeds.",
  ["inputs", "fault_sequences", "schedules"], "every combination of checks, counts and answers, every chunking or interruption of the answer, and database or secret-store faults",
  "The canary code has no unit tests; it only runs inside the monitoring service.",
  [`${LIB}/aws/infra/canaries/database-checker.ts`, `${LIB}/aws/infra/canaries/url-checker.ts`],
  [m("count limits", `${LIB}/aws/infra/canaries/database-checker.ts`), m("step callbacks", `${LIB}/aws/infra/canaries/url-checker.ts`)],
  { observe: ["whether the canary or step rejects"] });

p("D01", "Dead-letter archives keep every message",
  "Every message that reaches a dead-letter queue with an archiving function (the library's dead-letter queue, port activity, maintenance tracking and rail passenger information) is eventually stored, complete and unchanged, as an object of its archive bucket, whatever the message contains. This holds for any number of messages arriving together and through storage outages shorter than the queue's retention: no message overwrites another, and none is dropped because its upload failed.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every message content and burst, every delivery order, duplicate and batch, failing or slow uploads, and a crash at any step of the archiving function",
  "The unit tests only look at the synthesised template; nobody runs the archiving functions against a failing store or several messages in one millisecond.",
  [`${LIB}/aws/infra/sqs-queue.ts`, `${LIB}/aws/infra/sqs-queue-internal.ts`, `${LIB}/aws/runtime/s3.ts`, "marine/portactivity/src/lambda/process-dlq/lambda-process-dlq.ts", "road/maintenance-tracking/src/lambda/process-dlq/process-dlq.ts", "rail/rami/src/lambda/process-dlq/process-dlq.ts"],
  [m("inline archiving function", `${LIB}/aws/infra/sqs-queue.ts`), m("upload helper", `${LIB}/aws/runtime/s3.ts`)], { observe: ["objects of the archive bucket", "messages left in the queue"] });

const PA = "marine/portactivity/src";
p("P01", "Port activity: a queued timestamp is saved once, dropped if invalid, or archived",
  "Every valid port call timestamp put on the queue ends up stored exactly once with the content of its message (ship identifiers and the port call completed from known data), or, if it could not be processed within its deliveries, archived as a dead letter; it is never lost and never stored twice. A timestamp that names no port call belongs to the port call of that ship, known by the identifiers it gives and by the latest ones known for them, in that port whose time of the same kind (still ahead for estimates, past for actual times) is nearest to its own; an identifier of zero is unknown and identifies nobody. Invalid or unidentifiable timestamps are dropped without being stored and without retry or failure of their batch, and messages that cannot be processed at all are archived; when nothing fails, every valid timestamp is stored, whatever other messages share its batch.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every mix of messages and batching, every set of known ships and port calls, duplicated and reordered deliveries, concurrent function instances, database and secret-store failures, timeouts and a crash at any step",
  "The unit tests save single timestamps without failures; redelivery, partial batches, crashes and concurrent instances are not exercised.",
  [`${PA}/lambda/process-queue/process-queue.ts`, `${PA}/service/timestamps.ts`, `${PA}/dao/timestamps.ts`, "marine/portactivity/src/queue.ts"],
  [m("partial batch failure reporting", `${PA}/lambda/process-queue/process-queue.ts`), m("redrive and concurrency settings", "marine/portactivity/src/queue.ts"), m("conflict target of the insert", `${PA}/dao/timestamps.ts`)],
  { state: [st("stored timestamps", "rows of port_call_timestamp", "simulated PostgreSQL")], observe: ["stored rows, archived objects, queue contents"] });

p("P02", "Port activity: a new port replaces a port call's Portnet timestamps atomically",
  "When a Portnet timestamp of a port call is stored, no Portnet timestamp that the same port call had for another port before that transaction began remains. Portnet timestamps are removed only in exchange for such a newer one, in the same transaction, so a port call never loses them to a failure or crash. Timestamps of other sources and of other port calls are never removed by it.",
  ["schedules", "crash_points", "fault_sequences"], "every order and concurrency of messages for the same and different port calls, database failures and a crash at any step",
  "Tests save one timestamp after another on a healthy database; atomicity under failure and concurrent instances is not tested.",
  [`${PA}/service/timestamps.ts`, `${PA}/dao/timestamps.ts`], [m("removal and insert in one transaction", `${PA}/service/timestamps.ts`)],
  { state: [st("stored timestamps", "rows of port_call_timestamp", "simulated PostgreSQL")], observe: ["each commit of the simulated database", "final rows"] });

p("P03", "Port activity: pilotages mirror their source and each change is sent on",
  "After any history of source changes, failures and crashes, the first run that succeeds leaves the stored unfinished pilotages equal to those the source lists, with the source's content, and every pilotage in its latest state for which a port call is given, or whose ship has a port call of the last 36 hours in a port it goes between, has had its timestamp sent to the queue with such a port call and the ports of its route. Stored pilotages that the source no longer lists, unless they had finished, are removed together with their timestamps, while timestamps of other sources are kept. Pilotages that have not changed are not sent again after a successful run.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of added, changed, finished and removed pilotages, failing, truncated or arbitrarily chunked answers, database and queue failures, and a crash at any step",
  "Tests run one update against a healthy database; failures between saving, sending and removing are not tested.",
  [`${PA}/lambda/update-timestamps-from-pilotweb/update-timestamps-from-pilotweb.ts`, `${PA}/service/pilotweb.ts`, `${PA}/api/pilotweb.ts`, `${PA}/dao/pilotages.ts`],
  [m("change detection by schedule update time", `${PA}/service/pilotweb.ts`), m("removal of missing pilotages", `${PA}/service/pilotweb.ts`)],
  { state: [st("stored pilotages", "rows of pilotage", "simulated PostgreSQL")], observe: ["stored pilotages and timestamps, messages sent"] });

const MT = "road/maintenance-tracking/src";
p("M01", "Maintenance tracking: an accepted message is stored whole and once, or archived",
  "Each message the upload function answers with 200 ends up either with all of its observations stored, each exactly once whatever is redelivered or repeated in other messages and with the content, sender and sending time of a message that contained it, or archived as a dead letter (a large payload by its reference). No observation is stored that no message contained, messages that are not JSON are refused, and nothing stays in the queues once faults have stopped.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every mix of valid, repeated, overlapping, oversized and malformed messages, duplicated and reordered deliveries, concurrent function instances, database, queue and storage failures and a crash at any step",
  "The unit tests handle one message on a healthy database; redelivery, concurrency, crashes and the dead-letter path are not exercised.",
  [`${MT}/lambda/update-queue/update-queue.ts`, `${MT}/lambda/process-queue/process-queue.ts`, `${MT}/lambda/process-dlq/process-dlq.ts`, `${MT}/service/maintenance-tracking.ts`, `${MT}/dao/maintenance-tracking-dao.ts`],
  [m("observations of a message inserted in one transaction", `${MT}/dao/maintenance-tracking-dao.ts`), m("hash of the observation as conflict target", `${MT}/service/maintenance-tracking.ts`), m("redrive to the dead-letter queue", "road/maintenance-tracking/src/sqs.ts")],
  { state: [st("stored observations", "rows of maintenance_tracking_observation_data", "simulated PostgreSQL")], observe: ["stored rows, archived objects, queue contents, answers to uploads"] });

p("M02", "Maintenance tracking clean-up removes only old trackings nobody needs",
  "The clean-up deletes only trackings that ended more than 26 hours ago. It never deletes the newest tracking of a domain, nor one that a tracking of the last 26 hours names as its previous one, nor does it cut that link, whatever is inserted meanwhile and wherever it fails. A run that succeeds has removed every other tracking that was over 26 hours old when it started, and a run that fails reports it.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every set of trackings with any ages, domains and chains, concurrent inserts and updates, database failures and a crash at any step",
  "There is no test of the clean-up; nobody runs it on chains, equal creation times or a failing database.",
  [`${MT}/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts`, `${MT}/service/maintenance-tracking.ts`, `${MT}/dao/maintenance-tracking-dao.ts`],
  [m("hour by hour deletion down to the limit", `${MT}/service/maintenance-tracking.ts`), m("guards of the delete statement", `${MT}/dao/maintenance-tracking-dao.ts`)],
  { state: [st("trackings", "rows of maintenance_tracking", "simulated PostgreSQL")], observe: ["rows after each commit", "outcome of the function"] });

const WN = "marine/winter-navigation/src";
p("W01", "Winter navigation tables mirror the versioned source; versions never run ahead",
  "A stored data version of a winter navigation table never exceeds what the table holds: whenever a version is committed, the table equals the source at that version, with additions, changes, deletions and restorations applied. After any history of source changes, failures and crashes, the first unhampered run leaves all ten tables equal to the source. A table that a run changed has an update time of that run or later, and a check time is only recorded when the source answered for that table in that run.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of added, changed, deleted and restored objects of all ten types, changes while a run is in progress, failing or truncated answers, database failures and a crash at any step",
  "The unit tests save single objects; nobody runs an update that fails between saving the data and its version, or restores a deleted object.",
  [`${WN}/service/data-updater.ts`, `${WN}/api/ibnet-api.ts`, `${WN}/db/data-version.ts`, `${WN}/db/deleted.ts`, `${WN}/db/port-suspensions.ts`],
  [m("data before version, version last", `${WN}/service/data-updater.ts`), m("upserts by source id and deletion marks", `${WN}/db/deleted.ts`)],
  { state: [st("wn_ tables and wn_data_version", "mirrored objects and the version they stand for", "simulated PostgreSQL")], observe: ["rows at each commit and after each run"] });

p("W02", "Winter navigation answers show one committed state, complete, nothing deleted",
  "Every answer of the location, directed-way and vessel queries of winter navigation equals what some single committed state of the database held during the call: complete, with restrictions, suspensions, queues and activities attached to the right object, and with nothing that the source has deleted. Vessel activities are limited to the requested period, or to the last seven days in the list when none is given. An object that is unknown or deleted is answered with 404, and a call fails only when the database or its secret could not be reached.",
  ["schedules", "fault_sequences", "inputs", "histories"], "every content of the tables with deletions and open-ended periods, updates committed while a call is running, and database and secret-store failures",
  "The unit tests query tables they have just filled; none queries during an update or after deletions of each part of an answer.",
  [`${WN}/service/location-service.ts`, `${WN}/service/vessel-service.ts`, `${WN}/service/dirway-service.ts`, `${WN}/db/locations.ts`, `${WN}/db/vessels.ts`, `${WN}/db/dirways.ts`],
  [m("one statement per answer", `${WN}/db/vessels.ts`), m("deleted filter of each joined table", `${WN}/db/locations.ts`)], { observe: ["answers of the functions"] });

const PC = "marine/port-call/src";
p("V01", "Port call visits follow their source and are announced only when complete",
  "A run of the visit update that meets no failure asks the source for every day from yesterday to 99 days ahead and leaves each visit of that window stored with the source's port, times and status. A stored visit always equals some version the source had, with the update time of that version, and visits are never removed. The visits are only announced as updated (update time of PC2_VISITS) once everything the source had in the window when the run began is stored, whatever fails or crashes in between; the identity of a visit's vessel is taken when it first appears.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of added, changed and moved visits including during a run, failing, slow or truncated answers for any day, database and secret-store failures and a crash at any step",
  "The unit tests save a few visits from a mocked source; the day window, failures of single days and crashes before the announcement are not exercised.",
  [`${PC}/service/visit-service.ts`, `${PC}/api/nemo-api.ts`, `${PC}/db/visits.ts`, `${PC}/lambda/update-visits/update-visits.ts`],
  [m("day loop before the announcement", `${PC}/service/visit-service.ts`), m("upsert of changed visits in one transaction per day", `${PC}/db/visits.ts`)],
  { state: [st("stored visits", "rows of pc2_visit", "simulated PostgreSQL")], observe: ["requests to the source, rows at each commit, update time"] });

const SS = "marine/sea-state-estimate/src";
p("E01", "Sea state reports: one latest report per site, stored once, counted truthfully",
  "At every commit each site that has reports has exactly one that is marked the latest, and it is the one stored last. Every stored report has the content that was sent, is stored at most once, is never removed, and comes with a new update time in the same transaction. The answer to an upload counts every report sent as either saved or failed and never counts a report as saved that is not stored; when nothing fails, exactly the valid reports are stored and counted as saved.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every batch of valid and incomplete reports, several of them for one site, concurrent uploads, database and secret-store failures and a crash at any step",
  "The unit tests store single reports on a healthy database; concurrency, partial failures and the truth of the answer are not exercised.",
  [`${SS}/lambda/update-sse-data/update-sse-data.ts`, `${SS}/service/sse-update-service.ts`, `${SS}/db/sse-db.ts`],
  [m("latest flag moved and report inserted in one transaction", `${SS}/db/sse-db.ts`), m("per-report outcome counting", `${SS}/service/sse-update-service.ts`)],
  { state: [st("reports", "rows of sse_report", "simulated PostgreSQL")], observe: ["rows at each commit", "answers to uploads"] });

const AF = "marine/aton-faults/src";
p("A01", "ATON faults mirror each source atomically, with an honest check time",
  "The faults of a source are stored all together, with the reported content (times read as Finnish time) and in one transaction with the check time, or not at all; faults that are only registered are left out and stored faults are never removed. A check time is recorded only when a source answered completely in that run, and is not later than that answer; a failing source changes nothing and does not keep the other source from being updated. The fault list contains exactly the stored faults that are not fixed or were fixed within the requested hours, with the names of the requested language and the stored check time.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of fault changes including during a run, failing, slow or truncated answers, faults of unknown type, database and secret-store failures and a crash at any step",
  "The unit tests store one fault with a mocked source; failures between faults, failing sources and the time zone of times are not exercised.",
  [`${AF}/service/update-faults.ts`, `${AF}/api/faults.ts`, `${AF}/db/faults.ts`, `${AF}/service/faults.ts`],
  [m("one transaction per source", `${AF}/service/update-faults.ts`), m("age and language of the list", `${AF}/db/faults.ts`)],
  { state: [st("stored faults", "rows of aton_fault", "simulated PostgreSQL")], observe: ["rows at each commit", "answers of the fault list"] });

const SH = "marine/shiplight/src";
p("G01", "Fairway lights are brightened exactly where ships move, once per period",
  "A run that comes to its end has asked the light service to brighten every area in which a ship moves (position at most two minutes old, inside the area, faster than 2 knots, speed available) and whose brightening is unset or ends within a minute, and no other area. A request carries the area's duration, the number and name of a ship moving there, and the visibility measured in this run, or null when that could not be had; an area is recorded as lit, for its duration, only after the light service accepted the request. At most three requests are made per area and run, one area's failure does not keep the others from being tried, and addresses and keys replaced more than six minutes ago are not used.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of ship positions and speeds, of earlier brightenings, of replaced keys, failures of the light and visibility services, database and secret-store failures and a crash at any step",
  "The unit tests run the handler once with mocked services; repeated runs, replaced keys and failures of one of several areas are not exercised.",
  [`${SH}/lambda/update-lights/update-lights.ts`, `${SH}/service/arealights.ts`, `${SH}/service/areatraffic.ts`, `${SH}/db/areatraffic.ts`, `${SH}/api/arealights.ts`, `${SH}/api/areavisibility.ts`],
  [m("end of brightening with one minute of overlap", `${SH}/service/areatraffic.ts`), m("try per area, recorded after acceptance", `${SH}/lambda/update-lights/update-lights.ts`)],
  { state: [st("brightening periods", "brighten_sent and brighten_end of areatraffic", "simulated PostgreSQL")], observe: ["requests to the light service", "rows at each commit"] });

const VS = "road/variable-signs/src";
p("S01", "Variable sign uploads are stored whole or not at all and answered truthfully",
  "An upload of sign messages (datex2), sign data or sign metadata is stored completely and unchanged in one transaction or not at all: messages together with their update time, data with all of its rows, metadata so that exactly the devices of the upload are active, removed ones are marked as deleted and returning ones are active again. An upload answered with 200 has been stored exactly once by that answer. An empty or malformed upload (no XML, not exactly one payload, a situation cut off or without time, cut-off JSON) or one for an unknown device is never answered with 200, stores nothing, and is always answered within the function's time; a valid one is accepted when nothing fails; rows are never removed.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "every sequence of valid, malformed and cut-off uploads, also overlapping, database and secret-store failures and a crash at any step",
  "The unit tests upload single valid messages; cut-off messages, failures in the middle of an upload and overlapping uploads are not exercised.",
  [`${VS}/service/datex2-update-service.ts`, `${VS}/service/json-update-service.ts`, `${VS}/db/datex2.ts`, `${VS}/db/data.ts`, `${VS}/db/metadata.ts`],
  [m("one transaction per upload", `${VS}/service/datex2-update-service.ts`), m("mirroring of devices", `${VS}/service/json-update-service.ts`)],
  { state: [st("sign tables", "rows of device, device_data_datex2, device_data and device_data_row", "simulated PostgreSQL")], observe: ["rows at each commit", "answers to uploads"] });

p("S02", "Variable sign feeds show every active sign's message unchanged",
  "Every answer of the seven datex2 feeds is one document of its kind that contains, in device order, exactly the stored elements of that version and kind of all devices that were not deleted in some single committed state during the call, unchanged except for the namespace prefix added to old elements, and without the situations of test devices whose start falls into a test period. Its publication time and Last-Modified are equal, and are the latest modification of those elements in a state no newer than the one shown. A call fails only when the database or its secret could not be reached.",
  ["schedules", "fault_sequences", "inputs", "histories"], "every content of the messages including characters special to text replacement, deleted and returned devices, test devices and times, uploads committed while a call is running, and database and secret-store failures",
  "The unit tests query a few fixed messages; none contains special characters, and none queries during an upload.",
  [`${VS}/service/variable-signs.ts`, `${VS}/service/filtering-service.ts`, `${VS}/db/datex2.ts`],
  [m("modification time read before the elements", `${VS}/db/datex2.ts`), m("test message filter", `${VS}/service/filtering-service.ts`)], { observe: ["answers of the feeds"] });

const CS = "road/counting-site/src";
p("C01", "Counting data is stored complete and exactly once up to a site's recorded time",
  "At every commit, the stored points of a counting site are exactly the points the source has between where the site started (its time of last data when first seen, or its first stored point) and the site's recorded time of last data: each once, with the source's mode, direction, granularity, time and count, and none later. Sites without a recorded time have no data; one site's failing answer does not keep the others from being stored. A site whose next day is empty is moved on by a day only when it is more than seven days behind; hourly updates bring every site up to date; the data is recorded as updated only when every site that needed data was read and stored; removed sites are not asked for.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of hourly updates over sites with gaps, late data, no data yet and removals, failing sites, source, database and secret-store failures and a crash at any step",
  "The unit tests run one update with one site and a fixed answer; failures between storing data and recording its time, failing sites next to healthy ones and long histories are not exercised.",
  [`${CS}/service/update-service.ts`, `${CS}/api/v2/eco-counter.ts`, `${CS}/dao/data.ts`, `${CS}/dao/site.ts`, `${CS}/lambda/update-data/update-data.ts`],
  [m("data and time in one transaction per site", `${CS}/service/update-service.ts`), m("interval of a day after the last data", `${CS}/api/v2/eco-counter.ts`)],
  { state: [st("counting data", "cs2_data rows", "simulated PostgreSQL"), st("site progress", "cs2_site.last_data_timestamp", "simulated PostgreSQL")], observe: ["requests to the source", "rows at each commit"] });

p("C02", "Counting sites mirror the source, and queries answer with one stored state",
  "A metadata update stores every site of the source's list with its content, marks sites that left the list as removed at that time, keeps that time while they stay away, unmarks returning sites, deletes nothing, and leaves other domains and the sites' data times alone; it is recorded as checked only when the stored sites equal the list, and without failures it always is. Queries for sites, a day's values and a month's CSV return exactly the matching rows of one committed state (values sorted by site, mode, direction and time), with the update time of the newest row; an unknown site gives 404, invalid parameters 400, and a query fails only when something failed.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "every history of site lists with added, changed, removed and returning sites, concurrent queries, source, database and secret-store failures and a crash at any step",
  "The unit tests run one update per case; repeated removal, failures in the middle of an update and queries during one are not exercised.",
  [`${CS}/service/update-service.ts`, `${CS}/service/api-service.ts`, `${CS}/dao/data.ts`, `${CS}/dao/site.ts`, `${CS}/lambda/get-sites/get-sites.ts`, `${CS}/lambda/get-values/get-values.ts`, `${CS}/lambda/get-values-csv/get-values-csv.ts`],
  [m("comparison of the source's list and stored sites", `${CS}/service/update-service.ts`), m("read-only queries", `${CS}/dao/data.ts`)],
  { state: [st("sites", "cs2_site rows", "simulated PostgreSQL"), st("checked time", "data_updated", "simulated PostgreSQL")], observe: ["rows at each commit", "query answers"] });

const NS = "road/maintenance-tracking-municipality/src";
p("N01", "Municipal trackings are the work events, split and continued by the rules",
  "After every commit the stored trackings of each machine are those before the run, or those with exactly the fetched work events handled. Handled means: events without a mapped task and events not later than the machine's latest unfinished tracking are left out; the others are taken in order of time, and a new tracking begins when more than 305 seconds or 520 metres lie between two events, the speed between them is over 80 km/h (beyond 50 m), under 20 km/h (beyond 200 m) or under 5 km/h (beyond 50 m), or when the set of channels changes, in which case the former tracking reaches to the event of the change; each tracking has the start, end, points, tasks and last direction of its events. The latest unfinished tracking of the machine is finished; when the first event continues it, it is extended to that event, and the new tracking is linked to it when the tasks are the same; events are asked for the window from nine to two minutes ago; a channel not seen before becomes an ignored mapping, and no other mapping changes; one machine's failure is counted as an error and does not stop the others; the number of trackings reported as saved is never more than were stored; data is not recorded as checked before the events were read, and trackings are not stored without the contract's time of data.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"], "every history of work events of several machines (gaps, jumps, stops, changes and unmapped channels, repeated events and overlapping windows), source, database and secret-store failures and a crash at any step",
  "The unit tests run one or two updates with events at fixed distances; they never change channels to another set of equal size, nor compare the direction of an extended tracking, nor fail one machine among several.",
  [`${NS}/service/paikannin-update.ts`, `${NS}/service/paikannin-utils.ts`, `${NS}/service/common-update.ts`, `${NS}/service/utils.ts`, `${NS}/dao/data.ts`, `${NS}/api/paikannin.ts`],
  [m("grouping of events", `${NS}/service/paikannin-utils.ts`), m("one transaction per machine", `${NS}/service/common-update.ts`)],
  { state: [st("trackings", "maintenance_tracking and maintenance_tracking_task rows", "simulated PostgreSQL"), st("channel mappings", "maintenance_tracking_domain_task_mapping rows", "simulated PostgreSQL")], observe: ["requests to the source", "rows at each commit", "result of the run"] });

const RS = "rail/rami/src";
p("R01", "Every uploaded passenger information message is stored whole or archived",
  "For each operator message that was accepted by the upload or put in its queue: once faults stop and the queues drain, either the message is stored (all its validity times to the second, train, stations, audio and video texts and delivery rules, under its id and version) or its body is in the archive of failed messages; a message that is invalid or cannot be parsed is archived. At every commit each stored message equals, in all its parts, one message that was uploaded, and is marked as deleted only if a deletion of that id was uploaded. A deletion marks every version stored before it was sent; with no faults every valid message whose id and version are not contested is stored, and uploads succeed; no queue keeps messages for ever.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"], "every sequence of uploads, updates, deletions and malformed messages; duplicated, reordered and redelivered queue messages; database, queue, secret-store and archive failures; and crashes and timeouts of each function at any step",
  "The unit tests convert and store one message at a time with a working database; they never redeliver, never fail a statement in the middle of a message, and never look into the archive.",
  [`${RS}/service/upload-message.ts`, `${RS}/lambda/process-rosm-queue/process-rosm-queue.ts`, `${RS}/service/process-rosm-message.ts`, `${RS}/lambda/process-dlq/process-dlq.ts`, `${RS}/dao/message.ts`, `${RS}/util/database.ts`],
  [m("partial batch failures and redrive", `${RS}/lambda/process-rosm-queue/process-rosm-queue.ts`), m("one transaction per message", `${RS}/dao/message.ts`)],
  { state: [st("messages", "rami_message and its station, audio and video rows", "simulated MySQL"), st("queues", "messages of the ROSM queue and the dead-letter queue", "simulated SQS"), st("archive", "objects of the dead-letter bucket", "simulated S3")], observe: ["answers of the upload", "rows at each commit", "archive objects"] });

p("R02", "Passenger information queries answer with exactly the current matching messages",
  "A query for active messages answers with exactly one entry for each message whose latest stored version is not deleted, is valid at that time (start not later, end later) and matches the given train number, departure date, station and general-only filters; a query for updates answers with those created at or after the given time, valid now unless asked for all. Each entry has all of the stored version's content: times, train, all its stations, texts, and delivery rules including delivery time, weekdays, repetitions and event type. The answer equals one committed state during the query, also while messages are stored and deleted; malformed parameters get a 400; a query fails or hangs only when something failed during it, and after any number of database failures the function answers again once the database works.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"], "every set of stored versions and deletions, every query with its filters and instants near the edges of validity and creation, concurrent processing of messages, and database, secret-store and function failures before it",
  "The unit tests query a handful of messages with whole-minute times; they never use a message's exact creation time, never ask for delivery times, and never query after failures on a warm function.",
  [`${RS}/service/get-message.ts`, `${RS}/dao/message.ts`, `${RS}/lambda/get-active-messages/get-active-messages.ts`, `${RS}/lambda/get-messages-updated-after/get-messages-updated-after.ts`, `${RS}/model/zod-schema/lambda-event.ts`, `${RS}/util/database.ts`],
  [m("single-statement queries over the latest version", `${RS}/dao/message.ts`), m("connections returned to the pool", `${RS}/util/database.ts`)],
  { state: [st("messages", "rami_message and its station, audio and video rows", "simulated MySQL"), st("connections", "the warm function's pool of ten", "simulated mysql2 pool")], observe: ["answers of both queries", "rows at each commit"] });

p("R03", "Stop monitoring messages are saved and take effect whole, or are archived",
  "Each stop monitoring message put in its queue ends up saved with its train and date, or archived; one that cannot be used is archived and not saved. Unless it is of a bus, each of its calls with boarding sets, for the timetable row of that train, date, station, minute and type, whether its delay is unknown (no expected time) and its track is unknown (no expected quay): after it was sent, the row had these values at some time (rows with both known may be absent), or the message is archived. All values committed together come from one message, include all of its unknown values, and clear the values it says are known if they were settled; each changed value, and none that the message does not give, is recorded in the history in the same commit, with the message's id; when messages are far apart and nothing fails, the last one's values stay; cleaning removes exactly the rows older than one day from values, history and messages; no queue keeps messages for ever.",
  ["schedules", "crash_points", "fault_sequences", "histories", "inputs"], "every history of messages for the same and different trains, duplicated and reordered deliveries, deadlocks, lock timeouts and failures of any statement, crashes and timeouts of each function, and concurrent handling by several instances",
  "The unit tests handle one message at a time and never fail or deadlock a statement, redeliver a message, or compare what was committed together.",
  [`${RS}/lambda/process-sm-queue/process-sm-queue.ts`, `${RS}/service/process-sm-message.ts`, `${RS}/lambda/process-udot-queue/process-udot-queue.ts`, `${RS}/service/process-udot-message.ts`, `${RS}/dao/udot.ts`, `${RS}/dao/stop_monitoring_message.ts`, `${RS}/lambda/delete-old-data/delete-old-data.ts`],
  [m("partial batch failures and redrive", `${RS}/lambda/process-udot-queue/process-udot-queue.ts`), m("one retried transaction per message", `${RS}/service/process-udot-message.ts`)],
  { state: [st("unknown values", "rami_udot and rami_udot_history rows", "simulated MySQL"), st("saved messages", "rami_stop_monitoring_message rows", "simulated MySQL"), st("queues", "messages of the SM, UDOT and dead-letter queues", "simulated SQS")], observe: ["rows at each commit", "archive objects"] });

const KC = "marine/marinecam/src";
p("K01", "Camera images are frames of their cameras, and only stored ones are marked",
  "In a run of the update, every image stored as images/<group>/<camera>.jpg is a whole frame which that camera gave in that run for the requested, current time; no error page, empty or cut answer is stored; a camera is marked as updated only in a run that stored its image, and with that run's time; cameras of other groups are never changed. When nothing fails, every working camera of the group gets its image stored and is marked, a broken camera prevents neither the others nor the closing of the session, at most five streams are open at a time, every opened stream is closed and the session is disconnected, whatever characters the user name and password have. Every command has its own number and the client certificate; the camera list gives the stored times.",
  ["schedules", "crash_points", "fault_sequences", "inputs"], "all interleavings of the parallel cameras, each camera in any of its states in any run, failures of any request, upload or statement, crashes at any point",
  "There is no unit test of the update: only the metadata query is tested; no test runs two cameras or fails a request.",
  [`${KC}/service/image-fetcher.ts`, `${KC}/service/session.ts`, `${KC}/service/command.ts`, `${KC}/service/image-store.ts`, `${KC}/db/metadata.ts`],
  [m("parallel fetch limited to five streams", `${KC}/service/image-fetcher.ts`), m("session protocol with numbered commands", `${KC}/service/session.ts`)],
  { state: [st("camera", "time of the last update", "simulated PostgreSQL"), st("images", "stored images", "simulated S3"), st("session", "open session and streams", "simulated camera server")], observe: ["objects", "marked cameras", "protocol"] });

p("K02", "Restricted camera images go only to users whose password and groups allow",
  "A request to the password protected API gets the image exactly when the user name and password are right and the user is enabled and belongs to the group of the camera, judged by the user pool as it was at most five minutes before; the list of cameras contains exactly the cameras of the user's groups. Without credentials the answer is 401, with wrong ones or for a foreign group 403, whatever was asked or answered before with the same or other credentials; a failure never lets anyone in. Every request is answered, within twelve seconds when nothing fails, also for a user who logs in for the first time; passwords may contain any characters.",
  ["schedules", "histories", "fault_sequences", "inputs"], "every history of requests by several users with right, wrong and missing credentials for images and lists, changes of groups and passwords between and during them, failures of the user pool, database and functions",
  "There is no unit test of the authorizer or of the list; no test passes a request through the gateway's result cache and mapping templates.",
  [`${KC}/lambda/authorizer/authorizer.ts`, `${KC}/lambda/authorizer/cognito_backend.ts`, `${KC}/lambda/list-cameras/list-cameras.ts`, `${KC}/private-api.ts`, "lib/digitraffic-common/src/aws/infra/api/integration.ts"],
  [m("policy by the user's groups", `${KC}/lambda/authorizer/authorizer.ts`), m("authorizer with cached results", `${KC}/private-api.ts`)],
  { state: [st("user pool", "users, passwords and groups", "simulated Cognito"), st("authorizer cache", "policies by identity source", "simulated API Gateway")], observe: ["answers of the API"] });

const DU = "road/data-upload/src";

p("U01", "Uploaded and queued traffic data is stored before it is accepted",
  "An upload that is answered 200 is stored completely, whatever failed while it was handled; one that is not valid is answered 400 and one that could not be stored is answered with a server error. Every valid traffic message sent to the queue is stored, also when other messages of its batch are malformed, the database or the function fails, and the queue delivers messages again; nothing stays in the queue for ever. Without failures each part is stored exactly once; cleaning deletes the data older than seven days and nothing else.",
  ["schedules", "histories", "fault_sequences", "crash_points", "inputs"], "every history of uploads with several parts, valid and malformed queue messages, cleanings and handling runs, with failures of the database, queue and functions at any step and duplicated or reordered deliveries",
  "The unit tests store single messages; none makes a statement fail, mixes bad and good messages in a batch or delivers a message again.",
  [`${DU}/lambda/upload-datex2/upload-datex2.ts`, `${DU}/lambda/handle-rtti/handle-rtti.ts`, `${DU}/lambda/delete-old-messages/delete-old-messages.ts`, `${DU}/dao/data.ts`, `${DU}/internal-lambas.ts`],
  [m("answers of the upload", `${DU}/lambda/upload-datex2/upload-datex2.ts`), m("stored or left in the queue", `${DU}/lambda/handle-rtti/handle-rtti.ts`)],
  { state: [st("data_incoming", "received data and its status", "PostgreSQL")], observe: ["answers of the upload", "contents of data_incoming", "messages left in the queues"] });

p("U02", "Stored traffic data is handled once and in order of its reception",
  "Everything that was stored is marked as processed or failed within bounded time once faults stop, without waiting for later data to arrive. Good data is marked as processed only when its contents are in place: traffic messages with their situation, times and SRTI flag, devices with the newest of the content received for them, never replaced by older content, also when runs overlap, fail midway or repeat. Data that cannot be handled is marked as failed and does not stop the handling of the rest.",
  ["schedules", "histories", "fault_sequences", "crash_points", "inputs"], "every history of uploads for signs and traffic messages of all supported versions, good and malformed, with overlapping handling runs and failures of the database, queues and functions at any step",
  "The unit tests handle one row with a mocked or quiet database; none overlaps runs, fails midway, or mixes malformed rows with good ones.",
  [`${DU}/service/datex2-update.ts`, `${DU}/service/variable-signs.ts`, `${DU}/service/rtti.ts`, `${DU}/service/rtti-35-parser.ts`, `${DU}/service/vs-datex2-223-parser.ts`, `${DU}/dao/variable-signs.ts`, `${DU}/lambda/handle-new-messages/handle-new-messages.ts`],
  [m("handle in order of reception", `${DU}/service/variable-signs.ts`), m("handle traffic messages", `${DU}/service/rtti.ts`)],
  { state: [st("device_data_datex2", "newest content of each device", "PostgreSQL"), st("datex2_rtti", "traffic messages", "PostgreSQL")], observe: ["statuses and contents of the tables"] });

p("U03", "The latest message of a traffic situation is published unchanged",
  "For every handled traffic message that is the latest of its situation a message is published on the topic of its kind (SRTI or RTTI) containing exactly the stored message once within a well-formed payload with the time of publication, or its update ends up in the dead letter queue after repeated failures. Nothing is published that is not stored. Connections to the broker are ended also when publishing fails.",
  ["schedules", "histories", "fault_sequences", "crash_points", "inputs"], "every history of traffic messages for one or more situations with arbitrary text in them, with failures of the broker, the database, the queues and the functions at any step",
  "The unit tests publish one plain message through a mocked client that never fails.",
  [`${DU}/service/mqtt-sending-service.ts`, `${DU}/lambda/send-mqtt/send-mqtt.ts`, `${DU}/service/rtti.ts`, `${DU}/dao/rtti.ts`],
  [m("publish the latest of each situation", `${DU}/service/mqtt-sending-service.ts`)],
  { state: [st("MQTT queue", "situations to publish", "SQS")], observe: ["messages published at the broker", "dead letter queue"] });

const ST = "other/status/src";
p("T01", "Monitoring is switched off exactly during a maintenance",
  "All NodePing checks are switched off only while a maintenance is shown on the status page (from one minute before its start time) and switched on only while none is. Within minutes after a maintenance has begun every check is off and the status page's workflow has been started for it; within minutes after the last maintenance has ended every check that NodePing lets be switched on is on, also when a check cannot be switched on, when a run crashed or when a service failed in between. Without failures the workflow is started once per maintenance and the change is announced in Slack.",
  ["schedules", "histories", "fault_sequences", "crash_points", "inputs"], "every history of maintenances (overlapping, in the future), other issues, checks added, switched off by hand or refusing to be switched on, with failures of NodePing, the page, GitHub, Slack, secrets and the function at any step",
  "The unit tests call the service once with mocked clients that never fail.",
  [`${ST}/service/maintenance-service.ts`, `${ST}/api/nodeping-api.ts`, `${ST}/api/cstate-statuspage-api.ts`, `${ST}/lambda/handle-maintenance/lambda-handle-maintenance.ts`],
  [m("switch checks off and on", `${ST}/service/maintenance-service.ts`), m("disableall and individual enabling", `${ST}/api/nodeping-api.ts`)],
  { state: [st("enabled checks", "which checks run", "NodePing")], observe: ["changes at NodePing", "workflow dispatches at GitHub", "Slack messages"] });
p("T02", "Every monitored endpoint has exactly one, correctly configured check",
  "After runs without failures every endpoint of the applications' OpenAPI specifications that can be called with GET without unknown parameters, and every extra endpoint of the configuration, has exactly one NodePing check with the right type, address (with default parameters), method, headers, body, threshold, interval and contacts (beta endpoints only the internal ones), outdated checks having been updated. No check is ever created twice, the status page's contact is created once, checks of no application are never changed, and a run with nothing to do changes nothing.",
  ["histories", "fault_sequences", "crash_points", "inputs"], "every sequence of specifications and of outdated, missing or additional checks, with failures of NodePing, the specifications, secrets and the function at any step",
  "The unit tests count calls of mocked clients for one application with at most two endpoints.",
  [`${ST}/service/status-service.ts`, `${ST}/api/digitraffic-api.ts`, `${ST}/api/nodeping-api.ts`, `${ST}/monitored-apps.ts`],
  [m("create and update checks", `${ST}/service/status-service.ts`), m("endpoints of a specification", `${ST}/api/digitraffic-api.ts`), m("contents of a check", `${ST}/api/nodeping-api.ts`)],
  { state: [st("checks and contacts", "what is monitored and who is told", "NodePing")], observe: ["checks and contacts at NodePing"] });
p("T03", "The comparison of monitoring and status page reports every difference",
  "A report sent to Slack names exactly the differences there are between NodePing's checks and the status page: checks (other than beta) without a component, components without a check and, outside maintenance, components shown down whose check is up and components not shown down whose check is down; components of different applications are kept apart even when they have the same name. Nothing is sent when there is no difference, and nothing is changed.",
  ["inputs", "histories", "fault_sequences"], "every combination of checks and components of several applications, their states and order, with failures of NodePing, the page, Slack, secrets and the function at any step",
  "The unit tests compare one check with one component.",
  [`${ST}/service/status-service.ts`, `${ST}/service/utils.ts`, `${ST}/lambda/check-component-states/lambda-check-component-states.ts`],
  [m("compare checks with components", `${ST}/service/status-service.ts`), m("names without application", `${ST}/service/utils.ts`)],
  { state: [st("checks and components", "what is compared", "NodePing and status page")], observe: ["Slack messages"] });

p("O01", "Each monthly key figure is stored exactly once and equals the access log",
  "Every monthly run stores, for each service as a whole, for all services together and for each endpoint that the service's OpenAPI description or the fixed list names, the nine key figures of the previous calendar month; a stored figure equals what the access log of exactly that month says (statistics exclusions applied, values that differ only in quotes added up), is never changed or deleted and never stored a second time, however often a run is retried or repeated by hand. A figure is missing only if its query failed on all three attempts or the database failed, a repeated run completes what is missing, and no run hangs: a response that breaks off, cannot be parsed or lacks shards is a failed query.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every access log and set of endpoints, over several months, the schedule with its groups, retries and manual repetitions, with failures, truncated and partial responses of OpenSearch, of the OpenAPI descriptions, of STS, of the database at any statement, and crashes at any step",
  "The unit tests build single queries; the integration tests need a running MySQL and OpenSearch, store one month once and inject no failure.",
  ["other/os-key-figures/src/lambda/collect-os-key-figures.ts", "other/os-key-figures/src/domain/services/metric-collection-service.ts", "other/os-key-figures/src/domain/services/endpoint-discovery-service.ts", "other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts", "other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts", "other/os-key-figures/src/adapters/driven/opensearch/retry-policy.ts", "other/os-key-figures/src/api/opensearch.ts", "other/os-key-figures/src/os-key-figures-stack.ts"],
  [m("existing figures are recognised before storing", "other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts"), m("retries of a failed query", "other/os-key-figures/src/adapters/driven/opensearch/retrying-metric-source.ts"), m("groups of endpoints per invocation", "other/os-key-figures/src/lambda/collect-os-key-figures.ts")],
  { state: [st("key_figures", "figures by month, scope and name", "MySQL"), st("access log", "requests", "OpenSearch")], observe: ["rows of key_figures", "outcome of runs"] });

p("P04", "Port activity answers show exactly the current estimates of one state",
  "A successful timestamp query or public ship list shows one stored state that existed during the query: the latest record of each kind of estimate that lies in the time window (from twelve hours ago; Portnet estimates up to fourteen days ahead; the ship list from one hour ago, or six for actual times, to the requested interval ahead, four days when none is given), merged by the documented rules (an estimate without port call gives way to one with it, predictions and calculated times give way to actual or better ones, actual times of one kind are averaged), each once, in time order, with the values that were stored. A ship list is handed out only with its secret. A failed query is answered with an error; the clean-up removes exactly the timestamps and pilotages older than seven days.",
  ["histories", "schedules", "fault_sequences", "crash_points"], "every history of stored estimates and sources, every query and point in time, concurrent updates, database and secret-store failures",
  "The unit tests query a few fixed rows; window edges, merging of several sources, concurrent updates and failing databases are not reached.",
  [`${PA}/service/timestamps.ts`, `${PA}/dao/timestamps.ts`, `${PA}/dao/shiplist-public.ts`, `${PA}/event-sourceutil.ts`, `${PA}/lambda/get-shiplist-public/get-shiplist-public.ts`],
  [m("latest estimate per kind", `${PA}/dao/timestamps.ts`), m("merging of sources", `${PA}/event-sourceutil.ts`), m("time windows", `${PA}/dao/shiplist-public.ts`)],
  { state: [st("stored timestamps", "rows of port_call_timestamp", "simulated PostgreSQL")], observe: ["answers of the timestamp query and the ship list", "rows left by the clean-up"] });

p("P05", "Port activity sources: every usable estimate is queued once and unchanged",
  "Each run of a source poller (schedule service, Awake.AI ships, arrivals, departures and berth events) puts on the timestamp queue exactly the estimates that the documented rules derive from what the source told this run, each once, with its values unchanged, and nothing else. An empty answer is not an error; a ship, port, entry or message that fails or is unusable does not keep back the others; berth events received before a connection breaks off are not lost, and an interrupted subscription is resumed. Estimates are missing only if the run or the queue failed; the triggers ask for an update of every configured port and of every ship the database shows approaching, each once, over topics that reach the updating function; access tokens are not used after they expire.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every answer of the sources, every set of port calls, warm and cold functions over time, with failing, slow, truncated answers, broken connections and subscriptions, failures of SNS, SQS, SSM, secrets and database, and crashes at any step",
  "The unit tests convert single hand-made answers; handlers, triggers, tokens over time, connection failures and several entries of which one is bad are not tested.",
  [`${PA}/service/schedules.ts`, `${PA}/service/awake-ai-eta-ship.ts`, `${PA}/service/awake-ai-eta-port.ts`, `${PA}/service/awake-ai-etd-port.ts`, `${PA}/service/awake-ai-atx.ts`, `${PA}/api/awake-ai-atx.ts`, `${PA}/api/oauth-token-api.ts`, `${PA}/service/awake-ai-etx-helper.ts`, `${PA}/dao/timestamps.ts`, `${PA}/internal-lambdas-stack.ts`],
  [m("conversion of predictions", `${PA}/service/awake-ai-etx-helper.ts`), m("subscription that is resumed", `${PA}/api/awake-ai-atx.ts`), m("token with safety margin", `${PA}/api/oauth-token-api.ts`), m("ships to update", `${PA}/service/timestamps.ts`)],
  { observe: ["messages sent to the queue", "messages published to the topics", "requests and tokens"] });

p("Y01", "Published plan and station files hold one whole, valid answer of their source",
  "The daily updates replace yearly-plans.json, project-plans.json, pisteet.json and pistejoukot.json only by a complete JSON answer (for the plans one that follows the interface schema) that the source of that very file gave in that run, unchanged in content and requested with the source's current address and key; otherwise the file keeps what it holds. A failure or an unusable answer of one source does not keep back the other file, and a run reports success only if both files show the answers of the run.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every answer of the sources, valid or broken at any place of the schema, over several runs with rotated keys, failing, slow and truncated answers, S3 and secret failures and crashes at any step",
  "Neither application has a unit test of its update.",
  ["rail/yearly-plans/src/lambda/update-plans/update-plans.ts", "rail/yearly-plans/src/service/yearly-plans-service.ts", "rail/yearly-plans/src/util/s3-util.ts", "rail/yearly-plans/src/model/schema.ts", "road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts", "road/lam-history/src/service/update.ts"],
  [m("validation before publishing", "rail/yearly-plans/src/lambda/update-plans/update-plans.ts"), m("failure of one file kept from the other", "road/lam-history/src/lambda/update-lam-stations/update-lam-stations.ts")],
  { state: [st("published files", "objects in the buckets", "simulated S3")], observe: ["objects put to S3", "outcome of runs"] });

p("R04", "Published train data archives are complete",
  "Every archive of trains or compositions that is published holds exactly one file for each day of its calendar month (the previous month, or the one asked for by hand), and every train location archive all locations of all trains of its day (two days ago, or the one asked for), each exactly as the train API answered in that run; it is stored under the name of its period in its own bucket, as a readable zip file. Nothing is published when a request fails or is answered with an error, so that an archive published earlier stays as it is, and a run reports success only when it has published. Each month and each day is archived by the schedule.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every day and month (leap years, turn of the year), every set of trains including none, scheduled and manual runs in warm and cold environments, with failing, stalling and truncated answers, full disks, failing uploads and crashes at any step",
  "The Python tests run one successful archive of a fixed month with a mocked API; no answer fails, nothing crashes, and they are not part of the build.",
  ["rail/data-dump/src/lambda/dump-trains/dump-trains.py", "rail/data-dump/src/lambda/dump-compositions/dump-compositions.py", "rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py", "rail/data-dump/src/internal-lambdas.ts"],
  [m("day by day into one zip file", "rail/data-dump/src/lambda/dump-trains/dump-trains.py"), m("upload after the archive is closed", "rail/data-dump/src/lambda/dump-train-locations/dump-train-locations.py")],
  { state: [st("published archives", "objects in the buckets", "simulated S3")], observe: ["contents of uploaded archives", "outcome of runs"] });

p("V02", "Port call visit answers are exactly the matching visits, in the asked order",
  "An answer to a request for port call visits contains exactly the visits of one state that was stored at some time during the request and that match every given limit - time from (inclusive) and to (exclusive) on any of ETA, ETD, ATA and ATD, port whatever its case, part of the vessel's name whatever its case, IMO number, status - each once and with its stored content, in the asked order with missing values last, by default by actual or else estimated time of arrival. Any characters may be asked for. An invalid or unknown parameter is answered 400, a failure as a server error and never as an answer; a single visit is given with its update time, or 404 when there is none; visits more than about three months away may be left out.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every history of visit changes between and during requests with any combination of limits, orders and malformed parameters, with failures of the database, secret store and functions",
  "The unit tests query a database that does not change, without the gateway in front; boundaries, quoting and failures in combination are not exercised.",
  [`${PC}/lambda/get-visits/get-visits.ts`, `${PC}/lambda/get-visit/get-visit.ts`, `${PC}/db/visits.ts`, `${PC}/service/visit-service.ts`, `${PC}/model/get-visits-schema.ts`, `${PC}/public-api.ts`],
  [m("limits and order of the query", `${PC}/db/visits.ts`), m("validation of the parameters", `${PC}/model/get-visits-schema.ts`)],
  { state: [st("stored visits", "rows of pc2_visit", "simulated PostgreSQL")], observe: ["answers of the API and of the functions"] });

const AI = "lib/digitraffic-common/src/aws/infra/api";
p("L04", "REST APIs pass requests and answers unchanged and never a failure as success",
  "A request to a REST API of the repository reaches its function with exactly the path, query, header and body values its caller gave, whatever characters they contain, and no parameter takes the place of another; repeated parameters declared as such arrive as a list. The caller gets exactly the status and the body the function answered, with its time, file name and entity tag as headers - equal contents have equal tags and different ones different tags - and the content type of the API, or plain text when the status is not 200; deprecated methods say so in headers and answer the same. A function that throws, times out, crashes, is throttled or gives no answer is never answered as a success, and an answer too large is refused, not cut.",
  ["inputs", "schedules", "fault_sequences", "crash_points"], "every sequence of concurrent requests with any characters and any mixture of expected and unexpected parameters to every method of ten APIs, with any answer, and with thrown errors, time limits, crashes and throttling of the functions",
  "The unit tests render single templates with an encoder that never produces the characters that matter; no test passes a failed function through the response template.",
  [`${AI}/integration.ts`, `${AI}/response.ts`, "lib/digitraffic-common/src/aws/runtime/digitraffic-integration-response.ts", "lib/digitraffic-common/src/aws/types/lambda-response.ts", "marine/sea-state-estimate/src/integration-api.ts", "road/variable-signs/src/public-api.ts", "marine/winter-navigation/src/public-api.ts"],
  [m("request template with escaped parameters", `${AI}/integration.ts`), m("response template with status and headers", `${AI}/response.ts`), m("error patterns", "marine/sea-state-estimate/src/integration-api.ts")],
  { observe: ["event of the function, answer of the API"] });

p("O02", "An update of monitors that succeeds leaves exactly the configured monitors",
  "When an update of the OpenSearch monitors succeeds, or is reported as a success, the stored monitors are exactly the configured ones, each once and with its configured content; monitors of earlier deployments and monitors made by hand are gone. An update that cannot do this (a request, the role, or a response fails or breaks off) fails within its time limit instead, raises an alarm message, and running it again completes it; without failures it succeeds. A stored monitor fires exactly when its definition says so: the log lines of its index and environment in its time range that match all of its own phrases and none of its excluded ones are more than the threshold, outside of the range, in more groups than allowed, or always; it alarms each configured destination with its name, message and throttling.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every sequence of deployed configurations and monitors made by hand, every log, with failing, lost, slow and broken-off requests of any kind and crashes at any step, warm and cold functions",
  "There are no tests of the update at all; the only test of the application checks its dependencies.",
  ["other/opensearch-monitors/src/lambda/update-os-monitors.ts", "other/opensearch-monitors/src/api/opensearch.ts", "other/opensearch-monitors/src/monitor/monitor.ts", "other/opensearch-monitors/src/monitor/monitor-builder.ts", "other/opensearch-monitors/src/monitor/triggers.ts", "other/opensearch-monitors/src/monitor-stack.ts"],
  [m("old monitors are deleted, the new ones created and the result checked", "other/opensearch-monitors/src/api/opensearch.ts"), m("queries, time ranges and triggers are built", "other/opensearch-monitors/src/monitor/monitor-builder.ts")],
  { state: [st("monitors", "stored monitors", "OpenSearch alerting")], observe: ["stored monitors", "outcome of runs", "Slack messages", "triggers that fire on a log"] });

p("J01", "The published API description is the complete union of its sources",
  "Every update of the API description that succeeds has published, as openapi.json and as the script of the documentation page, the same description of every configured API and application as they were in that run: every path with an operation other than HEAD and OPTIONS, each operation, parameter, schema and tag unchanged, except that broken nullable schemas are repaired, operations announced to be removed (by text or by deprecation and sunset headers) are marked deprecated and, when configured, security is left out; title, server, contact and licence are the configured ones. Nothing incomplete is ever published, and earlier files stay when a run fails. A run fails only when something failed; the page shows no other description than the published one; a documentation update gives each API one new version.",
  ["inputs", "fault_sequences", "histories"], "every set of descriptions and changes of them between runs, failing exports, requests and uploads, lost answers and a crash at any step",
  "The unit tests merge small descriptions with one path each; tags, failures and the published files are not tested.",
  ["other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts", "other/swagger-joiner/src/swagger-utils.ts", "other/swagger-joiner/src/apigw-utils.ts", "lib/digitraffic-common/src/types/openapi-schema.ts"],
  [m("merging of the sources", "other/swagger-joiner/src/swagger-utils.ts"), m("repair of nullable schemas", "other/swagger-joiner/src/apigw-utils.ts"), m("choice of the next version", "other/swagger-joiner/src/lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts")],
  { state: [st("published description", "openapi.json and dt-swagger.js", "simulated S3")], observe: ["published files, documentation versions, run results"] });

p("O03", "The statistics pages show exactly the stored key figures",
  "Every update of the statistics pages that succeeds has published the index and a page for each filter that has key figures. The page of a filter shows, in the order of time, exactly its stored requests, bytes and unique addresses, and for every user, address, user agent and referer its stored figures; the index shows the totals, the endpoints' months with over 50,000 requests, and for each of the four services a link to the page of each filter with its latest number of requests, most requested first. Names, which come from the clients, are shown as they are and never break a page or add scripts to it, and a figure that is missing leaves only its own place empty; no page is ever published with other or partial figures; a failed update says so, and one that follows it succeeds as soon as nothing fails any more, also in the same environment.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "every history of stored figures with any names and missing figures over several months, with failing, lost and slow queries and uploads and crashes at any step, warm and cold environments",
  "There are no tests of the pages at all.",
  ["other/os-key-figures/src/lambda/create-visualizations.ts", "other/os-key-figures/src/os-key-figures-stack.ts"],
  [m("pages are built from queries and uploaded one after another", "other/os-key-figures/src/lambda/create-visualizations.ts")],
  { state: [st("pages", "published statistics pages", "simulated S3"), st("key figures", "stored key figures", "simulated MySQL")], observe: ["charts, titles and links of published pages as a browser shows them", "outcome of runs"] });

p("V03", "Schedules go only to holders of the token, and exactly as they were asked for",
  "A request to the voyage plan gateway that carries the current access token (or one replaced at most five minutes before) and a known direction or none is passed on to the current address of the schedule service, with exactly the caller's direction, calculation and search values, whatever characters they contain, and without the token; its answer is given to the caller unchanged, and only an answer of that request is. Every other request is refused with 403 or, with an unknown direction, 400, and nothing is asked for it, whatever was asked before. Every request is answered within the gateway's time, a failure as a server error.",
  ["inputs", "histories", "fault_sequences"], "every sequence of requests with any tokens, directions and search values, replacements of the secret between them, and failing, lost, slow and broken-off answers, warm and cold functions",
  "There are no tests of the gateway; the only test of the application checks its dependencies.",
  ["marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts", "marine/voyage-plan-gateway/src/public-api.ts"],
  [m("check of the token, building of the address", "marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts"), m("proxy integration", "marine/voyage-plan-gateway/src/public-api.ts")],
  { observe: ["requests to the schedule service", "answers of the API"] });

p("H01", "The edge answers with what the origin gave to exactly that request",
  "A request at the edge is answered with the unchanged content of the configured origin for its method, path (as configured with index.html added or leading parts removed), query and the headers configured to matter, at most as old as the configured cache time, and with the headers that let other sites use it; or with the documented other answer: a redirect, a preflight answer, 406 without gzip, 403 for an address that is not on the list, which then never sees nor asks for content, cached or not, and for a missing camera image a placeholder that is not kept. Camera images of a version come from the image server and show when they were taken; raw traffic measurements come from the current or the historical store by their year; questions to the measurement history are translated as documented and asked of the history service with its current address and key, at most five minutes after they change, and answered as a named CSV file; incomplete questions are asked of nobody. No key is ever shown to a caller, and a request fails only when something failed during it.",
  ["schedules", "fault_sequences", "histories", "inputs"], "every sequence and overlap of requests of any callers, every cache state, failing origins, a failing or rotated secret, and function environments that are reused, die or time out",
  "The unit tests call single edge functions with one hand-made event; they never see the distribution the stack builds, the cache, concurrent requests, secrets that fail or change, or the rules the edge puts on answers.",
  ["other/cloudfront/src/cloudfront-cdk-stack.ts", "other/cloudfront/src/distribution/behavior.ts", "other/cloudfront/src/util/lambda-creator.ts", "other/cloudfront/src/util/function-creator.ts", "other/cloudfront/src/util/cachepolicy-factory.ts", "other/cloudfront/src/lambda/lambda-lam-redirect.ts", "other/cloudfront/src/lambda/lambda-lam-headers.ts", "other/cloudfront/src/lambda/lambda-ip-restriction.ts", "other/cloudfront/src/lambda/lambda-gzip-requirement.ts", "other/cloudfront/src/lambda/lambda-weathercam-rewrite.ts", "other/cloudfront/src/lambda/lambda-weathercam-http-headers.ts", "other/cloudfront/src/lambda/header-util.ts", "other/cloudfront/src/lambda/uri-util.ts"],
  [m("behaviours, origins, cache policies, function associations", "other/cloudfront/src/cloudfront-cdk-stack.ts"), m("edge functions", "other/cloudfront/src/lambda/*.ts"), m("cached secret", "other/cloudfront/src/lambda/lambda-lam-redirect.ts")],
  { observe: ["answers at the edge", "requests that reach the origins"] });

p("H02", "Callers are limited as configured, and nobody else is",
  "In any five minutes at most as many requests of one address pass as the limit configured for callers with, or for those without, the user header allows, and at most as many for one path as the limit per path allows, where a header without content counts as none and the spelling of a path in capitals or with repeated slashes does not matter. A request is refused only when its own address went over one of its limits within five minutes, asked too long a query or is not an allowed address; it is then told the limit, and passes again once the five minutes have gone by; rules that only count never refuse. Requests of other addresses, or with the header rather than without it, have no influence.",
  ["schedules", "histories", "inputs", "configurations"], "every sequence of requests over time from any addresses, with any header and path, for all forms of the rules",
  "The tests look at the text of single rules; they never evaluate the rules together over a history of requests.",
  ["lib/digitraffic-common/src/aws/infra/acl-builder.ts", "other/cloudfront/src/acl/acl-creator.ts", "other/cloudfront/src/acl/waf-rules.ts"],
  [m("rate statements, order of rules, answers", "lib/digitraffic-common/src/aws/infra/acl-builder.ts"), m("limits of a site", "other/cloudfront/src/acl/waf-rules.ts")],
  { observe: ["which requests the synthesised web ACL lets pass, and its answers"] });

p("L06", "Log entries are whole, faithful lines and never show a credential",
  "Whatever is given to the logger, an error of any kind included, logging neither fails nor changes what it was given, and every entry is one line of JSON that holds the given level, method, message, times and fields as they were. No value of a password, secret, token, API key or authorization that a function was configured with, read from its secret store, was given by a caller or by another service, ever appears in anything it logs, in no encoding, whatever fails. Each measured lead time of a message is logged as exactly one entry, and one that is no number of milliseconds as none.",
  ["schedules", "fault_sequences", "histories", "inputs"], "every history and fault of the functions of all other properties, and every value given to the logger by concurrent tasks",
  "The unit tests log a few well-formed objects; no test looks at what functions log when their calls fail in odd ways, which is when whole requests and configurations tend to be logged.",
  ["lib/digitraffic-common/src/aws/runtime/dt-logger.ts", "lib/digitraffic-common/src/utils/logging.ts", "lib/digitraffic-common/src/utils/lead-time-logging.ts", "lib/digitraffic-common/src/utils/slack.ts", "lib/digitraffic-common/src/aws/runtime/secrets/dbsecret.ts", "other/cloudfront/src/lambda/lambda-lam-redirect.ts"],
  [m("entries", "lib/digitraffic-common/src/aws/runtime/dt-logger.ts"), m("exceptions", "lib/digitraffic-common/src/utils/logging.ts"), m("what is logged of requests and failures", "lambda functions and api clients of all services")],
  { observe: ["standard output of every function", "the credentials every function was given"] });

p("X01", "Geometry and coordinate conversions are exact",
  "Converting a geometry between GeoJSON, WKT and lists of coordinates keeps its type, order and every coordinate, and the distance of two points is that of the great circle between them.",
  ["inputs"], "every geometry and pair of points",
  "The tests convert a few geometries.",
  ["lib/digitraffic-common/src/utils/geometry.ts", "lib/digitraffic-common/src/utils/geojson-types.ts"],
  [m("conversions", "lib/digitraffic-common/src/utils/geometry.ts")],
  { observe: ["the converted values"] });

p("X02", "Identifiers and parameters are accepted exactly when they are well-formed",
  "The validators of ship identifiers, port codes, dates and route plans accept exactly the values that their formats allow, and never fail.",
  ["inputs"], "every text",
  "The tests validate a handful of values.",
  ["lib/digitraffic-common/src/marine/id_utils.ts", "lib/digitraffic-common/src/marine/rtz.ts"],
  [m("validators", "lib/digitraffic-common/src/marine/id_utils.ts")],
  { observe: ["accepted and refused values"] });

p("X03", "The picture of a sign's text shows that text",
  "The picture of a variable sign shows each line and symbol of its text in its place, and a text that cannot be shown is refused.",
  ["inputs"], "every text of a sign",
  "The tests draw a few texts.",
  ["road/variable-signs/src/service/text-converter.ts"],
  [m("text to svg", "road/variable-signs/src/service/text-converter.ts")],
  { observe: ["the svg"] });

p("X04", "The synthesised stacks grant and expose no more than intended",
  "Functions may do only what their stack grants them, interfaces are reachable only through the intended private or public endpoints and keys, and every function and queue has its alarms and naming rules.",
  ["configurations"], "every stack and configuration",
  "The tests look at some constructs of the common library.",
  ["lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts", "lib/digitraffic-common/src/aws/infra/stack/monitoredfunction.ts"],
  [m("stack rules", "lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts")],
  { observe: ["the synthesised templates"] });

export const NA = [
  { property: "X01", reason: "pure functions of their argument: no time, schedule, I/O or other party that a simulator could vary; a property-based test is the fitting method" },
  { property: "X02", reason: "pure functions of one text: nothing for scheduling or faults to act on; an exhaustive or property-based test is the fitting method" },
  { property: "X03", reason: "a pure function from text to svg, judged by looking at a picture: no schedule or fault has any influence on it" },
  { property: "X04", reason: "a statement about a static template: nothing runs, so there is nothing to simulate; analysis of the synthesised template is the fitting method. What the configuration does at run time (routes, keys, limits, time-outs, concurrency, queues) is taken from the synthesised stacks and judged by the other properties" },
];
