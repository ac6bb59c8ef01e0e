// Shared by R01-R03: the rail passenger information tables, messages and their expected contents.
export const SECRET = { DB_URI: "my-rw", DB_USER: "u", DB_PASS: "db-pass-of-x" };
export const SEC = 1000, MIN = 60000, HOUR = 60 * MIN, DAY = 24 * HOUR;
export const WEEK = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];
export const TEXTS = ["Huomio! Juna on myöhässä.", 'Lainaus "x" \\ ja \'y\'', "100 % :days ? :id", "rivi\nväli\tsarkain", "emoji 🚆 €", " reunat ", "a,b;c"];
export const STATIONS = ["HKI", "PSL", "TPE", "KJÄ", "MIS", "TKU"];

export function tables(my) {
  my.db.table("rami_message", "id varchar(255) not null, version int not null, message_type text not null, created_source datetime not null, start_validity datetime not null, end_validity datetime not null, train_number int, train_departure_date date, journey_ref text, deleted datetime, created_db datetime default current_timestamp, unique (id, version)");
  my.db.table("rami_message_station", "rami_message_id varchar(255) not null, rami_message_version int not null, station_short_code text not null, unique (rami_message_id, rami_message_version, station_short_code)");
  const rules = "text_fi text, text_sv text, text_en text, delivery_type text, start_date_time datetime, end_date_time datetime, start_time time, end_time time, days_of_week int not null";
  my.db.table("rami_message_audio", `rami_message_id varchar(255) not null, rami_message_version int not null, ${rules}, event_type text, delivery_at datetime, repetitions int, repeat_every int, unique (rami_message_id, rami_message_version)`);
  my.db.table("rami_message_video", `rami_message_id varchar(255) not null, rami_message_version int not null, ${rules}, unique (rami_message_id, rami_message_version)`);
  my.db.table("rami_stop_monitoring_message", "id bigserial primary key, rami_message_id varchar(255) not null, train_number int not null, train_departure_date date not null, message text not null, created_db datetime default current_timestamp");
  my.db.table("rami_udot", "id bigserial primary key, train_number int not null, train_departure_date date not null, attap_id int not null, unknown_delay int not null, unknown_track int not null, model_updated_time datetime, created_db datetime default current_timestamp, unique (train_departure_date, train_number, attap_id)", {
    // the trigger of the real table: changed values have not been seen by the model yet
    onUpdate: (o, n) => { if (Number(o.unknown_delay) !== Number(n.unknown_delay) || Number(o.unknown_track) !== Number(n.unknown_track)) n.model_updated_time = null; },
  });
  my.db.table("rami_udot_history", "id bigserial primary key, rami_message_id varchar(255) not null, train_number int not null, train_departure_date date not null, attap_id int not null, unknown_track int not null, unknown_delay int not null, created_db datetime default current_timestamp");
  my.db.table("time_table_row", "attap_id int not null, departure_date date not null, train_number int not null, station_short_code text not null, scheduled_time datetime not null, type int not null, unique (attap_id, departure_date, train_number)");
}

const iso = (ms) => new Date(ms).toISOString();
const LANGS = [["fi_FI", "textFi"], ["sv_SE", "textSv"], ["en_GB", "textEn"]];

/** A message plan: everything a ROSM message of a test can say. */
export function genRosm(rng, o = {}) {
  const text = () => [0, 1, 2].map(() => (rng.bool(0.75) ? rng.int(0, TEXTS.length - 1) : -1));
  const off = () => rng.pick([-48, -2, -1, 0, 0, 1, 3, 30]) * HOUR;
  const rules = (kinds) => ({ type: rng.pick(kinds), sd: rng.bool(0.6) ? off() : null, ed: rng.bool(0.6) ? off() : null, st: rng.bool(0.5) ? rng.pick(["00:00", "08:05", "13:30"]) : null, et: rng.bool(0.5) ? rng.pick(["23:59", "09:00"]) : null, days: rng.bool(0.6) ? rng.sample([0, 1, 2, 3, 4, 5, 6], rng.int(0, 7)) : null });
  const general = rng.bool();
  return {
    id: rng.int(1, o.ids ?? 4), v: rng.int(1, o.versions ?? 3), general, created: -rng.int(0, 72) * 10 * MIN - rng.int(0, 999),
    start: rng.pick([-48, -2, -1, 0.01, 1]) * HOUR, end: rng.pick([0.02, 0.5, 2, 30]) * HOUR,
    train: rng.pick([9, 274, 8122]), date: rng.pick(["2025-03-03", "2025-03-04"]), noTrain: rng.bool(0.15),
    st: rng.sample([0, 1, 2, 3, 4, 5], rng.int(1, 4)), name: rng.bool(),
    a: rng.bool(0.8) ? { t: text(), r: general ? (rng.bool(0.9) ? { ...rules(["NOW", "DELIVERY_AT", "REPEAT_EVERY"]), rep: rng.pick([null, 0, 1, 3]), every: rng.pick([null, 5]), at: rng.bool(0.5) ? off() : null } : null) : { rep: rng.pick([null, 0, 1]), every: rng.pick([null, 5]), ev: rng.pick([undefined, null, "", "ARRIVING"]), type: rng.pick(["ON_EVENT", "ON_SCHEDULE", null]), none: rng.bool(0.2) } } : null,
    vd: rng.bool(0.8) ? { t: text(), r: rng.bool(0.8) ? rules(["WHEN", "CONTINUOS_VISUALIZATION"]) : null } : null,
  };
}

/** The message as the source system sends it at time t0. */
export function rosmMessage(p, op, t0, uid) {
  const words = (t, key) => LANGS.map(([language], i) => (t[i] < 0 ? undefined : { language, [key]: TEXTS[t[i]] })).filter(Boolean);
  const when = (x) => (x === null ? null : iso(t0 + x));
  const rules = (r, kind) => ({ [kind]: r.type, startDateTime: when(r.sd), endDateTime: when(r.ed), startTime: r.st, endTime: r.et, daysOfWeek: r.days === null ? null : r.days.map((d) => WEEK[d]) });
  const points = p.st.map((s) => ({ id: STATIONS[s], ...(p.name ? { nameLong: `asema ${s}` } : {}) }));
  const type = p.a && p.vd ? "AUDIO_VIDEO" : p.a ? "AUDIO" : "VIDEO";
  return {
    headers: { e2eId: uid, organisation: "MOOVA", source: "sim", eventType: "OperatorScheduledMessage", partitionKey: `MSG${p.id}`, recordedAtTime: iso(t0) },
    payload: {
      messageId: `MSG${p.id}`, messageVersion: p.v, title: "t", messageType: p.general ? "SCHEDULED_MESSAGE" : "MONITORED_JOURNEY_SCHEDULED_MESSAGE", operation: op,
      creationDateTime: iso(t0 + p.created), startValidity: iso(t0 + p.start), endValidity: iso(t0 + p.end),
      scheduledMessage: p.general ? {
        situations: [], deliveryChannels: ["ONGROUND"],
        onGroundRecipient: {
          messageContentType: type, deliveryPoints: points,
          recipientAudioMessagesToDeliver: p.a ? { audioContentType: "AUDIO_TEXT", audioText: words(p.a.t, "text"), scheduledAudioDeliveryRules: p.a.r ? { ...rules(p.a.r, "audioSchedulationType"), repetitions: p.a.r.rep, repeatEvery: p.a.r.every, deliveryAtDateTime: when(p.a.r.at) } : { audioSchedulationType: "NOW" } } : null,
          recipientVideoMessagesToDeliver: p.vd ? { videoTexts: words(p.vd.t, "text"), deliveryRules: p.vd.r ? rules(p.vd.r, "videoSchedulationType") : null } : null,
        },
        onBoardRecipient: null,
      } : null,
      monitoredJourneyScheduledMessage: p.general ? null : {
        vehicleJourney: p.noTrain ? null : { datedVehicleJourneyRef: `ref${p.train}`, dataFrameRef: p.date, vehicleJourneyName: String(p.train) },
        messageContentType: type, deliveryPoints: points,
        audioMessageContents: p.a ? { audioTexts: words(p.a.t, "audioText"), deliveryRules: p.a.r.none ? null : { repetitions: p.a.r.rep, repeatEvery: p.a.r.every, scheduledArrival: false, ...(p.a.r.ev !== undefined ? { eventType: p.a.r.ev } : {}) }, deliveryType: p.a.r.type } : null,
        videoTexts: p.vd ? words(p.vd.t, "videoText") : null,
      },
    },
  };
}

const sec = (ms) => Math.floor(ms / 1000) * 1000;
/** What must be stored for the message (instants in ms, cut to seconds). */
export function stored(m) {
  const p = m.payload;
  const t = (x) => (x ? sec(Date.parse(x)) : null);
  const g = p.scheduledMessage?.onGroundRecipient, j = p.monitoredJourneyScheduledMessage;
  const words = (list, key) => Object.fromEntries(LANGS.map(([l, k]) => [k, list?.find((x) => x.language === l)?.[key].trim() ?? null]));
  const days = (d) => (d ? WEEK.map((x) => (d.includes(x) ? 1 : 0)) : WEEK.map(() => 0)).join("");
  const none = { deliveryType: null, start: null, end: null, st: null, et: null, days: "0000000", event: null, at: null, rep: null, every: null };
  const rules = (r, type) => ({ deliveryType: type, start: t(r.startDateTime), end: t(r.endDateTime), st: r.startTime ?? null, et: r.endTime ?? null, days: days(r.daysOfWeek), event: null, at: r.deliveryAtDateTime ? Math.round(Date.parse(r.deliveryAtDateTime) / 1000) * 1000 : null, rep: r.repetitions ?? null, every: r.repeatEvery ?? null });
  let audio = { ...words([], ""), ...none }, video = { ...words([], ""), ...none };
  if (g) {
    const a = g.recipientAudioMessagesToDeliver, v = g.recipientVideoMessagesToDeliver;
    if (a) audio = { ...words(a.audioText, "text"), ...rules(a.scheduledAudioDeliveryRules, a.scheduledAudioDeliveryRules.audioSchedulationType) };
    if (v) video = { ...words(v.videoTexts, "text"), ...(v.deliveryRules ? rules(v.deliveryRules, v.deliveryRules.videoSchedulationType) : none) };
  } else if (j) {
    const a = j.audioMessageContents;
    if (a) audio = { ...words(a.audioTexts, "audioText"), ...none, deliveryType: a.deliveryType, rep: a.deliveryRules?.repetitions ?? null, every: a.deliveryRules?.repeatEvery ?? null, event: a.deliveryRules?.eventType || null };
    if (j.videoTexts) video = { ...words(j.videoTexts, "videoText"), ...none };
  }
  return {
    id: p.messageId, version: p.messageVersion, type: p.messageType, created: t(p.creationDateTime), start: t(p.startValidity), end: t(p.endValidity),
    train: j?.vehicleJourney ? Number(j.vehicleJourney.vehicleJourneyName) : null, date: j?.vehicleJourney?.dataFrameRef ?? null, ref: j?.vehicleJourney?.datedVehicleJourneyRef ?? null,
    stations: (g ?? j).deliveryPoints.map((x) => x.id).sort(), audio, video,
  };
}

const ms = (d) => (d === null || d === undefined ? null : d instanceof Date ? +d : Date.parse(`${String(d).replace(" ", "T")}Z`));
const hm = (x) => (x === null ? null : String(x).slice(0, 5));
const dateText = (d) => (d === null ? null : d instanceof Date ? d.toISOString().slice(0, 10) : String(d).slice(0, 10));
/** All committed message versions, in the form of stored(), or undefined parts when something is missing. */
export function dbMessages(my) {
  const part = (table, id, v) => {
    const rows = my.db.rows(table).filter((r) => r.rami_message_id === id && r.rami_message_version === v);
    return rows.map((r) => ({ textFi: r.text_fi, textSv: r.text_sv, textEn: r.text_en, deliveryType: r.delivery_type, start: ms(r.start_date_time), end: ms(r.end_date_time), st: hm(r.start_time), et: hm(r.end_time), days: Number(r.days_of_week).toString(2).padStart(7, "0"), event: r.event_type ?? null, at: ms(r.delivery_at), rep: r.repetitions ?? null, every: r.repeat_every ?? null }));
  };
  return my.db.rows("rami_message").map((r) => {
    const a = part("rami_message_audio", r.id, r.version), v = part("rami_message_video", r.id, r.version);
    return { deleted: ms(r.deleted), m: { id: r.id, version: r.version, type: r.message_type, created: ms(r.created_source), start: ms(r.start_validity), end: ms(r.end_validity), train: r.train_number, date: dateText(r.train_departure_date), ref: r.journey_ref, stations: my.db.rows("rami_message_station").filter((s) => s.rami_message_id === r.id && s.rami_message_version === r.version).map((s) => s.station_short_code).sort(), audio: a.length === 1 ? a[0] : a, video: v.length === 1 ? v[0] : v } };
  });
}

/** The public API's form of a stored message. */
export function apiMessage(s) {
  const z = (x) => (x === null ? undefined : new Date(x).toISOString().replace(".000Z", "Z"));
  const u = (x) => x ?? undefined;
  const part = (x, audio) => {
    if (!x.textFi && !x.textSv && !x.textEn) return undefined;
    const week = WEEK.filter((_d, i) => x.days[i] === "1");
    const r = { startDateTime: z(x.start), endDateTime: z(x.end), startTime: x.st === null ? undefined : x.st, endTime: x.et === null ? undefined : x.et, weekDays: week.length ? week : undefined, deliveryType: u(x.deliveryType), ...(audio ? { repetitions: u(x.rep), repeatEvery: u(x.every), eventType: u(x.event), deliveryAt: z(x.at) } : {}) };
    // rules that say nothing are left out
    return { text: { fi: u(x.textFi), sv: u(x.textSv), en: u(x.textEn) }, ...(Object.values(r).some((y) => y) ? { deliveryRules: r } : {}) };
  };
  return { id: s.id, version: s.version, creationDateTime: z(s.created), startValidity: z(s.start), endValidity: z(s.end), trainNumber: u(s.train), trainDepartureDate: u(s.date), stations: [...s.stations].sort(), audio: part(s.audio, true), video: part(s.video, false) };
}
export const canon = (v) => JSON.stringify(v, (_k, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).filter(([, y]) => y !== undefined).sort(([a], [b]) => (a < b ? -1 : 1))) : x));
/** An answered message in comparable form: station order is free, times of day without a leading zero. */
export function normalApi(a) {
  const time = (x) => (x === undefined ? undefined : x.padStart(5, "0"));
  const part = (p) => (p ? { ...p, ...(p.deliveryRules ? { deliveryRules: { ...p.deliveryRules, startTime: time(p.deliveryRules.startTime), endTime: time(p.deliveryRules.endTime) } } : {}) } : p);
  return { ...a, stations: [...(a.stations ?? [])].sort(), audio: part(a.audio), video: part(a.video) };
}
