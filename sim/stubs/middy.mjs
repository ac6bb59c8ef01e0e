// Minimal @middy/core: before / after / onError middleware chain (semantics of version 5-7).
export default function middy(base) {
  const handlerFn = base;
  const before = [], after = [], onError = [];
  const m = async (event, context = {}) => {
    const request = { event, context, response: undefined, error: undefined, internal: {} };
    try {
      for (const f of before) { const r = await f(request); if (r !== undefined) { request.response = r; return request.response; } }
      request.response = await m.base(request.event, request.context);
      for (const f of after) { const r = await f(request); if (r !== undefined) { request.response = r; return request.response; } }
    } catch (err) {
      request.response = undefined;
      request.error = err;
      for (const f of onError) { const r = await f(request); if (r !== undefined) { request.response = r; return request.response; } }
      if (request.response === undefined) throw request.error;
    }
    return request.response;
  };
  m.base = handlerFn;
  m.use = (mw) => { for (const x of Array.isArray(mw) ? mw : [mw]) { if (x.before) before.push(x.before); if (x.after) after.unshift(x.after); if (x.onError) onError.unshift(x.onError); } return m; };
  m.before = (f) => { before.push(f); return m; };
  m.after = (f) => { after.unshift(f); return m; };
  m.onError = (f) => { onError.unshift(f); return m; };
  m.handler = (f) => { m.base = f; return m; };
  return m;
}
