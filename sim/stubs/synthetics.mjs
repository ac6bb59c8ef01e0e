// CloudWatch Synthetics runtime: steps run the callback and report its failure.
const sim = __SIM__;
const cfg = new Proxy({}, { get: () => () => cfg });
const synthetics = {
  getConfiguration: () => cfg,
  // a failing step does not stop the canary when continueOnStepFailure is set; the rejection is recorded by the runtime
  executeStep(name, fn, c) {
    const s = sim.svc.synthetics;
    s.steps.push(name);
    try {
      const r = fn();
      return Promise.resolve(r).catch((e) => { s.failed.push(name); if (!c?.continueOnStepFailure) throw e; });
    } catch (e) {
      s.failed.push(name);
      if (!c?.continueOnStepFailure) return Promise.reject(e);
      return Promise.resolve();
    }
  },
  async executeHttpStep(name, requestOptions, callback) {
    const s = sim.svc.synthetics;
    s.steps.push(name);
    try {
      const res = await s.request(sim, requestOptions);
      await callback(res);
    } catch (e) {
      s.failed.push(name);
      throw e;
    }
  },
};
export default synthetics;
export const getConfiguration = synthetics.getConfiguration;
export const executeStep = synthetics.executeStep;
export const executeHttpStep = synthetics.executeHttpStep;
