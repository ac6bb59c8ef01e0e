const g = (actual) => ({
  toBeGreaterThanOrEqual(n) { if (!(actual >= n)) throw new Error(`expected ${actual} >= ${n}`); },
  toBeLessThanOrEqual(n) { if (!(actual <= n)) throw new Error(`expected ${actual} <= ${n}`); },
});
export const expect = g;
