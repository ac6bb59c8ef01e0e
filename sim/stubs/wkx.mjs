// wkx: reads the simulator's hex-encoded geometry and writes WKT.
export class Geometry {
  constructor(g) { this.g = g; }
  static parse(buf) { return new Geometry(JSON.parse(Buffer.from(buf).toString())); }
  static parseGeoJSON(g) { return new Geometry(g); }
  toGeoJSON() { return JSON.parse(JSON.stringify(this.g)); }
  toWkt() { const c = (x) => x.join(" "); return this.g.type === "Point" ? `POINT(${c(this.g.coordinates)})` : `LINESTRING(${this.g.coordinates.map(c).join(",")})`; }
}
export class Point extends Geometry { constructor(x, y) { super({ type: "Point", coordinates: [x, y] }); this.x = x; this.y = y; } }
export class LineString extends Geometry { constructor(p) { super({ type: "LineString", coordinates: p.map((q) => [q.x, q.y]) }); } }
export default { Geometry, Point, LineString };
