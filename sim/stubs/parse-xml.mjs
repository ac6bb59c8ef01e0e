// @rgrove/parse-xml: the parts of its document tree that the repository reads.
import { parseDoc } from "./xml.mjs";
export class XmlError extends Error {}
export class XmlNode {}
export class XmlText extends XmlNode { constructor(t) { super(); this.text = t; } get type() { return "text"; } }
export class XmlElement extends XmlNode {
  constructor(n) { super(); this.name = n.name; this.attributes = Object.assign(Object.create(null), n.attrs); this.children = n.children.map((c) => (c.text !== undefined ? new XmlText(c.text) : new XmlElement(c))); }
  get type() { return "element"; }
  get text() { return this.children.map((c) => c.text).join(""); }
  get isEmpty() { return !this.children.length; }
}
export class XmlDocument extends XmlNode { constructor(root) { super(); this.children = [root]; } get root() { return this.children.find((c) => c instanceof XmlElement) ?? null; } }
export function parseXml(xml) {
  let n;
  try { n = parseDoc(String(xml)); } catch (e) { throw new XmlError(e.message); }
  return new XmlDocument(new XmlElement(n));
}
