// xml2js parser with its default result shape ($ attributes, _ text, arrays of children) and the options the repository uses.
import { parseDoc } from "./xml.mjs";
const strip = (n) => n.replace(/^.*:/, "");
function conv(node, o) {
  const attrs = Object.keys(node.attrs);
  const out = {};
  if (attrs.length && !o.ignoreAttrs) { if (o.mergeAttrs) for (const a of attrs) out[a] = o.explicitArray === false ? node.attrs[a] : [node.attrs[a]]; else out[o.attrkey ?? "$"] = { ...node.attrs }; }
  let text = "";
  let kids = 0;
  for (const c of node.children) {
    if (c.text !== undefined) { text += c.text; continue; }
    kids++;
    let k = c.name;
    for (const f of o.tagNameProcessors ?? []) k = f(k);
    const v = conv(c, o);
    if (o.explicitArray === false) out[k] = k in out ? [].concat(out[k], [v]) : v;
    else (out[k] ??= []).push(v);
  }
  const t = o.trim ? text.trim() : text;
  if (!kids && !(attrs.length && !o.ignoreAttrs)) return /^\s*$/.test(text) ? (typeof o.emptyTag === "function" ? o.emptyTag() : o.emptyTag ?? "") : t;
  if (!/^\s*$/.test(text)) out[o.charkey ?? "_"] = t;
  return out;
}
export class Parser {
  constructor(o = {}) { this.o = o; }
  parse(str) {
    const s = String(str).trim();
    if (s === "") return null;
    const root = parseDoc(s);
    let k = root.name;
    for (const f of this.o.tagNameProcessors ?? []) k = f(k);
    const v = conv(root, this.o);
    return this.o.explicitRoot === false ? v : { [k]: v };
  }
  parseString(str, cb) { let r; try { r = this.parse(str); } catch (e) { if (cb) { cb(e); return; } throw e; } if (cb) cb(null, r); return r; }
  parseStringPromise(str) { return new Promise((res, rej) => this.parseString(str, (e, r) => (e ? rej(e) : res(r)))); }
}
export function parseString(str, o, cb) { if (typeof o === "function") { cb = o; o = {}; } return new Parser(o).parseString(str, cb); }
export const parseStringPromise = (str, o) => new Parser(o).parseStringPromise(str);
const esc = (t) => String(t).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\r/g, "&#xD;");
const escAttr = (t) => esc(t).replace(/"/g, "&quot;").replace(/\t/g, "&#x9;").replace(/\n/g, "&#xA;");
/** Objects back to XML, as xmlbuilder prints them (two spaces of indent). */
export class Builder {
  constructor(o = {}) { this.o = { rootName: "root", attrkey: "$", charkey: "_", ...o }; }
  buildObject(obj) {
    let name = this.o.rootName, v = obj;
    const ks = obj && typeof obj === "object" ? Object.keys(obj) : [];
    if (ks.length === 1 && this.o.rootName === "root") { name = ks[0]; v = obj[name]; }
    const el = (n, x, ind) => {
      let attrs = "", text = "", kids = "";
      if (x === null || x === undefined) return `${ind}<${n}/>\n`;
      if (typeof x !== "object") text = esc(x);
      else if (x instanceof Date) text = "";
      else for (const [k, c] of Object.entries(x)) {
        if (k === this.o.attrkey) { for (const [a, b] of Object.entries(c)) attrs += ` ${a}="${escAttr(b)}"`; }
        else if (k === this.o.charkey) text += esc(c);
        else for (const y of Array.isArray(c) ? c : [c]) kids += el(k, y, `${ind}  `);
      }
      if (!kids) return text === "" ? `${ind}<${n}${attrs}/>\n` : `${ind}<${n}${attrs}>${text}</${n}>\n`;
      return `${ind}<${n}${attrs}>${text === "" ? "" : `\n${ind}  ${text}`}\n${kids}${ind}</${n}>\n`;
    };
    return `${this.o.headless ? "" : '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'}${el(name, v, "").replace(/\n$/, "")}`;
  }
}
export const processors = { stripPrefix: strip, firstCharLowerCase: (s) => s[0].toLowerCase() + s.slice(1), normalize: (s) => s.toLowerCase() };
export default { Parser, Builder, parseString, parseStringPromise, processors };
