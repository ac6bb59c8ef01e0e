// Small strict XML parser shared by the XML package stand-ins. Throws on malformed input.
export class XmlSyntax extends Error {}
const ent = (s) => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) => {
  if (e[0] === "#") return String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
  const r = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'" }[e];
  if (r === undefined) throw new XmlSyntax(`unknown entity ${m}`);
  return r;
});
/** → {name, attrs, children: (node|{text})[], start, end} */
export function parseDoc(src) {
  let i = src.charCodeAt(0) === 0xfeff ? 1 : 0;
  const err = (m) => { throw new XmlSyntax(`${m} at ${i}`); };
  const misc = () => {
    for (;;) {
      const ws = /^\s+/.exec(src.slice(i, i + 1000)); if (ws) { i += ws[0].length; continue; }
      if (src.startsWith("<?", i)) { const e = src.indexOf("?>", i); if (e < 0) err("unterminated instruction"); i = e + 2; continue; }
      if (src.startsWith("<!--", i)) { const e = src.indexOf("-->", i); if (e < 0) err("unterminated comment"); i = e + 3; continue; }
      if (src.startsWith("<!DOCTYPE", i)) { const e = src.indexOf(">", i); if (e < 0) err("unterminated doctype"); i = e + 1; continue; }
      return;
    }
  };
  const NAME = /[A-Za-z_:\u0080-\uffff][\w:.\-\u0080-\uffff]*/y;
  const name = () => { NAME.lastIndex = i; const m = NAME.exec(src); if (!m) err("name expected"); i = NAME.lastIndex; return m[0]; };
  const ws = () => { const s = i; while (/\s/.test(src[i] ?? "")) i++; return i > s; };
  const element = () => {
    const start = i;
    i++;
    const node = { name: name(), attrs: {}, children: [], start };
    for (;;) {
      const sp = ws();
      if (src.startsWith("/>", i)) { i += 2; node.end = i; return node; }
      if (src[i] === ">") { i++; break; }
      if (!sp) err("attribute expected");
      const a = name(); ws();
      if (src[i++] !== "=") err("= expected"); ws();
      const q = src[i++]; if (q !== '"' && q !== "'") err("quote expected");
      const e = src.indexOf(q, i); if (e < 0) err("unterminated attribute");
      const v = src.slice(i, e); if (v.includes("<")) err("< in attribute");
      if (a in node.attrs) err(`duplicate attribute ${a}`);
      node.attrs[a] = ent(v); i = e + 1;
    }
    for (;;) {
      if (i >= src.length) err(`<${node.name}> is not closed`);
      if (src.startsWith("</", i)) { i += 2; const n = name(); ws(); if (n !== node.name) err(`</${n}> closes <${node.name}>`); if (src[i++] !== ">") err("> expected"); node.end = i; return node; }
      if (src.startsWith("<!--", i)) { const e = src.indexOf("-->", i); if (e < 0) err("unterminated comment"); i = e + 3; continue; }
      if (src.startsWith("<![CDATA[", i)) { const e = src.indexOf("]]>", i); if (e < 0) err("unterminated CDATA"); node.children.push({ text: src.slice(i + 9, e), cdata: true }); i = e + 3; continue; }
      if (src.startsWith("<?", i)) { const e = src.indexOf("?>", i); if (e < 0) err("unterminated instruction"); i = e + 2; continue; }
      if (src[i] === "<") { node.children.push(element()); continue; }
      const e = src.indexOf("<", i); if (e < 0) err(`<${node.name}> is not closed`);
      node.children.push({ text: ent(src.slice(i, e)) }); i = e;
    }
  };
  misc();
  if (src[i] !== "<") err("no root element");
  const root = element();
  misc();
  if (i < src.length) err("text after the root element");
  return root;
}
