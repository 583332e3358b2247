// A small document: what the viewer's page needs of a browser, and nothing of the viewer itself.
// The checks read the page through it as a user would: tables, controls, headings.

class Node {
  constructor(doc) {
    this.ownerDocument = doc;
    this.parentNode = null;
    this.childNodes = [];
  }
  get nextSibling() {
    const s = this.parentNode ? this.parentNode.childNodes : [];
    return s[s.indexOf(this) + 1] ?? null;
  }
  get previousSibling() {
    const s = this.parentNode ? this.parentNode.childNodes : [];
    return s[s.indexOf(this) - 1] ?? null;
  }
  get firstChild() {
    return this.childNodes[0] ?? null;
  }
  get lastChild() {
    return this.childNodes[this.childNodes.length - 1] ?? null;
  }
  get parentElement() {
    return this.parentNode;
  }
  remove() {
    if (this.parentNode) this.parentNode.removeChild(this);
  }
  contains(n) {
    for (; n; n = n.parentNode) if (n == this) return true;
    return false;
  }
  compareDocumentPosition(other) {
    if (this == other) return 0;
    const path = (n) => {
      const p = [];
      for (; n; n = n.parentNode) p.unshift(n);
      return p;
    };
    const a = path(this),
      b = path(other);
    if (a[0] != b[0]) return 1;
    let i = 0;
    while (i < a.length && i < b.length && a[i] == b[i]) i++;
    if (i == a.length) return 20; // contained by this, follows
    if (i == b.length) return 10;
    const s = a[i].parentNode.childNodes;
    return s.indexOf(a[i]) < s.indexOf(b[i]) ? 4 : 2;
  }
}

class Text extends Node {
  constructor(doc, data) {
    super(doc);
    this.data = data;
    this.nodeType = 3;
  }
  get textContent() {
    return this.data;
  }
  cloneNode() {
    return new Text(this.ownerDocument, this.data);
  }
}

class Element extends Node {
  constructor(doc, name) {
    super(doc);
    this.localName = name;
    this.tagName = this.nodeName = name.toUpperCase();
    this.namespaceURI = "http://www.w3.org/1999/xhtml";
    this.nodeType = 1;
    this.attributes = new Map();
    this.listeners = [];
    this._style = new Map();
    const style = this._style;
    this.style = {
      setProperty: (k, v) => style.set(k, String(v)),
      removeProperty: (k) => style.delete(k),
      getPropertyValue: (k) => style.get(k) ?? "",
    };
    if (name == "svg") {
      this.width = { baseVal: { value: 1000 } };
      this.height = { baseVal: { value: 500 } };
    }
  }
  get clientWidth() {
    return 1000;
  }
  get clientHeight() {
    return 500;
  }
  getBoundingClientRect() {
    return { x: 0, y: 0, left: 0, top: 0, width: 1000, height: 500, right: 1000, bottom: 500 };
  }
  getBBox() {
    return { x: 0, y: 0, width: 100, height: 10 };
  }
  getComputedTextLength() {
    return 8 * this.textContent.length;
  }
  scrollIntoView() {}
  focus() {}
  get id() {
    return this.getAttribute("id") ?? "";
  }
  set id(v) {
    this.setAttribute("id", v);
  }
  get className() {
    return this.getAttribute("class") ?? "";
  }
  set className(v) {
    this.setAttribute("class", v);
  }
  get classList() {
    const list = () => this.className.split(/\s+/).filter((c) => c);
    return {
      add: (...c) => (this.className = [...new Set([...list(), ...c])].join(" ")),
      remove: (...c) => (this.className = list().filter((x) => !c.includes(x)).join(" ")),
      contains: (c) => list().includes(c),
      toggle: (c, on = !list().includes(c)) =>
        (this.className = (on ? [...new Set([...list(), c])] : list().filter((x) => x != c)).join(" ")),
    };
  }
  get hidden() {
    return this.attributes.has("hidden");
  }
  set hidden(v) {
    v ? this.setAttribute("hidden", "") : this.removeAttribute("hidden");
  }
  hasAttribute(k) {
    return this.attributes.has(k);
  }
  getAttribute(k) {
    return this.attributes.get(k) ?? null;
  }
  setAttribute(k, v) {
    this.attributes.set(k, String(v));
    if (this.localName == "input" && k == "type") this._sanitize();
  }
  removeAttribute(k) {
    this.attributes.delete(k);
  }
  setAttributeNS(_, k, v) {
    this.setAttribute(k, v);
  }
  getAttributeNS(_, k) {
    return this.getAttribute(k);
  }
  removeAttributeNS(_, k) {
    this.removeAttribute(k);
  }
  get children() {
    return this.childNodes.filter((c) => c.nodeType == 1);
  }
  get firstElementChild() {
    return this.children[0] ?? null;
  }
  insertBefore(node, before) {
    if (node == before) return node;
    node.remove();
    const at = before ? this.childNodes.indexOf(before) : this.childNodes.length;
    if (at < 0) throw new Error("NotFoundError: insertBefore");
    this.childNodes.splice(at, 0, node);
    node.parentNode = this;
    return node;
  }
  appendChild(node) {
    return this.insertBefore(node, null);
  }
  append(...nodes) {
    for (const n of nodes) this.appendChild(n instanceof Node ? n : new Text(this.ownerDocument, String(n)));
  }
  prepend(...nodes) {
    const first = this.firstChild;
    for (const n of nodes) this.insertBefore(n instanceof Node ? n : new Text(this.ownerDocument, String(n)), first);
  }
  removeChild(node) {
    const i = this.childNodes.indexOf(node);
    if (i < 0) throw new Error("NotFoundError: removeChild");
    this.childNodes.splice(i, 1);
    node.parentNode = null;
    return node;
  }
  replaceChildren(...nodes) {
    while (this.firstChild) this.removeChild(this.firstChild);
    this.append(...nodes);
  }
  get textContent() {
    return this.childNodes.map((c) => c.textContent).join("");
  }
  set textContent(v) {
    this.replaceChildren();
    v = v == null ? "" : String(v);
    if (v != "") this.appendChild(new Text(this.ownerDocument, v));
  }
  get innerText() {
    return this.textContent;
  }
  set innerText(v) {
    this.textContent = v;
  }
  set innerHTML(v) {
    this.replaceChildren();
    parse(this.ownerDocument, this, v);
  }
  get innerHTML() {
    return this.textContent.replace(/&/g, "&amp;").replace(/</g, "&lt;");
  }
  *walk() {
    for (const c of this.childNodes)
      if (c.nodeType == 1) {
        yield c;
        yield* c.walk();
      }
  }
  matches(sel) {
    return selector(sel).some((alt) => matchChain(this, alt, alt.length - 1));
  }
  closest(sel) {
    for (let n = this; n; n = n.parentNode) if (n.matches(sel)) return n;
    return null;
  }
  querySelectorAll(sel) {
    const alts = selector(sel);
    const out = [];
    for (const n of this.walk()) if (alts.some((a) => matchChain(n, a, a.length - 1))) out.push(n);
    return out;
  }
  querySelector(sel) {
    const alts = selector(sel);
    for (const n of this.walk()) if (alts.some((a) => matchChain(n, a, a.length - 1))) return n;
    return null;
  }
  cloneNode(deep) {
    const c = new Element(this.ownerDocument, this.localName);
    for (const [k, v] of this.attributes) c.setAttribute(k, v);
    if (deep) for (const n of this.childNodes) c.appendChild(n.cloneNode(true));
    return c;
  }
  addEventListener(type, fn) {
    if (!this.listeners.some((l) => l.type == type && l.fn == fn)) this.listeners.push({ type, fn });
  }
  removeEventListener(type, fn) {
    this.listeners = this.listeners.filter((l) => l.type != type || l.fn != fn);
  }
  dispatchEvent(event) {
    event.target = this;
    for (let n = this; n; n = n.parentNode) {
      event.currentTarget = n;
      if (n["on" + event.type]) n["on" + event.type](event);
      for (const l of [...n.listeners]) if (l.type == event.type) l.fn.call(n, event);
      if (event.stopped) break;
    }
    return true;
  }
  // form elements
  get options() {
    return this.localName == "select" ? [...this.walk()].filter((n) => n.localName == "option") : undefined;
  }
  get _select() {
    let n = this.parentNode;
    while (n && n.localName != "select") n = n.parentNode;
    return n;
  }
  get selected() {
    if (this.localName != "option") return undefined;
    const s = this._select;
    return s ? s.options[s.selectedIndex] == this : !!this._selected;
  }
  set selected(v) {
    this._selected = !!v;
    if (!v) return;
    const s = this._select;
    if (s) for (const o of s.options) if (o != this) o._selected = false;
  }
  get selectedIndex() {
    const o = this.options;
    const i = o.findIndex((x) => x._selected);
    return i >= 0 ? i : o.length ? 0 : -1;
  }
  set selectedIndex(i) {
    this.options.forEach((o, j) => (o._selected = i == j));
  }
  get selectedOptions() {
    return this.options.filter((o) => o.selected);
  }
  get checked() {
    return this._checked ?? this.hasAttribute("checked");
  }
  set checked(v) {
    this._checked = !!v;
  }
  get type() {
    return this.getAttribute("type") ?? (this.localName == "input" ? "text" : undefined);
  }
  set type(v) {
    this.setAttribute("type", v);
  }
  get value() {
    switch (this.localName) {
      case "select":
        return this.options[this.selectedIndex]?.value ?? "";
      case "option":
        return this._value ?? this.getAttribute("value") ?? this.textContent;
      case "input":
        return this._value ?? this.getAttribute("value") ?? (this.type == "checkbox" ? "on" : "");
    }
    return this._value;
  }
  set value(v) {
    if (this.localName == "select") {
      this.options.forEach((o) => (o._selected = o.value == v));
      return;
    }
    this._value = v == null ? "" : String(v);
    if (this.localName == "input") this._sanitize();
  }
  _sanitize() {
    if (this._value == null) return;
    if (this.type == "date" && !/^\d{4,}-\d\d-\d\d$/.test(this._value)) this._value = "";
    if (this.type == "number" && (this._value.trim() == "" || isNaN(Number(this._value)))) this._value = "";
  }
  get valueAsDate() {
    return this.type == "date" && this.value ? new Date(this.value + "T00:00:00Z") : null;
  }
  set valueAsDate(d) {
    if (this.type != "date") throw new Error("InvalidStateError: valueAsDate");
    this._value = d == null || isNaN(d) ? "" : d.toISOString().split("T")[0];
  }
  get valueAsNumber() {
    return this.type == "date" ? (this.valueAsDate?.getTime() ?? NaN) : this.value == "" ? NaN : Number(this.value);
  }
  set valueAsNumber(n) {
    this.type == "date" ? (this.valueAsDate = new Date(n)) : (this.value = String(n));
  }
}

// selectors: compounds of tag, #id, .class, [attr=value], :first-child, :last-child with ' ', '>' and ','
const cache = new Map();
function selector(sel) {
  sel = String(sel);
  if (cache.has(sel)) return cache.get(sel);
  const alts = sel.split(",").map((alt) => {
    const chain = [];
    let comb = " ";
    for (const tok of alt.trim().replace(/\s*>\s*/g, " > ").split(/\s+/)) {
      if (tok == ">") {
        comb = ">";
        continue;
      }
      const m = /^([\w*-]+)?((?:[#.][\w-]+|\[[^\]]*\]|:[\w-]+)*)$/.exec(tok);
      if (!m) throw new Error("SyntaxError: selector " + sel);
      const tests = [];
      if (m[1] && m[1] != "*") tests.push((n) => n.localName == m[1]);
      for (const p of m[2].match(/[#.][\w-]+|\[[^\]]*\]|:[\w-]+/g) ?? []) {
        if (p[0] == "#") tests.push((n) => n.id == p.slice(1));
        else if (p[0] == ".") tests.push((n) => n.classList.contains(p.slice(1)));
        else if (p[0] == "[") {
          const [k, v] = p.slice(1, -1).split("=");
          tests.push((n) => (v == null ? n.hasAttribute(k) : n.getAttribute(k) == v.replace(/^["']|["']$/g, "")));
        } else if (p == ":first-child") tests.push((n) => n.parentNode?.children[0] == n);
        else if (p == ":last-child") tests.push((n) => n.parentNode?.children.at(-1) == n);
        else throw new Error("SyntaxError: selector " + sel);
      }
      chain.push({ comb, test: (n) => tests.every((t) => t(n)) });
      comb = " ";
    }
    return chain;
  });
  cache.set(sel, alts);
  return alts;
}
function matchChain(n, chain, i) {
  if (!chain[i].test(n)) return false;
  if (i == 0) return true;
  if (chain[i].comb == ">") return !!n.parentNode && matchChain(n.parentNode, chain, i - 1);
  for (let p = n.parentNode; p; p = p.parentNode) if (matchChain(p, chain, i - 1)) return true;
  return false;
}

const voids = new Set(["input", "br", "hr", "img", "meta", "link"]);
function parse(doc, into, html) {
  let at = into;
  const unesc = (s) =>
    s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&nbsp;/g, "\u00a0").replace(/&amp;/g, "&");
  const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<(\/?)([a-zA-Z][\w-]*)((?:[^>"']|"[^"]*"|'[^']*')*)>|[^<]+|</gi;
  for (let m; (m = re.exec(html)); ) {
    if (!m[2]) {
      if (m[0][0] != "<" && m[0].trim() != "") at.appendChild(new Text(doc, unesc(m[0])));
      continue;
    }
    const name = m[2].toLowerCase();
    if (m[1]) {
      for (let n = at; n && n != into; n = n.parentNode)
        if (n.localName == name) {
          at = n.parentNode;
          break;
        }
      continue;
    }
    const el = new Element(doc, name);
    for (const a of m[3].matchAll(/([\w:-]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>\/]+))?/g))
      el.setAttribute(a[1], unesc((a[2] ?? "").replace(/^["']|["']$/g, "")));
    at.appendChild(el);
    if (!voids.has(name) && !m[3].trim().endsWith("/")) at = el;
  }
}

export function makeDocument(html) {
  const doc = new Element(null, "#document");
  doc.ownerDocument = doc;
  doc.nodeType = 9;
  const root = new Element(doc, "html");
  doc.appendChild(root);
  doc.documentElement = root;
  doc.body = new Element(doc, "body");
  root.appendChild(doc.body);
  doc.createElement = (n) => new Element(doc, n.toLowerCase());
  doc.createElementNS = (_, n) => new Element(doc, n);
  doc.createTextNode = (t) => new Text(doc, String(t));
  doc.getElementById = (id) => {
    for (const n of doc.walk()) if (n.id == id) return n;
    return null;
  };
  doc.readyState = "complete";
  doc.defaultView = globalThis;
  parse(doc, doc.body, html);
  return doc;
}
export { Element };
