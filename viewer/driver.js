// Runs the viewer's page as a browser would and answers what a user sees. One request per line:
//   {"load": {commodities, prices, accounts, transactions}}   opens a page with this data
//   {"do": [event...]}                                        acts on it
// and the answer to both is what the page shows then. Events:
//   ["set", id, text]       type into an input and leave it
//   ["check", id, bool]     tick or untick
//   ["choose", id, text]    choose the option shown as text
//   ["account", i, dbl]     click the i-th entry of the list of accounts (dbl: twice)
//   ["up", i]               click the i-th part of the account shown as heading
//   ["head", t, i]          click the i-th heading of the t-th table
//   ["cell", t, r, c]       click a cell
//   ["back", i]             click the i-th excluded account
//   ["title", i]            click the i-th titled shape of the chart
//   ["legend", i]           click the i-th entry of the legend
import vm from "node:vm";
import fs from "node:fs";
import readline from "node:readline";
import { makeDocument } from "./dom.js";

const [code, html] = [process.argv[2], process.argv[3]].map((f) => fs.readFileSync(f, "utf8"));
const script = new vm.Script(code, { filename: process.argv[2] });
console.log = console.debug = console.info = () => {};
let errors = [];
console.error = console.warn = () => {};
globalThis.window = globalThis;
globalThis.alert = () => {};

function load(data) {
  globalThis.document = makeDocument(html);
  for (const [k, v] of Object.entries(data)) {
    const s = document.createElement("script");
    s.setAttribute("type", "application/json");
    s.setAttribute("id", "imported" + k[0].toUpperCase() + k.slice(1));
    s.textContent = v;
    document.body.appendChild(s);
  }
  script.runInThisContext();
}

function fire(n, type) {
  n.dispatchEvent({ type, stopPropagation() { this.stopped = true; }, preventDefault() {} });
}
const view = () => document.querySelector("#main section#view");
const tables = (n) => n.querySelectorAll("table");
function need(x, what) {
  if (x == null) throw new Error("harness: the page has no " + what);
  return x;
}
const acts = {
  set(id, text) {
    const n = need(document.getElementById(id), id);
    n.value = text;
    fire(n, "change");
  },
  check(id, on) {
    const n = need(document.getElementById(id), id);
    if (n.checked == on) return;
    n.checked = on;
    fire(n, "change");
  },
  choose(id, text) {
    const n = need([...document.walk()].find((n) => n.localName == "select" && n.id == id), id);
    const o = need(n.options.find((o) => o.textContent == text), id + " " + text);
    n.selectedIndex = n.options.indexOf(o);
    fire(n, "change");
  },
  account(i, dbl) {
    const n = need(document.querySelectorAll("#accounts li")[i], "account " + i);
    fire(n, "click");
    if (dbl) {
      fire(n, "click");
      fire(n, "dblclick");
    }
  },
  up(i) {
    fire(need(document.querySelectorAll("#account #name a")[i], "part " + i), "click");
  },
  head(t, i) {
    fire(need(tables(view())[t]?.querySelectorAll("th")[i], "heading " + i), "click");
  },
  cell(t, r, c) {
    const row = tables(view())[t]?.querySelectorAll("tbody tr")[r];
    fire(need(row?.querySelectorAll("td")[c], `cell ${r} ${c}`), "click");
  },
  back(i) {
    fire(need(document.querySelectorAll("#excludedSubAccounts span")[i], "excluded " + i), "click");
  },
  title(i) {
    fire(need(view().querySelectorAll("title")[i], "shape " + i), "click");
  },
  legend(i) {
    fire(need(view().querySelectorAll(".legend text")[i], "legend " + i), "click");
  },
};

function dumpTables(n) {
  return tables(n).map((t) => ({
    head: t.querySelectorAll("th").map((h) => h.textContent),
    rows: t.querySelectorAll("tbody tr").map((r) => r.children.map((c) => c.textContent)),
  }));
}
function dump() {
  const controls = {};
  for (const n of document.walk()) {
    if (!n.id || (n.localName != "select" && n.localName != "input")) continue;
    controls[n.id] =
      n.localName == "select" ? (n.options[n.selectedIndex]?.textContent ?? "") : n.type == "checkbox" ? String(n.checked) : n.value;
  }
  const texts = (s) => document.querySelectorAll(s).map((n) => n.textContent);
  const d = document.getElementById("details");
  const end = document.getElementById("end");
  return {
    errors,
    controls,
    views: document.querySelectorAll("#controls select#view option").map((n) => n.textContent),
    roots: texts("select#root option"),
    account: texts("#account #name a"),
    commodity: document.querySelector("#account #commodity")?.textContent ?? "",
    accounts: texts("#accounts li"),
    excluded: texts("#excludedSubAccounts span"),
    min: end?.getAttribute("min") ?? end?.min ?? "",
    max: end?.getAttribute("max") ?? end?.max ?? "",
    tables: dumpTables(view()),
    titles: view().querySelectorAll("title").map((n) => n.textContent),
    bars: view()
      .querySelectorAll("title")
      .map((n) => ["x", "width"].map((a) => Number(n.parentNode.getAttribute(a)) || 0)),
    legend: view().querySelectorAll(".legend text").map((n) => n.textContent),
    details: d && !d.hidden ? dumpTables(d) : null,
  };
}

readline.createInterface({ input: process.stdin }).on("line", (line) => {
  errors = [];
  try {
    const req = JSON.parse(line);
    if (req.load) load(req.load);
    for (const [what, ...args] of req.do ?? []) acts[what](...args);
  } catch (e) {
    errors.push(String(e?.stack ?? e).split("\n").slice(0, 4).join(" | "));
  }
  let out;
  try {
    out = dump();
  } catch (e) {
    out = { errors: [...errors, "page cannot be read: " + e] };
  }
  process.stdout.write(JSON.stringify(out) + "\n");
});
