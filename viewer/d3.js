// The parts of D3 the viewer uses, written from D3's documentation (D3 itself is not installed here).

/* ---- d3-selection ---- */

class EnterNode {
  constructor(parent, datum) {
    this._parent = parent;
    this._next = null;
    this.__data__ = datum;
    this.ownerDocument = parent.ownerDocument;
  }
  appendChild(c) {
    return this._parent.insertBefore(c, this._next);
  }
  insertBefore(c, next) {
    return this._parent.insertBefore(c, next);
  }
  querySelector(s) {
    return this._parent.querySelector(s);
  }
  querySelectorAll(s) {
    return this._parent.querySelectorAll(s);
  }
}

const fn = (v) => (typeof v == "function" ? v : () => v);

export class Selection {
  constructor(groups, parents) {
    this._groups = groups;
    this._parents = parents;
  }
  select(s) {
    const pick = typeof s == "function" ? s : function () { return this.querySelector(s); };
    return new Selection(
      this._groups.map((g) =>
        g.map((n, i) => {
          if (!n) return undefined;
          const sub = pick.call(n, n.__data__, i, g);
          if (sub && "__data__" in n) sub.__data__ = n.__data__;
          return sub ?? undefined;
        }),
      ),
      this._parents,
    );
  }
  selectAll(s) {
    const pick = typeof s == "function" ? s : function () { return this.querySelectorAll(s); };
    const groups = [],
      parents = [];
    this._groups.forEach((g) =>
      g.forEach((n, i) => {
        if (!n) return;
        groups.push([...pick.call(n, n.__data__, i, g)]);
        parents.push(n);
      }),
    );
    return new Selection(groups, parents);
  }
  selectChild(s) {
    return this.select(function () { return this.children.find((c) => s == null || c.matches(s)); });
  }
  selectChildren(s) {
    return this.selectAll(function () { return this.children.filter((c) => s == null || c.matches(s)); });
  }
  filter(m) {
    const test = typeof m == "function" ? m : function () { return this.matches(m); };
    return new Selection(
      this._groups.map((g) => g.filter((n, i) => n && test.call(n, n.__data__, i, g))),
      this._parents,
    );
  }
  data(value, key) {
    if (!arguments.length) return this.nodes().map((n) => n.__data__);
    const update = [],
      enter = [],
      exit = [];
    this._groups.forEach((g, j) => {
      const parent = this._parents[j];
      const data = Array.from(
        typeof value == "function" ? value.call(parent, parent && parent.__data__, j, this._parents) : value,
      );
      const u = new Array(data.length),
        en = new Array(data.length),
        ex = new Array(g.length);
      if (!key) {
        for (let i = 0; i < data.length; i++) {
          if (g[i]) {
            g[i].__data__ = data[i];
            u[i] = g[i];
          } else en[i] = new EnterNode(parent, data[i]);
        }
        for (let i = data.length; i < g.length; i++) if (g[i]) ex[i] = g[i];
      } else {
        const byKey = new Map();
        const keys = [];
        g.forEach((n, i) => {
          if (!n) return;
          const k = (keys[i] = key.call(n, n.__data__, i, g) + "");
          if (byKey.has(k)) ex[i] = n;
          else byKey.set(k, n);
        });
        for (let i = 0; i < data.length; i++) {
          const k = key.call(parent, data[i], i, data) + "";
          const n = byKey.get(k);
          if (n) {
            u[i] = n;
            n.__data__ = data[i];
            byKey.delete(k);
          } else en[i] = new EnterNode(parent, data[i]);
        }
        g.forEach((n, i) => {
          if (n && byKey.get(keys[i]) == n) ex[i] = n;
        });
      }
      // an entering node goes before the next updating one
      for (let i = 0, k = 0; i < data.length; i++) {
        if (!en[i]) continue;
        if (k <= i) k = i + 1;
        while (k < data.length && !u[k]) k++;
        en[i]._next = u[k] ?? null;
      }
      update.push(u);
      enter.push(en);
      exit.push(ex);
    });
    const s = new Selection(update, this._parents);
    s._enter = enter;
    s._exit = exit;
    return s;
  }
  enter() {
    return new Selection(this._enter ?? this._groups.map((g) => new Array(g.length)), this._parents);
  }
  exit() {
    return new Selection(this._exit ?? this._groups.map((g) => new Array(g.length)), this._parents);
  }
  join(onenter, onupdate, onexit) {
    let enter = this.enter(),
      update = this,
      exit = this.exit();
    enter = typeof onenter == "function" ? onenter(enter) : enter.append(onenter + "");
    if (enter) enter = enter.selection();
    if (onupdate != null) {
      update = onupdate(update);
      if (update) update = update.selection();
    }
    if (onexit == null) exit.remove();
    else onexit(exit);
    return enter && update ? enter.merge(update).order() : update;
  }
  merge(other) {
    const o = other.selection ? other.selection() : other;
    const groups = this._groups.map((g, j) => {
      const h = o._groups[j] ?? [];
      return Array.from({ length: Math.max(g.length, h.length) }, (_, i) => g[i] ?? h[i]);
    });
    return new Selection(groups, this._parents);
  }
  selection() {
    return this;
  }
  order() {
    for (const g of this._groups) {
      let next = null;
      for (let i = g.length - 1; i >= 0; i--) {
        const n = g[i];
        if (!n) continue;
        if (next && n.compareDocumentPosition(next) ^ 4) next.parentNode.insertBefore(n, next);
        next = n;
      }
    }
    return this;
  }
  sort(compare = (a, b) => (a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN)) {
    const c = (a, b) => (a && b ? compare(a.__data__, b.__data__) : !a - !b);
    return new Selection(
      this._groups.map((g) => g.slice().sort(c)),
      this._parents,
    ).order();
  }
  call(f, ...args) {
    f(this, ...args);
    return this;
  }
  nodes() {
    return this._groups.flatMap((g) => g.filter((n) => n));
  }
  node() {
    return this.nodes()[0] ?? null;
  }
  size() {
    return this.nodes().length;
  }
  empty() {
    return !this.node();
  }
  each(f) {
    for (const g of this._groups) for (let i = 0; i < g.length; i++) if (g[i]) f.call(g[i], g[i].__data__, i, g);
    return this;
  }
  [Symbol.iterator]() {
    return this.nodes()[Symbol.iterator]();
  }
  attr(name, value) {
    if (arguments.length < 2) return this.node().getAttribute(name);
    const v = fn(value);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      x == null ? this.removeAttribute(name) : this.setAttribute(name, x);
    });
  }
  style(name, value) {
    if (arguments.length < 2) return this.node().style.getPropertyValue(name);
    const v = fn(value);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      x == null ? this.style.removeProperty(name) : this.style.setProperty(name, x);
    });
  }
  property(name, value) {
    if (arguments.length < 2) return this.node()[name];
    const v = fn(value);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      x == null ? delete this[name] : (this[name] = x);
    });
  }
  classed(names, value) {
    const list = (names + "").trim().split(/\s+/);
    if (arguments.length < 2) return list.every((c) => this.node().classList.contains(c));
    const v = fn(value);
    return this.each(function (d, i, g) {
      v.call(this, d, i, g) ? this.classList.add(...list) : this.classList.remove(...list);
    });
  }
  text(value) {
    if (!arguments.length) return this.node().textContent;
    const v = fn(value);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      this.textContent = x == null ? "" : x;
    });
  }
  html(value) {
    if (!arguments.length) return this.node().innerHTML;
    const v = fn(value);
    return this.each(function (d, i, g) {
      this.innerHTML = v.call(this, d, i, g) ?? "";
    });
  }
  append(name) {
    const make = creator(name);
    return this.select(function (d, i, g) { return this.appendChild(make.call(this, d, i, g)); });
  }
  insert(name, before) {
    const make = creator(name);
    const b = before == null ? () => null : typeof before == "function" ? before : function () { return this.querySelector(before); };
    return this.select(function (d, i, g) {
      return this.insertBefore(make.call(this, d, i, g), b.call(this, d, i, g) ?? null);
    });
  }
  remove() {
    return this.each(function () { this.remove(); });
  }
  raise() {
    return this.each(function () { if (this.nextSibling) this.parentNode.appendChild(this); });
  }
  lower() {
    return this.each(function () { if (this.previousSibling) this.parentNode.insertBefore(this, this.parentNode.firstChild); });
  }
  clone(deep) {
    return this.select(function () { return this.parentNode.insertBefore(this.cloneNode(deep), this.nextSibling); });
  }
  datum(value) {
    return arguments.length ? this.property("__data__", value) : this.node().__data__;
  }
  on(types, listener) {
    for (const t of (types + "").trim().split(/\s+/)) {
      const type = t.split(".")[0];
      if (arguments.length < 2) return this.node()?.__on?.[t];
      this.each(function () {
        this.__on ??= {};
        if (this.__on[t]) this.removeEventListener(type, this.__on[t].f);
        delete this.__on[t];
        if (listener == null) return;
        const f = function (event) { listener.call(this, event, this.__data__); };
        this.__on[t] = { f, listener };
        this.addEventListener(type, f);
      });
    }
    return this;
  }
  dispatch(type) {
    return this.each(function () { this.dispatchEvent({ type, stopPropagation() {}, preventDefault() {} }); });
  }
  transition() {
    return this;
  }
  duration() {
    return this;
  }
}

function creator(name) {
  if (typeof name == "function") return name;
  return function () { return (this.ownerDocument ?? document).createElementNS(null, name.replace(/^(svg|xhtml):/, "")); };
}

export function select(s) {
  return typeof s == "string"
    ? new Selection([[document.querySelector(s) ?? undefined]], [document.documentElement])
    : new Selection([[s]], [null]);
}
export function selectAll(s) {
  return typeof s == "string"
    ? new Selection([document.querySelectorAll(s)], [document.documentElement])
    : new Selection([Array.from(s ?? [])], [null]);
}
export const create = (name) => select(creator(name).call(document.documentElement));
export const selection = () => new Selection([[document.documentElement]], [null]);

/* ---- d3-time ---- */

function interval(floor, offset, count, field) {
  const it = (d) => (floor((d = d == null ? new Date() : new Date(+d))), d);
  it.floor = (d) => (floor((d = new Date(+d))), d);
  it.ceil = (d) => {
    d = new Date(d - 1);
    floor(d);
    offset(d, 1);
    floor(d);
    return d;
  };
  it.round = (d) => {
    const a = it(d),
      b = it.ceil(d);
    return d - a < b - d ? a : b;
  };
  it.offset = (d, step) => (offset((d = new Date(+d)), step == null ? 1 : Math.floor(step)), d);
  it.range = (start, stop, step) => {
    const range = [];
    start = it.ceil(start);
    step = step == null ? 1 : Math.floor(step);
    if (!(start < stop) || !(step > 0)) return range;
    let previous;
    do {
      range.push((previous = new Date(+start)));
      offset(start, step);
      floor(start);
    } while (previous < start && start < stop);
    return range;
  };
  it.filter = (test) =>
    interval(
      (d) => {
        if (d >= d) while ((floor(d), !test(d))) d.setTime(d - 1);
      },
      (d, step) => {
        if (d >= d) {
          if (step < 0) while (++step <= 0) while ((offset(d, -1), !test(d)));
          else while (--step >= 0) while ((offset(d, +1), !test(d)));
        }
      },
    );
  if (count) {
    it.count = (start, end) => {
      const a = new Date(+start),
        b = new Date(+end);
      floor(a);
      floor(b);
      return Math.floor(count(a, b));
    };
    it.every = (step) => {
      step = Math.floor(step);
      return !isFinite(step) || !(step > 0)
        ? null
        : !(step > 1)
          ? it
          : it.filter(field ? (d) => field(d) % step === 0 : (d) => it.count(0, d) % step === 0);
    };
  }
  return it;
}
const M = 60000,
  D = 86400000;
const weekday = (i) =>
  interval(
    (d) => {
      d.setDate(d.getDate() - ((d.getDay() + 7 - i) % 7));
      d.setHours(0, 0, 0, 0);
    },
    (d, step) => void d.setDate(d.getDate() + step * 7),
    (a, b) => (b - a - (b.getTimezoneOffset() - a.getTimezoneOffset()) * M) / (7 * D),
  );
const utcWeekday = (i) =>
  interval(
    (d) => {
      d.setUTCDate(d.getUTCDate() - ((d.getUTCDay() + 7 - i) % 7));
      d.setUTCHours(0, 0, 0, 0);
    },
    (d, step) => void d.setUTCDate(d.getUTCDate() + step * 7),
    (a, b) => (b - a) / (7 * D),
  );
export const timeDay = interval(
  (d) => d.setHours(0, 0, 0, 0),
  (d, step) => void d.setDate(d.getDate() + step),
  (a, b) => (b - a - (b.getTimezoneOffset() - a.getTimezoneOffset()) * M) / D,
  (d) => d.getDate() - 1,
);
export const utcDay = interval(
  (d) => d.setUTCHours(0, 0, 0, 0),
  (d, step) => void d.setUTCDate(d.getUTCDate() + step),
  (a, b) => (b - a) / D,
  (d) => d.getUTCDate() - 1,
);
export const timeSunday = weekday(0);
export const timeMonday = weekday(1);
export const timeWeek = timeSunday;
export const utcSunday = utcWeekday(0);
export const utcMonday = utcWeekday(1);
export const utcWeek = utcSunday;
export const timeMonth = interval(
  (d) => {
    d.setDate(1);
    d.setHours(0, 0, 0, 0);
  },
  (d, step) => void d.setMonth(d.getMonth() + step),
  (a, b) => b.getMonth() - a.getMonth() + (b.getFullYear() - a.getFullYear()) * 12,
  (d) => d.getMonth(),
);
export const utcMonth = interval(
  (d) => {
    d.setUTCDate(1);
    d.setUTCHours(0, 0, 0, 0);
  },
  (d, step) => void d.setUTCMonth(d.getUTCMonth() + step),
  (a, b) => b.getUTCMonth() - a.getUTCMonth() + (b.getUTCFullYear() - a.getUTCFullYear()) * 12,
  (d) => d.getUTCMonth(),
);
export const timeYear = interval(
  (d) => {
    d.setMonth(0, 1);
    d.setHours(0, 0, 0, 0);
  },
  (d, step) => void d.setFullYear(d.getFullYear() + step),
  (a, b) => b.getFullYear() - a.getFullYear(),
  (d) => d.getFullYear(),
);
export const utcYear = interval(
  (d) => {
    d.setUTCMonth(0, 1);
    d.setUTCHours(0, 0, 0, 0);
  },
  (d, step) => void d.setUTCFullYear(d.getUTCFullYear() + step),
  (a, b) => b.getUTCFullYear() - a.getUTCFullYear(),
  (d) => d.getUTCFullYear(),
);
export const timeWeeks = timeWeek.range,
  timeMonths = timeMonth.range,
  timeYears = timeYear.range,
  timeDays = timeDay.range;
export const utcWeeks = utcWeek.range,
  utcMonths = utcMonth.range,
  utcYears = utcYear.range,
  utcDays = utcDay.range;

/* ---- d3-scale, d3-axis, d3-scale-chromatic ---- */

function linear(domain, range, cast = Number) {
  let clamped = false;
  const s = (x) => {
    const a = +domain[0],
      b = +domain[domain.length - 1];
    let v = +x;
    if (clamped) v = Math.max(Math.min(a, b), Math.min(Math.max(a, b), v));
    const t = b - a ? (v - a) / (b - a) : isNaN(b) ? NaN : 0.5;
    return +range[0] * (1 - t) + +range[range.length - 1] * t;
  };
  s.invert = (y) => {
    const t = (y - range[0]) / (range[range.length - 1] - range[0]);
    return cast(+domain[0] * (1 - t) + +domain[domain.length - 1] * t);
  };
  s.domain = (d) => (d === undefined ? domain.slice() : ((domain = Array.from(d)), s));
  s.range = (r) => (r === undefined ? range.slice() : ((range = Array.from(r)), s));
  s.rangeRound = s.range;
  s.clamp = (c) => (c === undefined ? clamped : ((clamped = !!c), s));
  s.nice = () => s;
  s.ticks = () => [domain[0], domain[domain.length - 1]];
  s.tickFormat = () => String;
  s.copy = () => linear(domain, range, cast).clamp(clamped);
  return s;
}
const two = (a, d) => (a.length == 0 ? [d, [0, 1]] : a.length == 1 ? [d, a[0]] : [a[0], a[1]]);
export const scaleLinear = (...a) => linear(...two(a, [0, 1]));
const time = (...a) => linear(...two(a, [new Date(2000, 0, 1), new Date(2000, 0, 2)]), (n) => new Date(n));
export const scaleTime = time;
export const scaleUtc = time;
export function scaleOrdinal(...a) {
  const [, range] = two(a, []);
  const seen = new Map();
  const s = (k) => {
    if (!seen.has(k)) seen.set(k, seen.size);
    return range[seen.get(k) % range.length];
  };
  s.domain = () => s;
  s.range = () => range;
  return s;
}
export function scaleSequential(...a) {
  const [domain, interpolate] = a.length == 1 ? [[0, 1], a[0]] : a;
  const s = (x) => interpolate((x - domain[0]) / (domain[1] - domain[0]));
  s.domain = () => domain;
  return s;
}
export const scaleBand = (...a) => {
  const s = linear(...two(a, []));
  s.bandwidth = () => 10;
  s.padding = () => s;
  return s;
};
const axis = (scale) => {
  const a = (sel) => void sel.append("path").attr("class", "domain");
  for (const m of ["ticks", "tickFormat", "tickSize", "tickSizeOuter", "tickSizeInner", "tickPadding", "tickValues", "tickArguments", "offset"]) a[m] = () => a;
  a.scale = () => scale;
  return a;
};
export const axisLeft = axis,
  axisTop = axis,
  axisRight = axis,
  axisBottom = axis;
export const schemeCategory10 = ["#1f77b4", "#ff7f0e", "#2ca02c", "#d62728", "#9467bd", "#8c564b", "#e377c2", "#7f7f7f", "#bcbd22", "#17becf"];
export const schemeTableau10 = schemeCategory10;
export const interpolateBlues = (t) => `rgb(0,0,${Math.round(255 * t)})`;

/* ---- d3-array ---- */

export function group(values, key) {
  const m = new Map();
  let i = 0;
  for (const v of values) {
    const k = key(v, i++, values);
    m.has(k) ? m.get(k).push(v) : m.set(k, [v]);
  }
  return m;
}
export const groups = (values, key) => Array.from(group(values, key));
export const rollup = (values, reduce, key) => new Map(groups(values, key).map(([k, v]) => [k, reduce(v)]));
const nums = (values, f) => Array.from(values, f ?? ((x) => x)).filter((x) => x != null && x >= x);
export const max = (values, f) => nums(values, f).reduce((a, b) => (a === undefined || b > a ? b : a), undefined);
export const min = (values, f) => nums(values, f).reduce((a, b) => (a === undefined || b < a ? b : a), undefined);
export const sum = (values, f) => nums(values, f).reduce((a, b) => a + +b, 0);
export const extent = (values, f) => [min(values, f), max(values, f)];
export const range = (a, b, s = 1) => {
  if (b === undefined) [a, b] = [0, a];
  const out = [];
  for (let i = 0; a + i * s < b; i++) out.push(a + i * s);
  return out;
};
export const ascending = (a, b) => (a == null || b == null ? NaN : a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN);
export const descending = (a, b) => ascending(b, a);
export function bisector(f) {
  const val = f.length == 2 ? null : f;
  const cmp = val ? (d, x) => ascending(val(d), x) : f;
  const left = (a, x, lo = 0, hi = a.length) => {
    while (lo < hi) {
      const mid = (lo + hi) >>> 1;
      cmp(a[mid], x) < 0 ? (lo = mid + 1) : (hi = mid);
    }
    return lo;
  };
  const right = (a, x, lo = 0, hi = a.length) => {
    while (lo < hi) {
      const mid = (lo + hi) >>> 1;
      cmp(a[mid], x) <= 0 ? (lo = mid + 1) : (hi = mid);
    }
    return lo;
  };
  return { left, right };
}
export const bisectLeft = bisector((d) => d).left;
export const bisectRight = bisector((d) => d).right;
export const bisect = bisectRight;

/* ---- d3-hierarchy ---- */

class HNode {
  constructor(data) {
    this.data = data;
    this.depth = 0;
    this.height = 0;
    this.parent = null;
  }
  *[Symbol.iterator]() {
    let next = [this];
    while (next.length) {
      const cur = next;
      next = [];
      for (const n of cur) {
        yield n;
        if (n.children) next.push(...n.children);
      }
    }
  }
  each(f) {
    let i = 0;
    for (const n of this) f(n, i++, this);
    return this;
  }
  eachAfter(f) {
    for (const n of [...this].reverse()) f(n);
    return this;
  }
  eachBefore(f) {
    f(this);
    for (const c of this.children ?? []) c.eachBefore(f);
    return this;
  }
  sum(value) {
    return this.eachAfter((n) => {
      let s = +value(n.data) || 0;
      for (const c of n.children ?? []) s += c.value;
      n.value = s;
    });
  }
  sort(compare) {
    return this.eachBefore((n) => n.children?.sort(compare));
  }
  descendants() {
    return [...this];
  }
  leaves() {
    return [...this].filter((n) => !n.children);
  }
  ancestors() {
    const out = [];
    for (let n = this; n; n = n.parent) out.push(n);
    return out;
  }
}
function link(root) {
  root.eachBefore((n) => {
    n.depth = n.parent ? n.parent.depth + 1 : 0;
  });
  root.eachAfter((n) => {
    n.height = Math.max(0, ...(n.children ?? []).map((c) => c.height + 1));
  });
  return root;
}
export function stratify() {
  let id = (d) => d.id,
    parentId = (d) => d.parentId;
  const s = (data) => {
    const nodes = Array.from(data, (d) => new HNode(d));
    const byId = new Map();
    nodes.forEach((n, i) => {
      const k = id(n.data, i, data);
      if (k != null && k + "" != "") {
        n.id = k + "";
        if (byId.has(n.id)) throw new Error("ambiguous: " + n.id);
        byId.set(n.id, n);
      }
    });
    let root;
    nodes.forEach((n, i) => {
      const p = parentId(n.data, i, data);
      if (p == null || p + "" == "") {
        if (root) throw new Error("multiple roots");
        root = n;
        return;
      }
      const parent = byId.get(p + "");
      if (!parent) throw new Error("missing: " + p);
      (parent.children ??= []).push(n);
      n.parent = parent;
    });
    if (!root) throw new Error("no root");
    return link(root);
  };
  s.id = (f) => ((id = f), s);
  s.parentId = (f) => ((parentId = f), s);
  return s;
}
export function hierarchy(data, children = (d) => d.children) {
  const make = (d, parent) => {
    const n = new HNode(d);
    n.parent = parent;
    const cs = children(d);
    if (cs && Array.from(cs).length) n.children = Array.from(cs, (c) => make(c, n));
    return n;
  };
  return link(make(data, null));
}
export function treemap() {
  let w = 1,
    h = 1;
  const t = (root) => {
    const place = (n, x0, y0, x1, y1) => {
      Object.assign(n, { x0, y0, x1, y1 });
      const total = (n.children ?? []).reduce((s, c) => s + c.value, 0);
      let x = x0;
      for (const c of n.children ?? []) {
        const cw = total ? ((x1 - x0) * c.value) / total : 0;
        place(c, x, y0, x + cw, y1);
        x += cw;
      }
    };
    place(root, 0, 0, w, h);
    return root;
  };
  t.size = (x) => (([w, h] = x), t);
  for (const m of ["padding", "paddingTop", "paddingInner", "paddingOuter", "paddingLeft", "paddingRight", "paddingBottom", "round", "tile"]) t[m] = () => t;
  return t;
}
export const treemapSquarify = null,
  treemapBinary = null;

/* ---- d3-format, d3-time-format ---- */

const pad2 = (n) => String(n).padStart(2, "0");
const formatter = (utc) => (spec) => (d) =>
  spec.replace(/%([YmdyHMS])/g, (_, c) => {
    const g = (n) => (utc ? d["getUTC" + n]() : d["get" + n]());
    return { Y: () => g("FullYear"), m: () => pad2(g("Month") + 1), d: () => pad2(g("Date")), y: () => pad2(g("FullYear") % 100), H: () => pad2(g("Hours")), M: () => pad2(g("Minutes")), S: () => pad2(g("Seconds")) }[c]();
  });
export const timeFormat = formatter(false);
export const utcFormat = formatter(true);
