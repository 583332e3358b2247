package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// P20: the aggregated register loses and invents nothing.
// P21: its text, CSV and JSON renderings agree.

type p20opts struct {
	p19opts
	period, cat string // flags: w m q y, bp bt
	cum         bool
	top         int // -1 leaves the default of 5
	out         string
}

func (o p20opts) args() []string {
	a := o.p19opts.args()
	if o.period != "" {
		a = append(a[:1], append([]string{"-" + o.period}, a[1:]...)...)
	}
	if o.cat != "" {
		a = append(a[:1], append([]string{"-" + o.cat}, a[1:]...)...)
	}
	if o.cum {
		a = append(a[:1], append([]string{"-c"}, a[1:]...)...)
	}
	if o.top >= 0 {
		a = append(a[:1], append([]string{"-g", fmt.Sprint(o.top)}, a[1:]...)...)
	}
	if o.out != "" {
		a = append(a[:1], append([]string{"-o", o.out}, a[1:]...)...)
	}
	return a
}

// period of a date, as shown.
func p20period(flag, date string) string {
	if flag == "" {
		return ""
	}
	d := pdate(date)
	switch flag {
	case "w":
		for d.Weekday() != time.Sunday {
			d = d.AddDate(0, 0, -1)
		}
		return dateStr(d)
	case "m":
		return date[:7]
	case "q":
		m := int(d.Month())
		for m%3 != 1 {
			m--
		}
		return fmt.Sprintf("%s/%02d", date[:4], m)
	}
	return date[:4]
}

func p20category(flag string, t Tx, i int) string {
	switch flag {
	case "bp":
		return t.Desc
	case "bt":
		m := p09of(p16notes(t.Note, t.Notes)...)
		for k, v := range p09of(p16notes(t.Ps[i].Note, t.Ps[i].Notes)...) {
			m[k] = v
		}
		var kv []string
		for k, v := range m {
			if v != "" {
				k += ":" + v
			}
			kv = append(kv, k)
		}
		sort.Strings(kv)
		if len(kv) == 0 {
			return "<no-tags>"
		}
		return strings.Join(kv, ",")
	}
	return ""
}

// p20table is the aggregation: a column per account, a row per period and category.
type p20table struct {
	keys [][2]string // period, category
	accs []string
	com  map[string]string
	val  map[string][]*big.Int
}

func (l *p18led) aggregate(o p20opts) (t p20table) {
	var decl []string
	for _, a := range l.accs {
		decl = append(decl, a.Name)
	}
	own := map[string]map[[2]string]*big.Int{}
	seen := map[[2]string]bool{}
	for _, n := range closure(decl) {
		own[n] = map[[2]string]*big.Int{}
	}
	shown := map[string]bool{}
	for _, x := range l.txs {
		am := p18amounts(l, x)
		for i, p := range x.Ps {
			if !isAncestorOrSelf(o.acc, p.Acc) || !o.sel(x, i) {
				continue
			}
			k := [2]string{p20period(o.period, x.Date), p20category(o.cat, x, i)}
			seen[k] = true
			v := own[p.Acc][k]
			if v == nil {
				v = new(big.Int)
				own[p.Acc][k] = v
			}
			c := p.Com
			if c == "" {
				c = l.com(p.Acc)
			}
			v.Add(v, p18convert(am[i], c, l.com(p.Acc)))
			for n := range own {
				if isAncestorOrSelf(n, p.Acc) && isAncestorOrSelf(o.acc, n) {
					shown[n] = true
				}
			}
		}
	}
	for k := range seen {
		t.keys = append(t.keys, k)
	}
	sort.Slice(t.keys, func(i, j int) bool {
		a, b := t.keys[i], t.keys[j]
		return a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
	})
	names := sortedKeys(shown)
	t.com, t.val = map[string]string{}, map[string][]*big.Int{}
	var rec func(n string) []*big.Int
	rec = func(n string) []*big.Int {
		if v := t.val[n]; v != nil {
			return v
		}
		v := make([]*big.Int, len(t.keys))
		for i, k := range t.keys {
			v[i] = new(big.Int)
			if x := own[n][k]; x != nil {
				v[i].Set(x)
			}
		}
		if o.rec {
			for _, c := range names {
				if c != "Root" && (parentOf(c) == n || n == "Root" && parentOf(c) == "") {
					for i, x := range rec(c) {
						v[i].Add(v[i], p18convert(x, l.com(c), l.com(n)))
					}
				}
			}
		}
		t.val[n] = v
		return v
	}
	for _, n := range names {
		t.accs = append(t.accs, n)
		t.com[n] = l.com(n)
		rec(n)
	}
	return
}

// p20out is a rendered table.
type p20out struct {
	labels []string
	keys   [][2]string
	cells  [][]string
}

// p20parse reads the output of an aggregated register.
func p20parse(o p20opts, out string) (t p20out, err error) {
	lead := b2i(o.period != "") + b2i(o.cat != "")
	key := func(c []string) (k [2]string) {
		if o.period != "" {
			k[0] = c[0]
		}
		if o.cat != "" {
			k[1] = c[lead-1]
		}
		return
	}
	var rows [][]string
	switch o.out {
	case "json":
		dec := json.NewDecoder(strings.NewReader(out))
		for dec.More() {
			var r []string
			if err := dec.Decode(&r); err != nil {
				return t, err
			}
			rows = append(rows, r)
		}
	case "csv":
		r := csv.NewReader(bytes.NewBufferString(out))
		rows, err = r.ReadAll()
		if err != nil {
			return t, err
		}
	default:
		ls := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if out == "" || !hasToken(ls[0], o.acc) {
			return t, fmt.Errorf("no header")
		}
		n := -1
		for i, l := range ls[1:] {
			c := cells(l)
			if i == 0 {
				n = len(c)
			} else if extra := len(c) - n; extra > 0 && o.cat != "" {
				// bars in the category
				raw := strings.Split(l, "|")
				c = append(append(append([]string{}, c[:lead-1]...), strings.TrimSpace(strings.Join(raw[lead-1:lead+extra], "|"))), c[lead+extra:]...)
			}
			rows = append(rows, c)
		}
		for i, r := range rows {
			if len(r) < lead+1 || len(r) != len(rows[0]) {
				return t, fmt.Errorf("row %d has %d cells", i, len(r))
			}
			if i == 0 && r[0] != "" {
				return t, fmt.Errorf("header starts with %q", r[0])
			}
		}
		if len(rows) > 0 {
			t.labels = rows[0][lead:]
		}
	}
	for i, r := range rows {
		if len(r) < lead+1 || len(r) != len(rows[0]) {
			return t, fmt.Errorf("row %d has %d cells", i, len(r))
		}
		if i == 0 {
			t.labels = r[lead:]
			continue
		}
		t.keys = append(t.keys, key(r))
		t.cells = append(t.cells, r[lead:])
	}
	return t, nil
}

// p20column finds the account of a column.
func p20column(label string, o p20opts, accs []string) string {
	for _, n := range accs {
		if n == o.acc {
			if label == n[strings.LastIndex(n, ":")+1:] || label == n {
				return n
			}
		} else if label == n || label == strings.TrimPrefix(n, o.acc) || label == strings.TrimPrefix(n, o.acc+":") {
			return n
		}
	}
	return ""
}

func p20running(v []*big.Int, keys [][2]string) (out []*big.Int) {
	s := new(big.Int)
	for _, x := range v {
		s = new(big.Int).Add(s, x)
		out = append(out, s)
	}
	return
}

func p20total(v []*big.Int) *big.Int {
	s := new(big.Int)
	for _, x := range v {
		s.Add(s, x)
	}
	return s.Abs(s)
}

// checkTable runs one aggregation and compares the table, with full labels.
func (l *p18led) checkTable(e *Env, db string, o p20opts) {
	r := e.Run("coin", db, o.args()...)
	w := l.aggregate(o)
	sig := fmt.Sprint(o.args()) + txsText(l.txs...)
	e.State(sig)
	e.Outcome(fmt.Sprint(len(w.keys), len(w.accs)))
	bad := func(format string, a ...any) {
		s := ""
		for _, n := range w.accs {
			s += fmt.Sprintln(n, w.com[n], w.val[n])
		}
		e.Fail(sig, "coin %v: %s\n%s%s--- expected rows %v\n%s--- transactions\n%s", o.args(), fmt.Sprintf(format, a...), clip(r.Out, 4000), r.Err, w.keys, s, clip(txsText(l.txs...), 3000))
	}
	if r.Code != 0 {
		bad("exit %d", r.Code)
		return
	}
	g, err := p20parse(o, r.Out)
	if err != nil {
		bad("%v", err)
		return
	}
	if fmt.Sprint(g.keys) != fmt.Sprint(w.keys) {
		bad("rows are %v", g.keys)
		return
	}
	if len(w.keys) == 0 {
		return
	}
	limit := o.top
	if limit < 0 {
		limit = 5
	}
	column := func(i int) []string {
		var c []string
		for _, row := range g.cells {
			c = append(c, row[i])
		}
		return c
	}
	render := func(v []*big.Int, com string) (c []string) {
		if o.cum {
			v = p20running(v, w.keys)
		}
		for _, x := range v {
			c = append(c, fmtDec(x, p18dec(com)))
		}
		return
	}
	same := func(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }
	kept := map[string]bool{}
	others := -1
	for i, label := range g.labels {
		if label == "Other" && i == len(g.labels)-1 && len(w.accs) > limit {
			others = i
			continue
		}
		n := p20column(label, o, w.accs)
		if n == "" || kept[n] {
			bad("column %q is not expected or repeated", label)
			return
		}
		kept[n] = true
		if c := render(w.val[n], w.com[n]); !same(c, column(i)) {
			bad("column of %s is %v, should be %v", n, column(i), c)
			return
		}
	}
	if len(kept) != min(limit, len(w.accs)) || (others >= 0) != (len(w.accs) > limit) {
		bad("%d accounts shown of %d with limit %d", len(kept), len(w.accs), limit)
		return
	}
	mixed := false
	for _, n := range w.accs {
		mixed = mixed || w.com[n] != w.com[w.accs[0]]
	}
	if !mixed {
		for n := range kept {
			for _, m := range w.accs {
				if !kept[m] && p20total(w.val[m]).Cmp(p20total(w.val[n])) > 0 {
					bad("%s is left out though larger than %s", m, n)
					return
				}
			}
		}
	}
	if others < 0 {
		return
	}
	coms := map[string]bool{}
	for _, n := range w.accs {
		if !kept[n] {
			coms[w.com[n]] = true
		}
	}
	for c := range coms {
		sum := make([]*big.Int, len(w.keys))
		for i := range sum {
			sum[i] = new(big.Int)
			for _, n := range w.accs {
				if !kept[n] {
					sum[i].Add(sum[i], p18convert(w.val[n][i], w.com[n], c))
				}
			}
		}
		if same(render(sum, c), column(others)) {
			return
		}
	}
	bad("Other is %v, which is not the sum of the accounts left out", column(others))
}

var p20kinds = []struct{ period, cat string }{{"w", ""}, {"m", ""}, {"q", ""}, {"y", ""}, {"", "bp"}, {"", "bt"}, {"w", "bp"}, {"m", "bt"}, {"q", "bp"}, {"y", "bt"}, {"y", "bp"}, {"w", "bt"}}

// p20merge is the ledger whose accounts have postings in subsets of four periods.
func p20merge(subsets [4]int, cats bool) *p18led {
	accs := []string{"P", "P:A", "P:B", "P:A:C"}
	l := &p18led{accs: []Acc{{Name: "Z", Com: "CAD"}}}
	for _, a := range accs {
		l.accs = append(l.accs, Acc{Name: a, Com: "CAD"})
	}
	for i, s := range subsets {
		for k := 0; k < 4; k++ {
			if s>>k&1 == 0 {
				continue
			}
			d, desc := fmt.Sprintf("2020/%02d/15", k+1), "x"
			if cats {
				d, desc = fmt.Sprintf("2020/%02d/15", k%2+1), fmt.Sprint("cat", k)
			}
			amt := fmt.Sprintf("%d.%02d", i*4+k+1, 1<<k)
			if (i+k)%3 == 0 {
				amt = "-" + amt
			}
			l.txs = append(l.txs, Tx{Date: d, Desc: desc, Ps: []Post{{Acc: accs[i], Amt: amt, Com: "CAD"}, {Acc: "Z"}}})
		}
	}
	return l
}

func init() {
	register(&Prop{
		ID: "P20", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one or more option combinations over one ledger; states are distinct (ledger, options) pairs",
		Assumptions: []string{"with a limit and several commodities any of the accounts may be left out, and Other may be in the commodity of any of them", "sub-totals are converted into the commodity of the parent account level by level", "inverted tag filters are not used", "a column may be labelled with the name of the account with or without the part it shares with the register's account"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			rich := p19rich()
			rich.txs[len(rich.txs)-1].Desc = "long"
			opts := func(c *Chooser) *Case {
				kind := p20kinds[c.N(len(p20kinds))]
				acc := []string{"Root", "As", "As:Bank", "Ex", "Yen", "Old"}[c.N(6)]
				rec := c.N(2) == 1
				return &Case{Key: fmt.Sprint("options ", kind, acc, rec), Run: func(e *Env) {
					db := e.Sub("db", rich.files())
					i := 0
					for _, p := range []string{"", "alpha", "!alpha"} {
						for _, t := range []string{"", "t", "u", "t:^v$"} {
							for _, b := range []string{"", "2019/12/31", "2020/01/31"} {
								for _, en := range []string{"", "2020/02/01", "2020/01/31"} {
									i++
									if !thorough && i%4 != (len(acc)+b2i(rec))%4 && i != 1 {
										continue
									}
									for _, top := range []int{100, -1, 2} {
										if top == 2 && i%8 != 1 && !thorough {
											continue
										}
										o := p20opts{p19opts: p19opts{p18opts: p18opts{begin: b, end: en, payee: p, tag: t, acc: acc}, rec: rec, label: 200}, period: kind.period, cat: kind.cat, top: top, out: []string{"", "csv", "json"}[i%3]}
										o.cum = kind.cat == "" && i%2 == 0
										rich.checkTable(e, db, o)
									}
								}
							}
						}
					}
				}}
			}
			merge := func(c *Chooser) *Case {
				var s [4]int
				cats := c.N(2) == 1
				s[0], s[1] = c.N(16), c.N(16)
				return &Case{Key: fmt.Sprint("merge ", cats, s), Run: func(e *Env) {
					for s[2] = 0; s[2] < 16; s[2]++ {
						s[3] = (s[0]*3 + s[1]*5 + s[2]*7) % 16
						l := p20merge(s, cats)
						db := e.Sub("db", l.files())
						o := p20opts{p19opts: p19opts{p18opts: p18opts{acc: "P"}, label: 200}, period: "m", top: 100}
						if cats {
							o.cat = "bp"
							if s[2]%4 == 3 {
								o.period = ""
							}
						}
						for _, o.rec = range []bool{false, true} {
							l.checkTable(e, db, o)
							if thorough {
								o.top = 1 + s[2]%3
								o.cum = !cats
								l.checkTable(e, db, o)
								o.top, o.cum = 100, false
							}
						}
					}
				}}
			}
			small := func(c *Chooser) *Case {
				names := []string{"A", "A:B", "A:B:C", "AA:D"}
				var accs []Acc
				for _, n := range names {
					accs = append(accs, Acc{Name: n, Com: "CAD"})
				}
				dates := []string{"2019/12/28", "2019/12/29", "2020/01/01", "2020/03/31", "2020/04/01"}
				l := &p18led{accs: accs}
				for i := 0; i < 2; i++ {
					l.txs = append(l.txs, Tx{Date: dates[c.N(5)], Desc: []string{"x", "y"}[i], Ps: []Post{{Acc: names[c.N(4)], Amt: []string{"1.00", "-0.05"}[i], Com: "CAD"}, {Acc: names[c.N(4)]}}})
				}
				if !thorough && l.txs[0].Date > l.txs[1].Date {
					return nil
				}
				kind := p20kinds[(len(l.txs[0].Date)+int(l.txs[0].Date[9])+int(l.txs[1].Date[9])+len(l.txs[0].Ps[0].Acc)+len(l.txs[1].Ps[1].Acc))%12]
				return &Case{Key: "small " + txsText(l.txs...), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for i, acc := range []string{"Root", "A"} {
						o := p20opts{p19opts: p19opts{p18opts: p18opts{acc: acc}, rec: i == 0, label: 200}, period: kind.period, cat: kind.cat, top: []int{-1, 0, 1, 2}[(len(l.txs[0].Ps[0].Acc)+i)%4]}
						o.cum = o.cat == ""
						l.checkTable(e, db, o)
						o.rec, o.cum = !o.rec, false
						l.checkTable(e, db, o)
					}
				}}
			}
			periods := func(c *Chooser) *Case {
				// a posting every few days over the turns of years, leap years and quarters
				start := []string{"2019/12/20", "2020/02/20", "2021/02/20", "2000/02/25", "2024/12/25", "2022/06/20", "2023/09/28", "9960/02/20", "0003/12/25"}[c.N(9)]
				step := []int{1, 2, 3, 7, 30, 31, 91, 365}[c.N(8)]
				kind := p20kinds[c.N(len(p20kinds))]
				l := &p18led{accs: []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "CAD"}, {Name: "A:C", Com: "BND"}, {Name: "Z", Com: "CAD"}}}
				for i := 0; i < 30; i++ {
					k := (i * 7) % 30
					t := Tx{Date: dateStr(pdate(start).AddDate(0, 0, k*step)), Desc: fmt.Sprint("p", k%4), Note: []string{"", "#a", "#b: x", "#a, #b: y"}[k/3%4], Ps: []Post{{Acc: []string{"A", "A:B"}[k%2], Amt: fmt.Sprint(int64(1)<<(2*k), ".01"), Com: "CAD"}, {Acc: "Z"}}}
					if k%5 == 4 {
						t.Ps[0].Acc, t.Ps[0].Com, t.Ps[0].Amt = "A:C", "BND", fmt.Sprint(int64(1)<<(2*k), ".00001")
						t.Ps[1].Amt, t.Ps[1].Com = "-1.00", "CAD"
					}
					l.txs = append(l.txs, t)
				}
				return &Case{Key: fmt.Sprint("periods ", start, step, kind), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					o := p20opts{p19opts: p19opts{p18opts: p18opts{acc: "A"}, label: 200}, period: kind.period, cat: kind.cat, top: -1}
					for i := 0; i < 4; i++ {
						o.rec, o.cum = i%2 == 1, i > 1 && o.cat == ""
						if i == 2 {
							o.begin, o.end = dateStr(pdate(start).AddDate(0, 0, 3*step)), dateStr(pdate(start).AddDate(0, 0, 26*step))
						}
						if i == 3 {
							o.acc = "Root"
						}
						l.checkTable(e, db, o)
					}
				}}
			}
			// categories that are nearly the same
			alike := func(c *Chooser) *Case {
				payees := []string{"foo", "Foo", "foo.", "fo", "foo x", "foo  x", "fóo", "foo 1", "foo 2", "1 foo", "'foo'", "foo-x", "foo:x", "foo/x", "#foo"}
				vals := []string{"", "x", "X", "x.", "xx", "x x", "x  x", "é", "É", "0", "00", "x:y", "x y", "x-y", "x/y"}
				cat := []string{"bp", "bt"}[c.N(2)]
				l := &p18led{accs: []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "CAD"}, {Name: "Z", Com: "CAD"}}}
				s := ""
				for i := 0; i < 3; i++ {
					k := 0
					if i < 2 {
						k = c.N(len(vals))
					} else {
						k = []int{0, 2, 5, 9}[c.N(4)]
					}
					t := Tx{Date: fmt.Sprintf("2020/01/%02d", 1+i), Desc: "p", Ps: []Post{{Acc: []string{"A", "A:B", "A"}[i], Amt: []string{"1.00", "20.00", "300.00"}[i], Com: "CAD"}, {Acc: "Z"}}}
					if cat == "bp" {
						t.Desc = payees[k]
					} else if t.Note = "#t"; vals[k] != "" {
						t.Note += ": " + vals[k]
					}
					s += t.Desc + t.Note + "|"
					l.txs = append(l.txs, t)
				}
				return &Case{Key: fmt.Sprint("alike ", s), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for i := 0; i < 2; i++ {
						o := p20opts{p19opts: p19opts{p18opts: p18opts{acc: "A"}, rec: i == 0, label: 200}, period: []string{"", "m"}[i], cat: cat, top: -1, out: []string{"json", "csv"}[(len(s)+i)%2]}
						l.checkTable(e, db, o)
					}
				}}
			}
			limits := func(c *Chooser) *Case {
				n := []int{4, 6, 9, 13, 20}[c.N(5)]
				kind := p20kinds[c.N(len(p20kinds))]
				shape := c.N(4)
				l := &p18led{accs: []Acc{{Name: "Z", Com: "CAD"}}}
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("W:N%02d", i)
					if shape == 1 && i > 0 {
						name = fmt.Sprintf("%s:M%d", l.accs[i/2+1].Name, i)
					}
					com := "CAD"
					if shape == 3 {
						com = p18coms[i%3].Id
					}
					l.accs = append(l.accs, Acc{Name: name, Com: com})
					for k := 0; k < 4; k++ {
						// every account has its own periods and categories
						if (i+k)%3 == 0 && k > 0 || shape == 2 && k != i%4 {
							continue
						}
						m := (i*5 + k*3) % 7
						amt := []string{"1", "-1", "0", "250", "-250", "3", "7", "90", "12"}[(i+k)%9]
						if (i*k)%4 == 1 {
							amt = fmt.Sprint(i * 10)
						}
						t := Tx{Date: fmt.Sprintf("20%d/%02d/%02d", 19+m/4, 1+m*5%12, 3+m*4), Desc: fmt.Sprint("p", (i+k)%5), Note: []string{"", "#a", "#b: x", ""}[(i+m)%4], Ps: []Post{{Acc: name, Amt: fmtDec(parseDec(amt, p18dec(com)), p18dec(com)), Com: com}, {Acc: "Z"}}}
						if com != "CAD" {
							t.Ps[1].Amt, t.Ps[1].Com = "5.00", "CAD"
						}
						l.txs = append(l.txs, t)
					}
				}
				return &Case{Key: fmt.Sprint("limits ", n, kind, shape), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for top := 0; top < 10; top++ {
						o := p20opts{p19opts: p19opts{p18opts: p18opts{acc: "W"}, label: 200}, period: kind.period, cat: kind.cat, top: top}
						for i := 0; i < 2; i++ {
							if !thorough && i != top%2 && top > 1 {
								continue
							}
							o.rec, o.cum = i == 1, o.cat == "" && (top+i)%3 == 0
							l.checkTable(e, db, o)
						}
					}
				}}
			}
			return []Space{
				{Name: "options", Rule: "period and category x account x recursion x payee x tag x begin x end x limit over a ledger with everything", Gen: opts},
				{Name: "alike", Rule: "three postings by payees or tags that are any of 15 nearly the same", Gen: alike},
				{Name: "merge", Rule: "accounts of a tree with postings in all combinations of subsets of four periods or categories", Gen: merge},
				{Name: "small", Rule: "every ledger of two transactions between 4 accounts on 5 days around period boundaries", Gen: small},
				{Name: "periods", Rule: "30 transactions in steps of 1-365 days over year, leap-day, quarter boundaries", Gen: periods},
				{Name: "limits", Rule: "4-20 accounts flat, nested, with disjoint periods and with mixed commodities; limits 0-9", Gen: limits},
			}
		},
	})

	texts := func(n int) (out []string) {
		al := []string{"a", "\"", ",", "|", "'", "<", "&", "\\", "é", "#", "%", " ", "\t", "=", "(", "日"}
		var rec func(s string, k int)
		rec = func(s string, k int) {
			out = append(out, s)
			if k == 0 {
				return
			}
			for _, a := range al {
				rec(s+a, k-1)
			}
		}
		rec("", n)
		return
	}
	register(&Prop{
		ID: "P21", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one option combination and one ledger (or a batch of payee and tag texts), rendered in text, CSV and JSON; states are distinct (ledger, options) pairs",
		Assumptions: []string{"text output is compared up to surrounding white space of cells", "payees and tag values are valid UTF-8 and do not hold what ledger syntax gives another meaning (; in payees, commas in tag values)"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			agree := func(e *Env, db string, o p20opts, key string) (t p20out, ok bool) {
				var got [3]p20out
				var raw [3]Result
				for i, out := range []string{"", "csv", "json"} {
					o.out = out
					raw[i] = e.Run("coin", db, o.args()...)
					var err error
					got[i], err = p20parse(o, raw[i].Out)
					if raw[i].Code != 0 || err != nil {
						e.Fail("read "+out+key+fmt.Sprint(o.args()), "coin %v: exit %d, %v\n%s%s", o.args(), raw[i].Code, err, clip(raw[i].Out, 3000), raw[i].Err)
						return t, false
					}
				}
				o.out = ""
				e.State(key + fmt.Sprint(o.args()))
				trim := func(t p20out) string {
					s := fmt.Sprintf("%q", t.labels)
					for i, k := range t.keys {
						s += fmt.Sprintf("\n%q %q %q", k[0], strings.TrimSpace(k[1]), t.cells[i])
					}
					return s
				}
				if a, b := fmt.Sprintf("%q", got[1]), fmt.Sprintf("%q", got[2]); a != b {
					e.Fail("csv json "+key+fmt.Sprint(o.args()), "coin %v: CSV and JSON disagree: %s", o.args(), firstDiff(a, b))
					return t, false
				}
				if a, b := trim(got[0]), trim(got[1]); a != b {
					e.Fail("text csv "+key+fmt.Sprint(o.args()), "coin %v: text and CSV disagree: %s\n%s", o.args(), firstDiff(a, b), clip(raw[0].Out, 3000))
					return t, false
				}
				return got[1], true
			}
			rich := p19rich()
			opts := func(c *Chooser) *Case {
				kind := p20kinds[c.N(len(p20kinds))]
				acc := []string{"Root", "As", "As:Bank", "Ex", "Yen", "Old"}[c.N(6)]
				rec := c.N(2) == 1
				return &Case{Key: fmt.Sprint("options ", kind, acc, rec), Run: func(e *Env) {
					db := e.Sub("db", rich.files())
					i := 0
					for _, p := range []string{"", "alpha", "!alpha"} {
						for _, t := range []string{"", "t", "u"} {
							for _, b := range []string{"", "2020/01/31"} {
								for _, top := range []int{100, 2} {
									i++
									if !thorough && i%3 != len(acc)%3 && i != 1 {
										continue
									}
									o := p20opts{p19opts: p19opts{p18opts: p18opts{begin: b, payee: p, tag: t, acc: acc}, rec: rec, label: []int{200, 0, 3}[i%3]}, period: kind.period, cat: kind.cat, top: top}
									o.cum = kind.cat == "" && i%2 == 0
									agree(e, db, o, "rich")
								}
							}
						}
					}
				}}
			}
			all := texts(2)
			if thorough {
				all = texts(3)
			}
			batch := 12
			hard := func(c *Chooser) *Case {
				cat := []string{"bp", "bt"}[c.N(2)]
				i := c.N((len(all) + batch - 1) / batch)
				period := []string{"", "m"}[c.N(2)]
				return &Case{Key: fmt.Sprint("texts ", cat, i, period), Run: func(e *Env) {
					l := &p18led{accs: []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "YEN"}}}
					want := map[string]bool{}
					for k, s := range all[i*batch : min((i+1)*batch, len(all))] {
						t := Tx{Date: fmt.Sprintf("2020/%02d/01", 1+k%2), Desc: "d", Ps: []Post{{Acc: "A", Amt: fmt.Sprintf("%d.00", int64(1)<<(5*k)), Com: "CAD"}, {Acc: "A"}}}
						if k%3 == 1 {
							t.Ps[1] = Post{Acc: "A:B", Amt: fmt.Sprint(-k), Com: "YEN"}
						}
						if cat == "bp" {
							t.Desc = "P" + s
							want[strings.TrimRight(t.Desc, " \t")] = true
						} else {
							// a tag value without the characters that end it
							v := strings.TrimSpace(strings.NewReplacer(",", "", "#", "").Replace(s)) + "V"
							t.Note = "#k: " + v
							want["k:"+v] = true
						}
						l.txs = append(l.txs, t)
					}
					db := e.Sub("db", l.files())
					key := fmt.Sprintf("%q", all[i*batch])
					for _, rec := range []bool{false, true} {
						t, ok := agree(e, db, p20opts{p19opts: p19opts{p18opts: p18opts{acc: "A"}, rec: rec, label: 200}, period: period, cat: cat, top: -1}, key)
						if !ok {
							return
						}
						got := map[string]bool{}
						for _, k := range t.keys {
							got[k[1]] = true
							if !want[k[1]] {
								e.Fail("intact "+cat+k[1], "category %q is not among the texts %q", k[1], sortedKeys(want))
								return
							}
						}
						if len(got) != len(want) {
							e.Fail("lost "+cat+key, "categories %q, should be %q", sortedKeys(got), sortedKeys(want))
							return
						}
					}
				}}
			}
			return []Space{
				{Name: "options", Rule: "period and category x account x recursion x payee x tag x begin x limit x label width", Gen: opts},
				{Name: "texts", Rule: "all payees and tag values of up to 2 (thorough 3) of 16 separators, quotes and multi-byte characters", Gen: hard},
			}
		},
	})
}
