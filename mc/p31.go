package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// P31: the HTML export carries the whole ledger.

type p31file struct {
	name string
	txs  []Tx
}

type p31led struct {
	coms  []Com
	accs  []Acc
	pris  []Pri
	files []p31file
}

var p31open = regexp.MustCompile(`<script type="application/json" id="(\w+)">`)
var p31close = regexp.MustCompile(`(?i)</script[\s/>]`)

// p31data cuts the page as a browser does: a script ends at the first end tag in it.
func p31data(page string) (data map[string]string, rest string, err string) {
	data = map[string]string{}
	for {
		m := p31open.FindStringSubmatchIndex(page)
		if m == nil {
			return data, rest + page, ""
		}
		rest += page[:m[0]]
		id := page[m[2]:m[3]]
		if _, dup := data[id]; dup {
			return nil, "", "two elements " + id
		}
		page = page[m[1]:]
		c := p31close.FindStringIndex(page)
		if c == nil {
			return nil, "", "element " + id + " does not end"
		}
		body := page[:c[0]]
		if strings.Contains(body, "<!--") {
			return nil, "", "comment opened in " + id
		}
		data[id] = body
		page = page[c[1]:]
	}
}

func (l *p31led) com(acc string) Com {
	id := ""
	for _, a := range l.accs {
		if a.Name == acc {
			id = a.Com
		}
	}
	for _, c := range l.coms {
		if c.Id == id || id == "" && c.Default {
			return c
		}
	}
	panic("no commodity " + acc)
}

func (l *p31led) byId(id string) Com {
	for _, c := range l.coms {
		if c.Id == id {
			return c
		}
	}
	panic("no commodity " + id)
}

type p31post struct {
	acc      string
	qty, bal *big.Int
	com      Com
	asserted bool
	notes    []string
}

type p31tx struct {
	Tx
	loc      string
	asserted bool
	ps       []*p31post
}

func (p *p31post) String() string {
	bal := p.bal
	return fmt.Sprintf("%s %s %s = %s %s %v %q %s", p.acc, fmtDec(p.qty, p.com.Dec), p.com.Id, fmtDec(bal, p.com.Dec), p.com.Id, p.asserted, p.notes, p31tags(p09of(p.notes...)))
}

func p31tags(m map[string]string) string {
	s := ""
	for _, k := range sortedKeys(m) {
		s += fmt.Sprintf(" %q:%q", k, m[k])
	}
	return s
}

func (l *p31led) txs() []*p31tx {
	var out []*p31tx
	for _, f := range l.files {
		line := 1
		for _, t := range f.txs {
			x := &p31tx{Tx: t, loc: fmt.Sprint(f.name, ":", line)}
			line += lines(t.text())
			sum := new(big.Int)
			var open *p31post
			for _, p := range t.Ps {
				q := &p31post{acc: p.Acc, com: l.com(p.Acc), notes: p16notes(p.Note, p.Notes)}
				if p.Amt == "" {
					open = q
				} else {
					q.com = l.byId(p.Com)
					q.qty = parseDec(p.Amt, q.com.Dec)
					sum.Add(sum, q.qty)
				}
				if p.Bal != "" {
					q.asserted = true
					x.asserted = true
					q.bal = parseDec(p.Bal, q.com.Dec)
				}
				x.ps = append(x.ps, q)
			}
			if open != nil {
				open.qty = sum.Neg(sum)
			}
			out = append(out, x)
		}
	}
	// balances run in date order and in written order within a day
	sort.SliceStable(out, func(i, j int) bool { return out[i].Date < out[j].Date })
	run := map[string]*big.Int{}
	for _, x := range out {
		for _, p := range x.ps {
			if run[p.acc] == nil {
				run[p.acc] = new(big.Int)
			}
			run[p.acc].Add(run[p.acc], p.qty)
			if p.bal == nil {
				p.bal = new(big.Int).Set(run[p.acc])
			}
		}
	}
	return out
}

func p31check(e *Env, l *p31led) {
	fs := Files{"commodities.coin": comsText(l.coms...), "accounts.coin": accsText(l.accs...), "prices.coin": ""}
	for _, p := range l.pris {
		fs["prices.coin"] += p.text()
	}
	for _, f := range l.files {
		fs[f.name] = txsText(f.txs...)
	}
	all := ""
	for _, n := range sortedKeys(fs) {
		all += "--- " + n + "\n" + fs[n]
	}
	e.State(all)
	sig := fmt.Sprint(" ", hash64(all))
	db := e.Sub("db", fs)
	r := e.Run("coin2html", db)
	fail := func(what, f string, args ...any) {
		e.Fail(what+sig, "coin2html: exit %d %s\n%s\n--- page\n%s\n%s", r.Code, r.Err, fmt.Sprintf(f, args...), clipped(r.Out, 4000), clipped(all, 3000))
	}
	if r.Code != 0 {
		fail("exit", "does not succeed")
		return
	}
	data, rest, err := p31data(r.Out)
	if err != "" {
		fail("page", "%s", err)
		return
	}
	if got := strings.Join(sortedKeys(data), " "); got != "importedAccounts importedCommodities importedPrices importedTransactions" {
		fail("page", "data elements are %s", got)
		return
	}
	if got := strings.Join(strings.Fields(rest), " "); got != `<!DOCTYPE html> <html lang="en"> <body> </body> </html>` {
		fail("page", "around the data: %s", got)
		return
	}
	parse := func(id string, v any) bool {
		d := json.NewDecoder(strings.NewReader(data[id]))
		d.UseNumber()
		if err := d.Decode(v); err != nil {
			fail("json", "%s: %v", id, err)
			return false
		}
		if d.More() {
			fail("json", "%s: more than one value", id)
			return false
		}
		return true
	}
	type obj = map[string]any
	var coms, accs map[string]obj
	var pris, txs []obj
	if !parse("importedCommodities", &coms) || !parse("importedAccounts", &accs) || !parse("importedPrices", &pris) || !parse("importedTransactions", &txs) {
		return
	}
	// every object once: duplicate keys of an object would vanish in the parse
	for id, n := range map[string]int{"importedCommodities": len(coms), "importedAccounts": len(accs)} {
		if got := strings.Count(data[id], "\n\t\""); got != n {
			fail("dup", "%s has %d entries, %d different", id, got, n)
			return
		}
	}
	str := func(o obj, k string) string {
		v, ok := o[k]
		if !ok {
			return ""
		}
		return fmt.Sprint(v)
	}
	var got, want []string
	diff := func(what string, sorted bool) bool {
		if sorted {
			sort.Strings(got)
			sort.Strings(want)
		}
		g, w := strings.Join(got, "\n"), strings.Join(want, "\n")
		got, want = nil, nil
		if g == w {
			return true
		}
		fail(what, "%s differ (page / ledger):\n%s", what, firstDiff(g, w))
		return false
	}
	for _, k := range sortedKeys(coms) {
		o := coms[k]
		got = append(got, fmt.Sprintf("%s %s %q %s", k, str(o, "id"), str(o, "name"), str(o, "decimals")))
	}
	for _, c := range l.coms {
		want = append(want, fmt.Sprintf("%s %s %q %d", c.Id, c.Id, c.Note, c.Dec))
	}
	if !diff("commodities", true) {
		return
	}
	for _, o := range pris {
		got = append(got, fmt.Sprintf("%s %s %s %s %s", str(o, "time"), str(o, "commodity"), str(o, "value"), str(o, "currency"), p23base(str(o, "location"))))
	}
	for i, p := range l.pris {
		d := l.byId(p.Cur).Dec
		want = append(want, fmt.Sprintf("%s %s %s %s %s prices.coin:%d", p.Date, p.Com, fmtDec(parseDec(p.Val, d), d), p.Cur, p.Cur, i+1))
	}
	if !diff("prices", true) {
		return
	}
	names := map[string]Acc{}
	for _, a := range l.accs {
		names[a.Name] = a
		for n := parentOf(a.Name); n != ""; n = parentOf(n) {
			if _, ok := names[n]; !ok {
				names[n] = Acc{Name: n}
			}
		}
	}
	names["Unbalanced"] = Acc{Name: "Unbalanced"}
	for _, k := range sortedKeys(accs) {
		if o := accs[k]; k != "Root" {
			got = append(got, fmt.Sprintf("%s %s %s %s %s %s", k, str(o, "fullName"), str(o, "name"), str(o, "parent"), str(o, "commodity"), str(o, "closed")))
		}
	}
	for n, a := range names {
		p, last := parentOf(n), n[strings.LastIndex(n, ":")+1:]
		if p == "" {
			p = "Root"
		}
		want = append(want, fmt.Sprintf("%s %s %s %s %s %s", n, n, last, p, l.com(n).Id, a.Closed))
	}
	if !diff("accounts", true) {
		return
	}
	strs := func(v any) (out []string) {
		if v == nil {
			return nil
		}
		for _, x := range v.([]any) {
			out = append(out, fmt.Sprint(x))
		}
		return
	}
	tags := func(v any) string {
		m := map[string]string{}
		if v != nil {
			for k, x := range v.(obj) {
				m[k] = fmt.Sprint(x)
			}
		}
		return p31tags(m)
	}
	// shown in date order
	last := ""
	for _, o := range txs {
		d := str(o, "posted")
		if d < last {
			fail("order", "transaction of %s after %s", d, last)
			return
		}
		last = d
		s := fmt.Sprintf("%s %q %q %q %s %s", d, str(o, "code"), str(o, "description"), strs(o["notes"]), tags(o["tags"]), p23base(str(o, "location")))
		ps, _ := o["postings"].([]any)
		for _, x := range ps {
			p := x.(obj)
			a, _ := p["balance_asserted"].(bool)
			s += fmt.Sprintf("\n  %s %s = %s %v %q %s", str(p, "account"), str(p, "quantity"), str(p, "balance"), a, strs(p["notes"]), tags(p["tags"]))
		}
		got = append(got, s)
	}
	model := l.txs()
	for _, t := range model {
		ns := p16notes(t.Note, t.Notes)
		s := fmt.Sprintf("%s %q %q %q %s %s", t.Date, t.Code, t.Desc, ns, p31tags(p09of(ns...)), t.loc)
		for _, p := range t.ps {
			s += "\n  " + p.String()
		}
		want = append(want, s)
	}
	n := len(got)
	if !diff("transactions", true) {
		return
	}
	e.Outcome(fmt.Sprint(len(coms), len(accs), len(pris), n))
}

func init() {
	coms := []Com{{Id: "CAD", Dec: 2, Default: true, Note: "Canadian"}, {Id: "YEN", Dec: 0}, {Id: "BTC", Dec: 8, Note: "a \"b\" <c>"}, {Id: "X2", Dec: 5}}
	register(&Prop{
		ID: "P31", Level: "model_checking", Bins: []string{"coin2html"},
		Rule:        "a case is one exported ledger (texts: a batch of transactions); states are distinct ledgers",
		Assumptions: []string{"the page around the data (built by webpack) is blanked, as in the build of this sandbox", "ledger files are valid UTF-8", "a tag key occurs once in an entry"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			syms := []string{"\"", "<", ">", "&", "\\", "'", "/", "é", "日", "𝄞", "\u2028", "\u2029", "a", " ", "\x01", "\x7f", "\t", "</script>", "<!--", "<script>", "]]>", "-->", "\\n", "\\u003c", "%", "{", "$", "</SCRIPT ", "\ufeff", "\x1b", "`", "<%", "0x"}
			depth := 2
			if thorough {
				depth = 3
			}
			texts := func(c *Chooser) *Case {
				place := c.N(5)
				first := c.N(len(syms))
				return &Case{Key: fmt.Sprint("texts ", place, " ", first), Run: func(e *Env) {
					var ss []string
					add := []string{syms[first]}
					for k := 0; k < depth; k++ {
						ss = append(ss, add...)
						var next []string
						for _, s := range add {
							for _, y := range syms {
								next = append(next, s+y)
							}
						}
						add = next
					}
					l := &p31led{coms: coms, accs: []Acc{{Name: "A"}, {Name: "B"}}}
					var f []Tx
					for _, s := range ss {
						t := Tx{Date: "2020/01/02", Desc: "d", Ps: []Post{{Acc: "A", Amt: "1", Com: "CAD"}, {Acc: "B"}}}
						s = "x" + s + "y"
						switch place {
						case 0:
							t.Desc = s
						case 1:
							t.Note = s
							t.Ps[0].Note = "p " + s
						case 2:
							t.Notes = []string{"one", s, "three"}
						case 3:
							if strings.Contains(s, "#") || strings.Contains(s, ",") {
								continue
							}
							t.Ps[1].Notes = []string{"#k: " + s + ", more", s}
							t.Note = "#other:" + s
						case 4:
							// commodity and account notes
							l.coms = append(l.coms, Com{Id: fmt.Sprintf("C%d", len(l.coms)), Dec: 3, Note: s})
							l.accs = append(l.accs, Acc{Name: fmt.Sprintf("D%d", len(l.accs)), Note: s})
							continue
						}
						f = append(f, t)
					}
					l.files = []p31file{{"2020.coin", f}}
					if place == 4 {
						l.files = []p31file{{"2020.coin", []Tx{{Date: "2020/01/02", Desc: "d", Ps: []Post{{Acc: "A", Amt: "1", Com: "CAD"}, {Acc: "B"}}}}}}
					}
					p31check(e, l)
				}}
			}
			// histories of transactions in several commodities, over files, with assertions
			kinds := func(k int) []Post {
				return [][]Post{
					{{Acc: "A:B", Amt: "10.05", Com: "CAD"}, {Acc: "C"}},
					{{Acc: "C", Amt: "10.05", Com: "CAD", Note: "#t: v"}, {Acc: "A:B", Amt: "-10.05", Com: "CAD"}},
					{{Acc: "Y", Amt: "700", Com: "YEN"}, {Acc: "A:B", Amt: "-8.40", Com: "CAD"}},
					{{Acc: "A:W", Amt: "0.00000001", Com: "BTC"}, {Acc: "Y", Amt: "-12345678901234567890", Com: "YEN"}, {Acc: "C", Amt: "0", Com: "CAD"}},
					{{Acc: "C", Amt: "1", Com: "CAD"}, {Acc: "C", Amt: "2", Com: "CAD"}, {Acc: "C", Notes: []string{"left #a #b: c"}}},
					{{Acc: "A:B", Amt: "3.1", Com: "CAD"}, {Acc: "A:B:E", Amt: "-3.10", Com: "CAD"}},
				}[k]
			}
			accs := []Acc{{Name: "A:B", Note: "n"}, {Name: "C", Closed: "2020/12/31"}, {Name: "Y", Com: "YEN"}, {Name: "A:W", Com: "BTC"}, {Name: "A:B:E", Com: "CAD", Closed: "2019/01/01"}}
			pris := []Pri{{"2020/03/01", "YEN", "CAD", "0.012"}, {"2019/01/01", "BTC", "CAD", "45000.5"}, {"2020/03/01", "BTC", "YEN", "5000000"}, {"2020/03/01", "YEN", "CAD", "1.01"}, {"2018/12/31", "CAD", "X2", "0.123456789"}}
			histories := func(c *Chooser) *Case {
				n := c.N(4)
				if thorough {
					n = c.N(5)
				}
				var ks, ds, as []int
				shared := -1
				if n == 4 || n == 3 && !thorough {
					shared = c.N(3) // the same posting asserted in all of the transactions
				}
				for i := 0; i < n; i++ {
					ks = append(ks, c.N(6))
					ds = append(ds, c.N(3))
					if shared < 0 {
						as = append(as, c.N(3))
					} else {
						as = append(as, shared)
					}
				}
				return &Case{Key: fmt.Sprint("histories ", ks, ds, as), Run: func(e *Env) {
					l := &p31led{coms: coms, accs: accs, pris: pris[:min(n+1, len(pris))]}
					l.files = []p31file{{"2019.coin", nil}, {"2020.coin", nil}}
					for i := range ks {
						t := Tx{Date: []string{"2019/12/31", "2020/01/01", "2020/02/29"}[ds[i]], Desc: fmt.Sprint("t", i), Code: []string{"", "c1"}[i%2], Ps: append([]Post{}, kinds(ks[i])...)}
						f := &l.files[(ds[i]+i)%2]
						f.txs = append(f.txs, t)
					}
					// assert the right balances in places
					if n > 0 {
						seen := map[string]int{}
						model := l.txs()
						for _, x := range model {
							i := int(x.Desc[1] - '0')
							if as[i] == 0 {
								continue
							}
							j := (as[i] - 1) % len(x.ps)
							p := x.ps[j]
							for fi := range l.files {
								for ti := range l.files[fi].txs {
									t := &l.files[fi].txs[ti]
									if t.Desc == x.Desc && t.Ps[j].Amt != "" {
										t.Ps[j].Bal, t.Ps[j].BalCom = fmtDec(p.bal, p.com.Dec), p.com.Id
										seen[x.Desc]++
									}
								}
							}
						}
					}
					p31check(e, l)
				}}
			}
			// trees of accounts with gaps, commodities, closing dates
			trees := func(c *Chooser) *Case {
				names := []string{"A", "A:B", "A:B:C", "A-1:B", "A-1", "B:A", "A/x:B", "Z_9:A:B:D:E"}
				m := 1 + c.N(1<<len(names)-1)
				v := 0
				if thorough {
					v = c.N(6)
				} else {
					v = m % 6
				}
				return &Case{Key: fmt.Sprint("trees ", m, v), Run: func(e *Env) {
					l := &p31led{coms: coms, pris: pris}
					for i, n := range names {
						if m>>i&1 == 1 {
							l.accs = append(l.accs, Acc{Name: n, Com: []string{"", "YEN", "X2"}[(i+v)%3], Closed: []string{"", "2020/02/29", "1999/12/31", ""}[(i*3+v)%4], Note: []string{"", "note"}[i%2]})
						}
					}
					if v%2 == 1 {
						for i, j := 0, len(l.accs)-1; i < j; i, j = i+1, j-1 {
							l.accs[i], l.accs[j] = l.accs[j], l.accs[i]
						}
					}
					var f []Tx
					for i, a := range l.accs {
						c := l.com(a.Name)
						f = append(f, Tx{Date: fmt.Sprintf("2020/01/%02d", 28-i), Desc: "t", Ps: []Post{{Acc: a.Name, Amt: fmt.Sprint(i + 1), Com: c.Id}, {Acc: a.Name}}})
					}
					l.files = []p31file{{"2020.coin", f}}
					p31check(e, l)
				}}
			}
			// amounts of every size and sign in every commodity
			amounts := func(c *Chooser) *Case {
				dec := c.N(10)
				return &Case{Key: fmt.Sprint("amounts ", dec), Run: func(e *Env) {
					l := &p31led{coms: []Com{{Id: "K", Dec: dec, Default: true}, {Id: "L", Dec: 3}}, accs: []Acc{{Name: "A"}, {Name: "B"}, {Name: "C"}, {Name: "D"}}}
					var f []Tx
					for _, ip := range []string{"0", "1", "9", "10", "99", "999", "1000", "123456", "9007199254740993", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890"} {
						for _, fp := range []string{"", "0", "1", "5", "9", "05", "50", "99", "001", "0000001", "00000001", "123456789"} {
							if len(fp) > dec {
								continue
							}
							s := ip
							if fp != "" {
								s += "." + fp
							}
							a := []string{"A", "B", "C", "D"}[len(f)%4]
							b := []string{"B", "C", "D", "A"}[len(f)%4]
							f = append(f, Tx{Date: fmt.Sprintf("20%02d/05/06", len(f)%40), Desc: s, Ps: []Post{{Acc: a, Amt: s, Com: "K"}, {Acc: b}}})
							f = append(f, Tx{Date: fmt.Sprintf("20%02d/05/07", len(f)%40), Desc: s, Ps: []Post{{Acc: b, Amt: "-" + s, Com: "K"}, {Acc: b}}})
							l.pris = append(l.pris, Pri{"2020/01/01", "L", "K", s})
						}
					}
					l.files = []p31file{{"t.coin", f}}
					p31check(e, l)
				}}
			}
			many := func(c *Chooser) *Case {
				n := []int{0, 1, 12, 13, 60, 400}[c.N(6)]
				d := []int{1, 3, 500}[c.N(3)]
				single := (c.N(2) == 1)
				return &Case{Key: fmt.Sprint("many ", n, d, single), Run: func(e *Env) {
					l := &p31led{coms: coms, accs: accs}
					var a, b []Tx
					for i := 0; i < n; i++ {
						l.coms = append(l.coms, Com{Id: fmt.Sprint("Q", i), Dec: i % 4})
						l.accs = append(l.accs, Acc{Name: fmt.Sprintf("Q:A%d:B%d", i%7, i), Com: fmt.Sprint("Q", i)})
						l.pris = append(l.pris, Pri{dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, (i*7919)%d)), fmt.Sprint("Q", i), "CAD", fmt.Sprint(i)})
						t := Tx{Date: dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, (i*7919)%d)), Desc: fmt.Sprint(i), Ps: kinds(i % 6)}
						if i%3 == 0 && !single {
							b = append(b, t)
						} else {
							a = append(a, t)
						}
					}
					if single {
						l.files = []p31file{{"transactions.coin", a}}
					} else {
						l.files = []p31file{{"a.coin", a}, {"b.coin", b}}
					}
					p31check(e, l)
				}}
			}
			return []Space{
				{Name: "texts", Rule: "every text of up to 2 (thorough 3) symbols of 33 in 5 places", Gen: texts},
				{Name: "histories", Rule: "every history of up to 3 (thorough 4) transactions of 6 kinds, 3 dates, over 2 files, with asserted postings", Gen: histories},
				{Name: "trees", Rule: "every set of 8 account names with gaps, commodities and closing dates", Gen: trees},
				{Name: "amounts", Rule: "12 integer parts x 12 fractions x both signs for 0-9 decimals", Gen: amounts},
				{Name: "many", Rule: "up to 400 commodities, accounts, prices and transactions over 1-500 days", Gen: many},
			}
		},
	})
}
