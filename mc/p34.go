package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

// The spaces of P33 and P34 (model and driver: p33.go).

var vCad = Com{Id: "CAD", Dec: 2, Default: true}

// vTrees are the shapes of spanning trees over four commodities.
var vTrees = [][][2]string{{{"USD", "CAD"}, {"EUR", "CAD"}, {"YEN", "CAD"}}, {{"USD", "CAD"}, {"EUR", "USD"}, {"YEN", "EUR"}}, {{"USD", "CAD"}, {"EUR", "USD"}, {"YEN", "USD"}}, {{"EUR", "CAD"}, {"USD", "EUR"}, {"YEN", "EUR"}}, {{"YEN", "CAD"}, {"EUR", "YEN"}, {"USD", "EUR"}}}

// vDays are days at which calendars, clocks or periods turn.
var vDays = []string{
	"1969/12/31", "1970/01/01", "1999/12/31", "2000/01/01", "2000/02/29", "2011/12/29", "2011/12/30", "2011/12/31", "2012/01/01",
	"2017/10/14", "2017/10/15", "2017/10/16", "2019/12/28", "2019/12/29", "2019/12/31", "2020/01/01", "2020/01/04", "2020/01/05",
	"2020/02/29", "2020/03/01", "2020/03/07", "2020/03/08", "2020/03/09", "2020/03/31", "2020/04/01", "2020/10/31", "2020/11/01",
	"2020/11/02", "2020/12/31", "2021/01/01", "2021/02/28",
}

func vTwo(date, desc, a, b string, q int64) vTx {
	return vTx{date: date, desc: desc, loc: desc + ".coin:1", ps: []vPost{{acc: a, q: q}, {acc: b, q: -q}}}
}

func vAccs(com string, names ...string) (out []vAcc) {
	for _, n := range names {
		out = append(out, vAcc{name: n, com: com})
	}
	return
}

// vRich is a ledger with some of everything, for sequences of clicks.
func vRich() *vLed {
	l := &vLed{
		coms: []Com{vCad, {Id: "USD", Dec: 2}, {Id: "YEN", Dec: 0}},
		accs: []vAcc{{name: "Assets", com: "CAD"}, {name: "Assets:B", com: "CAD"}, {name: "Assets:B:C", com: "CAD"}, {name: "Assets:B:D", com: "CAD", closed: "2020/05/31"},
			{name: "Assets:U", com: "USD"}, {name: "Expenses", com: "CAD"}, {name: "Expenses:F", com: "CAD"}, {name: "Expenses:G", com: "CAD"}, {name: "Expenses:G:H", com: "CAD"},
			{name: "Income", com: "CAD"}, {name: "Income:S", com: "CAD"}, {name: "Liabilities", com: "CAD"}, {name: "Equity", com: "CAD"}},
		pris: []Pri{{"2020/01/01", "USD", "CAD", "2.00"}},
		txs: []vTx{
			vTwo("2019/12/30", "opening", "Assets:B:C", "Equity", 100000),
			vTwo("2020/01/03", "salary", "Assets:B:C", "Income:S", 345600),
			vTwo("2020/02/01", "food", "Expenses:F", "Assets:B:C", 1234),
			vTwo("2020/02/29", "card", "Expenses:G:H", "Liabilities", 9900),
			vTwo("2020/04/15", "fees", "Expenses:G", "Assets:B:D", 77),
			vTwo("2020/05/01", "close", "Assets:B", "Assets:B:D", -77),
			vTwo("2020/08/09", "more food", "Expenses:F", "Assets:B", 4321),
			vTwo("2020/08/09", "direct", "Expenses", "Liabilities", 5),
		},
	}
	l.txs = append(l.txs, vTx{date: "2020/03/01", desc: "dollars", notes: []string{"one", "two"}, ps: []vPost{{acc: "Assets:U", q: 5000}, {acc: "Assets:B:C", q: -10000}}})
	l.txs = append(l.txs, vTx{date: "2020/09/30", desc: "split", loc: "x.coin:7", notes: []string{"n"}, ps: []vPost{{acc: "Expenses:F", q: 100}, {acc: "Expenses:G", q: 200}, {acc: "Expenses:G:H", q: -50}, {acc: "Assets:B:C", q: -250}}})
	return l.fill()
}

// vEvents are the clicks of the event sequences; the ones that do not apply to the page shown are not cases
var vEvents = [][]vEv{
	{{"choose", "root", "Assets"}}, {{"choose", "root", "Expenses"}}, {{"choose", "root", "Income"}}, {{"choose", "root", "Liabilities"}}, {{"choose", "root", "Equity"}},
	{{"account", 0}}, {{"account", 0, true}}, {{"account", 1, true}}, {{"account", 2}}, {{"up", 0}}, {{"up", 1}},
	{{"choose", "view", "Balances"}}, {{"choose", "view", "Register"}}, {{"choose", "view", "Balances - Chart"}}, {{"choose", "view", "Aggregated Register - Chart"}},
	{{"set", "start", "2020-02-01"}}, {{"set", "start", "2020-03-01"}}, {{"set", "end", "2020-05-31"}}, {{"set", "end", "2020-02-29"}},
	{{"check", "closedAccounts", true}}, {{"check", "includeSubAccounts", true}}, {{"check", "includeNotes", true}}, {{"check", "showLocation", true}},
	{{"choose", "aggregate", "Monthly"}}, {{"choose", "aggregate", "Weekly"}}, {{"choose", "aggregate", "Yearly"}}, {{"choose", "aggregate", "None"}},
	{{"choose", "aggregationStyle", "Balances"}}, {{"set", "subAccountMax", "2"}}, {{"set", "subAccountMax", "1"}}, {{"set", "balanceDepth", "1"}}, {{"set", "balanceDepth", "0"}},
	{{"head", 0, 0}}, {{"head", 0, 1}}, {{"head", 0, 2}}, {{"back", 0}}, {{"legend", 0}}, {{"title", 1}},
}

// vApplies tells whether a user could do the event on the page.
func vApplies(pg *vPage, ev vEv) bool {
	switch ev[0] {
	case "set", "check":
		_, ok := pg.Controls[ev[1].(string)]
		return ok
	case "choose":
		if ev[1] == "view" {
			return slices.Contains(pg.Views, ev[2].(string))
		}
		if ev[1] == "aggregate" && ev[2] == "None" && pg.Controls["view"] != "Register" {
			return false
		}
		_, ok := pg.Controls[ev[1].(string)]
		return ok
	case "account":
		return ev[1].(int) < len(pg.Accounts)
	case "up":
		return ev[1].(int) < len(pg.Account)
	case "head":
		return len(pg.Tables) == 1 && ev[2].(int) < len(pg.Tables[0].Head)
	case "back":
		return ev[1].(int) < len(pg.Excluded)
	case "legend":
		return ev[1].(int) < len(pg.Legend)
	case "title":
		return ev[1].(int) < len(pg.Titles)
	}
	panic("event")
}

// vSequences explores all sequences of events from the page as opened, checking after each.
func vSequences(e *Env, l *vLed, tz string, first []int, depth int) {
	data := l.data()
	var rec func(path []int, n int)
	run := func(path []int) *vPage {
		req := map[string]any{"load": data}
		var evs []vEv
		for _, i := range path {
			evs = append(evs, vEvents[i]...)
		}
		req["do"] = evs
		pg, err := e.viewer(tz, req)
		failed := false
		fail := func(what, f string, args ...any) {
			failed = true
			e.Fail(fmt.Sprint(what, " events ", path, tz), "viewer (TZ=%s) after %s: %s", tz, mustJSON(evs), fmt.Sprintf(f, args...))
		}
		if err != "" {
			fail("answer", "%s", err)
			return nil
		}
		l.check(pg, fail)
		vList(l, pg, fail)
		if n := len(evs); n > 0 {
			if ev := evs[n-1]; ev[0] == "set" || ev[0] == "check" || ev[0] == "choose" {
				if got, ok := pg.Controls[ev[1].(string)]; ok && got != fmt.Sprint(ev[2]) {
					fail("control", "%s shows %q after %v", ev[1], got, ev)
				}
			}
		}
		if failed {
			return nil
		}
		e.State(mustJSON([]any{pg.Controls, pg.Account, pg.Excluded}))
		return pg
	}
	rec = func(path []int, n int) {
		pg := run(path)
		if pg == nil || n == 0 {
			return
		}
		for i, evs := range vEvents {
			if vApplies(pg, evs[0]) {
				rec(append(slices.Clone(path), i), n-1)
			}
		}
	}
	// the case is given by its first events
	pg := run(nil)
	for k, i := range first {
		if pg == nil || !vApplies(pg, vEvents[i][0]) {
			return
		}
		if k < len(first)-1 {
			pg = run(first[:k+1])
		}
	}
	rec(first, depth-len(first))
	e.Outcome(fmt.Sprint(first, tz))
}

// vList: the list on the left is of accounts below a common one, in order, each once.
func vList(l *vLed, pg *vPage, fail func(what, f string, args ...any)) {
	seen := map[string]bool{}
	for _, a := range pg.Accounts {
		if seen[a] {
			fail("list", "account %q is listed twice: %q", a, pg.Accounts)
			return
		}
		seen[a] = true
	}
	if len(pg.Roots) == 0 || strings.Join(pg.Roots, " ") != strings.Join(l.roots(), " ") {
		fail("roots", "top accounts %q, should be %q", pg.Roots, l.roots())
	}
}

func (l *vLed) roots() (out []string) {
	for _, a := range l.accs {
		if parentOf(a.name) == "" {
			out = append(out, a.name)
		}
	}
	return
}

func init() {
	assumptions := []string{
		"the page runs in a small document and with the parts of D3 the harness provides (webpack, D3 and a browser are not installed here); layout and colours are not judged",
		"amounts stay below 2^53 of the smallest unit; one price to a pair of commodities, exact both ways",
	}
	register(&Prop{
		ID: "P33", Level: "model_checking", Bins: []string{"viewer.js", "coin2html"},
		Rule:        "a case is a ledger opened in the viewer in one time zone and a list of user actions, checked after each; states are distinct ledgers and pages",
		Assumptions: assumptions,
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			zones := vZones
			// one transaction on every special day; from and to on every one of them
			dates := func(c *Chooser) *Case {
				tz := zones[c.N(len(zones))]
				f := c.N(len(vDays))
				return &Case{Key: fmt.Sprint("dates ", tz, vDays[f]), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad}, accs: vAccs("CAD", "Assets", "Assets:B", "Expenses")}
					for i, d := range vDays {
						l.txs = append(l.txs, vTwo(d, fmt.Sprint("t", i), []string{"Assets", "Assets:B"}[i%2], "Expenses", int64(1)<<(i%20)))
					}
					steps := [][]vEv{{{"choose", "view", "Register"}, {"check", "includeSubAccounts", true}, {"set", "start", vDay(vDays[f])}}}
					for _, d := range vDays {
						steps = append(steps, []vEv{{"set", "end", vDay(d)}}, []vEv{{"choose", "view", "Balances"}}, []vEv{{"choose", "view", "Register"}})
					}
					vRun(e, l.fill(), tz, "dates", steps)
				}}
			}
			// all small histories, all accounts, views and dates around them
			accs := vAccs("CAD", "Assets", "Assets:B", "Assets:B:C", "Assets:BB", "Expenses", "Expenses:F", "Equity")
			days := []string{"2020/02/28", "2020/02/29", "2020/03/01"}
			kinds := []func(d, n string) vTx{
				func(d, n string) vTx { return vTwo(d, n, "Assets:B", "Expenses:F", 1050) },
				func(d, n string) vTx { return vTwo(d, n, "Assets:B:C", "Assets", -200) },
				func(d, n string) vTx { return vTwo(d, n, "Assets:BB", "Assets:B", 3) },
				func(d, n string) vTx { return vTwo(d, n, "Assets:B", "Assets:B", 999999) },
				func(d, n string) vTx {
					return vTx{date: d, desc: n, loc: "f.coin:12", notes: []string{"a; b", "#k:v"}, ps: []vPost{{acc: "Assets:B", q: 100}, {acc: "Assets:B", q: 200}, {acc: "Expenses", q: -310}, {acc: "Equity", q: 10}}}
				},
				func(d, n string) vTx { return vTwo(d, n, "Assets:B", "Equity", 0) },
			}
			histories := func(c *Chooser) *Case {
				n := 1 + c.N(2)
				if thorough {
					n = 1 + c.N(3)
				}
				var ks, ds []int
				for i := 0; i < n; i++ {
					ks = append(ks, c.N(len(kinds)))
					ds = append(ds, c.N(len(days)))
				}
				return &Case{Key: fmt.Sprint("histories ", ks, ds), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad}, accs: accs}
					for i := range ks {
						l.txs = append(l.txs, kinds[ks[i]](days[ds[i]], fmt.Sprint("t", i)))
					}
					var steps [][]vEv
					for _, a := range []string{"Assets", "Assets:B", "Assets:B:C", "Expenses", "Equity"} {
						steps = append(steps, append(l.selectAcc(a), vEv{"choose", "view", "Register"}, vEv{"set", "start", "2020-01-01"}, vEv{"set", "end", "2020-12-31"}, vEv{"check", "includeSubAccounts", false}))
						for _, f := range []string{"2020-02-28", "2020-02-29"} {
							steps = append(steps, []vEv{{"set", "start", f}})
							for _, t := range []string{"2020-02-29", "2020-02-28", "2020-03-01"} {
								steps = append(steps, []vEv{{"set", "end", t}}, []vEv{{"check", "includeSubAccounts", true}},
									[]vEv{{"check", "includeNotes", true}, {"check", "showLocation", true}}, []vEv{{"check", "includeSubAccounts", false}}, []vEv{{"check", "includeNotes", false}},
									[]vEv{{"check", "showLocation", false}, {"choose", "view", "Balances"}}, []vEv{{"choose", "view", "Register"}})
							}
						}
					}
					vRun(e, l.fill(), zones[(ks[0]+ds[0])%2], "histories", steps)
				}}
			}
			// closing dates
			closed := func(c *Chooser) *Case {
				names := []string{"Assets:B", "Assets:B:C", "Assets:D", "Assets:B:C:E"}
				var cl []int
				for range names {
					cl = append(cl, c.N(3))
				}
				return &Case{Key: fmt.Sprint("closed ", cl), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad}, accs: vAccs("CAD", "Assets", "Assets:B", "Assets:B:C", "Assets:B:C:E", "Assets:D", "Equity")}
					for i, n := range names {
						l.acc(n).closed = []string{"", "2020/03/15", "2020/06/15"}[cl[i]]
						l.txs = append(l.txs, vTwo(fmt.Sprintf("2020/0%d/20", i+1), n, n, "Equity", int64(100)<<i), vTwo(fmt.Sprintf("2020/0%d/10", i+4), n, n, "Equity", int64(10000)<<i))
					}
					var steps [][]vEv
					for _, to := range []string{"2020-03-14", "2020-03-16", "2020-06-14", "2020-06-16", "2020-12-31"} {
						for _, a := range []string{"Assets", "Assets:B"} {
							steps = append(steps, append([]vEv{{"set", "end", to}}, append(l.selectAcc(a), vEv{"choose", "view", "Balances"}, vEv{"check", "closedAccounts", false})...))
							for _, v := range []string{"Register", "Balances - Chart", "Balances"} {
								steps = append(steps, []vEv{{"choose", "view", v}}, []vEv{{"check", "closedAccounts", true}}, []vEv{{"check", "closedAccounts", false}})
								if v == "Register" {
									steps = append(steps, []vEv{{"check", "includeSubAccounts", true}}, []vEv{{"check", "closedAccounts", true}}, []vEv{{"check", "closedAccounts", false}, {"check", "includeSubAccounts", false}})
								}
							}
						}
					}
					vRun(e, l.fill(), "UTC", "closed", steps)
				}}
			}
			// amounts of all sizes and signs at all decimals, alone and added up
			amounts := func(c *Chooser) *Case {
				dec := c.N(8)
				return &Case{Key: fmt.Sprint("amounts ", dec), Run: func(e *Env) {
					l := &vLed{coms: []Com{{Id: "K", Dec: dec, Default: true}}, accs: vAccs("K", "Assets", "Assets:B", "Equity")}
					i := 0
					for _, ip := range []string{"0", "1", "9", "10", "99", "100", "999", "1000", "12345", "123456", "1000000", "99999999", "9007199", "900719925"} {
						for _, fp := range []string{"", "1", "5", "9", "05", "50", "99", "001", "0000001", "000001", "999999"} {
							if len(fp) > dec || len(ip)+dec > 14 {
								continue
							}
							v := parseDec(ip+"."+fp, dec).Int64()
							l.txs = append(l.txs, vTwo("2020/01/02", fmt.Sprint("t", i), "Assets:B", "Equity", v), vTwo("2020/01/03", fmt.Sprint("u", i), "Assets:B", "Equity", -v), vTwo("2020/01/04", fmt.Sprint("v", i), "Assets", "Equity", -v))
							i++
						}
					}
					vRun(e, l.fill(), "UTC", "amounts", [][]vEv{{{"choose", "view", "Register"}}, {{"check", "includeSubAccounts", true}}, {{"choose", "view", "Balances"}}, {{"choose", "root", "Equity"}}, {{"choose", "view", "Register"}}, {{"choose", "aggregate", "Weekly"}}})
				}}
			}
			// several commodities: every way of connecting four of them by prices
			prices := func(c *Chooser) *Case {
				shape := c.N(5)
				dir := c.N(8)
				late := c.N(3)
				return &Case{Key: fmt.Sprint("prices ", shape, dir, late), Run: func(e *Env) {
					coms := []Com{vCad, {Id: "USD", Dec: 2}, {Id: "EUR", Dec: 4}, {Id: "YEN", Dec: 0}}
					l := &vLed{coms: coms, accs: []vAcc{{"Assets", "CAD", ""}, {"Assets:U", "USD", ""}, {"Assets:U:E", "EUR", ""}, {"Assets:Y", "YEN", ""}, {"Assets:Y:C", "CAD", ""}, {"Equity", "CAD", ""}, {"Equity:U", "USD", ""}, {"Equity:E", "EUR", ""}, {"Equity:Y", "YEN", ""}}}
					// edges of a spanning tree over CAD USD EUR YEN
					edges := vTrees[shape]
					for i, x := range edges {
						p := Pri{[]string{"2020/03/01", "2019/01/01", "2031/01/01"}[late], x[0], x[1], "2"}
						if dir>>i&1 == 1 {
							p.Com, p.Cur = p.Cur, p.Com
							p.Val = "1"
						}
						if p.Cur == "YEN" || p.Com == "YEN" {
							p.Val = "1"
						}
						l.pris = append(l.pris, p)
					}
					// the viewer keeps composed prices in the decimals of their commodity
					yen := &coms[3]
					yen.Dec = 2
					whole := true
					for _, c := range coms[:3] {
						q, _ := l.conv(pow10i(c.Dec).Int64(), c.Id, "YEN")
						whole = whole && q%100 == 0
					}
					if whole {
						yen.Dec = 0
					}
					l.txs = []vTx{
						vTwo("2020/01/02", "a", "Assets:U", "Equity:U", 123400), vTwo("2020/02/02", "b", "Assets:U:E", "Equity:E", -70000000),
						vTwo("2020/03/02", "c", "Assets:Y", "Equity:Y", 800/pow10i(2-coms[3].Dec).Int64()), vTwo("2020/04/02", "d", "Assets:Y:C", "Equity", 1600), vTwo("2020/05/02", "e", "Assets", "Equity", -55500),
					}
					l.fill()
					vRun(e, l, "UTC", "prices", [][]vEv{{{"choose", "view", "Register"}, {"check", "includeSubAccounts", true}}, {{"choose", "view", "Balances"}}, l.selectAcc("Assets:U"), {{"choose", "view", "Register"}}, l.selectAcc("Equity"), {{"choose", "view", "Balances"}}, {{"choose", "root", "Assets"}, {"choose", "view", "Balances - Chart"}}})
				}}
			}
			// conversions between all of them, in every order of asking
			orders := func(c *Chooser) *Case {
				shape, dir, perm := c.N(len(vTrees)), c.N(8), permFromIndex(4, c.N(24))
				return &Case{Key: fmt.Sprint("orders ", shape, dir, perm), Run: func(e *Env) {
					l := &vLed{coms: []Com{{Id: "CAD", Dec: 3, Default: true}, {Id: "USD", Dec: 4}, {Id: "EUR", Dec: 5}, {Id: "YEN", Dec: 3}}, accs: vAccs("CAD", "Assets", "Equity")}
					for i, x := range vTrees[shape] {
						p := Pri{"2020/01/01", x[0], x[1], "2"}
						if dir>>i&1 == 1 {
							p.Com, p.Cur = p.Cur, p.Com
						}
						l.pris = append(l.pris, p)
					}
					for _, c := range l.coms {
						l.accs = append(l.accs, vAcc{"Equity:" + c.Id, c.Id, ""}, vAcc{"Assets:" + c.Id, c.Id, ""})
						for i, s := range l.coms {
							if a := "Assets:" + c.Id + ":" + s.Id; s.Id != c.Id {
								l.accs = append(l.accs, vAcc{a, s.Id, ""})
								l.txs = append(l.txs, vTwo(fmt.Sprintf("2020/02/0%d", i+1), "t", a, "Equity:"+s.Id, 64*pow10i(s.Dec).Int64()<<i))
							}
						}
					}
					var steps [][]vEv
					for _, i := range perm {
						s := append([]vEv{{"choose", "view", "Register"}, {"check", "includeSubAccounts", false}}, l.selectAcc("Assets:"+l.coms[i].Id)...)
						steps = append(steps, append(s, vEv{"check", "includeSubAccounts", true}))
					}
					vRun(e, l.fill(), "UTC", "orders", append(steps, []vEv{{"choose", "view", "Balances"}}))
				}}
			}
			// prices over time
			times := func(c *Chooser) *Case {
				n := 1 + c.N(4)
				var gaps []int
				for i := 1; i < n; i++ {
					gaps = append(gaps, []int{28, 31, 92, 366}[c.N(4)])
				}
				start, rev, order := c.N(7), c.N(2) == 1, c.N(2) == 1
				return &Case{Key: fmt.Sprint("times ", gaps, start, rev, order), Run: func(e *Env) {
					l := &vLed{coms: []Com{{Id: "CAD", Dec: 3, Default: true}, {Id: "BND", Dec: 3}}, accs: []vAcc{{"Assets", "CAD", ""}, {"Assets:B", "BND", ""}, {"Equity", "BND", ""}}}
					if rev {
						l.accs = []vAcc{{"Assets", "BND", ""}, {"Assets:B", "CAD", ""}, {"Equity", "CAD", ""}}
					}
					d := pdate("2020/02/0" + fmt.Sprint(start+1))
					var days []string
					for i := 0; i < n; i++ {
						if i > 0 {
							d = d.AddDate(0, 0, gaps[i-1])
						}
						days = append(days, dateStr(d))
						l.pris = append(l.pris, Pri{dateStr(d), "BND", "CAD", []string{"2", "8", "1", "4"}[i]})
					}
					if order {
						slices.Reverse(l.pris)
					}
					l.txs = []vTx{vTwo("2020/01/02", "a", "Assets:B", "Equity", 8000)}
					l.fill()
					val := func(i int) string {
						q := []int64{16000, 64000, 8000, 32000}[i]
						if rev {
							q = []int64{4000, 1000, 8000, 2000}[i]
						}
						return vAmount(q, l.accCom("Assets"))
					}
					data := l.data()
					e.State(mustJSON(data))
					req := map[string]any{"load": data}
					for i, day := range days {
						for _, off := range []int{-200, -20, -8, -7, -3, -1, 0, 1, 3, 7, 8, 13, 14, 15, 20, 200} {
							to := dateStr(pdate(day).AddDate(0, 0, off))
							if to < "2020/01/02" {
								continue
							}
							pg, err := e.viewer("UTC", req)
							if err == "" {
								req = map[string]any{"do": []vEv{{"set", "end", vDay(to)}}}
								pg, err = e.viewer("UTC", req)
							}
							if err != "" || len(pg.Errors) > 0 || len(pg.Tables) != 1 {
								e.Fail(fmt.Sprint("times ", hash64(mustJSON(data))), "viewer at %s: %s %s", to, err, mustJSON(pg))
								return
							}
							// the viewer has a price for each week, at most two weeks off, the first known after it
							var want []string
							for _, w := range []int{-14, 0, 14} {
								d := dateStr(pdate(max(to, days[0])).AddDate(0, 0, w))
								next := sort.SearchStrings(days, d+"~")
								if next < len(days) && to < days[n-1] {
									want = append(want, val(next))
								}
								if next > 0 && to < days[n-1] {
									want = append(want, val(next-1))
								}
							}
							if to >= days[n-1] {
								want = append(want, val(n-1))
							}
							t := pg.Tables[0]
							if got := t.Rows[0][t.col("Total")]; !slices.Contains(want, got) {
								e.Fail(fmt.Sprint("times ", i, off, hash64(mustJSON(data))), "viewer: total at %s: %s, should be one of %s\nprices: %s", to, got, want, data["prices"])
								return
							}
							e.Outcome(t.Rows[0][t.col("Total")])
						}
					}
				}}
			}
			// names
			names := func(c *Chooser) *Case {
				k := c.N(6)
				return &Case{Key: fmt.Sprint("names ", k), Run: func(e *Env) {
					sub := []string{"Root", "Assets", "A-1", strings.Repeat("Abc", 12), "x:y:z:" + strings.Repeat("w", 30), strings.Repeat("Long", 8) + ":" + strings.Repeat("Name", 8) + ":e"}[k]
					var as []string
					parts := strings.Split(sub, ":")
					for i := range parts {
						as = append(as, "Assets:"+strings.Join(parts[:i+1], ":"))
					}
					l := &vLed{coms: []Com{vCad}, accs: vAccs("CAD", append(append([]string{"Assets"}, as...), "Equity")...)}
					for i, a := range as {
						l.txs = append(l.txs, vTwo("2020/01/02", fmt.Sprint("t", i), a, "Equity", int64(i+5)))
					}
					pg := vRun(e, l.fill(), "UTC", "names", [][]vEv{{{"choose", "view", "Register"}, {"check", "includeSubAccounts", true}}, {{"choose", "view", "Balances"}, {"set", "balanceDepth", "9"}}})
					if pg == nil {
						return
					}
					for i, a := range as {
						if i >= len(pg.Accounts) || pg.Accounts[i] != vShorten(strings.TrimPrefix(a, "Assets"), 40) {
							e.Fail(fmt.Sprint("list", k), "accounts listed %q for %q", pg.Accounts, as)
							return
						}
					}
				}}
			}
			// pages as coin2html writes them
			pages := func(c *Chooser) *Case {
				n := 1 + c.N(3)
				var ks []int
				for i := 0; i < n; i++ {
					ks = append(ks, c.N(len(kinds)))
				}
				return &Case{Key: fmt.Sprint("pages ", ks), Run: func(e *Env) { vPages(e, accs, kinds, days, ks) }}
			}
			depth := 3
			events := func(c *Chooser) *Case {
				tz := zones[0]
				if thorough {
					tz = zones[c.N(2)]
				}
				first := []int{c.N(len(vEvents)), c.N(len(vEvents))}
				return &Case{Key: fmt.Sprint("events ", first, tz), Run: func(e *Env) { vSequences(e, vRich(), tz, first, depth) }}
			}
			return []Space{
				{Name: "dates", Rule: "time zone x From x To, each out of 31 days at which years, months, weeks, summer time or zones turn, with a transaction on each", Gen: dates},
				{Name: "histories", Rule: "every history of up to 2 (3) of 6 kinds of transactions over 3 days x accounts x From x To x options of the register", Gen: histories},
				{Name: "closed", Rule: "closing dates of 4 nested accounts x To x shown or hidden x views", Gen: closed},
				{Name: "amounts", Rule: "boundary amounts of both signs at 0-7 decimals, listed and added up", Gen: amounts},
				{Name: "prices", Rule: "every tree of prices over 4 commodities x directions x dates before, between and after the transactions", Gen: prices},
				{Name: "orders", Rule: "every tree of prices over 4 commodities x directions x order in which the registers of accounts of each, with sub-accounts in the others, are opened", Gen: orders},
				{Name: "times", Rule: "up to 4 prices 4 weeks to a year apart, listed in both orders, used both ways, on days before, at, between and after them: the last one afterwards, otherwise one next to the day, give or take two weeks, is used", Gen: times},
				{Name: "names", Rule: "names that are short, long, deep, or those of other accounts", Gen: names},
				{Name: "pages", Rule: "every ledger of up to 3 of 6 kinds of transactions through coin2html, shown by the viewer", Gen: pages},
				{Name: "events", Rule: "every sequence of 3 (thorough: in two time zones) of 38 user actions on a ledger with everything", Gen: events},
			}
		},
	})
	register(&Prop{
		ID: "P34", Level: "model_checking", Bins: []string{"viewer.js"},
		Rule:        "a case is a ledger opened in the viewer in one time zone and a list of user actions, checked after each; states are distinct ledgers",
		Assumptions: assumptions,
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			periods := []string{"Weekly", "Monthly", "Quarterly", "Yearly"}
			// every view of an aggregation
			views := func() [][]vEv {
				return [][]vEv{
					{{"choose", "view", "Register"}, {"check", "includeSubAccounts", false}, {"choose", "aggregationStyle", "Flows"}}, {{"choose", "aggregationStyle", "Balances"}},
					{{"check", "includeSubAccounts", true}}, {{"choose", "aggregationStyle", "Flows"}}, {{"choose", "view", "Aggregated Register - Chart"}}, {{"choose", "aggregationStyle", "Balances"}},
				}
			}
			accs := vAccs("CAD", "Assets", "Expenses", "Expenses:F", "Expenses:G", "Expenses:G:H", "Income", "Income:S")
			from, to := 14, 30
			if thorough {
				from = 12
			}
			turns := func(c *Chooser) *Case {
				tz := vZones[c.N(3)]
				p := c.N(4)
				f := from + c.N(to-from)
				return &Case{Key: fmt.Sprint("turns ", tz, periods[p], vDays[f]), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad}, accs: accs}
					for i, d := range vDays[12:] {
						l.txs = append(l.txs, vTwo(d, fmt.Sprint("t", i), []string{"Expenses:F", "Expenses:G", "Expenses"}[i%3], "Assets", int64(1)<<i))
					}
					steps := [][]vEv{{{"choose", "root", "Expenses"}, {"choose", "view", "Register"}}}
					for t := f; t < len(vDays); t++ {
						steps = append(steps, []vEv{{"set", "start", vDay(vDays[f])}, {"set", "end", vDay(vDays[t])}, {"choose", "view", "Register"}, {"choose", "aggregate", periods[p]}})
						steps = append(steps, views()...)
					}
					vRun(e, l.fill(), tz, "turns", steps)
				}}
			}
			// small histories over the turns of periods, from and to inside of periods
			days := []string{"2019/12/20", "2020/01/15", "2020/01/20", "2020/04/15", "2020/12/31"}
			histories := func(c *Chooser) *Case {
				n := 1 + c.N(2)
				if thorough {
					n = 1 + c.N(3)
				}
				var ks, ds []int
				least := 0
				for i := 0; i < n; i++ {
					x := least + c.N(4*len(days)-least)
					ks, ds = append(ks, x%4), append(ds, x/4)
					if n == 3 {
						least = x // three of them in no particular order
					}
				}
				p := c.N(4)
				return &Case{Key: fmt.Sprint("histories ", ks, ds, p), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad}, accs: accs}
					for i := range ks {
						d, n := days[ds[i]], fmt.Sprint("t", i)
						l.txs = append(l.txs, []vTx{vTwo(d, n, "Expenses:F", "Assets", 1000), vTwo(d, n, "Expenses:G:H", "Expenses:G", 250), vTwo(d, n, "Income:S", "Assets", -5000), vTwo(d, n, "Expenses", "Income", -7)}[ks[i]])
					}
					l.fill()
					var steps [][]vEv
					for _, a := range []string{"Expenses", "Income", "Assets"} {
						steps = append(steps, append(l.selectAcc(a), vEv{"choose", "view", "Register"}))
						for _, f := range []string{"2020-01-01", "2020-01-16"} {
							for _, t := range []string{"2020-01-20", "2020-04-14", "2020-12-31"} {
								steps = append(steps, []vEv{{"set", "start", f}, {"set", "end", t}, {"choose", "view", "Register"}, {"choose", "aggregate", periods[p]}})
								steps = append(steps, views()...)
							}
						}
					}
					vRun(e, l, "UTC", "histories", steps)
				}}
			}
			// which accounts are shown by themselves
			tops := func(c *Chooser) *Case {
				root := []string{"Expenses", "Income", "Assets"}[c.N(3)]
				var vs []int
				for i := 0; i < 5; i++ {
					vs = append(vs, c.N(4))
				}
				return &Case{Key: fmt.Sprint("tops ", root, vs), Run: func(e *Env) {
					names := []string{root, root + ":A", root + ":A:B", root + ":C", root + ":D"}
					l := &vLed{coms: []Com{vCad, {Id: "USD", Dec: 2}}, pris: []Pri{{"2020/01/01", "USD", "CAD", "2.00"}}, accs: vAccs("CAD", append([]string{"Equity"}, names...)...)}
					if root != "Assets" {
						l.accs = append(vAccs("CAD", "Assets"), l.accs...)
					}
					l.acc(root + ":C").com = "USD"
					l.accs = append(l.accs, vAcc{name: "Equity:U", com: "USD"})
					for i, n := range names {
						q := []int64{0, 100, 300, -200}[vs[i]]
						other := "Equity"
						if l.acc(n).com == "USD" {
							other = "Equity:U"
						}
						if q != 0 {
							l.txs = append(l.txs, vTwo("2020/02/03", fmt.Sprint("t", i), n, other, q), vTwo(fmt.Sprintf("2020/0%d/04", i+3), fmt.Sprint("u", i), n, other, q/2))
						}
					}
					l.txs = append(l.txs, vTwo("2019/05/05", "old", names[vs[0]], map[bool]string{true: "Equity:U", false: "Equity"}[l.acc(names[vs[0]]).com == "USD"], 5000))
					l.fill()
					steps := [][]vEv{{{"choose", "root", root}, {"choose", "view", "Register"}, {"set", "start", "2020-01-01"}, {"set", "end", "2020-12-31"}, {"check", "includeSubAccounts", true}, {"choose", "aggregate", "Quarterly"}}}
					for _, m := range []string{"1", "2", "3", "4", "6"} {
						steps = append(steps, []vEv{{"set", "subAccountMax", m}}, []vEv{{"choose", "aggregationStyle", "Balances"}}, []vEv{{"choose", "view", "Aggregated Register - Chart"}}, []vEv{{"choose", "aggregationStyle", "Flows"}}, []vEv{{"choose", "view", "Register"}})
					}
					vRun(e, l, "UTC", "tops", steps)
				}}
			}
			// leaving accounts out and taking them back
			exclude := func(c *Chooser) *Case {
				chart := c.N(2)
				m := c.N(2)
				n := 1 + c.N(3)
				var acts []int
				for i := 0; i < n; i++ {
					acts = append(acts, c.N(7))
				}
				return &Case{Key: fmt.Sprint("exclude ", chart, m, acts), Run: func(e *Env) {
					l := vRich()
					view := []string{"Register", "Aggregated Register - Chart"}[chart]
					steps := [][]vEv{{{"choose", "root", "Expenses"}, {"choose", "view", "Register"}, {"check", "includeSubAccounts", true}, {"choose", "aggregate", "Quarterly"}, {"set", "subAccountMax", []string{"5", "3"}[m]}, {"choose", "view", view}}}
					// what a user can click is known from the page only
					excluded := []string{}
					pg := vRun(e, l, "UTC", fmt.Sprint("exclude", acts), steps)
					for _, a := range acts {
						if pg == nil {
							return
						}
						var ev vEv
						labels := pg.Legend
						if chart == 0 {
							labels = pg.Tables[0].Head[1 : len(pg.Tables[0].Head)-2]
						}
						if a < 4 {
							if a >= len(labels) || labels[a] == "Other" || labels[a] == "" {
								return // no account to be left out
							}
							ev = vEv{"head", 0, a + 1}
							if chart == 1 {
								ev = vEv{"legend", a}
							}
							excluded = append(excluded, labels[a])
						} else {
							if a-4 >= len(excluded) {
								return
							}
							ev = vEv{"back", a - 4}
							excluded = slices.Delete(slices.Clone(excluded), a-4, a-3)
						}
						steps = append(steps, []vEv{ev})
						if pg = vRun(e, l, "UTC", fmt.Sprint("exclude", acts), steps); pg == nil {
							return
						}
						if got := strings.Join(strings.Fields(strings.Join(pg.Excluded, " ")), " "); got != strings.Join(excluded, " ") {
							e.Fail(fmt.Sprint("excluded", acts, chart, m), "left out are %q, should be %q after %s", pg.Excluded, excluded, mustJSON(steps))
							return
						}
					}
				}}
			}
			// details of every cell
			details := func(c *Chooser) *Case {
				n := []int{0, 1, 2, 19, 20, 21, 22, 40}[c.N(8)]
				sub := c.N(2) == 1
				tie := c.N(3)
				view := 0
				if sub {
					view = c.N(3)
				}
				return &Case{Key: fmt.Sprint("details ", n, sub, tie, view), Run: func(e *Env) {
					l := &vLed{coms: []Com{vCad, {Id: "USD", Dec: 2}}, pris: []Pri{{"2020/01/01", "USD", "CAD", "2.00"}}, accs: append(vAccs("CAD", "Assets", "Expenses", "Expenses:F"), vAcc{"Expenses:U", "USD", ""}, vAcc{"Assets:U", "USD", ""})}
					for i := 0; i < n; i++ {
						q := int64((i*7)%40+1) * []int64{1, -1, 1}[i%3]
						if tie == 1 {
							q = int64(i%3 - 1)
						}
						a, b := "Expenses", "Assets"
						if sub {
							a = []string{"Expenses:F", "Expenses", "Expenses:U"}[i%3]
							if i%3 == 2 {
								b = "Assets:U"
							}
						}
						d := "2020/02/10"
						if tie == 2 {
							d = []string{"2020/02/10", "2020/03/31", "2020/02/29", "2020/04/01"}[i%4]
						}
						l.txs = append(l.txs, vTwo(d, fmt.Sprint("t", i), a, b, q))
					}
					l.txs = append(l.txs, vTwo("2020/12/30", "last", "Expenses:F", "Assets", 3))
					l.fill()
					steps := [][]vEv{{{"choose", "root", "Expenses"}, {"choose", "view", "Register"}, {"check", "includeSubAccounts", sub}, {"choose", "aggregate", "Quarterly"}, {"set", "start", "2020-02-05"}}, {{"choose", "aggregate", "Quarterly"}}}
					if view > 0 {
						steps = append(steps, []vEv{{"set", "subAccountMax", "2"}})
					}
					if view == 2 {
						steps = append(steps, []vEv{{"choose", "view", "Aggregated Register - Chart"}})
					}
					sig := fmt.Sprint("details ", n, sub, tie, view)
					pg := vRun(e, l, "UTC", sig, steps)
					if pg == nil {
						return
					}
					periods := vPeriods("Quarterly", "2020/02/05", "2020/12/31")
					heads := pg.Legend
					if view < 2 {
						heads = pg.Tables[0].Head[1:]
					}
					all := l.below("Expenses", "2020/12/31", false, nil)
					for r := range periods {
						for k, h := range heads {
							ev := vEv{"cell", 0, r, k + 1}
							if view == 2 {
								ev = vEv{"title", k*len(periods) + r}
							}
							pg := vRun(e, l, "UTC", sig, append(slices.Clone(steps), []vEv{ev}))
							if pg == nil {
								return
							}
							s := &vState{l: l, pg: pg, acc: "Expenses", com: vCad, from: "2020/02/05", to: "2020/12/31"}
							s.fail = func(what, f string, args ...any) {
								e.Fail(fmt.Sprint(what, " ", sig, r, k), "viewer: details of row %d, column %q: %s\n%s", r, h, fmt.Sprintf(f, args...), mustJSON(pg.Details))
							}
							acc, mixed := []string{"Expenses"}, sub
							switch {
							case h == "Total" || h == "Cum.Total":
								if sub {
									acc = all
								}
							case h == "Other":
								acc = nil
								for _, a := range all {
									if !slices.Contains(heads, strings.TrimPrefix(a, "Expenses")) {
										acc = append(acc, a)
									}
								}
							case sub:
								acc, mixed = []string{"Expenses" + h}, view < 2
							}
							s.details(acc, "Quarterly", periods[r], mixed)
						}
					}
				}}
			}
			return []Space{
				{Name: "turns", Rule: "time zone x period x From x To out of days at which periods turn, with a transaction on each, all views and styles", Gen: turns},
				{Name: "histories", Rule: "every history of up to 2 (3) of 4 kinds of transactions over 5 days x period x From x To x accounts x views x styles", Gen: histories},
				{Name: "tops", Rule: "amounts of 5 accounts out of 4 (one in another commodity) x number of accounts shown x views x styles, for three roots", Gen: tops},
				{Name: "exclude", Rule: "every sequence of up to 3 exclusions and returns of accounts, in the register and the chart", Gen: exclude},
				{Name: "details", Rule: "numbers of postings around the limit x accounts x ties x register (all accounts shown, or some) and chart: the details of every amount", Gen: details},
			}
		},
	})
}

// vPages shows what coin2html wrote.
func vPages(e *Env, accs []vAcc, kinds []func(d, n string) vTx, days []string, ks []int) {
	l := &vLed{coms: []Com{vCad}, accs: slices.Clone(accs)}
	var txs []Tx
	for i, k := range ks {
		t := kinds[k](days[(i*2+k)%3], fmt.Sprint("t", i))
		line := 1
		for _, x := range txs {
			line += lines(x.text())
		}
		t.loc = fmt.Sprint("2020.coin:", line)
		l.txs = append(l.txs, t)
		x := Tx{Date: t.date, Desc: t.desc, Notes: t.notes}
		for _, p := range t.ps {
			x.Ps = append(x.Ps, Post{Acc: p.acc, Amt: cents(p.q), Com: "CAD"})
		}
		txs = append(txs, x)
	}
	l.fill()
	l.acc("Assets:BB").closed = "2020/12/01"
	var as []Acc
	for _, a := range l.accs {
		as = append(as, Acc{Name: a.name, Com: a.com, Closed: a.closed})
	}
	// the page lists accounts by name and one more
	l.accs = append(l.accs, vAcc{name: "Unbalanced", com: "CAD"})
	slices.SortFunc(l.accs, func(a, b vAcc) int { return strings.Compare(a.name, b.name) })
	db := e.Sub("db", Files{"commodities.coin": comsText(vCad), "accounts.coin": accsText(as...), "prices.coin": "", "2020.coin": txsText(txs...)})
	r := e.Run("coin2html", db)
	page, _, err := p31data(r.Out)
	if r.Code != 0 || err != "" {
		e.Fail(fmt.Sprint("page ", ks), "coin2html: exit %d %s %s", r.Code, r.Err, err)
		return
	}
	data := map[string]string{}
	for k, v := range page {
		n := strings.TrimPrefix(k, "imported")
		data[strings.ToLower(n[:1])+n[1:]] = v
	}
	for i := range l.txs {
		l.txs[i].loc = "" // given relative to somewhere: the register is shown without
	}
	vRunData(e, l, data, "UTC", fmt.Sprint("pages ", ks), [][]vEv{
		{{"choose", "view", "Register"}, {"check", "includeSubAccounts", true}}, {{"check", "includeNotes", true}}, {{"set", "end", "2020-02-29"}}, {{"choose", "view", "Balances"}}, {{"check", "closedAccounts", true}},
		{{"set", "end", "2020-12-31"}}, {{"check", "closedAccounts", false}}, {{"choose", "root", "Expenses"}}, {{"choose", "view", "Register"}}, {{"choose", "aggregate", "Monthly"}}})
}
