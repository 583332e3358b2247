package main

import (
	"fmt"
	"math/big"
	"strings"
)

// P18: balance report totals are right.

type p18led struct {
	accs []Acc
	txs  []Tx
	// second file, to have the ledger in more than one
	split int
}

var p18coms = []Com{{Id: "CAD", Dec: 2, Default: true}, {Id: "BND", Dec: 5}, {Id: "YEN", Dec: 0}}

// prices of every commodity in every other one, the latest not last in the file
var p18prices = []Pri{
	{"2019/12/01", "BND", "CAD", "9.99"}, {"2020/06/01", "BND", "CAD", "2.35"}, {"2020/01/01", "BND", "CAD", "7.77"},
	{"2020/06/01", "BND", "YEN", "201"}, {"2020/01/01", "BND", "YEN", "999"},
	{"2020/01/01", "YEN", "CAD", "0.09"}, {"2020/05/01", "YEN", "CAD", "0.01"}, {"2020/02/01", "YEN", "BND", "0.5"}, {"2020/05/01", "YEN", "BND", "0.00497"},
	{"2020/05/01", "CAD", "YEN", "85"}, {"2020/01/01", "CAD", "YEN", "1"}, {"2020/05/01", "CAD", "BND", "0.42553"}, {"2018/01/01", "CAD", "BND", "1"},
}

func p18dec(com string) int {
	for _, c := range p18coms {
		if c.Id == com {
			return c.Dec
		}
	}
	panic(com)
}

func p18convert(v *big.Int, from, to string) *big.Int {
	if from == to {
		return v
	}
	var best *Pri
	for i, p := range p18prices {
		if p.Com == from && p.Cur == to && (best == nil || p.Date > best.Date) {
			best = &p18prices[i]
		}
	}
	return mulTrunc(v, parseDec(best.Val, p18dec(to)), p18dec(from))
}

type p18opts struct {
	begin, end, payee, tag string
	zero                   bool
	level                  int
	acc                    string // full name of the account asked for
}

func (o p18opts) args() []string {
	a := []string{"balance"}
	add := func(f, v string) {
		if v != "" {
			a = append(a, f, v)
		}
	}
	add("-b", o.begin)
	add("-e", o.end)
	add("-p", o.payee)
	add("-t", o.tag)
	if o.zero {
		a = append(a, "-z")
	}
	if o.level != 0 {
		a = append(a, "-l", fmt.Sprint(o.level))
	}
	if o.acc != "" {
		a = append(a, o.acc)
	}
	return a
}

// selected tells whether posting i of a transaction is counted.
func (o p18opts) selected(t Tx, i int) bool {
	if o.begin != "" && t.Date < o.begin || o.end != "" && t.Date >= o.end {
		return false
	}
	if o.payee != "" && !cachedRex("(?i)"+o.payee).MatchString(t.Desc) {
		return false
	}
	if o.tag != "" && !p16match(o.tag, p16notes(t.Ps[i].Note, t.Ps[i].Notes)...) && !p16match(o.tag, p16notes(t.Note, t.Notes)...) {
		return false
	}
	return true
}

func (l *p18led) com(acc string) string {
	for _, a := range l.accs {
		if a.Name == acc && a.Com != "" {
			return a.Com
		}
	}
	return "CAD"
}

// amounts of a transaction's postings, the missing one filled in.
func p18amounts(l *p18led, t Tx) []*big.Int {
	out := make([]*big.Int, len(t.Ps))
	sum := new(big.Int)
	for i, p := range t.Ps {
		if p.Amt != "" {
			out[i] = parseDec(p.Amt, p18dec(p.Com))
			sum.Add(sum, out[i])
		}
	}
	for i := range out {
		if out[i] == nil {
			out[i] = new(big.Int).Neg(sum)
		}
	}
	return out
}

// totals gives own and cumulative totals of all accounts.
func (l *p18led) totals(o p18opts) (names []string, own, cum map[string]*big.Int) {
	var decl []string
	for _, a := range l.accs {
		decl = append(decl, a.Name)
	}
	names = closure(decl)
	own, cum = map[string]*big.Int{}, map[string]*big.Int{}
	for _, n := range names {
		own[n] = new(big.Int)
	}
	for _, t := range l.txs {
		am := p18amounts(l, t)
		for i, p := range t.Ps {
			if o.selected(t, i) {
				own[p.Acc].Add(own[p.Acc], am[i])
			}
		}
	}
	var rec func(n string) *big.Int
	rec = func(n string) *big.Int {
		s := new(big.Int).Set(own[n])
		for _, c := range names {
			if c != "Root" && (parentOf(c) == n || n == "Root" && parentOf(c) == "") {
				s.Add(s, p18convert(rec(c), l.com(c), l.com(n)))
			}
		}
		cum[n] = s
		return s
	}
	rec("Root")
	return
}

func (l *p18led) rows(o p18opts) (rows []balRow) {
	names, own, cum := l.totals(o)
	top := o.acc
	if top == "" {
		top = "Root"
	}
	show := func(n string) {
		depth := strings.Count(n, ":") + 1
		if o.level != 0 && depth > o.level || !o.zero && cum[n].Sign() == 0 {
			return
		}
		c := l.com(n)
		rows = append(rows, balRow{fmtDec(own[n], p18dec(c)), fmtDec(cum[n], p18dec(c)), c, n})
	}
	if top == "Root" {
		show("Root")
	}
	for _, n := range names {
		if n != "Root" && isAncestorOrSelf(top, n) {
			show(n)
		}
	}
	return
}

func (l *p18led) files() Files {
	f := Files{"commodities.coin": comsText(p18coms...), "accounts.coin": accsText(l.accs...), "t.coin": txsText(l.txs[l.split:]...)}
	if l.split > 0 {
		f["u.coin"] = txsText(l.txs[:l.split]...)
	}
	for _, p := range p18prices {
		f["prices.coin"] += p.text()
	}
	return f
}

func (l *p18led) check(e *Env, db string, o p18opts) {
	r := e.Run("coin", db, o.args()...)
	want := l.rows(o)
	got := balanceRows(r.Out)
	sig := fmt.Sprint(o.args()) + txsText(l.txs...)
	e.State(sig)
	// the order of rows: parents before children, siblings by name; compare as sets first
	if r.Code != 0 || len(got) != len(want) {
		e.Fail(sig, "coin %v: exit %d\n%s%s\n--- should be\n%s\n--- transactions\n%s", o.args(), r.Code, r.Out, r.Err, p18show(want), clip(txsText(l.txs...), 4000))
		return
	}
	m := map[string]balRow{}
	for _, g := range got {
		m[g.acc] = g
	}
	for _, w := range want {
		if m[w.acc] != w {
			e.Fail(sig, "coin %v: row %v should be %v\n%s\n--- transactions\n%s", o.args(), m[w.acc], w, r.Out, clip(txsText(l.txs...), 4000))
			return
		}
	}
}

func p18show(rows []balRow) string {
	s := ""
	for _, r := range rows {
		s += fmt.Sprintln(r.own, "|", r.cum, r.com, "|", r.acc)
	}
	return s
}

var p18tree = []Acc{{Name: "As", Com: "CAD"}, {Name: "As:Bank", Com: "CAD"}, {Name: "As:Bank:Sub", Com: "CAD"}, {Name: "As:Fund", Com: "BND"}, {Name: "Ex:Food", Com: "CAD"}, {Name: "Ex:Food:Out:Late", Com: "CAD"}, {Name: "Yen", Com: "YEN"}, {Name: "Yen:Cash", Com: "CAD"}, {Name: "Old", Com: "CAD", Closed: "2020/01/31"}}

// p18rich is a ledger with everything: payees, tags on transactions and postings, ties, several commodities.
func p18rich() *p18led {
	cad := func(d, desc, note, from, to, amt, pn, qn string) Tx {
		return Tx{Date: d, Desc: desc, Note: note, Ps: []Post{{Acc: from, Amt: amt, Com: "CAD", Note: pn}, {Acc: to, Note: qn}}}
	}
	l := &p18led{accs: p18tree, split: 4}
	l.txs = []Tx{
		cad("2019/12/31", "Alpha", "", "As:Bank", "Ex:Food", "-10.01", "", ""),
		cad("2020/01/01", "beta", "#t: v", "As:Bank:Sub", "Ex:Food:Out:Late", "-0.05", "", ""),
		cad("2020/01/01", "Alpha two", "", "As:Bank", "Ex:Food", "98765432109876543.21", "#t", ""),
		{Date: "2020/01/31", Desc: "buy", Note: "#u: w x", Ps: []Post{{Acc: "As:Fund", Amt: "3.12345", Com: "BND"}, {Acc: "As:Bank", Amt: "-7.00", Com: "CAD", Notes: []string{"#T: V2, more"}}}},
		cad("2020/02/01", "", "", "Old", "Yen:Cash", "100.00", "", "#t: v"),
		{Date: "2020/02/29", Desc: "Alphabet yen", Ps: []Post{{Acc: "Yen", Amt: "-1234", Com: "YEN", Note: "#u"}, {Acc: "Ex:Food", Amt: "5.55", Com: "CAD"}}},
		cad("2020/01/31", "beta alpha", "#t: zz", "As", "As:Bank:Sub", "0.00", "", ""),
		{Date: "2020/02/01", Desc: "split", Ps: []Post{{Acc: "As:Bank", Amt: "-9.00", Com: "CAD"}, {Acc: "As:Bank:Sub", Amt: "4.00", Com: "CAD", Note: "#t: v"}, {Acc: "As", Amt: "2.50", Com: "CAD"}, {Acc: "As:Bank", Amt: "1.25", Com: "CAD"}, {Acc: "Ex:Food"}}},
		// the same key on the transaction and its postings
		{Date: "2020/02/02", Desc: "both", Note: "#t: v", Ps: []Post{{Acc: "As:Bank", Amt: "-16.00", Com: "CAD", Note: "#t: w"}, {Acc: "Ex:Food", Note: "#t"}}},
	}
	return l
}

func init() {
	register(&Prop{
		ID: "P18", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one or more option combinations over one ledger; states are distinct (ledger, options) pairs",
		Assumptions: []string{"the total of a child account is converted into the commodity of its parent, level by level", "levels are counted from the top of the tree", "tag filters are not inverted"},
		Spaces: func(tier string) []Space {
			rich := p18rich()
			dates := []string{"", "2019/12/31", "2020/01/01", "2020/01/31", "2020/02/01", "2020/02/29", "2020/03/01"}
			opts := func(c *Chooser) *Case {
				p := []string{"", "alpha", "^b", "^$", "T[wy]"}[c.N(5)]
				t := []string{"", "t", "t:^v$", "u", "t:v"}[c.N(5)]
				acc := []string{"", "As", "As:Bank", "Ex", "Yen"}[c.N(5)]
				return &Case{Key: fmt.Sprint("options ", p, t, acc), Run: func(e *Env) {
					db := e.Sub("db", rich.files())
					for bi, b := range dates {
						for ei, en := range dates {
							for k := 0; k < 8; k++ {
								z, lev := k%2 == 1, k/2
								// levels and zero rows in full only for some filters
								if tier != "thorough" && (bi+ei+len(p)+len(t)+len(acc))%8 != k && !(bi == 0 && ei == 0) {
									continue
								}
								rich.check(e, db, p18opts{begin: b, end: en, payee: p, tag: t, zero: z, level: lev, acc: acc})
							}
						}
					}
				}}
			}
			small := func(c *Chooser) *Case {
				// all ledgers of two transactions over a small tree, between any two accounts
				accs := []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "CAD"}, {Name: "A:B:C", Com: "CAD"}, {Name: "D:E", Com: "CAD"}}
				n := 2
				if tier == "thorough" {
					n = 2 + c.N(2)
				}
				var txs []Tx
				for i := 0; i < n; i++ {
					from, to := c.N(4), c.N(4)
					amt := []string{"1.00", "-0.05", "98765432109876543.21"}[c.N(3)]
					txs = append(txs, Tx{Date: []string{"2020/01/01", "2020/01/02"}[i%2], Ps: []Post{{Acc: accs[from].Name, Amt: amt, Com: "CAD"}, {Acc: accs[to].Name}}})
				}
				l := &p18led{accs: accs, txs: txs}
				return &Case{Key: "small " + txsText(txs...), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					l.check(e, db, p18opts{zero: true})
					l.check(e, db, p18opts{begin: "2020/01/02"})
				}}
			}
			trees := func(c *Chooser) *Case {
				// a chain of accounts whose commodities change at every level, and some not declared
				depth := 2 + c.N(4)
				var accs []Acc
				name := ""
				for d := 0; d < depth; d++ {
					if name != "" {
						name += ":"
					}
					name += string(rune('A' + d))
					k := c.N(4)
					if k == 3 && d == depth-1 {
						return nil
					}
					if k < 3 {
						accs = append(accs, Acc{Name: name, Com: p18coms[k].Id})
					}
				}
				l := &p18led{accs: append(accs, Acc{Name: "Z", Com: "CAD"})}
				vals := []string{"100", "-3", "0.07", "-12345.67891"}
				names := strings.Split(name, ":")
				for d := 1; d <= depth; d++ {
					n := strings.Join(names[:d], ":")
					cm := l.com(n)
					v := fmtDec(parseDec(vals[d%4], p18dec(cm)), p18dec(cm))
					l.txs = append(l.txs, Tx{Date: "2020/01/01", Ps: []Post{{Acc: n, Amt: v, Com: cm}, {Acc: "Z", Amt: fmt.Sprintf("%d.00", d), Com: "CAD"}}})
				}
				// balanced where the commodity is the same
				for i := range l.txs {
					if l.txs[i].Ps[0].Com == "CAD" {
						l.txs[i].Ps[1].Amt = neg(l.txs[i].Ps[0].Amt)
					}
				}
				return &Case{Key: fmt.Sprint("tree ", accs), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					l.check(e, db, p18opts{zero: true})
					for lev := 1; lev <= depth+1; lev++ {
						l.check(e, db, p18opts{level: lev})
					}
					for d := 1; d <= depth; d++ {
						l.check(e, db, p18opts{acc: strings.Join(names[:d], ":")})
					}
				}}
			}
			long := func(c *Chooser) *Case {
				// one account with many postings: every begin and end date
				n := []int{1, 2, 13, 40}[c.N(4)]
				step := c.N(3) // days between transactions: ties, one, two
				order := c.N(2)
				l := &p18led{accs: p18tree[:6]}
				for i := 0; i < n; i++ {
					k := i
					if order == 1 {
						k = n - 1 - i
					}
					d := ymdDate(2019, 12, 20).AddDate(0, 0, k*step)
					if step == 0 {
						d = ymdDate(2019, 12, 20).AddDate(0, 0, k/5)
					}
					l.txs = append(l.txs, Tx{Date: dateStr(d), Desc: fmt.Sprint("p", k%3), Ps: []Post{{Acc: "As:Bank", Amt: fmt.Sprintf("%d.%02d", 1<<(k%20), k), Com: "CAD"}, {Acc: []string{"Ex:Food", "As", "As:Bank:Sub"}[k%3]}}})
				}
				return &Case{Key: fmt.Sprint("long ", n, step, order), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					span := n*max(step, 1) + 2
					if step == 0 {
						span = n/5 + 3
					}
					for b := -1; b < span; b++ {
						for _, w := range []int{0, 1, 2, 5, 500} {
							if span > 45 && b%2 == 1 && w > 1 && tier != "thorough" {
								continue
							}
							o := p18opts{begin: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b)), end: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b+w)), zero: true}
							if w == 500 {
								o.end = ""
							}
							l.check(e, db, o)
						}
						l.check(e, db, p18opts{end: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b)), payee: "P1"})
					}
				}}
			}
			wide := func(c *Chooser) *Case {
				n := []int{1, 7, 8, 9, 13, 30}[c.N(6)]
				nest := c.N(2) == 1
				l := &p18led{accs: []Acc{{Name: "Z", Com: "CAD"}}}
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("W:N%02d", i)
					if nest {
						name += fmt.Sprintf(":M%d:X", i%3)
					}
					l.accs = append(l.accs, Acc{Name: name, Com: p18coms[i%2].Id})
					v := []string{"1.10", "-1.10", "0", "1.10"}[i%4]
					if i%2 == 1 {
						l.txs = append(l.txs, Tx{Date: "2020/01/01", Ps: []Post{{Acc: name, Amt: fmtDec(parseDec(v, 5), 5), Com: "BND"}, {Acc: "Z", Amt: "-2.00", Com: "CAD"}}})
					} else {
						l.txs = append(l.txs, Tx{Date: "2020/01/01", Ps: []Post{{Acc: name, Amt: fmtDec(parseDec(v, 2), 2), Com: "CAD"}, {Acc: "Z"}}})
					}
				}
				return &Case{Key: fmt.Sprint("wide ", n, nest), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for lev := 0; lev < 5; lev++ {
						for _, z := range []bool{false, true} {
							for _, a := range []string{"", "W", "Z"} {
								l.check(e, db, p18opts{level: lev, zero: z, acc: a})
							}
						}
					}
				}}
			}
			return []Space{
				{Name: "options", Rule: "payee x tag x account x begin x end (x zero x level) over a ledger with everything", Gen: opts},
				{Name: "small", Rule: "every ledger of 2 (thorough 3) transactions between any two of 4 accounts", Gen: small},
				{Name: "trees", Rule: "chains of 2-5 accounts of any commodities or undeclared; every level and start", Gen: trees},
				{Name: "long", Rule: "1-40 transactions with and without date ties, written forward and backward; begin and end dates all over", Gen: long},
				{Name: "wide", Rule: "1-30 sibling accounts", Gen: wide},
			}
		},
	})
}
