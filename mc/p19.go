package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// P19: the register lists the right postings with right running totals.

type p19opts struct {
	p18opts  // begin, end, payee, tag, acc; payee and tag may be inverted
	rec, loc bool
	label    int
}

func (o p19opts) args() []string {
	a := []string{"register"}
	add := func(f, v string) {
		if v != "" {
			a = append(a, f, v)
		}
	}
	if o.rec {
		a = append(a, "-r")
	}
	if o.loc {
		a = append(a, "-f")
	}
	if o.label > 0 {
		a = append(a, "-l", fmt.Sprint(o.label))
	}
	add("-b", o.begin)
	add("-e", o.end)
	add("-p", o.payee)
	add("-t", o.tag)
	return append(a, o.acc)
}

func (o p19opts) sel(t Tx, i int) bool {
	p := o.p18opts
	if strings.HasPrefix(p.payee, "!") {
		if cachedRex("(?i)" + p.payee[1:]).MatchString(t.Desc) {
			return false
		}
		p.payee = ""
	}
	if strings.HasPrefix(p.tag, "!") {
		// only used on postings with exactly one tag
		p.tag = p.tag[1:]
		q := p
		q.tag = ""
		return q.selected(t, i) && !p.selected(t, i)
	}
	return p.selected(t, i)
}

type p19row struct {
	date, desc, acc string
	others          []string // acceptable counter-accounts
	amt, com        string
	val             *big.Int // in the commodity of the register
	mark            bool
	loc             string
}

// rows lists the expected postings by account order, stably sorted by date.
func (l *p18led) register(o p19opts) (rows []p19row) {
	var names []string
	for _, a := range l.accs {
		names = append(names, a.Name)
	}
	line := 1
	type pos struct {
		file string
		line int
	}
	places := make([]pos, len(l.txs))
	for i := l.split; i < len(l.txs); i++ {
		places[i] = pos{"t.coin", line}
		line += lines(l.txs[i].text())
	}
	line = 1
	for i := 0; i < l.split; i++ {
		places[i] = pos{"u.coin", line}
		line += lines(l.txs[i].text())
	}
	com := l.com(o.acc)
	for _, n := range closure(names) {
		if n != o.acc && !(o.rec && isAncestorOrSelf(o.acc, n)) {
			continue
		}
		// files are read in the order of their names
		for k := range l.txs {
			i := k
			if l.split > 0 {
				i = (k + l.split) % len(l.txs)
			}
			t := l.txs[i]
			am := p18amounts(l, t)
			for j, p := range t.Ps {
				if p.Acc != n || !o.sel(t, j) {
					continue
				}
				c := p.Com
				if c == "" {
					c = l.com(n)
				}
				r := p19row{date: t.Date, desc: t.Desc, acc: n, amt: fmtDec(am[j], p18dec(c)), com: l.com(n), val: p18convert(am[j], c, com), mark: p.Bal != "", loc: fmt.Sprintf("%s:%d", places[i].file, places[i].line)}
				for m, q := range t.Ps {
					if m != j {
						r.others = append(r.others, q.Acc)
					}
				}
				rows = append(rows, r)
			}
		}
	}
	sort.SliceStable(rows, func(i, j int) bool { return rows[i].date < rows[j].date })
	return
}

// p19name tells whether a cell shows an account name, in full or without the prefix of the register's account.
func p19name(cell, name, acc string) bool {
	return cell == name || strings.HasPrefix(name, acc) && cell == name[len(acc):]
}

func (l *p18led) checkRegister(e *Env, db string, o p19opts) {
	r := e.Run("coin", db, o.args()...)
	want := l.register(o)
	sig := fmt.Sprint(o.args()) + txsText(l.txs...)
	e.State(sig)
	bad := func(format string, a ...any) {
		e.Fail(sig, "coin %v: %s\n%s%s--- expected rows\n%v\n--- transactions\n%s", o.args(), fmt.Sprintf(format, a...), clip(r.Out, 4000), r.Err, clip(fmt.Sprint(want), 3000), clip(txsText(l.txs...), 3000))
	}
	ls := nonEmptyLines(r.Out)
	if r.Code != 0 || len(ls) == 0 {
		bad("exit %d", r.Code)
		return
	}
	if !hasToken(ls[0], o.acc) || !hasToken(ls[0], l.com(o.acc)) {
		bad("header does not name the account and its commodity")
		return
	}
	ls = ls[1:]
	if len(ls) != len(want) {
		bad("%d rows, should be %d", len(ls), len(want))
		return
	}
	dec := p18dec(l.com(o.acc))
	total := new(big.Int)
	used := make([]bool, len(want))
	cols := 5
	if o.rec {
		cols++
	}
	if o.loc {
		cols++
	}
	for i, line := range ls {
		c := cells(line)
		if len(c) != cols {
			bad("row %d has %d columns, should have %d", i, len(c), cols)
			return
		}
		date, desc := c[0], c[1]
		acc := o.acc
		c = c[2:]
		if o.rec {
			acc = c[0]
			c = c[1:]
		}
		other, amt := c[0], c[1]
		tf := strings.Fields(strings.ReplaceAll(c[2], "*", " *"))
		loc := ""
		if o.loc {
			loc = c[3]
		}
		if len(tf) < 2 {
			bad("row %d: no total", i)
			return
		}
		found := -1
		for k, w := range want {
			if used[k] || w.date != date || w.desc != desc || w.amt != amt || w.mark != strings.Contains(c[2], "*") || w.com != tf[1] {
				continue
			}
			if o.rec && o.label > 50 && !p19name(acc, w.acc, o.acc) {
				continue
			}
			if o.label > 50 {
				ok := len(w.others) == 0 && other == ""
				for _, n := range w.others {
					ok = ok || p19name(other, n, o.acc)
				}
				if !ok {
					continue
				}
			}
			if o.loc && loc != w.loc && loc != "./"+w.loc && !strings.HasSuffix(loc, "/"+w.loc) {
				continue
			}
			found = k
			break
		}
		if found < 0 {
			bad("row %d %q is not expected", i, line)
			return
		}
		used[found] = true
		if want[i].date != date || !o.rec && found != i && fmt.Sprint(want[found]) != fmt.Sprint(want[i]) {
			bad("row %d is out of order", i)
			return
		}
		total.Add(total, want[found].val)
		if tf[0] != fmtDec(total, dec) {
			bad("row %d: total is %s, should be %s", i, tf[0], fmtDec(total, dec))
			return
		}
	}
}

// p19rich adds assertions and single postings to the rich ledger.
func p19rich() *p18led {
	l := p18rich()
	l.txs = append([]Tx{}, l.txs...)
	l.txs[0].Ps = []Post{{Acc: "As:Bank", Amt: "-10.01", Com: "CAD", Bal: "-10.01", BalCom: "CAD"}, {Acc: "Ex:Food"}}
	l.txs[4].Ps = []Post{{Acc: "Old", Amt: "100.00", Com: "CAD", Bal: "7.00", BalCom: "CAD"}, {Acc: "Yen:Cash", Amt: "-100.00", Com: "CAD", Bal: "-100.00", BalCom: "CAD", Note: "#t: v"}}
	l.txs = append(l.txs,
		Tx{Date: "2020/02/01", Desc: "lone", Ps: []Post{{Acc: "As:Bank", Amt: "0.00", Com: "CAD"}}},
		Tx{Date: "2020/03/05", Desc: "An exceptionally long payee name that goes on past fifty characters", Ps: []Post{{Acc: "As:Bank", Amt: "-1.00", Com: "CAD"}, {Acc: "As:Bank", Amt: "1.00", Com: "CAD", Bal: "1.00", BalCom: "CAD"}}})
	return l
}

func init() {
	register(&Prop{
		ID: "P19", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one or more option combinations over one ledger; states are distinct (ledger, options) pairs",
		Assumptions: []string{"a counter-account may be shown without the prefix it shares with the register's account, and any of several may be shown", "with subaccounts, postings of one day may come in any order", "inverted tag filters are used on postings with exactly one tag", "payees contain no |"},
		Spaces: func(tier string) []Space {
			rich := p19rich()
			dates := []string{"", "2019/12/31", "2020/01/01", "2020/01/31", "2020/02/01", "2020/02/29", "2020/03/06"}
			opts := func(c *Chooser) *Case {
				p := []string{"", "alpha", "^b", "!alpha", "!^$", "T[wy]"}[c.N(6)]
				t := []string{"", "t", "t:^v$", "u"}[c.N(4)]
				acc := []string{"Root", "As", "As:Bank", "As:Fund", "Ex:Food", "Yen", "Old", "Unbalanced"}[c.N(8)]
				rec := c.N(2) == 1
				return &Case{Key: fmt.Sprint("options ", p, t, acc, rec), Run: func(e *Env) {
					db := e.Sub("db", rich.files())
					for bi, b := range dates {
						for ei, en := range dates {
							if tier != "thorough" && (bi+2*ei+len(p)+len(t)+len(acc))%3 != 0 && !(bi == 0 && ei == 0) {
								continue
							}
							o := p19opts{p18opts: p18opts{begin: b, end: en, payee: p, tag: t, acc: acc}, rec: rec, loc: (bi+ei)%2 == 0}
							o.label = []int{200, 0, 200, 5}[(bi+ei)%4]
							rich.checkRegister(e, db, o)
						}
					}
				}}
			}
			small := func(c *Chooser) *Case {
				accs := []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "CAD"}, {Name: "AA", Com: "CAD"}}
				n := 2
				if tier == "thorough" {
					n = 2 + c.N(2)
				}
				var txs []Tx
				for i := 0; i < n; i++ {
					from, to := c.N(3), c.N(3)
					k := c.N(3)
					amt := []string{"1.00", "-0.05", "98765432109876543.21"}[k]
					t := Tx{Date: []string{"2020/01/02", "2020/01/01"}[c.N(2)], Desc: fmt.Sprint("d", i), Ps: []Post{{Acc: accs[from].Name, Amt: amt, Com: "CAD"}, {Acc: accs[to].Name}}}
					if k == i {
						t.Ps[0].Bal, t.Ps[0].BalCom = "1.00", "CAD"
					}
					txs = append(txs, t)
				}
				l := &p18led{accs: accs, txs: txs, split: b2i(len(txs[0].Ps[0].Acc) == 1)}
				return &Case{Key: "small " + txsText(txs...), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					l.checkRegister(e, db, p19opts{p18opts: p18opts{acc: "A"}, loc: true, label: 200})
					l.checkRegister(e, db, p19opts{p18opts: p18opts{acc: "A"}, rec: true, label: 200})
					l.checkRegister(e, db, p19opts{p18opts: p18opts{acc: "Root"}, rec: true, loc: true, label: 200})
				}}
			}
			tagged := func(c *Chooser) *Case {
				// every posting has one tag, its own or its transaction's
				f := []string{"!t", "!u", "!t:v", "!T:^w$", "t", "u:x"}[c.N(6)]
				p := []string{"", "!one", "one"}[c.N(3)]
				l := &p18led{accs: p18tree}
				k := 0
				for _, tag := range []string{"#t", "#t: v", "#t: w", "#u: x", "#u"} {
					for where := 0; where < 3; where++ {
						t := Tx{Date: dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, (k*7)%5)), Desc: []string{"one", "two", "stone", ""}[k%4], Ps: []Post{{Acc: "As:Bank", Amt: fmt.Sprintf("%d.00", k+1), Com: "CAD"}, {Acc: "Ex:Food"}}}
						switch where {
						case 0:
							t.Note = tag
						case 1:
							t.Ps[0].Note, t.Ps[1].Note = tag, "#u: x"
						case 2:
							t.Ps[0].Notes, t.Ps[1].Notes = []string{"n", tag}, []string{"#t"}
						}
						l.txs = append(l.txs, t)
						k++
					}
				}
				return &Case{Key: fmt.Sprint("tagged ", f, p), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for _, acc := range []string{"As:Bank", "Ex:Food", "As", "Root"} {
						for _, rec := range []bool{false, true} {
							for _, b := range []string{"", "2020/01/03"} {
								l.checkRegister(e, db, p19opts{p18opts: p18opts{acc: acc, tag: f, payee: p, begin: b}, rec: rec, loc: true, label: 200})
							}
						}
					}
				}}
			}
			long := func(c *Chooser) *Case {
				n := []int{1, 2, 13, 40}[c.N(4)]
				step := c.N(3)
				order := c.N(3)
				l := &p18led{accs: p18tree}
				for i := 0; i < n; i++ {
					k := []int{i, n - 1 - i, (i * 7) % n}[order]
					d := ymdDate(2019, 12, 20).AddDate(0, 0, k*step)
					if step == 0 {
						d = ymdDate(2019, 12, 20).AddDate(0, 0, k/5)
					}
					if n == 1 {
						d = ymdDate(2019, 12, 20)
					}
					to := []string{"Ex:Food", "As", "As:Bank:Sub", "Ex:Food:Out:Late", "Old"}[k%5]
					t := Tx{Date: dateStr(d), Desc: fmt.Sprint("p", k%3, " number ", i), Ps: []Post{{Acc: "As:Bank", Amt: fmt.Sprintf("%d.%02d", 1<<(k%20), k), Com: "CAD"}, {Acc: to}}}
					if k%4 == 1 {
						t.Ps[1] = Post{Acc: "As:Fund", Amt: fmt.Sprintf("-%d.%05d", k, k), Com: "BND"}
					}
					if i%6 == 5 {
						t.Ps[0].Bal, t.Ps[0].BalCom = "3.00", "CAD"
					}
					l.txs = append(l.txs, t)
				}
				if n > 5 {
					l.split = n / 3
				}
				return &Case{Key: fmt.Sprint("long ", n, step, order), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					span := n*max(step, 1) + 2
					if step == 0 {
						span = n/5 + 3
					}
					for b := -1; b < span; b++ {
						for _, w := range []int{0, 1, 2, 5, 500} {
							if span > 20 && (b+w)%4 != 1 && tier != "thorough" {
								continue
							}
							o := p19opts{p18opts: p18opts{acc: "As:Bank", begin: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b)), end: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b+w))}, loc: w%2 == 0, label: 200}
							if w == 500 {
								o.end = ""
							}
							l.checkRegister(e, db, o)
							o.acc, o.rec = "As", true
							l.checkRegister(e, db, o)
							o.payee, o.acc = "!P1", "Root"
							l.checkRegister(e, db, o)
						}
					}
				}}
			}
			return []Space{
				{Name: "options", Rule: "payee x tag x account x recursion x begin x end over a ledger with everything", Gen: opts},
				{Name: "small", Rule: "every ledger of 2 (thorough 3) transactions between any two of 3 accounts on two days", Gen: small},
				{Name: "tagged", Rule: "plain and inverted tag filters over postings with one tag each", Gen: tagged},
				{Name: "long", Rule: "1-40 transactions with and without date ties in three written orders over two files; begin and end dates all over", Gen: long},
			}
		},
	})
}
