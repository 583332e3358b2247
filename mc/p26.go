package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

// P26, P27: OFX imports.

// impTx is an imported transaction as the model has it.
type impTx struct {
	date       string // 2020/01/31
	code, desc string
	acc, other string
	com        string
	dec        int
	val        *big.Int // on acc
	bal        *big.Int // asserted on acc, nil if none
	notes      []string
	loc        string // place in the ledger
	more       string // the amount of a third and fourth posting, in the ledger only
}

func (t impTx) key() string { // what repeats
	return fmt.Sprint(t.date, "|", t.code, "|", t.acc, "|", t.other, "|", t.com, "|", t.val, "|", t.more)
}

func (t impTx) String() string {
	post := func(acc string, v, bal *big.Int) string {
		s := acc + " " + fmtDec(v, t.dec) + " " + t.com
		if bal != nil {
			s += " = " + fmtDec(bal, t.dec) + " " + t.com
		}
		return s
	}
	ps := []string{post(t.acc, t.val, t.bal), post(t.other, new(big.Int).Neg(t.val), nil)}
	sort.Strings(ps)
	return fmt.Sprintf("%s (%s) %q %q %s", t.date, t.code, t.desc, t.notes, strings.Join(ps, ", "))
}

// impLoad reads ledger text back: the transactions in the order written.
func impLoad(text string) (out []string) {
	coin.Load(strings.NewReader(text), "t.coin")
	txs := append([]*coin.Transaction{}, coin.Transactions...)
	coin.ResolveAll()
	for _, t := range txs {
		var ps []string
		for _, p := range t.Postings {
			s := fmt.Sprintf("%s %v %s", p.Account.FullName, p.Quantity, p.Quantity.Commodity.Id)
			if p.BalanceAsserted {
				s += fmt.Sprintf(" = %v %s", p.Balance, p.Balance.Commodity.Id)
			}
			ps = append(ps, s)
		}
		sort.Strings(ps)
		out = append(out, fmt.Sprintf("%s (%s) %q %q %s", t.Posted.Format("2006/01/02"), t.Code, t.Description, t.Notes, strings.Join(ps, ", ")))
	}
	return
}

var ofxAccs = comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "BND", Dec: 5}, Com{Id: "YEN"}) + "P 2000/01/01 BND 2.00 CAD\nP 2000/01/01 YEN 0.01 CAD\n" +
	accsText(Acc{Name: "Bank", Com: "CAD"}, Acc{Name: "Bank:Bonds", Com: "BND"}, Acc{Name: "Bank:Yen", Com: "YEN"}, Acc{Name: "Bank:Sub", Com: "CAD"},
		Acc{Name: "Card", Com: "CAD"}, Acc{Name: "Ex:Food", Com: "CAD"}, Acc{Name: "Ex:Food:Out", Com: "CAD"}, Acc{Name: "In", Com: "CAD"})

var ofxIds = map[string]string{"100": "Bank", "200": "Bank:Bonds", "300": "Bank:Yen", "400": "Card", "500": "Bank:Sub"}
var ofxDec = map[string]int{"Bank": 2, "Bank:Bonds": 5, "Bank:Yen": 0, "Card": 2, "Bank:Sub": 2}
var ofxCom = map[string]string{"Bank": "CAD", "Bank:Bonds": "BND", "Bank:Yen": "YEN", "Card": "CAD", "Bank:Sub": "CAD"}

// the accounts file: ids as directives of the accounts
func ofxAccounts(ids bool) string {
	s := ofxAccs
	if ids {
		for id, acc := range ofxIds {
			s = strings.Replace(s, "account "+acc+"\n", "account "+acc+"\n  ofx_acctid "+id+"\n", 1)
		}
	}
	return s
}

// ofxRules: rules for the accounts 100, 300 and 400, none for 200 and 500.
func ofxRules() []p25group {
	return []p25group{
		{name: "common", rules: []p25rule{{acc: "Ex:Food:Out", expr: "cafe|pub", notes: []string{"#out", "where: x"}}, {acc: "", expr: "drop"}}},
		{"100", "Bank", []p25rule{{acc: "In", expr: "^pay"}, {ref: "common"}, {acc: "Ex:Food", expr: "food"}}},
		{"300", "Bank:Yen", []p25rule{{acc: "", expr: "drop"}}},
		{"400", "Card", []p25rule{{ref: "common"}, {acc: "Ex:Food", expr: "food"}, {acc: "Bank", expr: ""}}},
	}
}

func ofxDate(d string) string { return d[:4] + "/" + d[4:6] + "/" + d[6:8] }

func ofxAmount(s string, dec int) *big.Int {
	s = strings.TrimPrefix(strings.ReplaceAll(s, ",", "."), "+")
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	i := strings.IndexByte(s, '.')
	f := ""
	if i >= 0 {
		s, f = s[:i], s[i+1:]
	}
	for len(f) < dec {
		f += "0"
	}
	for len(f) > dec {
		if f[len(f)-1] != '0' {
			panic("too precise " + s)
		}
		f = f[:len(f)-1]
	}
	v, ok := new(big.Int).SetString("0"+s+f, 10)
	if !ok {
		panic("amount " + s)
	}
	if neg {
		v.Neg(v)
	}
	return v
}

var wsREX = regexp.MustCompile(`\s+`)

// ofxModel lists what the statements of the files should become, in date order, before repetitions are dropped.
func ofxModel(rules []p25group, files [][]ofxStatement) (out []impTx) {
	for _, ss := range files {
		for _, card := range []bool{false, true} {
			for _, s := range ss {
				if s.card != card {
					continue
				}
				acc := ofxIds[s.id]
				for i, l := range s.lines {
					desc, memo := strings.TrimSpace(l.name), strings.TrimSpace(l.memo) // as OFX reads them
					if !card {
						desc = strings.TrimSpace(wsREX.ReplaceAllString(desc+memo, " "))
					}
					d := p25decide(rules, s.id, desc)
					if d == "--" {
						continue
					}
					t := impTx{date: ofxDate(l.date), desc: desc, acc: acc, com: ofxCom[acc], dec: ofxDec[acc], val: ofxAmount(l.amt, ofxDec[acc])}
					t.other, _, _ = strings.Cut(d, " ")
					for _, g := range rules {
						for _, r := range g.rules {
							if d == fmt.Sprintf("%s %q", r.acc, r.notes) {
								t.notes = r.notes
							}
						}
					}
					if !card && i == len(s.lines)-1 {
						t.bal = ofxAmount(s.bal, t.dec)
					}
					out = append(out, t)
				}
			}
		}
	}
	// within a day those with an asserted balance come last
	sort.SliceStable(out, func(i, j int) bool {
		return out[i].date < out[j].date || out[i].date == out[j].date && out[i].bal == nil && out[j].bal != nil
	})
	return
}

// ofxDedupe drops what repeats the ledger or an earlier imported transaction; dropped gets the ledger places or "".
func ofxDedupe(txs, ledger []impTx) (out []impTx, dropped []string) {
	at := map[string]int{}
	led := map[string]string{}
	for _, t := range ledger {
		led[t.key()] += " " + t.loc + " "
	}
	for _, t := range txs {
		if loc := led[t.key()]; loc != "" {
			dropped = append(dropped, loc)
			continue
		}
		if i, ok := at[t.key()]; ok {
			if out[i].bal == nil {
				out[i].bal = t.bal
			}
			dropped = append(dropped, "")
			continue
		}
		at[t.key()] = len(out)
		out = append(out, t)
	}
	return
}

func ofxFiles(f Files, files [][]ofxStatement) (names []string) {
	for i, ss := range files {
		n := fmt.Sprintf("s%d.ofx", i)
		f[n] = ofxText(ss)
		names = append(names, n)
	}
	return
}

// ofxCheck runs the import over the database and compares.
func ofxCheck(e *Env, db string, rules []p25group, ledger []impTx, files [][]ofxStatement, keep bool, names ...string) (string, bool) {
	want := ofxModel(rules, files)
	var dropped []string
	args := names
	if keep {
		args = append([]string{"-keep-dupes"}, names...)
	} else {
		want, dropped = ofxDedupe(want, ledger)
	}
	r := e.Run("ofx2coin", db, args...)
	input := func() string {
		s := fmt.Sprint("ofx2coin ", strings.Join(args, " "), "\n--- rules\n", p25text(rules, true))
		for _, ss := range files {
			for _, st := range ss {
				s += fmt.Sprintf("--- statement of %s (%s), card %v, balance %s\n", st.id, ofxIds[st.id], st.card, st.bal)
				for _, l := range st.lines {
					s += fmt.Sprintf("%+v\n", l)
				}
			}
		}
		for _, t := range ledger {
			s += "--- ledger: " + t.loc + ": " + t.String() + "\n"
		}
		return s + "--- output\n" + r.Out + "--- stderr\n" + r.Err
	}
	sig := fmt.Sprint(files, keep, len(ledger))
	if r.Code != 0 {
		e.Fail("exit "+sig, "exit code %d\n%s", r.Code, input())
		return "", false
	}
	var got []string
	_, msg, failed := e.lib(func() { got = impLoad(ofxAccs + r.Out) })
	if failed {
		e.Fail("invalid "+sig, "the output does not load: %s\n%s", msg, input())
		return "", false
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i].String()
		}
		if g != w {
			e.Fail("tx "+sig, "transaction %d is\n  %s\nshould be\n  %s\n%s", i, g, w, input())
			return "", false
		}
	}
	// the reports of what was dropped
	parts := strings.Split(r.Err, "DROPPING DUPLICATE TRANSACTION:")[1:]
	if len(parts) != len(dropped) {
		e.Fail("reports "+sig, "%d repetitions reported, should be %d\n%s", len(parts), len(dropped), input())
		return "", false
	}
	for i, p := range parts {
		if loc := dropped[i]; loc != "" {
			first := nonEmptyLines(p)[0]
			if !strings.Contains(loc, " "+filepath.Base(first)+" ") {
				e.Fail("place "+sig, "repetition %d is reported as %q, the ledger's transaction is at %s\n%s", i, first, loc, input())
				return "", false
			}
		}
	}
	e.Outcome(fmt.Sprint(len(want), len(dropped)))
	return r.Out, true
}

func ofxRun(e *Env, ids bool, rules []p25group, files ...[]ofxStatement) {
	f := Files{"accounts.coin": ofxAccounts(ids), "commodities.coin": ""}
	if rules != nil {
		f["ofx.rules"] = p25text(rules, true)
	}
	names := ofxFiles(f, files)
	e.State(fmt.Sprint(files))
	db := e.Sub("db", f)
	if _, ok := ofxCheck(e, db, rules, nil, files, false, names...); ok {
		if _, drop := ofxDedupe(ofxModel(rules, files), nil); len(drop) > 0 {
			ofxCheck(e, db, rules, nil, files, true, names...)
		}
	}
}

func init() {
	names := []string{"pay x", "cafe", "food", "drop me", "other"}
	dates := []string{"20200131", "20191231", "20200101120000"}
	amts := []string{"-1.00", "2.5", "-30"}
	line := func(c *Chooser, full bool) ofxLine {
		k := c.N(b2i(full)*5 + 5)
		if full {
			return ofxLine{date: dates[c.N(3)], amt: amts[k/4%3], name: names[k%5]}
		}
		return ofxLine{date: dates[k%3], amt: amts[k/2%3], name: names[k%5]}
	}
	register(&Prop{
		ID: "P26", Level: "model_checking", Bins: []string{"ofx2coin"},
		Rule:        "a case is a set of statements imported through the command; states are distinct sets of statements",
		Assumptions: []string{"payees contain no ';' and do not start with a parenthesised word, which coin's text format cannot express", "amounts have no more decimals than the account's commodity", "prices are known where an account and its counter-account differ in commodity"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			lines := func(c *Chooser) *Case {
				card := (c.N(2) == 1)
				var s ofxStatement
				n := c.N(4)
				if thorough {
					n = c.N(5)
				}
				s.card = card
				s.id = "100"
				if card {
					s.id = "400"
				}
				s.bal = []string{"10.00", "-3.5", "0"}[n%3]
				for i := 0; i < n; i++ {
					s.lines = append(s.lines, line(c, i < 2))
				}
				return &Case{Key: fmt.Sprint("lines ", s), Run: func(e *Env) {
					ofxRun(e, n%2 == 0, ofxRules(), []ofxStatement{s})
				}}
			}
			several := func(c *Chooser) *Case {
				// up to three statements over one or several files
				n := 2 + c.N(2)
				split := c.N(3)
				files := make([][]ofxStatement, 1+split)
				for i := 0; i < n; i++ {
					k := c.N(7)
					ids := []string{"100", "400", "500", "200", "300", "100", "400"}
					s := ofxStatement{id: ids[k], card: k == 1 || k == 6, bal: fmt.Sprint(i*7 - 3)}
					for j := 0; j < []int{2, 1, 0, 1, 2, 1, 3}[k]; j++ {
						s.lines = append(s.lines, ofxLine{date: dates[(i+j)%3], amt: fmt.Sprint((i + 1) * (1 - 2*((j+k)%2)) * (j + 1) * 11), name: names[(i+2*j+k)%5]})
					}
					f := i % len(files)
					files[f] = append(files[f], s)
				}
				return &Case{Key: fmt.Sprint("several ", files), Run: func(e *Env) {
					ofxRun(e, true, ofxRules(), files...)
				}}
			}
			// amounts: batches of distinct ones
			amounts := func(c *Chooser) *Case {
				id := []string{"100", "200", "300", "400", "500"}[c.N(5)]
				batch := c.N(10)
				return &Case{Key: fmt.Sprint("amounts ", id, batch), Run: func(e *Env) {
					s := ofxStatement{id: id, card: id == "400"}
					dec := ofxDec[ofxIds[id]]
					ints := []string{"0", "1", "7", "10", "99", "100", "1234", "99999", "1000000", "123456789", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890"}
					fracs := []string{"", ".0", ".00"}
					if dec >= 2 {
						fracs = append(fracs, ".5", ".05", ".50", ".99", ".01", ".10", ".29", ",75", ".")
					}
					if dec >= 5 {
						fracs = append(fracs, ".001", ".12345", ".99999", ".00001", ".10000", ".500")
					}
					k := 0
					for _, i := range ints {
						for _, f := range fracs {
							for _, sign := range []string{"", "-", "+"} {
								if k++; k%10 != batch {
									continue
								}
								l := ofxLine{date: ymdDate(2020, 1, 1+k).Format("20060102"), amt: sign + i + f, name: "other"}
								s.lines = append(s.lines, l)
								s.bal = l.amt
							}
						}
					}
					ofxRun(e, true, ofxRules(), []ofxStatement{s})
					// each of them as the closing balance
					for i, l := range s.lines {
						if i%3 == batch%3 || thorough {
							ofxRun(e, true, ofxRules(), []ofxStatement{{id: id, lines: []ofxLine{{date: "20200101", amt: "5", name: "x"}}, bal: l.amt}})
						}
					}
				}}
			}
			// every day, in every form of time and zone
			days := func(c *Chooser) *Case {
				form := c.N(8)
				y := 1999 + c.N(6)
				rev := (c.N(2) == 1)
				return &Case{Key: fmt.Sprint("days ", form, y, rev), Run: func(e *Env) {
					s := ofxStatement{id: "100", bal: "1"}
					for d := 1; d <= 366; d++ {
						t := ymdDate(y, 1, d).Format("20060102")
						t += []string{"", "000000", "120000", "235959", "235959.999[-5:EST]", "000000.000[-5:EST]", "000000[+9:JST]", "233000.000[-11]"}[form]
						s.lines = append(s.lines, ofxLine{date: t, amt: "-1", name: "food"})
					}
					if rev {
						for i, j := 0, len(s.lines)-1; i < j; i, j = i+1, j-1 {
							s.lines[i], s.lines[j] = s.lines[j], s.lines[i]
						}
					}
					ofxRun(e, true, ofxRules(), []ofxStatement{s})
				}}
			}
			words := []string{"x", "x  y", " x ", "a\tb", "é", "日本", "a & b", "<x>", "\"q\"", "it's", "#5", "#tag", "k: v", "5 CAD", "-", "--", "@y", "1", "2020/01/01", "A:B", "100%", "%s", "x(1)", "[CK]NO.1", "=5", strings.Repeat("long ", 15), strings.Repeat("y", 80), strings.Repeat("z", 200), "&amp", "cafe", "pub cafe", "xfood", "a,b", "a|b", "\\", "$1"}
			payees := func(c *Chooser) *Case {
				card := (c.N(2) == 1)
				i := c.N(len(words))
				return &Case{Key: fmt.Sprint("payees ", card, i), Run: func(e *Env) {
					s := ofxStatement{id: "100", card: card, bal: "5.00"}
					if card {
						s.id = "400"
					}
					for k, w := range append([]string{""}, words...) {
						s.lines = append(s.lines, ofxLine{date: ymdDate(2020, 1, 1+k).Format("20060102"), amt: fmt.Sprint(k + 1), name: words[i], memo: w})
					}
					ofxRun(e, true, ofxRules(), []ofxStatement{s})
				}}
			}
			many := func(c *Chooser) *Case {
				n := []int{11, 12, 13, 14, 20, 33, 64}[c.N(7)]
				m := 1 + c.N(4)
				card := (c.N(2) == 1)
				return &Case{Key: fmt.Sprint("many ", n, m, card), Run: func(e *Env) {
					s := ofxStatement{id: "100", card: card, bal: "77.77"}
					if card {
						s.id = "400"
					}
					for i := 0; i < n; i++ {
						s.lines = append(s.lines, ofxLine{date: ymdDate(2020, 3, 1+(i*m)%3).Format("20060102"), amt: fmt.Sprint(i - n/2), name: fmt.Sprint(names[i%5], " ", i)})
					}
					ofxRun(e, true, ofxRules(), []ofxStatement{s})
					ofxRun(e, true, ofxRules(), []ofxStatement{s}, []ofxStatement{{id: "500", lines: s.lines, bal: "1"}})
				}}
			}
			// notes of rules of every length around the line limit
			notes := func(c *Chooser) *Case {
				n := 1 + c.N(90)
				return &Case{Key: fmt.Sprint("notes ", n), Run: func(e *Env) {
					rules := ofxRules()
					rules[0].rules[0].notes = [][]string{{strings.Repeat("n", n)}, {strings.Repeat("n", n), "second"}, {"first: a, b", "#t: " + strings.Repeat("m", n), "x"}}[n%3]
					var s ofxStatement
					s.id, s.bal = "100", "0"
					for i := 0; i < 12; i++ {
						s.lines = append(s.lines, ofxLine{date: fmt.Sprintf("202001%02d", i+1), amt: "3", name: strings.Repeat("p", i*7) + "pub"})
					}
					ofxRun(e, true, rules, []ofxStatement{s})
				}}
			}
			bmo := func(c *Chooser) *Case {
				v := c.N(16)
				return &Case{Key: fmt.Sprint("bmo ", v), Run: func(e *Env) {
					rules := ofxRules()
					ss := []ofxStatement{{id: "100", bal: "5", lines: []ofxLine{{date: "20200102", amt: "-5", name: "cafe"}, {date: "20200101", amt: "7.25", name: "pay"}}}}
					for i := 0; i < 40*(v%2); i++ {
						ss[0].lines = append(ss[0].lines, ofxLine{date: fmt.Sprintf("202002%02d", i%28+1), amt: fmt.Sprint(i + 1), name: strings.Repeat("w", i*130)})
					}
					t := ofxText(ss)
					if v&2 != 0 {
						t = strings.Replace(t, "<BANKMSGSRSV1>", "<BANKMSGSETV1><BANKMSGSET>\n<BANKMSGSRSV1>", 1)
					}
					if v&4 != 0 {
						t = "\n\n" + strings.Replace(t, "NONE\n\n<OFX>", "NONE\n<OFX>", 1)
					}
					if v&8 != 0 { // no end of line after the last one
						t = strings.TrimRight(t, "\n")
					}
					f := Files{"accounts.coin": ofxAccounts(true), "commodities.coin": "", "ofx.rules": p25text(rules, true), "s.ofx": t}
					e.State(t)
					ofxCheck(e, e.Sub("db", f), rules, nil, [][]ofxStatement{ss}, false, "-bmo", "s.ofx")
				}}
			}
			norules := func(c *Chooser) *Case {
				k := c.N(5)
				return &Case{Key: fmt.Sprint("norules ", k), Run: func(e *Env) {
					id := []string{"100", "200", "300", "400", "500"}[k]
					ofxRun(e, true, nil, []ofxStatement{{id: id, card: k == 3, bal: "5", lines: []ofxLine{{date: "20200101", amt: "5", name: "cafe"}, {date: "20200101", amt: "6", name: "drop"}}}})
				}}
			}
			return []Space{
				{Name: "lines", Rule: "every bank and card statement of up to 3 (thorough 4) lines over 3 dates, 3 amounts and 5 payees", Gen: lines},
				{Name: "several", Rule: "2-3 statements of 7 kinds over 1-3 files", Gen: several},
				{Name: "amounts", Rule: "amounts of up to 30 digits in all written forms as line amounts and closing balances of 5 accounts with 0, 2 and 5 decimals", Gen: amounts},
				{Name: "days", Rule: "every day of 6 years in 8 forms of time and zone, forward and reverse", Gen: days},
				{Name: "payees", Rule: "36 payees with 37 memos", Gen: payees},
				{Name: "many", Rule: "11-64 lines over few days", Gen: many},
				{Name: "notes", Rule: "rule notes of 1-90 characters with payees of 12 lengths", Gen: notes},
				{Name: "bmo", Rule: "the invalid files of one bank with -bmo", Gen: bmo},
				{Name: "norules", Rule: "no rules file", Gen: norules},
			}
		},
	})
}
