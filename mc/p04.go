package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

// P04: running balances and balance assertions.

type p04post struct {
	acc    string
	amt    string
	assert int  // 0 none, 1 right, 2 wrong by the last place, 3 right but written shorter/longer, 4 sign wrong, 5 far off
	left   bool // the amount is left out (it is the one that balances the others)
}

type p04tx struct {
	date string
	ps   []p04post
}

type p04exp struct {
	tx, p         int // written order
	acc, date     string
	amt, bal, ass string // units printed; ass "" none
	warn          bool
}

// p04model fills in assertions and gives what should be observed, by written order.
func p04model(txs []p04tx, dec map[string]int) (rendered []Tx, exp []p04exp) {
	order := make([]int, len(txs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(i, j int) bool { return txs[order[i]].date < txs[order[j]].date })
	bal := map[string]*big.Int{}
	byPos := map[[2]int]p04exp{}
	asserted := map[[2]int]string{}
	for _, i := range order {
		for j, p := range txs[i].ps {
			d := dec[p.acc]
			if bal[p.acc] == nil {
				bal[p.acc] = new(big.Int)
			}
			bal[p.acc].Add(bal[p.acc], parseDec(p.amt, d))
			b := bal[p.acc]
			x := p04exp{tx: i, p: j, acc: p.acc, date: txs[i].date, amt: fmtDec(parseDec(p.amt, d), d), bal: fmtDec(b, d)}
			text := ""
			switch p.assert {
			case 1:
				text = fmtDec(b, d)
			case 2:
				text = fmtDec(new(big.Int).Add(b, big.NewInt(1)), d)
				x.warn = true
			case 3: // another way of writing the same number
				text = fmtDec(b, d)
				if d > 0 && strings.HasSuffix(text, "0") {
					text = strings.TrimSuffix(strings.TrimRight(text, "0"), ".")
				} else if d > 0 {
					text += "000"
				} else {
					text += ".0"
				}
			case 4:
				n := new(big.Int).Neg(b)
				text = fmtDec(n, d)
				x.warn = b.Sign() != 0
			case 5:
				text = fmtDec(new(big.Int).Sub(b, pow10i(d+3)), d)
				x.warn = true
			}
			if text != "" {
				x.ass = fmtDec(parseDec(text, d), d)
			}
			asserted[[2]int{i, j}] = text
			byPos[[2]int{i, j}] = x
		}
	}
	for i, t := range txs {
		r := Tx{Date: t.date, Desc: fmt.Sprint("n", i)}
		for j, p := range t.ps {
			com := "CAD"
			if dec[p.acc] == 0 {
				com = "YEN"
			} else if dec[p.acc] == 5 {
				com = "BND"
			}
			po := Post{Acc: p.acc, Amt: p.amt, Com: com}
			if s := asserted[[2]int{i, j}]; s != "" {
				po.Bal, po.BalCom = s, com
			}
			if p.left {
				po.Amt, po.Bal = "", ""
			}
			r.Ps = append(r.Ps, po)
			exp = append(exp, byPos[[2]int{i, j}])
		}
		rendered = append(rendered, r)
	}
	return
}

var p04dec = map[string]int{"A": 2, "B": 2, "A:Sub": 2, "Y": 0, "Z": 0, "N": 5, "O": 5}
var p04head = comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "YEN", Dec: 0}, Com{Id: "BND", Dec: 5})
var p04accs = accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "A:Sub", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}, Acc{Name: "Y", Com: "YEN"}, Acc{Name: "Z", Com: "YEN"}, Acc{Name: "N", Com: "BND"}, Acc{Name: "O", Com: "BND"})

// p04warnings compares the warnings given with those expected; loc gives the place of each transaction.
func p04warnings(e *Env, key, stderr string, exp []p04exp, loc func(tx int) string) {
	var ls []string
	for _, l := range nonEmptyLines(stderr) {
		ls = append(ls, l)
	}
	used := make([]bool, len(ls))
	for _, x := range exp {
		if !x.warn {
			continue
		}
		found := false
		for i, l := range ls {
			if !used[i] && hasToken(l, x.acc) && hasToken(l, x.date) && hasToken(l, x.bal) && hasToken(l, x.ass) && hasToken(l, loc(x.tx)) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			e.Fail("warning "+key, "no warning naming account %s, date %s, balance %s, assertion %s and place %s:\n%s\nledger %s", x.acc, x.date, x.bal, x.ass, loc(x.tx), stderr, key)
			return
		}
	}
	for i, l := range ls {
		if !used[i] {
			e.Fail("warning "+key, "warning without reason: %s\nledger %s", l, key)
			return
		}
	}
}

// hasToken: s contains tok not embedded in a longer word or number.
func hasToken(s, tok string) bool {
	isWord := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '-' || b == '_'
	}
	for from := 0; ; {
		i := strings.Index(s[from:], tok)
		if i < 0 {
			return false
		}
		i += from
		j := i + len(tok)
		before := i == 0 || !(isWord(s[i-1]) || (s[i-1] == '.' && i > 1 && isWord(s[i-2]) && tok[0] >= '0' && tok[0] <= '9'))
		after := j == len(s) || !isWord(s[j]) && !(s[j] == '.' && j+1 < len(s) && isWord(s[j+1])) && !(s[j] == ':' && j+1 < len(s) && s[j+1] >= 'A' && s[j+1] <= 'Z')
		if before && after {
			return true
		}
		from = i + 1
	}
}

func p04lib(txs []p04tx) *Case {
	rendered, exp := p04model(txs, p04dec)
	text := txsText(rendered...)
	return &Case{Key: text, Run: func(e *Env) {
		head := p04head + p04accs
		full := head + text
		line := make([]int, len(rendered))
		n := lines(head)
		for i, t := range rendered {
			line[i] = n + 1
			n += lines(t.text())
		}
		stderr, out, failed := e.lib(func() { loadText(full) })
		if failed {
			e.Fail("load "+text, "ledger refused (%s):\n%s", out, text)
			return
		}
		e.Outcome(stderr)
		p04warnings(e, text, stderr, exp, func(tx int) string { return fmt.Sprintf("t.coin:%d", line[tx]) })
		// amounts and balances, by place
		at := map[string]*coin.Transaction{}
		for _, t := range coin.Transactions {
			at[t.Location()] = t
		}
		final := map[string]*big.Int{}
		count := map[string]int{}
		for _, x := range exp {
			t := at[fmt.Sprintf("t.coin:%d", line[x.tx])]
			if t == nil || len(t.Postings) != len(txs[x.tx].ps) {
				e.Fail("lost "+text, "transaction at line %d lost:\n%s", line[x.tx], text)
				return
			}
			p := t.Postings[x.p]
			want := x.bal
			if x.ass != "" {
				want = x.ass
			}
			e.State(fmt.Sprint(x))
			if p.Account.FullName != x.acc || p.Quantity.String() != x.amt || p.Balance.String() != want || p.BalanceAsserted != (x.ass != "") || t.Posted.Format("2006/01/02") != x.date {
				e.Fail("balance "+text, "posting of %s on %s is %v with balance %v (asserted %v), should be %s with balance %s\n%s", x.acc, x.date, p.Quantity, p.Balance, p.BalanceAsserted, x.amt, want, text)
			}
			if final[x.acc] == nil {
				final[x.acc] = new(big.Int)
			}
			final[x.acc].Add(final[x.acc], parseDec(x.amt, p04dec[x.acc]))
			count[x.acc]++
		}
		for _, a := range sortedKeys(final) {
			acc := coin.AccountsByName[a]
			if acc.Balance().String() != fmtDec(final[a], p04dec[a]) {
				e.Fail("final "+text, "final balance of %s is %v, should be %s\n%s", a, acc.Balance(), fmtDec(final[a], p04dec[a]), text)
			}
			if len(acc.Postings) != count[a] {
				e.Fail("count "+text, "account %s has %d postings, should have %d\n%s", a, len(acc.Postings), count[a], text)
			}
			for i := 1; i < len(acc.Postings); i++ {
				if acc.Postings[i].Transaction.Posted.Before(acc.Postings[i-1].Transaction.Posted) {
					e.Fail("order "+text, "postings of %s are not in date order\n%s", a, text)
				}
			}
		}
	}}
}

// p04cli spreads the transactions over files and runs reports.
func p04cli(txs []p04tx, fileOf []int) *Case {
	files := []string{"a.coin", "b.coin", "c.coin"}
	// files are read in order of name: written order is by file
	var order []int
	for f := range files {
		for i := range txs {
			if fileOf[i] == f {
				order = append(order, i)
			}
		}
	}
	var wr []p04tx
	for _, i := range order {
		wr = append(wr, txs[i])
	}
	rendered, exp := p04model(wr, p04dec)
	content := Files{"commodities.coin": p04head, "accounts.coin": p04accs, "prices.coin": p04prices}
	locs := make([]string, len(wr))
	for k, i := range order {
		fn := files[fileOf[i]]
		locs[k] = fmt.Sprintf("%s:%d", fn, lines(content[fn])+1)
		content[fn] += rendered[k].text()
	}
	plain := Files{"commodities.coin": p04head, "accounts.coin": p04accs, "prices.coin": p04prices}
	for k, i := range order {
		t := rendered[k]
		t.Ps = append([]Post{}, t.Ps...)
		for j := range t.Ps {
			t.Ps[j].Bal = ""
		}
		plain[files[fileOf[i]]] += t.text()
	}
	return &Case{Key: mustJSON(content), Run: func(e *Env) {
		db, db0 := e.Sub("db", content), e.Sub("db0", plain)
		for _, args := range [][]string{{"balance", "-z"}, {"register", "A"}, {"stats"}, {"register", "-m", "-r", "Root"}} {
			r, r0 := e.Run("coin", db, args...), e.Run("coin", db0, args...)
			if r.Code != 0 || r0.Code != 0 {
				e.Fail("exit "+mustJSON(content), "coin %v exits with %d on failed assertions: %s", args, r.Code, r.Err)
				continue
			}
			p04warnings(e, mustJSON(content), strings.ReplaceAll(r.Err, db+"/", ""), exp, func(tx int) string { return locs[tx] })
			if r0.Err != "" {
				e.Fail("plain "+mustJSON(content), "coin %v warns without assertions: %s", args, r0.Err)
			}
			norm := func(s string) string {
				return strings.Join(strings.Fields(strings.ReplaceAll(strings.ReplaceAll(s, "=", " "), "*", " ")), " ")
			}
			if args[0] != "register" || len(args) > 2 { // the plain register marks assertions
				norm = func(s string) string { return s }
			}
			if norm(r.Out) != norm(r0.Out) {
				e.Fail("report "+mustJSON(content), "coin %v differs with and without assertions:\n%s\n%s", args, r.Out, r0.Out)
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P04", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one history (written order of dated postings with assertions); states are distinct postings with their balances",
		Assumptions: []string{"assertions are written in the commodity of the account"},
		Spaces: func(tier string) []Space {
			dates := []string{"2020/03/10", "2019/12/31", "2020/03/11"}
			amts := []string{"5.00", "-7.25", "0.01", "2.24", "-0.00", "100"}
			n := 5
			hist := func(c *Chooser) *Case {
				k := 1 + c.N(n)
				var txs []p04tx
				for i := 0; i < k; i++ {
					na := 3
					if k <= 3 {
						na = 6
					}
					txs = append(txs, p04tx{dates[c.N(3)], []p04post{{acc: "A", amt: amts[i], assert: c.N(na)}, {acc: "B", amt: neg(amts[i]), assert: 0}}})
				}
				return p04lib(txs)
			}
			both := func(c *Chooser) *Case {
				k := 1 + c.N(3)
				var txs []p04tx
				for i := 0; i < k; i++ {
					a, b := "A", "B"
					if c.N(2) == 1 {
						a, b = b, a
					}
					txs = append(txs, p04tx{dates[c.N(3)], []p04post{{acc: a, amt: amts[i], assert: c.N(3)}, {acc: b, amt: neg(amts[i]), assert: 2 * c.N(2)}}})
				}
				return p04lib(txs)
			}
			left := func(c *Chooser) *Case {
				// the amount of either posting left out, or neither
				k := 2 + c.N(n-3)
				var txs []p04tx
				for i := 0; i < k; i++ {
					t := p04tx{date: dates[c.N(2)]}
					a, b := p04post{acc: "A", amt: amts[i]}, p04post{acc: "B", amt: neg(amts[i])}
					switch c.N(5) {
					case 0:
						a.left = true
						t.ps = []p04post{a, b}
					case 1:
						b.left = true
						t.ps = []p04post{a, b}
					case 2:
						b.left = true
						t.ps = []p04post{b, a}
					case 3:
						a.assert = 1
						t.ps = []p04post{a, b}
					case 4:
						b.assert, a.left = 2, true
						t.ps = []p04post{a, b}
					}
					txs = append(txs, t)
				}
				return p04lib(txs)
			}
			twice := func(c *Chooser) *Case {
				// several postings to one account in one transaction; children do not count
				var txs []p04tx
				k := 1 + c.N(2)
				for i := 0; i < k; i++ {
					txs = append(txs, p04tx{dates[c.N(3)], []p04post{{acc: "A", amt: "1.10", assert: c.N(3)}, {acc: []string{"A:Sub", "A"}[c.N(2)], amt: "2.00", assert: c.N(3)}, {acc: "A", amt: "-4.00", assert: c.N(3)}, {acc: "B", amt: "0.90", assert: 0}}})
				}
				return p04lib(txs)
			}
			decs := func(c *Chooser) *Case {
				pair := [][2]string{{"Y", "Z"}, {"N", "O"}}[c.N(2)]
				am := [][]string{{"7", "-9", "1"}, {"0.00001", "-1.5", "3.12345"}}[b2i(pair[0] == "N")]
				k := 1 + c.N(3)
				var txs []p04tx
				for i := 0; i < k; i++ {
					txs = append(txs, p04tx{dates[c.N(3)], []p04post{{acc: pair[0], amt: am[i], assert: c.N(6)}, {acc: pair[1], amt: neg(am[i]), assert: 0}}})
				}
				return p04lib(txs)
			}
			long := func(c *Chooser) *Case {
				k := []int{12, 13, 16, 17, 25, 40}[c.N(6)]
				pat := c.N(7)
				at := c.N(k)
				kind := 1 + c.N(2)
				var txs []p04tx
				for i := 0; i < k; i++ {
					d := 0
					switch pat {
					case 0:
						d = i
					case 1:
						d = k - i
					case 2:
						d = i % 2
					case 3:
						d = 0
					case 4:
						d = (i * 7) % 5
					case 5:
						d = (i * 11) % k
					case 6:
						d = i / 3
						if i%3 == 2 {
							d = 0
						}
					}
					as := 0
					if i == at {
						as = kind
					} else if i == (at*5+3)%k {
						as = 1
					}
					txs = append(txs, p04tx{dateStr(ymdDate(2020, 2, 20).AddDate(0, 0, d)), []p04post{{acc: "A", amt: cents(int64(i*i*3 - 200)), assert: as}, {acc: "B", amt: cents(-int64(i*i*3 - 200)), assert: 0}}})
				}
				return p04lib(txs)
			}
			cli := func(c *Chooser) *Case {
				k := 1 + c.N(3)
				var txs []p04tx
				var fo []int
				for i := 0; i < k; i++ {
					txs = append(txs, p04tx{dates[c.N(3)], []p04post{{acc: "A", amt: amts[i], assert: c.N(3)}, {acc: "B", amt: neg(amts[i]), assert: 0}}})
					fo = append(fo, c.N(2))
				}
				if k == 3 && tier != "thorough" && txs[0].ps[0].assert == 0 {
					return nil
				}
				return p04cli(txs, fo)
			}
			// asserted in another commodity than the account's: the number has to be the same
			foreign := func(c *Chooser) *Case {
				accs := []struct {
					acc, other, com string
					dec             int
					amts            []string
				}{{"A", "B", "CAD", 2, []string{"5.50", "-0.01", "7.00"}}, {"Y", "Z", "YEN", 0, []string{"5", "-7", "100"}}, {"N", "O", "BND", 5, []string{"5.50001", "-0.00999", "2.00000"}}}
				x := accs[c.N(3)]
				as := accs[c.N(3)]
				if x.acc == as.acc {
					return nil
				}
				k := 1 + c.N(2)
				days := []string{"2019/12/31", "2020/01/01"}
				at := c.N(k)
				off := c.N(5) - 2
				rot := c.N(3)
				return &Case{Key: fmt.Sprint("foreign ", x.acc, as.acc, k, at, off, rot), Run: func(e *Env) {
					text := p04head + p04accs
					bal := new(big.Int)
					warned := false
					for i := 0; i < k; i++ {
						amt := x.amts[(i+rot)%3]
						bal.Add(bal, parseDec(amt, x.dec))
						text += days[i] + " t\n  " + x.acc + "  " + amt + " " + x.com
						if i == at {
							// the balance in the asserted commodity, cut or filled up, and some units more or less
							v := parseDec(fmtDec(bal, x.dec), as.dec)
							v.Add(v, big.NewInt(int64(off)))
							num := fmtDec(v, as.dec)
							text += " = " + num + " " + as.com
							p, q := new(big.Rat), new(big.Rat)
							p.SetString(num)
							q.SetString(fmtDec(bal, x.dec))
							warned = p.Cmp(q) != 0
						}
						text += "\n  " + x.other + "\n\n"
					}
					stderr, out, failed := e.lib(func() { loadText(text) })
					key := fmt.Sprint("foreign ", x.acc, as.acc, k, at, off, rot)
					e.State(key)
					e.Outcome(fmt.Sprint(warned, len(stderr) > 0))
					if failed {
						e.Fail(key, "ledger refused: %s %s\n%s", out, stderr, text)
						return
					}
					if warned && !(hasToken(stderr, x.acc) && hasToken(stderr, days[at])) {
						e.Fail(key, "a wrong balance asserted in another commodity is not told of\n%s\n%s", stderr, text)
					}
				}}
			}
			if tier == "thorough" {
				n = 6
			}
			return []Space{
				{Name: "histories", Rule: "every history of up to n dated postings over 3 dates, each without, with a right or with a wrong assertion (up to 3 postings: six kinds of assertions)", Gen: hist},
				{Name: "both", Rule: "up to 3 transactions with either account first and assertions on both postings", Gen: both},
				{Name: "left", Rule: "2..n-2 transactions over 2 dates with the amount of either posting left out or not, with assertions on the others", Gen: left},
				{Name: "twice", Rule: "up to 2 transactions with several postings to one account and its child, assertions on each", Gen: twice},
				{Name: "decimals", Rule: "0- and 5-decimal commodities with six kinds of assertions", Gen: decs},
				{Name: "foreign", Rule: "balances asserted in a commodity of fewer or more decimals than the account's, up to 2 units off: told of unless the numbers are the same", Gen: foreign},
				{Name: "long", Rule: "histories of 12-40 postings in 7 date patterns with an assertion, right or wrong, at every place", Gen: long},
				{Name: "commands", Rule: "up to 3 transactions spread over 2 files, reports with and without the assertions", Gen: cli},
			}
		},
	})
}

func neg(s string) string {
	if strings.HasPrefix(s, "-") {
		return s[1:]
	}
	return "-" + s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const p04prices = "P 2020/01/01 YEN 0.01 CAD\nP 2020/01/01 BND 3.00 CAD\n"
