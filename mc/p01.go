package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mkobetic/coin"
)

// P01: only balanced transactions are admitted.

type p01post struct {
	acc int // index into p01accs
	amt string
	bal string // balance asserted, or ""; never matters for admission
}

// accounts: 0,1,2 in CAD (2 decimals), 3,4 in BND (5 decimals), 5 in YEN (0 decimals)
var p01accs = []struct {
	name, com string
	dec       int
}{{"A:One", "CAD", 2}, {"A:Two", "CAD", 2}, {"B", "CAD", 2}, {"C:Bond", "BND", 5}, {"C:Bond2", "BND", 5}, {"D", "YEN", 0}}

var p01head = comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "BND", Dec: 5}, Com{Id: "YEN", Dec: 0})
var p01accounts = func() string {
	s := ""
	for _, a := range p01accs {
		s += Acc{Name: a.name, Com: a.com}.text()
	}
	return s
}()

// p01model decides admission: ok, and the resulting amounts in units of the commodity.
func p01model(ps []p01post) (ok bool, res []*big.Int) {
	coms := map[string]bool{}
	missing := -1
	nmissing := 0
	sum := new(big.Int)
	for i, p := range ps {
		coms[p01accs[p.acc].com] = true
		if p.amt == "" {
			missing = i
			nmissing++
			res = append(res, nil)
			continue
		}
		v := parseDec(p.amt, p01accs[p.acc].dec)
		sum.Add(sum, v)
		res = append(res, v)
	}
	if len(coms) > 1 {
		return nmissing == 0, res
	}
	if nmissing > 1 {
		return false, nil
	}
	if nmissing == 1 {
		res[missing] = new(big.Int).Neg(sum)
		return true, res
	}
	return sum.Sign() == 0, res
}

func p01tx(date, desc string, ps []p01post) Tx {
	t := Tx{Date: date, Desc: desc}
	for _, p := range ps {
		po := Post{Acc: p01accs[p.acc].name, Amt: p.amt, Com: p01accs[p.acc].com}
		if p.bal != "" && p.amt != "" {
			po.Bal, po.BalCom = p.bal, po.Com
		}
		t.Ps = append(t.Ps, po)
	}
	return t
}

// p01prices makes every commodity convertible to every other: whether amounts are in balance
// does not depend on prices.
const p01prices = "P 2020/01/01 CAD 2.00000 BND\n\nP 2020/01/01 BND 0.50 CAD\n\nP 2020/01/01 YEN 0.50 CAD\n\nP 2020/01/01 CAD 2 YEN\n\nP 2020/01/01 BND 1 YEN\n\nP 2020/01/01 YEN 1.00000 BND\n\n"

func p01lib(ps []p01post, prices string) *Case {
	text := prices + p01tx("2021/03/04", "x", ps).text()
	return &Case{Key: text, Run: func(e *Env) {
		ok, res := p01model(ps)
		e.State(fmt.Sprint(ok, res))
		_, out, failed := e.lib(func() { loadText(p01head + p01accounts + text) })
		e.Outcome(fmt.Sprint(failed))
		if failed == ok {
			e.Fail("admission "+text, "transaction should be accepted: %v, but loading it: failed=%v %s\n%s", ok, failed, out, text)
			return
		}
		if !ok {
			return
		}
		if len(coin.Transactions) != 1 || len(coin.Transactions[0].Postings) != len(ps) {
			e.Fail("postings "+text, "postings lost or invented: %s", text)
			return
		}
		for i, p := range coin.Transactions[0].Postings {
			a := p01accs[ps[i].acc]
			if p.Account.FullName != a.name || p.Quantity.String() != fmtDec(res[i], a.dec) || p.Quantity.Commodity.Id != a.com {
				e.Fail("amount "+text, "posting %d is %s %s %s, should be %s %s %s\n%s", i, p.Account.FullName, p.Quantity, p.Quantity.Commodity.Id, a.name, fmtDec(res[i], a.dec), a.com, text)
			}
		}
	}}
}

var p01amts = [][]string{
	{"", "1.00", "-1.00", "0.01", "-0.99", "0.00", "2", "-0.01"},
	{"", "1.00000", "-1.00000", "0.00001", "-0.99999"},
	{"", "1", "-1", "3", "-2"},
}

func p01alphabet(com string) []string {
	switch com {
	case "BND":
		return p01amts[1]
	case "YEN":
		return p01amts[2]
	}
	return p01amts[0]
}

// p01cli runs whole ledgers through the commands: n transactions over files, one of them possibly bad.
func p01cli(files []string, txs [][]p01post, fileOf []int, layout int, prices string) *Case {
	type place struct {
		file string
		line int
	}
	content := Files{"commodities.coin": p01head, "accounts.coin": p01accounts}
	if prices != "" {
		content["prices.coin"] = prices
	}
	var places []place
	var bad []place
	for i, ps := range txs {
		fn := files[fileOf[i]]
		if layout == 1 {
			content[fn] += "; a comment\n\n\n"
		}
		pl := place{fn, lines(content[fn]) + 1}
		t := p01tx(fmt.Sprintf("2021/0%d/04", 1+(i*5)%9), fmt.Sprintf("payee%d", i), ps)
		if layout == 2 {
			t.Notes = []string{"long note", "another"}
			t.Ps[0].Notes = []string{"posting note"}
		}
		content[fn] += t.text()
		places = append(places, pl)
		if ok, _ := p01model(ps); !ok {
			bad = append(bad, pl)
		}
	}
	return &Case{Key: mustJSON(content), Run: func(e *Env) {
		db := e.Sub("db", content)
		for _, args := range [][]string{{"balance", "-z"}, {"register", "-r", "Root"}, {"stats"}, {"register", "-r", "-m", "Root"}, {"tags"}} {
			r := e.Run("coin", db, args...)
			e.Outcome(fmt.Sprint(args, r.Code))
			cmd := strings.Join(args, " ")
			if len(bad) == 0 {
				if r.Code != 0 && !strings.Contains(r.Err, "cannot") {
					e.Fail("refused "+mustJSON(content), "coin %s refuses a balanced ledger (exit %d): %s", cmd, r.Code, clip(r.Err, 600))
				}
				continue
			}
			if r.Code == 0 || r.Code == -1 {
				e.Fail("admitted "+mustJSON(content), "coin %s exits with %d on a ledger with a rejected transaction", cmd, r.Code)
				continue
			}
			named := false
			for _, b := range bad {
				loc := fmt.Sprintf("%s:%d", b.file, b.line)
				for _, l := range strings.Split(r.Err, "\n") {
					if i := strings.Index(l, loc); i >= 0 && (i+len(loc) == len(l) || l[i+len(loc)] < '0' || l[i+len(loc)] > '9') {
						named = true
					}
				}
			}
			if !named {
				e.Fail("location "+mustJSON(content), "coin %s does not name the place of a rejected transaction (%v): %s", cmd, bad, clip(r.Err, 600))
			}
			if strings.TrimSpace(r.Out) != "" {
				e.Fail("report "+mustJSON(content), "coin %s prints a report for a rejected ledger: %s", cmd, clip(r.Out, 600))
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P01", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one transaction (library) or one ledger directory (commands); non-trivial: distinct rendered text",
		Assumptions: []string{"postings are written in the commodity of their account"},
		Spaces: func(tier string) []Space {
			n := 3
			if tier == "thorough" {
				n = 4
			}
			pricesOf := []string{"", p01prices}
			gen := func(lo, hi int, accs []int) func(c *Chooser) *Case {
				return func(c *Chooser) *Case {
					prices := ""
					if lo > 1 {
						prices = pricesOf[c.N(2)]
					}
					k := lo + c.N(hi-lo+1)
					ps := make([]p01post, k)
					for i := range ps {
						ps[i].acc = accs[c.N(len(accs))]
						al := p01alphabet(p01accs[ps[i].acc].com)
						ps[i].amt = al[c.N(len(al))]
					}
					return p01lib(ps, prices)
				}
			}
			long := func(c *Chooser) *Case {
				// long transactions: k postings, sum off by a bit or not, one or two left out at any place
				k := 2 + c.N(40)
				off := []string{"0.00", "0.01", "-0.01", "1000000.00", "92233720368547758.07", "-92233720368547758.07"}[c.N(6)]
				big1 := []string{"0.10", "92233720368547758.07", "-33333333333333333.33"}[c.N(3)]
				ps := make([]p01post, 0, k)
				sum := parseDec(off, 2)
				for i := 0; i < k-1; i++ {
					v := parseDec(big1, 2)
					v.Sub(v, big.NewInt(int64(i*37)))
					if i%2 == 1 {
						v.Neg(v)
					}
					sum.Add(sum, v)
					ps = append(ps, p01post{acc: i % 3, amt: fmtDec(v, 2)})
				}
				last := new(big.Int).Neg(sum)
				if last.CmpAbs(parseDec("92233720368547758.07", 2)) > 0 {
					return nil // cannot be written
				}
				ps = append(ps, p01post{acc: k % 3, amt: fmtDec(last, 2)})
				switch c.N(3) {
				case 1:
					ps[(k*7)%k].amt = ""
				case 2:
					ps[k/2].amt = ""
					ps[k-1].amt = ""
				}
				return p01lib(ps, "")
			}
			// command-level: ledgers of up to 4 transactions over 2 files
			txal := [][]p01post{
				{{acc: 0, amt: "1.00"}, {acc: 1, amt: "-1.00"}},
				{{acc: 0, amt: "1.00"}, {acc: 1, amt: "-0.99"}},
				{{acc: 0, amt: "5"}, {acc: 1, amt: ""}, {acc: 2, amt: "-3.50"}},
				{{acc: 0, amt: "1"}, {acc: 1, amt: ""}, {acc: 2, amt: ""}},
				{{acc: 0, amt: "-3.00"}, {acc: 3, amt: "1.5"}},
				{{acc: 0, amt: "-3.00"}, {acc: 3, amt: ""}},
				{{acc: 3, amt: "1.00001"}, {acc: 4, amt: "-1.00000"}},
				{{acc: 3, amt: "1.00001"}, {acc: 4, amt: "-1.00001"}},
				{{acc: 0, amt: "0.00", bal: "1.00"}, {acc: 1, amt: "1.00"}},
				{{acc: 0, amt: "1.00", bal: "1.00"}},
				{{acc: 0, amt: "1.00", bal: "7.00"}, {acc: 1, amt: "", bal: ""}},
				{{acc: 5, amt: "7"}, {acc: 0, amt: "-1.00"}, {acc: 5, amt: ""}},
			}
			m := 2
			if tier == "thorough" {
				m = 3
			}
			cli := func(c *Chooser) *Case {
				k := 1 + c.N(m)
				var txs [][]p01post
				var fo []int
				for i := 0; i < k; i++ {
					txs = append(txs, txal[c.N(len(txal))])
					fo = append(fo, c.N(2))
				}
				return p01cli([]string{"a.coin", "2021.coin"}, txs, fo, c.N(3), pricesOf[c.N(2)])
			}
			asserted := func(c *Chooser) *Case {
				prices := pricesOf[c.N(2)]
				ps := make([]p01post, 1+c.N(3))
				for i := range ps {
					ps[i].acc = []int{0, 1, 3}[c.N(3)]
					ps[i].amt = []string{"1.00", "", "0.00", "-1.00", "0"}[c.N(n+1)]
					if ps[i].amt != "" {
						ps[i].bal = []string{"", "0.00", "1.00", "-1.00"}[c.N(n)]
					}
				}
				return p01lib(ps, prices)
			}
			return []Space{
				{Name: "asserted", Rule: "transactions of 1..3 postings with and without asserted balances, zero amounts among them", Gen: asserted},
				{Name: "commands", Rule: "ledgers of up to k transactions from 9 kinds (balanced, unbalanced, missing amounts, mixed commodities) in every order over two files and three layouts, without prices and with prices that make every commodity convertible, through five commands", Gen: cli},
				{Name: "cad", Rule: "every transaction of 1..n postings on three accounts of one commodity with every amount of the alphabet (missing included)", Gen: gen(1, n, []int{0, 1, 2})},
				{Name: "other-decimals", Rule: "same for 5-decimal and 0-decimal commodities", Gen: gen(1, n+1, []int{3, 5})},
				{Name: "mixed", Rule: "same over accounts of three commodities, without and with prices between all of them", Gen: gen(2, 3, []int{0, 1, 3, 5})},
				{Name: "long", Rule: "transactions of up to 41 postings with huge amounts, off by a bit or not, 0-2 missing", Gen: long},
			}
		},
	})
}
