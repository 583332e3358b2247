package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mkobetic/coin"
)

// P03: conversion uses the latest price and follows chains.

// p03coms: AAA 2 decimals, BBB 5, CCC 0, DDD 3, ...
var p03dec = []int{2, 5, 0, 3, 1, 4, 2, 2}

func p03id(i int) string { return strings.Repeat(string(rune('A'+i)), 3) }

func p03head(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += Com{Id: p03id(i), Dec: p03dec[i], Default: i == 0}.text()
	}
	return s
}

type p03price struct {
	from, to int
	date     string
	val      string
}

func (p p03price) pri() Pri { return Pri{p.date, p03id(p.from), p03id(p.to), p.val} }

// p03values: a value per edge, distinct and awkward.
func p03value(from, to int) string {
	v := big.NewInt(int64(1000003*(from+1) + 7919*(to+3)*(to+1)))
	s := fmtDec(v, p03dec[to]+4)
	return strings.TrimSuffix(s[:len(s)-4], ".")
}

// p03model: all results reachable by simple chains; direct only if there is a direct price.
func p03model(n int, latest map[[2]int]*big.Int, amt *big.Int, from, to int) []*big.Int {
	if from == to {
		return []*big.Int{amt}
	}
	step := func(a *big.Int, f, t int) *big.Int { return mulTrunc(latest[[2]int{f, t}], a, p03dec[f]) }
	if latest[[2]int{from, to}] != nil {
		return []*big.Int{step(amt, from, to)}
	}
	var out []*big.Int
	var dfs func(a *big.Int, at int, seen []bool)
	dfs = func(a *big.Int, at int, seen []bool) {
		if at == to {
			out = append(out, a)
			return
		}
		for k := 0; k < n; k++ {
			if !seen[k] && latest[[2]int{at, k}] != nil {
				seen[k] = true
				dfs(step(a, at, k), k, seen)
				seen[k] = false
			}
		}
	}
	seen := make([]bool, n)
	seen[from] = true
	dfs(amt, from, seen)
	return out
}

func p03latest(ps []p03price) map[[2]int]*big.Int {
	m := map[[2]int]*big.Int{}
	at := map[[2]int]string{}
	for _, p := range ps {
		k := [2]int{p.from, p.to}
		if p.date > at[k] {
			at[k], m[k] = p.date, parseDec(p.val, p03dec[p.to])
		}
	}
	return m
}

// p03check loads prices in the written order and checks every conversion.
func p03check(e *Env, key string, n int, ps []p03price, amts []string) {
	text := p03head(n)
	for _, p := range ps {
		text += p.pri().text()
	}
	_, out, failed := e.lib(func() { loadText(text) })
	if failed {
		e.Fail("load "+key, "prices refused: %s\n%s", out, text)
		return
	}
	latest := p03latest(ps)
	for from := 0; from < n; from++ {
		for to := 0; to < n; to++ {
			for _, at := range amts {
				amt := parseDec(at, p03dec[from])
				want := p03model(n, latest, new(big.Int).Set(amt), from, to)
				cf, ct := coin.Commodities[p03id(from)], coin.Commodities[p03id(to)]
				a := coin.NewAmount(new(big.Int).Set(amt), cf)
				var got *coin.Amount
				var err error
				_, out, failed := e.libKeep(func() { got, err = ct.Convert(a, cf) })
				k := fmt.Sprintf("%s: %s %s to %s", key, fmtDec(amt, p03dec[from]), p03id(from), p03id(to))
				e.State(fmt.Sprint(k, want))
				switch {
				case failed:
					e.Fail("convert "+k, "conversion breaks: %s: %s\n%s", k, out, text)
				case err != nil && len(want) > 0:
					e.Fail("refused "+k, "conversion refused although a chain exists: %s: %v\n%s", k, err, text)
				case err == nil && len(want) == 0:
					e.Fail("invented "+k, "conversion without a chain gives %v: %s\n%s", got, k, text)
				case err == nil:
					ok := false
					for _, w := range want {
						ok = ok || got.Int.Cmp(w) == 0
					}
					if !ok || got.Commodity != ct {
						e.Fail("value "+k, "conversion gives %v, should be one of %v (in units): %s\n%s", got, want, k, text)
					}
				}
				if a.Int.Cmp(amt) != 0 {
					e.Fail("operand "+k, "conversion changes the amount converted: %s", k)
				}
				// adding an amount of another commodity is adding its conversion
				if from != to {
					base := coin.NewAmount(big.NewInt(1), ct)
					_, out, failed = e.libKeep(func() { err = base.AddIn(a) })
					bad := failed || (err == nil) != (len(want) > 0)
					if !bad && err == nil {
						bad = true
						for _, w := range want {
							bad = bad && base.Int.Cmp(new(big.Int).Add(w, big.NewInt(1))) != 0
						}
					}
					if bad {
						e.Fail("add "+k, "adding %s to a unit: %s, error %v, result %v; conversions possible: %v\n%s", k, out, err, base, want, text)
					}
				}
			}
		}
	}
}

func p03pairs(n int) [][2]int {
	var out [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				out = append(out, [2]int{i, j})
			}
		}
	}
	return out
}

var p03amts = []string{"0", "1", "-1", "12.34567", "-987654.32101", "100"}

func permute(n int, f func([]int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for k := 0; k < n; k++ {
			if !used[k] {
				used[k] = true
				p[i] = k
				rec(i + 1)
				used[k] = false
			}
		}
	}
	rec(0)
}

func p03dated(k int) p03price {
	// k-th price of AAA in BBB... ordered by date across months and years
	d := ymdDate(2019, 11, 27).AddDate(0, k*5, k*11%28)
	return p03price{1, 0, dateStr(d), fmtDec(big.NewInt(int64(1000+k*137)), 2)}
}

func init() {
	register(&Prop{
		ID: "P03", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is a batch of price graphs or orders; states are distinct (prices, amount, source, target) conversions",
		Assumptions: []string{"two prices of one pair never share a date", "with several chains and no direct price the result of any chain is right"},
		Spaces: func(tier string) []Space {
			pairs4 := p03pairs(4)
			graphs := func(c *Chooser) *Case {
				// 4096 graphs over 4 commodities, 64 batches
				hi := c.N(64)
				return &Case{Key: fmt.Sprint("graphs ", hi), Run: func(e *Env) {
					for lo := 0; lo < 64; lo++ {
						g := hi*64 + lo
						var ps []p03price
						for b, pr := range pairs4 {
							if g>>b&1 == 1 {
								ps = append(ps, p03price{pr[0], pr[1], "2020/01/01", p03value(pr[0], pr[1])})
							}
						}
						amts := []string{"12.34567", "-987654.32101"}
						if tier == "thorough" {
							amts = p03amts
						}
						p03check(e, fmt.Sprintf("graph %012b", g), 4, ps, amts)
					}
				}}
			}
			chains := func(c *Chooser) *Case {
				// longer chains: n commodities in a line, ring or with a dead end, edges as given by a mask
				n := 3 + c.N(5)
				shape := c.N(5)
				rev := c.Flag()
				var ps []p03price
				add := func(f, t int) {
					if rev {
						f, t = t, f
					}
					ps = append(ps, p03price{f, t, "2020/01/01", p03value(f, t)})
				}
				for i := 0; i+1 < n; i++ {
					if shape == 2 && i == n/2 {
						continue // broken chain
					}
					add(i, i+1)
				}
				switch shape {
				case 1:
					add(n-1, 0)
				case 3:
					for i := 1; i+1 < n; i++ {
						add(i, 0) // every element leads back
					}
				case 4:
					for i := 0; i+1 < n; i++ {
						add(i+1, i) // both directions
					}
				}
				// older prices of one link or of all of them, written before, after or around
				k, mode := c.N(len(ps)+1), c.N(3)
				if len(ps) == 0 && mode > 0 {
					return nil
				}
				var all []p03price
				for i, p := range ps {
					older := p
					older.date, older.val = "2019/10/01", p03value(p.to+2, p.to)
					oldest := p
					oldest.date, oldest.val = "2018/11/30", p03value(p.to+1, p.to)
					switch {
					case i != k && k < len(ps):
						all = append(all, p)
					case mode == 0:
						all = append(all, older, p)
					case mode == 1:
						all = append(all, p, oldest, older)
					default:
						all = append(all, oldest, p, older)
					}
				}
				amts := p03amts
				if tier != "thorough" {
					amts = []string{"12.34567", "-987654.32101"}
				}
				key := fmt.Sprint("chain ", n, shape, rev, k, mode)
				return &Case{Key: key, Run: func(e *Env) { p03check(e, key, n, all, amts) }}
			}
			maxPerm := 6
			if tier == "thorough" {
				maxPerm = 7
			}
			orders := func(c *Chooser) *Case {
				n := 1 + c.N(maxPerm)
				first := c.N(n)
				return &Case{Key: fmt.Sprint("orders ", n, first), Run: func(e *Env) {
					permute(n, func(p []int) {
						if p[0] != first {
							return
						}
						var ps []p03price
						for _, k := range p {
							ps = append(ps, p03dated(k))
						}
						p03check(e, fmt.Sprint("order ", p), 2, ps, []string{"3.00007", "-250"})
					})
				}}
			}
			long := func(c *Chooser) *Case {
				n := 8 + c.N(13)
				i, j := c.N(n), c.N(n)
				mode := c.N(3)
				if mode == 0 && i > j {
					return nil
				}
				return &Case{Key: fmt.Sprint("long ", n, i, j, mode), Run: func(e *Env) {
					p := make([]int, n)
					for k := range p {
						switch mode {
						case 1:
							p[k] = n - 1 - k
						default:
							p[k] = k
						}
					}
					if mode == 2 { // rotation by i, swap with j
						for k := range p {
							p[k] = (k + i) % n
						}
						p[0], p[j] = p[j], p[0]
					} else {
						p[i], p[j] = p[j], p[i]
					}
					var ps []p03price
					for _, k := range p {
						ps = append(ps, p03dated(k))
					}
					p03check(e, fmt.Sprint("order ", p), 2, ps, []string{"-41.5"})
				}}
			}
			several := func(c *Chooser) *Case {
				// prices of two commodities in two currencies interleaved, out of order, in a chain
				rot, swap := c.N(8), c.N(8)
				var ps []p03price
				for k := 0; k < 8; k++ {
					q := p03dated(k)
					pr := [][2]int{{1, 0}, {1, 2}, {3, 1}, {2, 0}}[k%4]
					q.from, q.to = pr[0], pr[1]
					q.val = fmtDec(big.NewInt(int64(300+k*77)), p03dec[q.to])
					ps = append(ps, q)
				}
				ps = append(ps[rot:], ps[:rot]...)
				ps[0], ps[swap] = ps[swap], ps[0]
				return &Case{Key: fmt.Sprint("several ", rot, swap), Run: func(e *Env) { p03check(e, fmt.Sprint("several ", rot, swap), 4, ps, p03amts) }}
			}
			cli := func(c *Chooser) *Case {
				// a parent account in AAA with children in other commodities: the balance report converts
				g := c.N(64)
				p3 := p03pairs(3)
				two := c.N(2) == 1
				amts := [][2]string{{"7.5", "-3"}, {"-0.00001", "0"}, {"-123.45678", "99999"}}[c.N(3)]
				return &Case{Key: fmt.Sprint("report ", g, two, amts), Run: func(e *Env) {
					var ps []p03price
					for b, pr := range p3 {
						if g>>b&1 == 1 {
							ps = append(ps, p03price{pr[0], pr[1], "2020/02/01", p03value(pr[0], pr[1])})
							if two { // an older price written later
								ps = append(ps, p03price{pr[0], pr[1], "2020/01/31", "5"})
							}
						}
					}
					prices := ""
					for _, p := range ps {
						prices += p.pri().text()
					}
					db := e.Sub("db", Files{"commodities.coin": p03head(3), "prices.coin": prices,
						"accounts.coin": accsText(Acc{Name: "X", Com: "AAA"}, Acc{Name: "X:B", Com: "BBB"}, Acc{Name: "X:C", Com: "CCC"}, Acc{Name: "O1", Com: "BBB"}, Acc{Name: "O2", Com: "CCC"}),
						"t.coin":        txsText(Tx{Date: "2020/01/05", Desc: "a", Ps: []Post{{Acc: "X:B", Amt: amts[0], Com: "BBB"}, {Acc: "O1"}}}, Tx{Date: "2020/01/05", Desc: "b", Ps: []Post{{Acc: "X:C", Amt: amts[1], Com: "CCC"}, {Acc: "O2"}}})})
					r := e.Run("coin", db, "balance", "-z", "X")
					latest := p03latest(ps)
					b := p03model(3, latest, parseDec(amts[0], 5), 1, 0)
					cc := p03model(3, latest, parseDec(amts[1], 0), 2, 0)
					key := fmt.Sprintf("graph %06b two=%v amounts %v", g, two, amts)
					if len(b) == 0 || len(cc) == 0 {
						if r.Code == 0 {
							e.Fail("report "+key, "balance reports a total without a price: %s\n%s\n%s", key, prices, r.Out)
						}
						return
					}
					if r.Code != 0 {
						e.Fail("report "+key, "balance fails (%d) though all prices are known: %s\n%s\n%s", r.Code, key, prices, clip(r.Err, 400))
						return
					}
					ok := false
					var want []string
					for _, x := range b {
						for _, y := range cc {
							w := fmtDec(new(big.Int).Add(x, y), 2)
							want = append(want, w)
							for _, row := range balanceRows(r.Out) {
								ok = ok || row.acc == "X" && row.com == "AAA" && row.cum == w
							}
						}
					}
					if !ok {
						e.Fail("total "+key, "balance of X should be one of %v AAA: %s\n%s\n%s", want, key, prices, r.Out)
					}
				}}
			}
			return []Space{
				{Name: "graphs", Rule: "all 4096 directed price graphs over 4 commodities of 2, 5, 0, 3 decimals; every source and target; amounts of both signs", Gen: graphs},
				{Name: "chains", Rule: "lines, rings, broken lines, back edges and two-way lines of 3..7 commodities in both directions, with one or two older prices of each link in turn and of all of them", Bound: 1, Gen: chains},
				{Name: "orders", Rule: "every order of up to n dated prices of one pair", Gen: orders},
				{Name: "long", Rule: "every transposition of the sorted and reversed order, and every swapped rotation, of 8..20 dated prices", Gen: long},
				{Name: "several", Rule: "dated prices of several pairs interleaved, rotated and swapped", Gen: several},
				{Name: "report", Rule: "balance reports over all 64 price graphs of 3 commodities with older prices written later", Gen: cli},
			}
		},
	})
}
