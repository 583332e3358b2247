package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// P27: importing the same statement twice adds nothing. Uses the model of p26.go.

func (t impTx) text(i int) string {
	s := t.date + " "
	if t.code != "" {
		s += "(" + t.code + ") "
	}
	s += t.desc
	for j, n := range t.notes {
		if j == 0 {
			s += " ; " + n
		} else {
			s += "\n  ; " + n
		}
	}
	a := "  " + t.acc + "  " + fmtDec(t.val, t.dec) + " " + t.com
	if t.bal != nil {
		a += " = " + fmtDec(t.bal, t.dec) + " " + t.com
	}
	b := "  " + t.other + "  " + fmtDec(new(big.Int).Neg(t.val), t.dec) + " " + t.com
	if t.val.Sign() < 0 { // as the import writes them
		a, b = b, a
	}
	s += "\n" + a + "\n" + b + "\n"
	if t.more != "" {
		s += "  Ex:Food  " + t.more + " CAD\n  Ex:Food:Out  -" + t.more + " CAD\n"
	}
	return s
}

// p27ledger writes transactions into ledger files and notes their places.
func p27ledger(f Files, txs []impTx, files int) (out []impTx) {
	for i, t := range txs {
		n := fmt.Sprintf("l%d.coin", i%files)
		t.loc = fmt.Sprintf("%s:%d", n, strings.Count(f[n], "\n")+1)
		f[n] += t.text(i) + "\n"
		out = append(out, t)
	}
	return
}

func p27base() Files {
	return Files{"accounts.coin": ofxAccounts(true), "commodities.coin": "", "ofx.rules": p25text(ofxRules(), true)}
}

func init() {
	register(&Prop{
		ID: "P27", Level: "model_checking", Bins: []string{"ofx2coin"},
		Rule:        "a case is a ledger with statements imported, or a history of imports whose results go to the ledger; states are distinct (ledger, statements) pairs",
		Assumptions: []string{"a ledger transaction has its postings in the order imports write them to count as repeated", "payees contain no ';' and do not start with a parenthesised word"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			// one or two lines against every ledger of up to two (thorough three) transactions like them
			near := func(c *Chooser) *Case {
				neg := (c.N(2) == 1)
				card := (c.N(2) == 1)
				base := impTx{date: "2020/01/15", desc: "food", acc: "Bank", other: "Ex:Food", com: "CAD", dec: 2, val: big.NewInt(1250)}
				if card {
					base.acc = "Card"
				}
				if neg {
					base.val = big.NewInt(-1250)
				}
				variants := []func(t *impTx){
					func(t *impTx) {},
					func(t *impTx) { t.desc, t.notes = "something else", []string{"#a note"} },
					func(t *impTx) { t.date = "2020/01/14" },
					func(t *impTx) { t.date = "2020/01/16" },
					func(t *impTx) { t.date = "2019/01/15" },
					func(t *impTx) { t.val = new(big.Int).Add(t.val, big.NewInt(1)) },
					func(t *impTx) { t.val = new(big.Int).Mul(t.val, big.NewInt(10)) },
					func(t *impTx) { t.val = new(big.Int).Neg(t.val) },
					func(t *impTx) { t.acc = "Bank:Sub" },
					func(t *impTx) { t.other = "Ex:Food:Out" },
					func(t *impTx) { t.other = "Unbalanced" },
					func(t *impTx) { t.code = "12" },
					func(t *impTx) { t.com, t.dec, t.val = "BND", 5, new(big.Int).Mul(t.val, big.NewInt(1000)) },
					func(t *impTx) { t.more = "1.00" },
					func(t *impTx) { t.com, t.dec, t.val = "YEN", 0, big.NewInt(t.val.Int64()/1250*12) },
				}
				n := c.N(3)
				if thorough {
					n = c.N(4)
				}
				files := 1 + c.N(2)
				if n < 2 && files == 2 {
					return nil
				}
				var txs []impTx
				for i := 0; i < n; i++ {
					t := base
					variants[c.N(len(variants))](&t)
					txs = append(txs, t)
				}
				third := c.N(3)
				return &Case{Key: fmt.Sprint("near ", neg, card, files, txs, third), Run: func(e *Env) {
					f := p27base()
					ledger := p27ledger(f, txs, files)
					s := ofxStatement{id: "100", card: card, bal: "99"}
					if card {
						s.id = "400"
					}
					amt := "12.5"
					if neg {
						amt = "-12.50"
					}
					switch third {
					case 0:
						s.lines = []ofxLine{{date: "20200115", amt: amt, name: "food"}}
					case 1:
						s.lines = []ofxLine{{date: "20200116", amt: "3", name: "food"}, {date: "20200115", amt: amt, name: "food b"}, {date: "20200115", amt: amt, name: "food c"}, {date: "20200115", amt: amt, name: "cafe"}}
					case 2:
						s.lines = []ofxLine{{date: "20200114", amt: amt, name: "x"}, {date: "20200115120000", amt: amt, name: "food"}, {date: "20200115235900[-5:EST]", amt: amt, name: "drop"}, {date: "20200116", amt: amt, name: "food"}}
					}
					fs := [][]ofxStatement{{s}}
					names := ofxFiles(f, fs)
					db := e.Sub("db", f)
					e.State(fmt.Sprint(txs, files, fs))
					ofxCheck(e, db, ofxRules(), ledger, fs, false, names...)
					if n < 2 {
						ofxCheck(e, db, ofxRules(), ledger, fs, true, names...)
					}
				}}
			}
			// repetitions among the imported lines and where the balance goes
			among := func(c *Chooser) *Case {
				n := 2 + c.N(3)
				if thorough {
					n = 2 + c.N(4)
				}
				var kinds []int
				for i := 0; i < n; i++ {
					kinds = append(kinds, c.N(4))
				}
				bals := [][2]string{{"11", "22"}, {"0", "22"}, {"11", "0.00"}}[c.N(3)]
				split := c.N(n) // lines from there on are in a second statement
				place := c.N(2)
				if split == 0 && (place == 1 || bals[0] == "0") {
					return nil
				}
				return &Case{Key: fmt.Sprint("among ", kinds, bals, split, place), Run: func(e *Env) {
					var ls []ofxLine
					for i, k := range kinds {
						ls = append(ls, []ofxLine{{date: "20200115", amt: "5.00", name: "food a"}, {date: "20200115", amt: "5", name: fmt.Sprint("food ", i)}, {date: "20200115", amt: "-5", name: "food a"}, {date: "20200116", amt: "5", name: "drop"}}[k])
					}
					var fs [][]ofxStatement
					a, b := ofxStatement{id: "100", lines: ls[:split], bal: bals[0]}, ofxStatement{id: "100", lines: ls[split:], bal: bals[1]}
					if split == 0 {
						fs = [][]ofxStatement{{b}}
					} else if place == 0 {
						fs = [][]ofxStatement{{a, b}}
					} else {
						fs = [][]ofxStatement{{a}, {b}}
					}
					f := p27base()
					names := ofxFiles(f, fs)
					db := e.Sub("db", f)
					e.State(fmt.Sprint(fs))
					ofxCheck(e, db, ofxRules(), nil, fs, false, names...)
					ofxCheck(e, db, ofxRules(), nil, fs, true, names...)
				}}
			}
			// histories: windows of one list of lines imported one after the other
			master := [][]ofxLine{
				{{date: "20200103", amt: "100", name: "pay x"}, {date: "20200105", amt: "-10", name: "cafe"}, {date: "20200105", amt: "-10.00", name: "pub"}, {date: "20200105", amt: "-7", name: "food"}, {date: "20200210", amt: "0.00", name: "void"}},
				{{date: "20191231", amt: "-1.01", name: "a"}, {date: "20191231", amt: "-1.01", name: "drop"}, {date: "20191231", amt: "1.01", name: "a"}, {date: "20200101", amt: "-1.01", name: "food"}, {date: "20200101", amt: "-1.01", name: "cafe"}, {date: "20200101", amt: "-1.01", name: "b"}},
			}
			history := func(c *Chooser) *Case {
				m := c.N(len(master))
				card := (c.N(2) == 1)
				ls := master[m]
				n := 2 + c.N(2)
				var wins [][2]int
				covered := 0
				for i := 0; i < n; i++ {
					a := c.N(len(ls))
					b := a + 1 + c.N(len(ls)-a)
					if !card && a > covered {
						return nil // the balance would not be right yet
					}
					if !thorough && n == 3 && i == 1 && (a+b)%2 == 1 {
						return nil
					}
					covered = max(covered, b)
					wins = append(wins, [2]int{a, b})
				}
				return &Case{Key: fmt.Sprint("history ", m, card, wins), Run: func(e *Env) {
					rules := ofxRules()
					f := p27base()
					db := e.Sub("db", f)
					var ledger []impTx
					text := ""
					for k, w := range append(wins, wins...) {
						if k >= len(wins)+1 && !thorough {
							break
						}
						s := ofxStatement{id: "100", card: card, lines: ls[w[0]:w[1]]}
						if card {
							s.id = "400"
						}
						sum := new(big.Int)
						seen := map[string]bool{} // what the import takes for repeated does not count
						for _, t := range ofxModel(rules, [][]ofxStatement{{{id: s.id, card: card, lines: ls[:w[1]], bal: "0"}}}) {
							if !seen[t.key()] {
								sum.Add(sum, t.val)
							}
							seen[t.key()] = true
						}
						s.bal = fmtDec(sum, 2)
						fs := [][]ofxStatement{{s}}
						must(os.WriteFile(db+"/s0.ofx", []byte(ofxText(fs[0])), 0o644))
						e.State(fmt.Sprint(m, card, wins[:min(k, len(wins))], k))
						want, _ := ofxDedupe(ofxModel(rules, fs), ledger)
						out, ok := ofxCheck(e, db, rules, ledger, fs, false, "s0.ofx")
						if !ok {
							return
						}
						if k >= len(wins) && (out != "" || len(want) > 0) {
							e.Fail(fmt.Sprint("again ", m, card, wins), "importing windows %v of %v again writes\n%s", wins, ls, out)
							return
						}
						// the result goes to the end of the ledger
						i := 0
						for j, l := range strings.Split(out, "\n") {
							if l != "" && l[0] >= '0' && l[0] <= '9' {
								want[i].loc = fmt.Sprintf("new.coin:%d", strings.Count(text, "\n")+j+1)
								i++
							}
						}
						ledger = append(ledger, want...)
						text += out
						must(os.WriteFile(db+"/new.coin", []byte(text), 0o644))
					}
				}}
			}
			// big ledgers with many transactions a day
			large := func(c *Chooser) *Case {
				days, per := []int{1, 2, 3, 7, 30}[c.N(5)], []int{1, 2, 12, 13, 40}[c.N(5)]
				step := 1 + c.N(3)
				return &Case{Key: fmt.Sprint("big ", days, per, step), Run: func(e *Env) {
					f := p27base()
					var txs []impTx
					var s ofxStatement
					s.id, s.card, s.bal = "400", true, "0"
					k := 0
					for d := 0; d < days; d++ {
						for i := 0; i < per; i++ {
							date := ymdDate(2020, 2, 1+d*2)
							v := int64(i*100 + 100 + d)
							if k++; k%step == 0 {
								txs = append(txs, impTx{date: date.Format("2006/01/02"), desc: "food", acc: "Card", other: "Ex:Food", com: "CAD", dec: 2, val: big.NewInt(-v)})
							}
							s.lines = append(s.lines, ofxLine{date: date.Format("20060102"), amt: fmtDec(big.NewInt(-v), 2), name: "food"})
						}
						s.lines = append(s.lines, ofxLine{date: ymdDate(2020, 2, d*2).Format("20060102"), amt: "-1.00", name: "food"})
					}
					// the ledger in another order
					for i, j := 0, len(txs)-1; i < j; i, j = i+1, j-1 {
						txs[i], txs[j] = txs[j], txs[i]
					}
					ledger := p27ledger(f, txs, 3)
					fs := [][]ofxStatement{{s}}
					names := ofxFiles(f, fs)
					e.State(fmt.Sprint(days, per, step))
					db := e.Sub("db", f)
					ofxCheck(e, db, ofxRules(), ledger, fs, false, names...)
					ofxCheck(e, db, ofxRules(), ledger, fs, true, names...)
				}}
			}
			return []Space{
				{Name: "near", Rule: "three groups of lines against every ledger of up to 2 (thorough 3) transactions out of 15 variants of the imported one, in one or two files", Gen: near},
				{Name: "among", Rule: "every list of 2-4 (thorough 5) lines of 4 kinds cut into statements and files at every place, closing at nothing or at something", Gen: among},
				{Name: "history", Rule: "every history of 2-3 imports of windows of two lists of lines, the results added to the ledger, then imported again", Gen: history},
				{Name: "big", Rule: "ledgers of 1-30 days with 1-40 transactions a day", Gen: large},
			}
		},
	})
}
