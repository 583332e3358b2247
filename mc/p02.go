package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/mkobetic/coin"
)

// P02: amounts are exact decimals.

func comsByDec() map[int]*coin.Commodity {
	m := map[int]*coin.Commodity{}
	for d := 0; d <= 6; d++ {
		m[d] = &coin.Commodity{Id: fmt.Sprintf("C%d", d), Decimals: d}
		m[d].Id = string(rune('A'+d)) + "C"
	}
	return m
}

// p02one checks reading and printing of one text in one commodity.
func p02one(e *Env, text string, c *coin.Commodity) {
	key := text + " in " + c.Id
	want := parseDec(text, c.Decimals)
	var a *coin.Amount
	out, failed := e.Guarded(func() { a = coin.MustParseAmount(text, c) })
	e.traces++
	if failed {
		e.Fail("refused "+key, "amount %s in a commodity of %d decimals is refused: %s", text, c.Decimals, out)
		return
	}
	p02print(e, key, a, want, c)
}

func p02print(e *Env, key string, a *coin.Amount, want *big.Int, c *coin.Commodity) {
	if a.Int.Cmp(want) != 0 {
		e.Fail("value "+key, "amount %s is %v units, should be %v", key, a.Int, want)
		return
	}
	if a.Commodity != c {
		e.Fail("commodity "+key, "amount %s lost its commodity", key)
	}
	text := fmtDec(want, c.Decimals)
	forms := map[string]string{}
	out, failed := e.Guarded(func() {
		forms["String"] = a.String()
		forms["%a"] = fmt.Sprintf("%a", a)
		forms["%.*f"] = fmt.Sprintf("%.*f", c.Decimals, a)
		var b strings.Builder
		a.Write(&b, false)
		forms["Write"] = strings.TrimSuffix(b.String(), " "+c.Id)
		j, err := json.Marshal(a)
		if err != nil {
			panic(err)
		}
		var s string
		json.Unmarshal(j, &s)
		forms["JSON"] = strings.TrimSuffix(s, " "+c.Id)
		forms["wide"] = strings.TrimLeft(fmt.Sprintf("%40a", a), " ")
		forms["widthed"] = strings.TrimSpace(fmt.Sprintf("%*.*f", a.Width(c.Decimals), c.Decimals, a))
	})
	if failed {
		e.Fail("print "+key, "printing %s: %s", key, out)
		return
	}
	for _, k := range sortedKeys(forms) {
		if forms[k] != text {
			e.Fail("print "+key, "amount %s prints as %q by %s, should be %q", key, forms[k], k, text)
		}
	}
}

func p02digits(prefix string, n int, alphabet string, f func(string)) {
	if n == 0 {
		f(prefix)
		return
	}
	for _, d := range alphabet {
		p02digits(prefix+string(d), n-1, alphabet, f)
	}
}

// p02texts is every text with i integer digits and d decimals over an alphabet.
func p02texts(i, d int, alphabet string) *Case {
	return &Case{Key: fmt.Sprint(i, d), Run: func(e *Env) {
		coms := comsByDec()
		p02digits("", i+d, alphabet, func(s string) {
			t := s[:i]
			if d > 0 {
				t += "." + s[i:]
			}
			for _, sign := range []string{"", "-"} {
				e.State(sign + t)
				for k := 0; k <= 6; k++ {
					p02one(e, sign+t, coms[k])
				}
			}
		})
	}}
}

// p02magnitudes: digits strings around powers of 10 and 2.
func p02magnitudes() []string {
	var out []string
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if v.Sign() >= 0 && !seen[v.String()] {
			seen[v.String()] = true
			out = append(out, v.String())
		}
	}
	near := func(v *big.Int) {
		for d := int64(-1); d <= 1; d++ {
			add(new(big.Int).Add(v, big.NewInt(d)))
		}
	}
	for _, k := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 28, 40, 48, 49, 50, 51, 52, 60, 80} {
		near(pow10i(k))
		near(new(big.Int).Mul(big.NewInt(5), pow10i(k)))
	}
	for _, k := range []uint{7, 8, 15, 16, 24, 31, 32, 33, 47, 52, 53, 54, 62, 63, 64} {
		near(new(big.Int).Lsh(big.NewInt(1), k))
	}
	return out
}

var p02vals = []string{"0", "1", "-1", "9", "10", "-10", "99", "100", "101", "-101", "12345", "-99999", "100000", "-100000",
	"2147483647", "2147483648", "-2147483649", "4294967296", "9007199254740993", "-9007199254740993",
	"999999999999999999", "1000000000000000000", "-1000000000000000000", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "-340282366920938463463374607431768211456"}

func bigOf(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return v
}

func p02pair(i int) *Case {
	return &Case{Key: "pair " + p02vals[i], Run: func(e *Env) {
		coms := comsByDec()
		for d := 0; d <= 6; d++ {
			c := coms[d]
			for _, y := range p02vals {
				a, b := bigOf(p02vals[i]), bigOf(y)
				key := fmt.Sprintf("%s, %s at %d decimals", p02vals[i], y, d)
				e.State(key)
				A := func() *coin.Amount { return coin.NewAmount(new(big.Int).Set(a), c) }
				B := coin.NewAmount(new(big.Int).Set(b), c)
				out, failed := e.Guarded(func() {
					sum := A()
					if err := sum.AddIn(B); err != nil {
						panic(err)
					}
					p02print(e, "sum of "+key, sum, new(big.Int).Add(a, b), c)
					if B.Int.Cmp(b) != 0 {
						e.Fail("operand "+key, "adding changed the second operand: %s", key)
					}
					neg := A()
					p02print(e, "negation "+key, neg.Negated(), new(big.Int).Neg(a), c)
					p02print(e, "operand "+key, neg, a, c)
					// difference
					diff := A()
					diff.AddIn(B.Negated())
					p02print(e, "difference "+key, diff, new(big.Int).Sub(a, b), c)
					// add to its own copy: original stays
					orig := A()
					cp := orig.Copy()
					cp.AddIn(B)
					p02print(e, "copied "+key, orig, a, c)
					type cmp struct {
						name      string
						got, want any
					}
					x := A()
					w := a.Cmp(b)
					m := new(big.Int).Abs(a).Cmp(new(big.Int).Abs(b))
					for _, k := range []cmp{{"Cmp", sign(x.Cmp(B)), w}, {"IsEqual", x.IsEqual(B), w == 0}, {"IsLessThan", x.IsLessThan(B), w < 0}, {"IsMoreThan", x.IsMoreThan(B), w > 0},
						{"IsBigger", x.IsBigger(B), m > 0}, {"IsSmaller", x.IsSmaller(B), m < 0}, {"CmpMagnitude", sign(x.CmpMagnitude(B)), m}, {"IsZero", x.IsZero(), a.Sign() == 0}, {"Magnitude", x.Magnitude().String(), new(big.Int).Abs(a).String()}} {
						if k.got != k.want {
							e.Fail(k.name+" "+key, "%s of %s is %v, should be %v", k.name, key, k.got, k.want)
						}
					}
					// amounts of commodities with other decimals compare by value
					for d2 := 0; d2 <= 6; d2++ {
						B2 := coin.NewAmount(new(big.Int).Set(b), coms[d2])
						w := new(big.Int).Mul(a, pow10i(d2)).Cmp(new(big.Int).Mul(b, pow10i(d)))
						for _, k := range []cmp{{"Cmp", sign(x.Cmp(B2)), w}, {"IsEqual", x.IsEqual(B2), w == 0}, {"IsLessThan", x.IsLessThan(B2), w < 0}, {"IsMoreThan", x.IsMoreThan(B2), w > 0}} {
							if k.got != k.want {
								e.Fail(k.name+" "+key, "%s of %s and %d decimals is %v, should be %v", k.name, key, d2, k.got, k.want)
							}
						}
						p02print(e, "compared "+key, B2, b, coms[d2])
					}
					p02print(e, "compared "+key, x, a, c)
				})
				e.traces++
				if failed {
					e.Fail("failed "+key, "arithmetic on %s: %s", key, out)
				}
			}
		}
	}}
}

func sign(i int) int {
	switch {
	case i < 0:
		return -1
	case i > 0:
		return 1
	}
	return 0
}

// fractions num/den
func p02frac(den int64) *Case {
	return &Case{Key: fmt.Sprint("frac ", den), Run: func(e *Env) {
		coms := comsByDec()
		for _, n := range []int64{0, 1, -1, 3, -3, 7, 99, -99, 100, 101, -101, 12345, -12345, 33333333, -66666667, 1<<62 + 1, -(1<<62 + 1)} {
			for d := 0; d <= 6; d++ {
				key := fmt.Sprintf("%d/%d at %d", n, den, d)
				e.State(key)
				var a *coin.Amount
				num, dn := big.NewInt(n), big.NewInt(den)
				if out, failed := e.Guarded(func() { a = coin.NewAmountFrac(num, dn, coms[d]) }); failed {
					e.Fail("frac "+key, "fraction %s: %s", key, out)
					continue
				}
				want := new(big.Int).Mul(big.NewInt(n), pow10i(d))
				want.Quo(want, big.NewInt(den))
				p02print(e, "fraction "+key, a, want, coms[d])
				if num.Int64() != n || dn.Int64() != den {
					e.Fail("fracop "+key, "operands of the fraction %s changed", key)
				}
			}
		}
	}}
}

// p02ledger reads a batch of texts through a ledger file and the register.
func p02ledger(texts []string, dec int) *Case {
	return &Case{Key: fmt.Sprint("ledger ", dec, texts), Run: func(e *Env) {
		led := comsText(Com{Id: "XYZ", Dec: dec, Default: true}) + accsText(Acc{Name: "A", Com: "XYZ"}, Acc{Name: "B", Com: "XYZ"})
		var want []*big.Int
		for i, t := range texts {
			led += Tx{Date: dateStr(ymdDate(2000, 1, 1).AddDate(0, 0, i)), Desc: fmt.Sprint("n", i), Ps: []Post{{Acc: "A", Amt: t, Com: "XYZ"}, {Acc: "B"}}}.text()
			want = append(want, parseDec(t, dec))
		}
		// in the library: quantities, balances
		_, out, failed := e.lib(func() { loadText(led) })
		if failed {
			e.Fail("load "+fmt.Sprint(texts), "ledger refused: %s", out)
			return
		}
		c := coin.Commodities["XYZ"]
		sum := new(big.Int)
		for i, p := range coin.AccountsByName["A"].Postings {
			sum.Add(sum, want[i])
			p02print(e, "posting "+texts[i], p.Quantity, want[i], c)
			p02print(e, "balance after "+texts[i], p.Balance, sum, c)
			p02print(e, "other side "+texts[i], p.Transaction.Postings[1].Quantity, new(big.Int).Neg(want[i]), c)
		}
		// through the command
		db := e.Sub("db", Files{"commodities.coin": comsText(Com{Id: "XYZ", Dec: dec, Default: true}), "accounts.coin": accsText(Acc{Name: "A", Com: "XYZ"}, Acc{Name: "B", Com: "XYZ"}), "t.coin": led[strings.Index(led, "2000/"):]})
		for _, side := range []string{"A", "B"} {
			r := e.Run("coin", db, "register", side)
			if r.Code != 0 {
				e.Fail("register "+fmt.Sprint(texts), "coin register %s fails: %s", side, clip(r.Err, 500))
				continue
			}
			ls := nonEmptyLines(r.Out)
			total := new(big.Int)
			n := 0
			for _, l := range ls {
				cs := cells(l)
				if len(cs) < 5 || n >= len(want) {
					continue
				}
				w := want[n]
				if side == "B" {
					w = new(big.Int).Neg(w)
				}
				total.Add(total, w)
				n++
				amt, tot := strings.Fields(cs[len(cs)-3]+" "+cs[len(cs)-2]+" "+cs[len(cs)-1]), fmtDec(total, dec)
				if !contains(amt, fmtDec(w, dec)) || !contains(amt, tot) {
					e.Fail("row "+texts[n-1], "coin register %s shows %q for amount %s with running total %s", side, l, fmtDec(w, dec), tot)
				}
			}
			if n != len(want) {
				e.Fail("rows "+fmt.Sprint(texts), "coin register %s shows %d of %d postings:\n%s", side, n, len(want), r.Out)
			}
		}
	}}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// p02sums adds one amount very many times (far beyond 64 bits).
func p02sums(i int) *Case {
	return &Case{Key: fmt.Sprint("sum ", p02vals[i]), Run: func(e *Env) {
		coms := comsByDec()
		for d := 0; d <= 6; d++ {
			c := coms[d]
			acc := coin.NewZeroAmount(c)
			want := new(big.Int)
			v := bigOf(p02vals[i])
			one := coin.NewAmount(new(big.Int).Set(v), c)
			for n := 0; n < 400; n++ {
				if out, failed := e.Guarded(func() { acc.AddIn(one) }); failed {
					e.Fail("sum "+p02vals[i], "adding %s %d times: %s", p02vals[i], n+1, out)
					return
				}
				want.Add(want, v)
				p02print(e, fmt.Sprintf("%d times %s", n+1, p02vals[i]), acc, want, c)
				e.State(fmt.Sprint(want, d))
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P02", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one shape of amount texts (integer and decimal digits, all digit strings of the alphabet), one pair row, or one ledger of amounts; states are distinct texts and operand pairs",
		Assumptions: []string{"amounts have at most 81 digits"},
		Spaces: func(tier string) []Space {
			maxInt, alphabet := 4, "019"
			if tier == "thorough" {
				maxInt, alphabet = 6, "019"
			}
			mags := p02magnitudes()
			return []Space{
				{Name: "digits", Rule: "every amount text with 1..n integer and 0..5 decimal digits over the digits 0, 1, 9, both signs, in commodities of 0..6 decimals", Gen: func(c *Chooser) *Case {
					return p02texts(1+c.N(maxInt), c.N(6), alphabet)
				}},
				{Name: "all-digits", Rule: "every amount text with 1..2 integer and 0..3 decimal digits over all ten digits", Gen: func(c *Chooser) *Case {
					i, d := 1+c.N(2), c.N(4)
					if i+d > 4 && tier != "thorough" {
						return nil
					}
					return p02texts(i, d, "0123456789")
				}},
				{Name: "magnitudes", Rule: "digit strings around powers of ten and two with the point at every place", Gen: func(c *Chooser) *Case {
					m := mags[c.N(len(mags))]
					return &Case{Key: "magnitude " + m, Run: func(e *Env) {
						coms := comsByDec()
						for pt := 0; pt < len(m); pt++ {
							t := m
							if pt > 0 {
								t = m[:len(m)-pt] + "." + m[len(m)-pt:]
							}
							for _, s := range []string{t, "-" + t} {
								e.State(s)
								for k := 0; k <= 6; k++ {
									p02one(e, s, coms[k])
								}
							}
						}
					}}
				}},
				{Name: "pairs", Rule: "sum, difference, negation and all comparisons of every pair of boundary values at 0..6 decimals", Gen: func(c *Chooser) *Case { return p02pair(c.N(len(p02vals))) }},
				{Name: "sums", Rule: "every boundary value added 400 times, exact after every step", Gen: func(c *Chooser) *Case { return p02sums(c.N(len(p02vals))) }},
				{Name: "fractions", Rule: "fractions of boundary numerators and denominators (GnuCash values)", Gen: func(c *Chooser) *Case {
					return p02frac([]int64{1, 2, 3, 7, 10, 64, 99, 100, 1000, 100000, 1000000, 999999937}[c.N(12)])
				}},
				{Name: "ledger", Rule: "ledgers of 12 consecutive boundary amounts at 0..5 decimals through loading and the register of both sides", Gen: func(c *Chooser) *Case {
					dec := c.N(6)
					k := c.N((len(mags) + 5) / 6)
					var ts []string
					for j := 0; j < 6 && k*6+j < len(mags); j++ {
						m := mags[k*6+j]
						if dec > 0 && len(m) > dec {
							m = m[:len(m)-dec] + "." + m[len(m)-dec:]
						}
						ts = append(ts, m, "-"+m)
					}
					return p02ledger(ts, dec)
				}},
			}
		},
	})
}
