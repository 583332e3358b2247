package main

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"
)

// P39: quotes fetched become exact prices, one for each commodity on a market.

type p39com struct {
	id, symbol        string
	nomarket, deflt   bool
	dec               int
	kind, answer      string // of the service
	price, currency   string // "" currency: no price is to come of it
	asked             string // what the service is to be asked for
	exactly, unspoken bool
}

func (c *p39com) text() string {
	s := "commodity " + c.id + "\n  format 1" + map[bool]string{true: "." + strings.Repeat("0", c.dec)}[c.dec > 0] + " " + c.id + "\n"
	if c.symbol != "" {
		s += "  symbol " + c.symbol + "\n"
	}
	if c.nomarket {
		s += "  nomarket\n"
	}
	if c.deflt {
		s += "  default\n"
	}
	return s + "\n"
}

var p39line = regexp.MustCompile(`^P (\d{4}/\d\d/\d\d) (\w+) (-?\d+(?:\.\d+)?) (\w+)$`)

// p39check runs coin commodities -q on the commodities and judges what it prints and asks for.
func p39check(e *Env, sig string, coms []*p39com, offline bool) bool {
	text, net, names := "", "", map[string]*p39com{}
	var asked []string
	for _, c := range coms {
		text += c.text()
		names[c.id] = c
		c.asked = ""
		if !c.nomarket && !c.deflt {
			c.asked = c.symbol
			if c.symbol == "" {
				c.asked = c.id + "CAD=X"
			}
			asked = append(asked, c.asked)
			net += c.asked + "\t" + c.kind + "\t" + c.answer + "\n"
		}
	}
	if offline {
		net += "offline\n"
	}
	db := e.Sub("db", Files{"commodities.coin": text, "accounts.coin": "", "prices.coin": "", "2020.coin": ""})
	fn := e.Sub("net", Files{"net": net}) + "/net"
	before := time.Now().UTC().Format("2006/01/02")
	r := e.RunEnv("coin+net", db, []string{"VERIF_NET=" + fn}, "", "commodities", "-q")
	after := time.Now().UTC().Format("2006/01/02")
	e.State(sig)
	e.Outcome(fmt.Sprint(r.Code, hash64(strings.ReplaceAll(r.Out, after, "")), hash64(r.Err)))
	fail := func(format string, args ...any) bool {
		e.Fail(sig, "coin commodities -q: %s (exit %d)\n%s--- stderr\n%s--- commodities\n%s--- network\n%s", fmt.Sprintf(format, args...), r.Code, clipped(r.Out, 1500), clipped(r.Err, 1500), clipped(text, 1500), clipped(net, 1500))
		return false
	}
	if r.Hang || r.Code < 0 || strings.Contains(r.Err, "goroutine ") {
		return fail("crash")
	}
	seen := map[string]bool{}
	for _, l := range nonEmptyLines(r.Out) {
		m := p39line.FindStringSubmatch(l)
		if m == nil {
			return fail("not a price: %q", l)
		}
		c := names[m[2]]
		switch {
		case m[1] != before && m[1] != after:
			return fail("price not of today: %q", l)
		case c == nil || seen[m[2]]:
			return fail("price of what: %q", l)
		case c.currency == "" || c.asked == "" || offline:
			return fail("there is no quote for %q", l)
		case c.currency != m[4]:
			return fail("%q is quoted in %s", l, c.currency)
		}
		seen[m[2]] = true
		want, ok := new(big.Rat).SetString(c.price)
		got, ok2 := new(big.Rat).SetString(m[3])
		if !ok || !ok2 {
			panic("not a number " + c.price + " " + m[3])
		}
		dec := 0
		if _, f, ok := strings.Cut(m[3], "."); ok {
			dec = len(f)
		}
		if cur := names[c.currency]; dec != cur.dec {
			return fail("%q is not in the %d decimals of %s", l, cur.dec, cur.id)
		}
		unit := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil))
		diff := new(big.Rat).Sub(want, got)
		exact := new(big.Rat).Quo(want, unit).IsInt()
		if exact && diff.Sign() != 0 || diff.Abs(diff).Cmp(unit) >= 0 {
			return fail("%q is quoted at %s", l, c.price)
		}
	}
	for _, c := range coms {
		good := c.currency != "" && c.asked != "" && !offline
		if good && !seen[c.id] {
			return fail("quote of %s is lost", c.id)
		}
		if !good && c.asked != "" && !hasToken(strings.ReplaceAll(r.Err, ":", " "), c.id) {
			return fail("nothing is said of %s, which has no quote", c.id)
		}
	}
	if !offline {
		data, _ := os.ReadFile(fn + ".log")
		got := nonEmptyLines(string(data))
		sort.Strings(got)
		sort.Strings(asked)
		if strings.Join(got, " ") != strings.Join(asked, " ") {
			return fail("asked for %v, not for %v", got, asked)
		}
	}
	// the prices can be added to the ledger
	if len(seen) > 0 {
		must(os.WriteFile(db+"/prices.coin", []byte(r.Out), 0o644))
		b := e.Run("coin", db, "commodities", "-p")
		for _, l := range nonEmptyLines(r.Out) {
			m := p39line.FindStringSubmatch(l)
			if !strings.Contains(b.Out, m[2]+": "+m[1]+" "+m[3]+" "+m[4]+" [1]\n") {
				return fail("%q read from prices.coin becomes something else\n%s%s", l, clipped(b.Out, 1000), clipped(b.Err, 1000))
			}
		}
	}
	return true
}

func init() {
	register(&Prop{
		ID: "P39", Level: "model_checking", Bins: []string{"coin", "coin+net"},
		Rule: "a case is a list of commodities with what the service answers for each; states are distinct lists",
		Assumptions: []string{
			"there is no network here: below the HTTP client the requests are answered from a file, in the form the finance library expects",
			"a quote without a price, or in a currency that is not a number, is not judged",
			"a quote with more decimals than its currency may be rounded or cut",
		},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			per := 250 // commodities of a run
			type batch struct {
				dec    int
				prices []string
			}
			var batches []batch
			add := func(dec int, prices []string) {
				for len(prices) > 0 {
					n := min(per, len(prices))
					batches = append(batches, batch{dec, prices[:n]})
					prices = prices[n:]
				}
			}
			top := 20000
			if thorough {
				top = 1000000
			}
			for dec := 0; dec <= 7; dec++ {
				var ps []string
				n := top
				if dec != 2 {
					n = top / 10
				}
				point := func(k string) string {
					for len(k) <= dec {
						k = "0" + k
					}
					if dec == 0 {
						return k
					}
					return k[:len(k)-dec] + "." + k[len(k)-dec:]
				}
				for k := 1; k <= n; k++ {
					ps = append(ps, point(fmt.Sprint(k)))
				}
				// around powers of 2 and 10, up to the 15 digits of a quote
				for i := 3; i < 50; i++ {
					for d := int64(-3); d <= 3; d++ {
						if x := int64(1)<<i + d; len(fmt.Sprint(x)) <= 15 {
							ps = append(ps, point(fmt.Sprint(x)))
						}
					}
				}
				for i := 1; i < 15; i++ {
					for _, f := range []int64{1, 2, 3, 7, 9} {
						x := f
						for j := 0; j < i; j++ {
							x *= 10
						}
						for d := int64(-2); d <= 2; d++ {
							ps = append(ps, point(fmt.Sprint(x+d)))
						}
					}
					ps = append(ps, point(strings.Repeat("9", i)), point(strings.Repeat("123456789", 2)[:i]), point(strings.Repeat("3", i)))
				}
				// more decimals than there are, other spellings, large numbers in currencies of many decimals
				for _, x := range []string{"1.005", "0.015", "2.675", "1e2", "1.5e3", "123.456e1", "1999e-2", "0.1e-1", "1.0", "19.990", "0.30000000000000004", "99999999999", "12345678901234", "-1.15", "-0.29", "0.999999999", "1e-7", "2.5", "0.07", "1.1", "100000000000000"} {
					ps = append(ps, x)
				}
				add(dec, ps)
			}
			values := func(c *Chooser) *Case {
				bi := c.N(len(batches))
				return &Case{Key: fmt.Sprint("values ", bi), Run: func(e *Env) {
					b := batches[bi]
					coms := []*p39com{{id: "CAD", dec: 2, deflt: true}, {id: "CUR", dec: b.dec, nomarket: true}}
					for i, p := range b.prices {
						x := &p39com{id: fmt.Sprint("C", i), dec: i % 3, kind: "ok", price: p, currency: "CUR", answer: fmt.Sprintf(`{"currency":"CUR","regularMarketPrice":%s}`, p)}
						if i%2 == 0 {
							x.symbol = fmt.Sprint("S.", i)
						}
						coms = append(coms, x)
					}
					p39check(e, fmt.Sprint("values ", b.dec, " ", b.prices[0], "-", b.prices[len(b.prices)-1]), coms, false)
				}}
			}
			answers := []p39com{
				{kind: "ok", answer: `{"symbol":"x","currency":"CAD","regularMarketPrice":19.99}`, price: "19.99", currency: "CAD"},
				{kind: "ok", answer: `{"currency":"YEN","regularMarketPrice":1234}`, price: "1234", currency: "YEN"},
				{kind: "ok", answer: `{"currency":"XXX","regularMarketPrice":1.5}`},
				{kind: "none"},
				{kind: "ok", answer: `null`},
				{kind: "failed", answer: "oops"},
				{kind: "missing", answer: `{"quoteResponse":{"result":[{"currency":"CAD","regularMarketPrice":5}]}}`},
				{kind: "refused", answer: "connection refused"},
				{kind: "raw", answer: "<html>"},
				{kind: "raw", answer: `{"quoteResponse":{"result":null,"error":{"code":"Not Found","description":"no"}}}`},
				{kind: "raw", answer: ``},
			}
			most := 3
			if thorough {
				most = 4
			}
			kinds := 2*len(answers) + 3
			several := func(c *Chooser) *Case {
				n := 1 + c.N(most)
				var ks []int
				for len(ks) < n {
					ks = append(ks, c.N(kinds))
				}
				off := c.N(2) == 1
				if off && n > 2 {
					return nil
				}
				return &Case{Key: fmt.Sprint("answers ", ks, off), Run: func(e *Env) {
					coms := []*p39com{{id: "CAD", dec: 2, deflt: true}}
					for i, k := range ks {
						x := answers[k%len(answers)]
						x.id, x.dec = fmt.Sprint("B", "DBFA"[i:i+1]), i
						switch {
						case k < len(answers):
						case k < 2*len(answers):
							x.symbol = fmt.Sprint("S", i)
						default:
							x.nomarket = true
							if k%2 == 0 {
								x.symbol = fmt.Sprint("S", i)
							}
						}
						coms = append(coms, &x)
					}
					coms = append(coms, &p39com{id: "YEN", dec: 0, nomarket: true})
					p39check(e, fmt.Sprint("answers ", ks, off), coms, off)
				}}
			}
			return []Space{
				{Name: "values", Rule: fmt.Sprintf("all quotes of up to %d hundredths (a tenth of that in units of the other decimals 0-7), around powers of 2 and 10 up to 15 digits, in other spellings", top), Gen: values},
				{Name: "answers", Rule: fmt.Sprintf("every list of up to %d commodities of %d kinds (symbol or not, on a market or not, 11 kinds of answers), with and without network", most, kinds), Gen: several},
			}
		},
	})
}
