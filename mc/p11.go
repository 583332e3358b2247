package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P11: written commodities, accounts and prices read back the same.

type p11dir struct{ name, value string } // a directive

func p11render(head string, ds []p11dir) string {
	s := head + "\n"
	for _, d := range ds {
		s += "  " + d.name
		if d.value != "" {
			s += " " + d.value
		}
		s += "\n"
	}
	return s + "\n"
}

func p11get(ds []p11dir, name string) string {
	for _, d := range ds {
		if d.name == name {
			if d.value == "" {
				return "yes"
			}
			return d.value
		}
	}
	return ""
}

func p11commodity(e *Env, id string, ds []p11dir) {
	text := p11render("commodity "+id, ds)
	dec := 2
	if f := p11get(ds, "format"); f != "" {
		dec = 0
		if i := strings.IndexByte(f, '.'); i >= 0 {
			dec = strings.IndexByte(f, ' ') - i - 1
		}
	}
	want := fmt.Sprintf("%q %q %d %v %q", id, p11get(ds, "note"), dec, p11get(ds, "nomarket") != "", p11get(ds, "symbol"))
	e.State(want)
	in, prev := text, ""
	for round := 0; round < 3; round++ {
		_, out, failed := e.lib(func() { coin.DefaultCommodityId = "none"; coin.Load(strings.NewReader(in), "t.coin") })
		if failed || len(coin.Commodities) != 1 || coin.Commodities[id] == nil {
			e.Fail("commodity "+text, "round %d: commodity entry is refused or lost: %s\n%s", round, out, in)
			return
		}
		c := coin.Commodities[id]
		got := fmt.Sprintf("%q %q %d %v %q", c.Id, strings.TrimRight(c.Name, " \t"), c.Decimals, c.NoMarket, c.Symbol)
		if got != want {
			e.Fail("commodity "+text, "round %d: commodity reads as (id, note, decimals, nomarket, symbol) %s, should be %s\n%s", round, got, want, in)
			return
		}
		if s := c.Symbol; s != "" && coin.CommoditiesBySymbol[s] != c {
			e.Fail("symbol "+text, "commodity is not found by symbol %s\n%s", s, in)
		}
		if round == 0 && (p11get(ds, "default") != "") != (coin.DefaultCommodityId == id) {
			e.Fail("default "+text, "default commodity is %s after\n%s", coin.DefaultCommodityId, in)
		}
		var b strings.Builder
		if err := c.Write(&b, false); err != nil {
			e.Fail("write "+text, "cannot write: %v", err)
			return
		}
		in = b.String()
		if round > 0 && in != prev {
			e.Fail("text "+text, "writing what was read gives\n%s instead of\n%s", in, prev)
			return
		}
		prev = in
	}
}

func p11account(e *Env, name string, ds []p11dir) {
	text := p11render("account "+name, ds)
	com := p11get(ds, "commodity")
	if com == "" {
		com = "CAD"
	}
	want := fmt.Sprintf("%q %q %q %q %q %q %q", name, com, p11get(ds, "note"), p11get(ds, "closed"), p11get(ds, "ofx_bankid"), p11get(ds, "ofx_acctid"), p11get(ds, "csv_acctid"))
	e.State(want)
	in, prev := text, ""
	kid := ""
	if len(text)%2 == 0 {
		kid = "\naccount " + name + ":Kid\n  commodity CAD\n" // an account with accounts below it
	}
	for round := 0; round < 3; round++ {
		_, out, failed := e.lib(func() {
			coin.Load(strings.NewReader(p08head+"commodity X1y\n\n"+in+kid), "t.coin")
			coin.ResolveAccounts()
		})
		a := coin.AccountsByName[name]
		if failed || a == nil {
			e.Fail("account "+text, "round %d: account entry is refused or lost: %s\n%s", round, out, in)
			return
		}
		closed := ""
		if !a.Closed.IsZero() {
			closed = a.Closed.Format("2006/01/02")
		}
		got := fmt.Sprintf("%q %q %q %q %q %q %q", a.FullName, a.Commodity.Id, strings.TrimRight(a.Description, " \t"), closed, a.OFXBankId, a.OFXAcctId, a.CSVAcctId)
		if got != want {
			e.Fail("account "+text, "round %d: account reads as (name, commodity, note, closed, ids) %s, should be %s\n%s", round, got, want, in)
			return
		}
		var b strings.Builder
		if err := a.Write(&b, false); err != nil {
			e.Fail("write "+text, "cannot write: %v", err)
			return
		}
		in = b.String()
		if round > 0 && in != prev {
			e.Fail("text "+text, "writing what was read gives\n%s instead of\n%s", in, prev)
			return
		}
		prev = in
	}
}

func p11price(e *Env, dec int, date time.Time, val string) {
	head := comsText(Com{Id: "AAA", Dec: 2}, Com{Id: "B_1", Dec: dec})
	want := fmt.Sprintf("P %s AAA %s B_1", dateStr(date), fmtDec(parseDec(val, dec), dec))
	e.State(want)
	in := fmt.Sprintf("P %s AAA %s B_1\n", dateStr(date), val)
	text := in
	for round := 0; round < 3; round++ {
		_, out, failed := e.lib(func() {
			coin.Load(strings.NewReader(head+in), "t.coin")
			coin.ResolvePrices()
		})
		if failed || len(coin.Prices) != 1 {
			e.Fail("price "+text, "price is refused: %s\n%s", out, in)
			return
		}
		p := coin.Prices[0]
		got := fmt.Sprintf("P %s %s %v %s", p.Time.Format("2006/01/02"), p.Commodity.Id, p.Value, p.Currency.Id)
		var b strings.Builder
		p.Write(&b, false)
		if got != want || strings.Join(strings.Fields(b.String()), " ") != want || p.Value.Commodity.Id != "B_1" {
			e.Fail("price "+text, "price %s reads as %q and is written as %q, should be %q", text, got, b.String(), want)
			return
		}
		in = b.String()
		if !strings.HasSuffix(in, "\n") {
			e.Fail("price end "+text, "price is written without line end: %q", in)
		}
	}
}

// p11mixed writes several entries of all kinds one after the other and reads the lot.
func p11mixed(e *Env, order []int, sep string) {
	entries := []string{"commodity AAA\n  note n1\n  format 1.000 AAA\n", "commodity BBB\n  format 1 BBB\n  symbol B.TO\n", "account X\n  note about X\n  commodity AAA\n", "account X:Y\n  commodity BBB\n  closed 2020/12/31\n", "P 2020/01/01 AAA 3 BBB\n", "P 2019/12/31 BBB 2.500 AAA\n"}
	text := ""
	have := map[int]bool{}
	for _, k := range order {
		if k >= 4 && !(have[0] && have[1]) {
			return // prices need their commodities first
		}
		have[k] = true
		text += entries[k] + sep
	}
	write := func() string {
		var b strings.Builder
		coin.CommoditiesDo(func(c *coin.Commodity) { c.Write(&b, false); b.WriteString(sep) })
		coin.AccountsDo(func(a *coin.Account) {
			if a.FullName != "Root" && a.FullName != "Unbalanced" {
				a.Write(&b, false)
				b.WriteString(sep)
			}
		})
		for _, p := range coin.Prices {
			p.Write(&b, false)
		}
		return b.String()
	}
	in, prev := text, ""
	for round := 0; round < 3; round++ {
		_, out, failed := e.lib(func() {
			coin.DefaultCommodityId = "AAA"
			coin.Load(strings.NewReader(in), "t.coin")
			coin.ResolveAll()
		})
		if failed {
			e.Fail("mixed "+text, "round %d refused: %s\n%s", round, out, in)
			return
		}
		in = write()
		if round == 0 {
			// the parts are those written, in some order
			split := func(s string) []string {
				var out []string
				for _, l := range nonEmptyLines(s) {
					out = append(out, strings.TrimSpace(l))
				}
				sort.Strings(out)
				return out
			}
			if w, g := split(text), split(in); fmt.Sprint(w) != fmt.Sprint(g) {
				e.Fail("mixed "+text, "reading and writing\n%s gives\n%s", text, in)
				return
			}
		}
		if round > 0 && in != prev {
			e.Fail("mixed "+text, "writing again gives\n%s instead of\n%s", in, prev)
			return
		}
		prev = in
	}
	e.State(text)
}

var p11notes = []string{"", "x", "two words", "; semicolon first", ";x", "a note; with # and : signs", "default", "nomarket", "symbol X", "format 1.0 ZZZ", "note note", "closed 2020/01/01", "commodity USD", "ünï ☃", "-", "1.00 CAD", "a  double  blank", strings.Repeat("long ", 40) + "end"}

func init() {
	register(&Prop{
		ID: "P11", Level: "model_checking",
		Rule:        "a case is one kind of entry with one value of its first directive; states are distinct entries",
		Assumptions: []string{"coin's own format (not the quoting for ledger-cli)", "notes are compared without trailing blanks"},
		Spaces: func(tier string) []Space {
			coms := func(c *Chooser) *Case {
				id := []string{"CAD", "A", "X1y", "a_b"}[c.N(4)]
				note := p11notes[c.N(len(p11notes))]
				return &Case{Key: fmt.Sprint("commodity ", id, note), Run: func(e *Env) {
					for f := -1; f <= 6; f++ {
						for _, nm := range []bool{false, true} {
							for _, sym := range []string{"", "A", "9", "VGRO.TO", "x_1", "default", "note"} {
								for _, def := range []bool{false, true} {
									var ds []p11dir
									if note != "" {
										ds = append(ds, p11dir{"note", note})
									}
									if f >= 0 {
										v := []string{"1", "1000", "0"}[f%3]
										if f > 0 {
											v += "." + strings.Repeat("0", f)
										}
										ds = append(ds, p11dir{"format", v + " " + id})
									}
									if nm {
										ds = append(ds, p11dir{"nomarket", ""})
									}
									if sym != "" {
										ds = append(ds, p11dir{"symbol", sym})
									}
									if def {
										ds = append(ds, p11dir{"default", ""})
									}
									p11commodity(e, id, ds)
								}
							}
						}
					}
				}}
			}
			comOrders := func(c *Chooser) *Case {
				mask := c.N(32)
				all := []p11dir{{"note", "some text"}, {"format", "1.000 CAD"}, {"nomarket", ""}, {"symbol", "S"}, {"default", ""}}
				return &Case{Key: fmt.Sprint("commodity orders ", mask), Run: func(e *Env) {
					var ds []p11dir
					for i := range all {
						if mask>>i&1 == 1 {
							ds = append(ds, all[i])
						}
					}
					permute(len(ds), func(p []int) {
						var o []p11dir
						for _, k := range p {
							o = append(o, ds[k])
						}
						p11commodity(e, "CAD", o)
					})
				}}
			}
			accs := func(c *Chooser) *Case {
				name := []string{"A", "Assets:Bank", "x-y/z_1:Q9", "A:B:C:D:E"}[c.N(4)]
				note := p11notes[c.N(len(p11notes))]
				return &Case{Key: fmt.Sprint("account ", name, note), Run: func(e *Env) {
					for _, com := range []string{"", "CAD", "USD", "X1y"} {
						for _, cl := range []string{"", "2020/02/29", "1999/12/31", "9999/12/31", "0001/01/01"} {
							for _, b := range []string{"", "0", "007", "123456789"} {
								for _, id := range []string{"", "1", "98765"} {
									for _, csv := range []string{"", "a", "9_x"} {
										var ds []p11dir
										for _, d := range []p11dir{{"note", note}, {"commodity", com}, {"closed", cl}, {"ofx_bankid", b}, {"ofx_acctid", id}, {"csv_acctid", csv}} {
											if d.value != "" {
												ds = append(ds, d)
											}
										}
										p11account(e, name, ds)
									}
								}
							}
						}
					}
				}}
			}
			accOrders := func(c *Chooser) *Case {
				mask := c.N(64)
				all := []p11dir{{"note", "some text"}, {"commodity", "USD"}, {"closed", "2020/01/31"}, {"ofx_bankid", "1"}, {"ofx_acctid", "2"}, {"csv_acctid", "c"}}
				return &Case{Key: fmt.Sprint("account orders ", mask), Run: func(e *Env) {
					var ds []p11dir
					for i := range all {
						if mask>>i&1 == 1 {
							ds = append(ds, all[i])
						}
					}
					permute(len(ds), func(p []int) {
						var o []p11dir
						for _, k := range p {
							o = append(o, ds[k])
						}
						p11account(e, "A:B", o)
					})
				}}
			}
			prices := func(c *Chooser) *Case {
				dec := c.N(7)
				return &Case{Key: fmt.Sprint("prices ", dec), Run: func(e *Env) {
					vals := []string{"0", "1", "-1", "0.5", "-0.05", "12.345678", "-99999.99999", "1000000", "0.000001", "3.1", "007.10"}
					for k := 0; k < 15; k++ {
						vals = append(vals, new(big.Int).Sub(pow10i(2*k), big.NewInt(1)).String(), "-"+new(big.Int).Add(pow10i(2*k), big.NewInt(1)).String()+".01")
					}
					for _, d := range []time.Time{ymdDate(2020, 2, 29), ymdDate(1999, 12, 31), ymdDate(2000, 1, 1), ymdDate(2021, 10, 9), ymdDate(9999, 12, 31), ymdDate(1, 1, 1)} {
						for _, v := range vals {
							p11price(e, dec, d, v)
						}
					}
				}}
			}
			mixed := func(c *Chooser) *Case {
				sep := []string{"\n", "\n\n"}[c.N(2)]
				first := c.N(6)
				return &Case{Key: fmt.Sprint("mixed ", first, sep == "\n"), Run: func(e *Env) {
					permute(6, func(p []int) {
						if p[0] == first {
							p11mixed(e, p, sep)
						}
					})
				}}
			}
			return []Space{
				{Name: "commodities", Rule: "every combination of directive values", Gen: coms},
				{Name: "commodity-orders", Rule: "every subset of the directives in every order", Gen: comOrders},
				{Name: "accounts", Rule: "every combination of directive values", Gen: accs},
				{Name: "account-orders", Rule: "every subset of the directives in every order", Gen: accOrders},
				{Name: "prices", Rule: "prices in currencies of 0-6 decimals", Gen: prices},
				{Name: "mixed", Rule: "six entries of all kinds in every order", Gen: mixed},
			}
		},
	})
}
