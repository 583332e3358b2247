package main

import (
	"fmt"
	"strings"

	"github.com/mkobetic/coin"
)

// P12: layout of ledger files carries no meaning.
// In the templates > is an indentation and ~ a gap between fields.

var p12entries = []string{
	"commodity~CAD\n>note~Dollars, of Canada\n>format~1.00~CAD\n>default\n",
	"commodity~BND\n>format~1.00000~BND\n>nomarket\n>symbol~B.TO\n",
	"account~A\n>note~first account\n>commodity~CAD\n",
	"account~B:C\n>closed~2021/01/01\n>ofx_acctid~123\n>commodity~BND\n",
	"account~D\n",
	"P~2020/01/01~BND~1.25~CAD\n",
	"P~2020/02/01~BND~1.30~CAD\n",
	"2020/01/02~(c1)~Payee One~;~#tag: v 1\n>; long note\n>A~5.00~CAD~=~5.00~CAD~;~short\n>>; posting note #p\n>D\n",
	"2020/01/03\n>A~-1.00~CAD\n>D~1.00~CAD\n",
	"2020/01/04~Other payee\n>B:C~1.50000~BND\n>D~-2.00~CAD~; n\n",
	"2020/01/05~Nothing yet~;~to come\n",
	"test~balance -z\nsome  result\n 0.00 | x\nend test\n",
}

var (
	p12indent = []string{"  ", " ", "\t", "        ", "\t  "}
	p12gap    = []string{" ", "  ", "\t", "          ", " \t "}
	p12trail  = []string{"", " ", "\t", "   "}
	p12before = []string{"\n", "", "\n\n\n", "; comment\n", "# 2020/01/01 no\n", "   \n", "\t\n", "% account X\n", "| x\n", "* y\n", "; a\n\n; b\n", "\n;\n"}
)

// p12dump is everything a ledger means.
func p12dump() string {
	var b strings.Builder
	coin.CommoditiesDo(func(c *coin.Commodity) {
		fmt.Fprintf(&b, "commodity %q %q %d %v %q\n", c.Id, strings.TrimRight(c.Name, " \t"), c.Decimals, c.NoMarket, c.Symbol)
	})
	fmt.Fprintf(&b, "default %s\n", coin.DefaultCommodityId)
	coin.AccountsDo(func(a *coin.Account) {
		fmt.Fprintf(&b, "account %q %s %q %s %s %v\n", a.FullName, a.CommodityId, strings.TrimRight(a.Description, " \t"), dateStr(a.Closed), a.OFXAcctId, a.Balance())
	})
	for _, p := range coin.Prices {
		fmt.Fprintf(&b, "price %s %s %v %s\n", dateStr(p.Time), p.CommodityId, p.Value, p.Value.Commodity.Id)
	}
	for _, t := range coin.Transactions {
		fmt.Fprintf(&b, "tx %s %q %q %q %q\n", dateStr(t.Posted), t.Code, strings.TrimRight(t.Description, "\r"), trimAll(t.Notes), trimMap(t.Tags))
		for _, p := range t.Postings {
			fmt.Fprintf(&b, "  %s %v %s %v %v %q %q\n", p.Account.FullName, p.Quantity, p.Quantity.Commodity.Id, p.Balance, p.BalanceAsserted, trimAll(p.Notes), trimMap(p.Tags))
		}
	}
	for _, t := range coin.Tests {
		fmt.Fprintf(&b, "test %q %q\n", strings.Fields(t.Cmd), strings.TrimRight(string(t.Result), " \t\n"))
	}
	return b.String()
}

func trimAll(l []string) (out []string) {
	for _, s := range l {
		out = append(out, strings.TrimRight(s, " \t"))
	}
	return
}

func trimMap(m map[string]string) []string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, k+"="+m[k])
	}
	return out
}

// p12render draws a ledger with layout choices.
func p12render(entries []string, pick func(n int) int) string {
	var b strings.Builder
	for i, en := range entries {
		if k := pick(len(p12before)); i > 0 || k > 1 {
			b.WriteString(p12before[k])
		}
		inTest := strings.HasPrefix(en, "test")
		for j, l := range strings.SplitAfter(en, "\n") {
			if l == "" {
				continue
			}
			if inTest && j > 0 {
				b.WriteString(l)
				continue
			}
			l = strings.TrimSuffix(l, "\n")
			for l != "" {
				switch {
				case strings.HasPrefix(l, ">>"):
					b.WriteString(p12indent[pick(len(p12indent))] + "  ")
					l = l[2:]
				case l[0] == '>':
					b.WriteString(p12indent[pick(len(p12indent))])
					l = l[1:]
				case l[0] == '~':
					b.WriteString(p12gap[pick(len(p12gap))])
					l = l[1:]
				default:
					k := strings.IndexAny(l, ">~")
					if k < 0 {
						k = len(l)
					}
					b.WriteString(l[:k])
					l = l[k:]
				}
			}
			b.WriteString(p12trail[pick(len(p12trail))] + "\n")
		}
	}
	return b.String()
}

func p12default(entries []string) string {
	return p12render(entries, func(int) int { return 0 })
}

func p12load(e *Env, text string) (string, bool) {
	var dump string
	_, out, failed := e.lib(func() { loadText(text); dump = p12dump() })
	if failed {
		return "refused: " + out, false
	}
	return dump, true
}

func p12compare(e *Env, base, text string, expect string) {
	got, _ := p12load(e, text)
	e.State(text)
	if got != expect {
		e.Fail("layout "+text, "a change of layout changes the meaning:\n--- ledger\n%s\n--- reads as\n%s\n--- should be\n%s", text, got, expect)
	}
}

func init() {
	register(&Prop{
		ID: "P12", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one layout of a ledger; states are distinct file contents",
		Assumptions: []string{"blanks inside descriptions and notes are text, except at their end", "a comment line starts in the first column"},
		Spaces: func(tier string) []Space {
			bound := 2
			expectOf := func() func(e *Env) string {
				var cached string
				return func(e *Env) string {
					if cached == "" {
						d, ok := p12load(e, p12default(p12entries))
						if !ok {
							panic("base ledger is refused: " + d)
						}
						cached = d
					}
					return cached
				}
			}
			whole := expectOf()
			layouts := func(c *Chooser) *Case {
				text := p12render(p12entries, c.Dev)
				return &Case{Key: text, Run: func(e *Env) { p12compare(e, "", text, whole(e)) }}
			}
			ends := func(c *Chooser) *Case {
				// global variations: line ends, missing last line end, all gaps of one kind
				kind := c.N(8)
				style := c.N(3)
				last := len(p12entries)
				if style != 2 {
					last = 1 + c.N(len(p12entries)) // the ledger ends with each kind of entry
				}
				rot := append([]string{}, p12entries...)
				if last < len(rot) && last > 5 {
					rot = append(rot[:last-1:last-1], append(append([]string{}, rot[last:]...), rot[last-1])...)
				}
				text := p12render(rot, func(n int) int {
					if kind < n {
						return kind
					}
					return 0
				})
				switch style {
				case 1:
					text = strings.ReplaceAll(text, "\n", "\r\n")
				}
				plain := p12default(rot)
				cut := strings.TrimSuffix(strings.TrimSuffix(text, "\n"), "\r")
				return &Case{Key: fmt.Sprint(kind, style, last) + text, Run: func(e *Env) {
					want, ok := p12load(e, plain)
					if !ok {
						e.Fail("order "+plain, "ledger refused: %s\n%s", want, plain)
						return
					}
					for _, t := range []string{text, cut, text + "\n", text + "; end", text + "\n\n  \n", cut + " ", "\n" + text, "; start\n" + text, " \n" + text} {
						p12compare(e, "", t, want)
					}
				}}
			}
			neighbours := func(c *Chooser) *Case {
				// every kind of entry directly followed by every other kind, with every separator
				i, j := c.N(len(p12entries)), c.N(len(p12entries))
				k := c.N(len(p12before))
				if i == j {
					return nil
				}
				pre := []string{}
				for n, x := range p12entries[:5] {
					if n != i && n != j {
						pre = append(pre, x)
					}
				}
				if i >= 2 && j < 2 && i > 4 {
					return nil // commodities come before their use
				}
				if i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || j >= 5 {
					// fine: commodities are in pre or come first
					if (i < 2 && j < 2) || (j < 2 && i >= 2) {
						return nil
					}
				}
				two := []string{p12entries[i], p12entries[j]}
				head := p12default(pre) + "\n"
				sepd := p12default(two[:1]) + "\n\n" + p12default(two[1:])
				text := p12default(two[:1]) + p12before[k] + p12default(two[1:])
				return &Case{Key: fmt.Sprint("neighbours ", i, j, k), Run: func(e *Env) {
					want, ok := p12load(e, head+sepd)
					if !ok {
						return // the pair alone is not a ledger
					}
					p12compare(e, "", head+text, want)
				}}
			}
			cli := func(c *Chooser) *Case {
				text := p12render(p12entries[5:11], c.Dev)
				base := p12default(p12entries[5:11])
				crlf := c.Dev(2) == 1
				if crlf {
					text = strings.ReplaceAll(text, "\n", "\r\n")
				}
				return &Case{Key: "commands " + text, Run: func(e *Env) {
					head := Files{"commodities.coin": p12default(p12entries[:2]), "accounts.coin": p12default(p12entries[2:5])}
					with := func(t string) Files {
						f := Files{"t.coin": t}
						for k, v := range head {
							f[k] = v
						}
						return f
					}
					db, db0 := e.Sub("db", with(text)), e.Sub("db0", with(base))
					for _, args := range [][]string{{"register", "-r", "-v", "Root"}, {"format", db + "/t.coin"}} {
						r := e.Run("coin", db, args...)
						if args[0] == "format" {
							args = []string{"format", db0 + "/t.coin"}
						}
						r0 := e.Run("coin", db0, args...)
						norm := func(s string) string { // trailing blanks of notes and descriptions
							ls := strings.Split(s, "\n")
							for i := range ls {
								ls[i] = strings.Join(strings.Fields(ls[i]), " ")
							}
							return strings.Join(ls, "\n")
						}
						if r.Code != r0.Code || norm(r.Out) != norm(r0.Out) {
							e.Fail("commands "+text, "coin %v: exit %d and %d\n%s%s\n--- plain layout\n%s%s", args, r.Code, r0.Code, r.Out, r.Err, r0.Out, r0.Err)
						}
					}
				}}
			}
			incs := func(c *Chooser) *Case {
				gap, trail := p12gap[c.N(len(p12gap))], p12trail[c.N(len(p12trail))]
				path := []string{"sub/x.inc", "./sub/x.inc", "sub/*.inc", "sub/a b.txt", "${P12DIR}/sub/x.inc"}[c.N(5)]
				before, end := p12before[c.N(len(p12before))], []string{"\n", "\r\n", ""}[c.N(3)]
				at := c.N(3)
				return &Case{Key: fmt.Sprintf("include %q %q %q %q %d", gap, trail, before, end, at) + path, Run: func(e *Env) {
					line := "include" + gap + path + trail + end
					two := []string{p12default(p12entries[5:8]), p12default(p12entries[8:9])}
					text := ""
					for i, x := range two {
						if i == at {
							text += line
							if end != "" {
								text += before
							} else {
								return // needs its line end
							}
						}
						if i > 0 && at == 2 {
							x = "\n" + x
						}
						text += x
					}
					if at == 2 {
						text += before + line
						if before == "" {
							return
						}
					}
					inc := p12default(p12entries[9:10])
					plain := two[0] + "\n" + two[1] + "\n" + inc
					mk := func(name, t string) string {
						return e.Sub(name, Files{"commodities.coin": p12default(p12entries[:2]), "accounts.coin": p12default(p12entries[2:5]), "t.coin": t, "sub/x.inc": inc, "sub/a b.txt": inc})
					}
					db, db0 := mk("db", text), mk("db0", plain)
					args := []string{"register", "-r", "-v", "Root"}
					r, r0 := e.RunEnv("coin", db, []string{"P12DIR=" + db}, "", args...), e.Run("coin", db0, args...)
					e.State(text)
					if r.Code != 0 || r.Out != r0.Out {
						e.Fail("include "+text, "with an include, exit %d\n%s%s\n--- everything in one file\n%s%s\n--- ledger\n%s", r.Code, r.Out, r.Err, r0.Out, r0.Err, text)
					}
				}}
			}
			small := []string{p12entries[0], p12entries[2], p12entries[4], p12entries[7], p12entries[8]}
			var smallWant string
			deep := func(c *Chooser) *Case {
				text := p12render(small, c.Dev)
				return &Case{Key: text, Run: func(e *Env) {
					if smallWant == "" {
						smallWant, _ = p12load(e, p12default(small))
					}
					p12compare(e, "", text, smallWant)
				}}
			}
			cb := 1
			if tier == "thorough" {
				cb = 2
			}
			spaces := []Space{
				{Name: "line-ends", Rule: "line-end styles, missing last line end, blank and comment lines at both ends, uniform gaps, ledgers ending with each kind of entry", Gen: ends},
				{Name: "neighbours", Rule: "every ordered pair of entries with every separator", Gen: neighbours},
				{Name: "layouts", Rule: "a ledger of 12 entries of all kinds with up to b layout variations at any of its gaps", Bound: bound, Gen: layouts},
				{Name: "commands", Rule: "register and format over layouts with up to b variations", Bound: cb, Gen: cli},
			}
			spaces = append(spaces, Space{Name: "includes", Rule: "layout of an include line at every place", Gen: incs})
			if tier == "thorough" {
				spaces = append(spaces, Space{Name: "layouts-3", Rule: "a ledger of 5 entries with up to 3 layout variations", Bound: 3, Gen: deep})
			}
			return spaces
		},
	})
}
