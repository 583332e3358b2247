package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

// P05: how a ledger is split into files does not matter.

// p05ent is one entry; date "" for accounts.
type p05ent struct {
	kind, id, date, text string
}

func p05tx(i int, date string) p05ent {
	a := []string{"A", "A:Sub", "C"}[i%3]
	t := Tx{Date: date, Desc: fmt.Sprint("n", i), Ps: []Post{{Acc: a, Amt: cents(int64(100 + i*i*31)), Com: "CAD"}, {Acc: "B"}}}
	if i%2 == 1 {
		t.Notes = []string{"long note"}
		t.Ps[0].Notes = []string{"#tag: x", "more"}
	}
	return p05ent{"tx", fmt.Sprint("n", i), date, t.text()}
}

func p05price(i int) p05ent {
	d := dateStr(ymdDate(2019, 11, 20).AddDate(0, 0, i*i*9))
	return p05ent{"price", fmt.Sprint(i), d, Pri{d, []string{"USD", "EUR"}[i%2], "CAD", cents(int64(130 + i))}.text()}
}

func p05acc(i int) p05ent {
	n := fmt.Sprintf("X:Extra%c", 'A'+i)
	return p05ent{"account", n, "", Acc{Name: n, Com: "CAD"}.text()}
}

// p05item is an entry, an include line or filler.
type p05item struct {
	ent  *p05ent
	text string
}

type p05dir struct {
	files Files
	loc   map[string]string // kind/id -> file:line
	ents  []p05ent
}

var p05coms = comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "USD", Dec: 2}, Com{Id: "EUR", Dec: 2})
var p05accs = accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "A:Sub", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}, Acc{Name: "C", Com: "CAD"})

func newP05() *p05dir {
	return &p05dir{files: Files{"commodities.coin": p05coms, "accounts.coin": p05accs}, loc: map[string]string{}}
}

func (d *p05dir) put(fn string, e p05ent) {
	d.loc[e.kind+"/"+e.id] = fmt.Sprintf("%s:%d", fn, lines(d.files[fn])+1)
	d.files[fn] += e.text
	d.ents = append(d.ents, e)
}

func (d *p05dir) raw(fn, s string) { d.files[fn] += s }

// check loads the directory in-process and compares everything.
func (d *p05dir) check(e *Env) {
	key := mustJSON(d.files)
	db := e.Sub("db", d.files)
	cwd, _ := os.Getwd()
	os.Chdir(db)
	os.Setenv("P05DIR", filepath.Join(db, "sub"))
	defer os.Chdir(cwd)
	coin.DB = db
	coin.AccountsFile, coin.CommoditiesFile = filepath.Join(db, "accounts.coin"), filepath.Join(db, "commodities.coin")
	coin.PricesFile, coin.TransactionsFile = filepath.Join(db, "prices.coin"), filepath.Join(db, "transactions.coin")
	_, out, failed := e.lib(coin.LoadAll)
	if failed {
		e.Fail("load "+key, "loading fails (%s): %s", out, key)
		return
	}
	rel := func(loc string) string {
		i := strings.LastIndex(loc, ":")
		if i < 0 {
			return loc
		}
		p := loc[:i]
		if !filepath.IsAbs(p) {
			p = filepath.Join(db, p)
		}
		r, err := filepath.Rel(db, p)
		if err != nil {
			return loc
		}
		return r + loc[i:]
	}
	var want, got []string
	var txs []p05ent
	for _, x := range d.ents {
		if x.kind == "tx" {
			txs = append(txs, x)
		}
	}
	sort.SliceStable(txs, func(i, j int) bool { return txs[i].date < txs[j].date })
	for _, x := range txs {
		want = append(want, x.id+" "+x.date+" "+d.loc["tx/"+x.id])
	}
	for _, t := range coin.Transactions {
		got = append(got, t.Description+" "+t.Posted.Format("2006/01/02")+" "+rel(t.Location()))
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		e.Fail("transactions "+key, "transactions read: %v\nshould be: %v\n%s", got, want, key)
		return
	}
	// balances in date order
	bal := map[string]*big.Int{}
	for i, x := range txs {
		t := coin.Transactions[i]
		p := t.Postings[0]
		if bal[p.Account.FullName] == nil {
			bal[p.Account.FullName] = new(big.Int)
		}
		b := bal[p.Account.FullName]
		b.Add(b, p.Quantity.Int)
		if p.Balance.Int.Cmp(b) != 0 {
			e.Fail("balance "+key, "balance after %s is %v, should be %v\n%s", x.id, p.Balance, b, key)
		}
		// the whole content of the entry
		var buf strings.Builder
		t.Write(&buf, false)
		w := strings.Join(strings.Fields(x.text), " ")
		g := strings.Join(strings.Fields(buf.String()), " ")
		// the second amount is left out in the ledger
		if len(g) < len(w) || !strings.HasPrefix(g, w) {
			e.Fail("content "+key, "entry reads as %q, is written %q\n%s", g, w, key)
		}
	}
	// prices
	want, got = nil, nil
	for _, x := range d.ents {
		if x.kind == "price" {
			want = append(want, strings.TrimSpace(x.text)+" "+d.loc["price/"+x.id])
		}
	}
	for _, p := range coin.Prices {
		got = append(got, fmt.Sprintf("P %s %s %v %s %s", p.Time.Format("2006/01/02"), p.Commodity.Id, p.Value, p.Currency.Id, rel(p.Location())))
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprint(want) != fmt.Sprint(got) {
		e.Fail("prices "+key, "prices read: %v\nshould be: %v\n%s", got, want, key)
	}
	byCom := map[string]int{}
	for _, x := range d.ents {
		if x.kind == "price" {
			byCom[strings.Fields(x.text)[2]]++
		}
	}
	for _, c := range []string{"USD", "EUR"} {
		n := 0
		for _, l := range coin.Commodities[c].Prices {
			n += len(l)
			for i := 1; i < len(l); i++ {
				if l[i].Time.After(l[i-1].Time) {
					e.Fail("price order "+key, "prices of %s are not the latest first\n%s", c, key)
				}
			}
		}
		if n != byCom[c] {
			e.Fail("price count "+key, "%s has %d prices, should have %d\n%s", c, n, byCom[c], key)
		}
	}
	// accounts
	names := []string{"A", "A:Sub", "B", "C"}
	for _, x := range d.ents {
		if x.kind == "account" {
			names = append(names, x.id)
			if a := coin.AccountsByName[x.id]; a == nil || rel(a.Location()) != d.loc["account/"+x.id] {
				e.Fail("account "+key, "account %s is not found at %s\n%s", x.id, d.loc["account/"+x.id], key)
			}
		}
	}
	if w, g := closure(names), sortedKeys(coin.AccountsByName); fmt.Sprint(w) != fmt.Sprint(g) {
		e.Fail("accounts "+key, "accounts read: %v, should be %v\n%s", g, w, key)
	}
	if len(coin.Commodities) != 3 {
		e.Fail("commodities "+key, "%d commodities\n%s", len(coin.Commodities), key)
	}
	e.State(fmt.Sprint(d.loc))
	e.Outcome(fmt.Sprint(got))
}

func (d *p05dir) Case() *Case { return &Case{Key: mustJSON(d.files), Run: d.check} }

var p05dates = []string{"2020/01/05", "2019/12/31", "2020/02/29", "2021/01/01", "2019/01/07"}

func permFromIndex(n, idx int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	var out []int
	for i := n - 1; i >= 0; i-- {
		k := idx / f
		idx %= f
		out = append(out, left[k])
		left = append(append([]int{}, left[:k]...), left[k+1:]...)
		if i > 0 {
			f /= i
		}
	}
	return out
}

func fact(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

func p05cli(d *p05dir, one *p05dir) *Case {
	return &Case{Key: mustJSON(d.files), Run: func(e *Env) {
		key := mustJSON(d.files)
		db, db1 := e.Sub("db", d.files), e.Sub("db1", one.files)
		env := []string{"P05DIR=" + filepath.Join(db, "sub")}
		for _, args := range [][]string{{"balance", "-z"}, {"register", "-r", "Root"}, {"register", "-m", "-r", "Root"}, {"stats"}, {"com", "-p"}, {"tags", "-v", "-a"}, {"register", "-f", "-r", "Root"}} {
			if args[0] == "com" {
				skip := false
				for k, l := range d.loc {
					skip = skip || strings.HasPrefix(k, "price/") && !strings.Contains(l, "price")
				}
				if skip {
					continue // this command reads only price files
				}
			}
			r, r1 := e.RunEnv("coin", db, env, "", args...), e.RunEnv("coin", db1, env, "", args...)
			if r.Code != 0 || r1.Code != 0 {
				e.Fail("exit "+key, "coin %v: exit %d / %d: %s %s\n%s", args, r.Code, r1.Code, r.Err, r1.Err, key)
				continue
			}
			if !contains(args, "-f") {
				if r.Out != r1.Out {
					e.Fail("report "+key, "coin %v differs from the ledger in one file:\n%s\n%s\n%s", args, r.Out, r1.Out, key)
				}
				continue
			}
			// every row names the place of its transaction
			for _, l := range nonEmptyLines(r.Out) {
				for k, loc := range d.loc {
					if id, ok := strings.CutPrefix(k, "tx/"); ok && hasToken(l, id) {
						ok := false
						for _, f := range strings.Fields(strings.ReplaceAll(l, "|", " ")) {
							ok = ok || f == loc || f == db+"/"+loc || strings.HasSuffix(f, "/"+loc)
						}
						if !ok {
							e.Fail("location "+key, "row of %s does not name its place %s: %s\n%s", id, loc, l, key)
						}
					}
				}
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P05", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one ledger directory; states are distinct placements of entries",
		Assumptions: []string{"transactions of one day stand in one order (entries here have different days)", "prices.coin replaces *.prices and transactions.coin replaces other .coin files, as documented", "no include loops"},
		Spaces: func(tier string) []Space {
			n := 4
			if tier == "thorough" {
				n = 5
			}
			assign := func(c *Chooser) *Case {
				k := 1 + c.N(n)
				perm := permFromIndex(k, c.N(fact(k)))
				d := newP05()
				if k == 4 && c.N(2) == 1 || k < 4 && c.N(2) == 1 {
					d.raw("prices.coin", "")
				}
				names := []string{"2020.coin", "a.coin", "zz.coin"}
				if k <= 2 {
					names = append(names, "_b.coin", "2020 bank.coin", "UPPER.coin", "transactions2.coin", "my-accounts.coin", "old.prices.coin", "x-test.coin", "2020.01.coin", "commodities2.coin")
				}
				for _, i := range perm {
					d.put(names[c.N(len(names))], p05tx(i, p05dates[i]))
				}
				return d.Case()
			}
			prices := func(c *Chooser) *Case {
				d := newP05()
				mode := c.N(2) // with or without prices.coin
				places := [][]string{{"a.prices", "b.prices", "t.coin", "s.coin"}, {"prices.coin", "t.coin", "s.coin"}}[mode]
				if mode == 1 {
					d.raw("prices.coin", "; prices\n")
				}
				k := 1 + c.N(3)
				perm := permFromIndex(k, c.N(fact(k)))
				d.put("t.coin", p05tx(0, p05dates[0]))
				for _, i := range perm {
					d.put(places[c.N(len(places))], p05price(i))
				}
				d.put("s.coin", p05tx(1, p05dates[1]))
				if c.N(2) == 1 {
					d.put("t.coin", p05acc(0))
				}
				d.put("t.coin", p05tx(2, p05dates[2]))
				return d.Case()
			}
			// include trees: k files, each included from one of the earlier ones
			tree := func(c *Chooser) (*p05dir, *p05dir) {
				d, one := newP05(), newP05()
				k := 1 + c.N(3) // included files
				root := []string{"t.coin", "transactions.coin"}[c.N(2)]
				names := []string{root, "sub/one.inc", "sub/deep/two.inc", "three.inc"}
				if c.Dev(2) == 1 {
					// files of one name in different directories
					names = []string{root, "sub/" + root, "sub/deep/" + root, "three.inc"}
				}
				dirs := []string{"", "sub", "sub/deep", ""}
				parent := make([]int, k+1)
				for i := 1; i <= k; i++ {
					parent[i] = c.N(i)
				}
				kind := make([]int, k+1)
				place := make([]int, k+1)
				for i := 1; i <= k; i++ {
					kind[i] = c.Dev(4) // plain, ./, wildcard, environment
					place[i] = c.Dev(3)
				}
				price := c.Dev(k + 2)
				acc := c.Dev(k + 2)
				txno := 0
				var build func(i int)
				put := func(fn string, x p05ent) {
					d.put(fn, x)
					one.put("only.coin", x)
				}
				build = func(i int) {
					fn := names[i]
					inc := func(pl int) {
						for j := 1; j <= k; j++ {
							if parent[j] != i || place[j] != pl {
								continue
							}
							rel, _ := filepath.Rel("/"+dirs[i], "/"+names[j])
							switch kind[j] {
							case 1:
								rel = "./" + rel
							case 2:
								ext := filepath.Ext(rel)
								rel = strings.TrimSuffix(rel, ext)
								rel = rel[:len(rel)-1] + "[" + rel[len(rel)-1:] + "]" + ext[:2] + "*"
							case 3:
								rel = "${P05DIR}/" + func() string { r, _ := filepath.Rel("/sub", "/"+names[j]); return r }()
							}
							d.raw(fn, "include "+rel+"\n")
							build(j)
						}
					}
					d.raw(fn, "; file\n")
					inc(2)
					put(fn, p05tx(txno, p05dates[txno]))
					txno++
					inc(1)
					if price == i+1 {
						put(fn, p05price(1))
					}
					if acc == i+1 {
						put(fn, p05acc(1))
					}
					inc(0)
				}
				build(0)
				if root == "transactions.coin" {
					d.raw("ignored.txt", "junk\n")
				}
				return d, one
			}
			includes := func(c *Chooser) *Case { d, _ := tree(c); return d.Case() }
			includesCLI := func(c *Chooser) *Case { d, one := tree(c); return p05cli(d, one) }
			wild := func(c *Chooser) *Case {
				// one include line matching several files, itself at every place between entries
				d := newP05()
				pos := c.N(3)
				k := 1 + c.N(3)
				pat := []string{"sub/*.inc", "sub/f?.inc", "sub/f[0-9].inc", "*/f*.inc"}[c.N(4)]
				tail := []string{"\n", "\n\n", "\n; comment\n"}[c.N(3)]
				for i := 0; i < 2; i++ {
					if pos == i {
						d.raw("t.coin", "include "+pat+tail)
					}
					d.put("t.coin", p05tx(i, p05dates[i]))
				}
				if pos == 2 {
					d.raw("t.coin", "include "+pat+tail)
				}
				for i := 0; i < k; i++ {
					d.put(fmt.Sprintf("sub/f%d.inc", i), p05tx(2+i, dateStr(ymdDate(2020, 5, 1).AddDate(0, 0, (i*2)%3))))
				}
				return d.Case()
			}
			metafiles := func(c *Chooser) *Case {
				// includes from the commodity, account and price files
				d := newP05()
				d.files["commodities.coin"] = "include coms/*.inc\n"
				d.raw("coms/a.inc", comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "USD", Dec: 2}))
				d.raw("coms/b.inc", comsText(Com{Id: "EUR", Dec: 2}))
				if c.N(2) == 1 {
					d.files["accounts.coin"] = accsText(Acc{Name: "A", Com: "CAD"}) + "include accs/x.inc\n" + accsText(Acc{Name: "C", Com: "CAD"})
					d.raw("accs/x.inc", accsText(Acc{Name: "A:Sub", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}))
				}
				switch c.N(3) {
				case 1:
					d.raw("prices.coin", "include p/*.pr\n")
					d.put("p/a.pr", p05price(0))
					d.put("p/b.pr", p05price(1))
				case 2:
					d.raw("x.prices", "include p/b.pr\n")
					d.put("x.prices", p05price(2))
					d.put("p/b.pr", p05price(1))
				}
				d.put("t.coin", p05tx(0, p05dates[0]))
				return d.Case()
			}
			cli := func(c *Chooser) *Case {
				k := 3
				perm := permFromIndex(k, c.N(fact(k)))
				d, one := newP05(), newP05()
				for i := 0; i < k; i++ {
					one.put("only.coin", p05tx(i, p05dates[i]))
				}
				for _, i := range perm {
					d.put([]string{"2020.coin", "zz.coin"}[c.N(2)], p05tx(i, p05dates[i]))
				}
				for i := 0; i < 2; i++ {
					one.put("only.prices", p05price(i))
					d.put([]string{"a.prices", "b.prices", "zz.coin"}[c.N(3)], p05price(i))
				}
				if tier != "thorough" && c.trace[0].val%2 == 1 {
					return nil
				}
				return p05cli(d, one)
			}
			bound := 2
			if tier == "thorough" {
				bound = 4
			}
			return []Space{
				{Name: "assignments", Rule: "every order of up to n transactions and every assignment to 3 files", Gen: assign},
				{Name: "prices", Rule: "every order of up to 3 prices over .prices files, prices.coin and transaction files", Gen: prices},
				{Name: "includes", Rule: "every include tree of up to 3 further files, with path kinds, include places, equal base names, and a price or account inside as deviations", Bound: bound, Gen: includes},
				{Name: "wildcards", Rule: "wildcard includes of 1-3 files at every place", Gen: wild},
				{Name: "meta", Rule: "includes from the commodity, account and price files", Gen: metafiles},
				{Name: "commands", Rule: "seven reports over split ledgers compared with the ledger in one file", Gen: cli},
				{Name: "include-commands", Rule: "the same over include trees", Bound: 1, Gen: includesCLI},
			}
		},
	})
}
