package main

import (
	"compress/gzip"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P29: GnuCash conversion conserves the book.

type gcCom struct {
	id, name string
	frac     int64 // 0 is left out
}

func (c gcCom) dec() int {
	if c.frac == 0 {
		return 2
	}
	return len(fmt.Sprint(c.frac)) - 1
}

type gcAcc struct {
	name   string
	parent int // index of the parent, -1 for the root account
	com    string
	desc   string
	online string
}

type gcPrice struct{ stamp, com, cur, num, den string }

type gcSplit struct {
	acc            int
	num, den, memo string
}

type gcTx struct {
	stamp, num, desc string
	splits           []gcSplit
}

type gcBook struct {
	coms     []gcCom
	accs     []gcAcc
	order    []int // order the accounts are listed in, -1 is the root account
	prices   []gcPrice
	txs      []gcTx
	template bool // with scheduled transactions
}

func xmlText(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func gcGuid(i int) string { return fmt.Sprintf("%032x", i+7) }

func (b gcBook) xml() string {
	var w strings.Builder
	p := func(f string, args ...any) { fmt.Fprintf(&w, f+"\n", args...) }
	com := func(el, id string) {
		p("<%s><cmdty:space>%s</cmdty:space><cmdty:id>%s</cmdty:id></%s>", el, "CURRENCY", id, el)
	}
	p(`<?xml version="1.0" encoding="utf-8" ?>`)
	p(`<gnc-v2 xmlns:gnc="http://www.gnucash.org/XML/gnc" xmlns:act="http://www.gnucash.org/XML/act" xmlns:book="http://www.gnucash.org/XML/book" xmlns:cd="http://www.gnucash.org/XML/cd" xmlns:cmdty="http://www.gnucash.org/XML/cmdty" xmlns:price="http://www.gnucash.org/XML/price" xmlns:slot="http://www.gnucash.org/XML/slot" xmlns:split="http://www.gnucash.org/XML/split" xmlns:trn="http://www.gnucash.org/XML/trn" xmlns:ts="http://www.gnucash.org/XML/ts" xmlns:sx="http://www.gnucash.org/XML/sx">`)
	p(`<gnc:count-data cd:type="book">1</gnc:count-data><gnc:book version="2.0.0"><book:id type="guid">%s</book:id>`, gcGuid(9999))
	for _, c := range b.coms {
		p("<gnc:commodity version=\"2.0.0\"><cmdty:space>CURRENCY</cmdty:space><cmdty:id>%s</cmdty:id>", c.id)
		if c.name != "" {
			p("<cmdty:name>%s</cmdty:name>", xmlText(c.name))
		}
		if c.frac > 0 {
			p("<cmdty:fraction>%d</cmdty:fraction>", c.frac)
		}
		p("<cmdty:get_quotes/></gnc:commodity>")
	}
	if b.template {
		p("<gnc:commodity version=\"2.0.0\"><cmdty:space>template</cmdty:space><cmdty:id>template</cmdty:id><cmdty:name>template</cmdty:name><cmdty:xcode>template</cmdty:xcode><cmdty:fraction>1</cmdty:fraction></gnc:commodity>")
	}
	if len(b.prices) > 0 {
		p("<gnc:pricedb version=\"1\">")
		for i, x := range b.prices {
			p("<price><price:id type=\"guid\">%s</price:id>", gcGuid(5000+i))
			com("price:commodity", x.com)
			com("price:currency", x.cur)
			p("<price:time><ts:date>%s</ts:date></price:time><price:source>user:price</price:source><price:value>%s/%s</price:value></price>", x.stamp, x.num, x.den)
		}
		p("</gnc:pricedb>")
	}
	order := b.order
	if order == nil {
		order = []int{-1}
		for i := range b.accs {
			order = append(order, i)
		}
	}
	for _, i := range order {
		if i < 0 {
			p("<gnc:account version=\"2.0.0\"><act:name>Root Account</act:name><act:id type=\"guid\">%s</act:id><act:type>ROOT</act:type></gnc:account>", gcGuid(-1))
			continue
		}
		a := b.accs[i]
		p("<gnc:account version=\"2.0.0\"><act:name>%s</act:name><act:id type=\"guid\">%s</act:id><act:type>BANK</act:type>", xmlText(a.name), gcGuid(i))
		com("act:commodity", a.com)
		p("<act:commodity-scu>100</act:commodity-scu>")
		if a.desc != "" {
			p("<act:description>%s</act:description>", xmlText(a.desc))
		}
		p("<act:slots><slot><slot:key>color</slot:key><slot:value type=\"string\">Not Set</slot:value></slot>")
		if a.online != "" {
			p("<slot><slot:key>online_id</slot:key><slot:value type=\"string\">%s</slot:value></slot>", a.online)
		}
		p("</act:slots><act:parent type=\"guid\">%s</act:parent></gnc:account>", gcGuid(a.parent))
	}
	tx := func(k int, t gcTx) {
		p("<gnc:transaction version=\"2.0.0\"><trn:id type=\"guid\">%s</trn:id>", gcGuid(1000+k))
		com("trn:currency", b.coms[0].id)
		if t.num != "" {
			p("<trn:num>%s</trn:num>", t.num)
		}
		p("<trn:date-posted><ts:date>%s</ts:date></trn:date-posted><trn:date-entered><ts:date>2021-12-04 16:41:25 -0500</ts:date></trn:date-entered><trn:description>%s</trn:description><trn:splits>", t.stamp, xmlText(t.desc))
		for j, s := range t.splits {
			p("<trn:split><split:id type=\"guid\">%s</split:id>", gcGuid(100000+k*100+j))
			if s.memo != "" {
				p("<split:memo>%s</split:memo>", xmlText(s.memo))
			}
			p("<split:reconciled-state>n</split:reconciled-state><split:value>12345/100</split:value><split:quantity>%s/%s</split:quantity><split:account type=\"guid\">%s</split:account></trn:split>", s.num, s.den, gcGuid(s.acc))
		}
		p("</trn:splits></gnc:transaction>")
	}
	for k, t := range b.txs {
		tx(k, t)
	}
	if b.template {
		p("<gnc:template-transactions><gnc:account version=\"2.0.0\"><act:name>Template Root</act:name><act:id type=\"guid\">%s</act:id><act:type>ROOT</act:type></gnc:account>", gcGuid(700))
		p("<gnc:account version=\"2.0.0\"><act:name>%s</act:name><act:id type=\"guid\">%s</act:id><act:type>BANK</act:type><act:commodity><cmdty:space>template</cmdty:space><cmdty:id>template</cmdty:id></act:commodity><act:parent type=\"guid\">%s</act:parent></gnc:account>", gcGuid(701), gcGuid(701), gcGuid(700))
		tx(900, gcTx{stamp: "2020-05-05 10:59:00 +0000", desc: "scheduled", splits: []gcSplit{{701, "0", "1", ""}, {701, "0", "1", ""}}})
		p("</gnc:template-transactions>")
	}
	p("</gnc:book></gnc-v2>")
	return w.String()
}

func (b gcBook) full(i int) string {
	n := strings.ReplaceAll(b.accs[i].name, " ", "")
	if p := b.accs[i].parent; p >= 0 {
		return b.full(p) + ":" + n
	}
	return n
}

func (b gcBook) com(id string) gcCom {
	for _, c := range b.coms {
		if c.id == id {
			return c
		}
	}
	panic("no commodity " + id)
}

// gcAmount is num/den in the decimals of the commodity (towards zero).
func gcAmount(num, den string, dec int) *big.Int {
	n, _ := new(big.Int).SetString(num, 10)
	d, _ := new(big.Int).SetString(den, 10)
	n.Mul(n, pow10i(dec))
	return n.Quo(n, d)
}

func gcDay(stamp string) string { return strings.ReplaceAll(stamp[:10], "-", "/") }

// want lists everything of the book, sorted.
func (b gcBook) want() (out []string) {
	add := func(f string, args ...any) { out = append(out, fmt.Sprintf(f, args...)) }
	for _, c := range b.coms {
		add("commodity %s %q %d", c.id, c.name, c.dec())
	}
	sums := map[string]*big.Int{}
	for i, a := range b.accs {
		bank, acct := "", ""
		if m := cachedRex(`^((\d+)\s+)?(\d+)$`).FindStringSubmatch(strings.TrimSpace(a.online)); m != nil {
			bank, acct = m[2], m[3]
		}
		add("account %s %s %q %s/%s", b.full(i), a.com, a.desc, bank, acct)
		sums[b.full(i)] = new(big.Int)
	}
	for _, p := range b.prices {
		d := b.com(p.cur).dec()
		add("price %s %s %s %s", gcDay(p.stamp), p.com, fmtDec(gcAmount(p.num, p.den, d), d), p.cur)
	}
	for _, t := range b.txs {
		desc, note, _ := strings.Cut(t.desc, " - ")
		var notes []string
		if note != "" {
			notes = []string{note}
		}
		var ps []string
		for _, s := range t.splits {
			c := b.com(b.accs[s.acc].com)
			v := gcAmount(s.num, s.den, c.dec())
			var ns []string
			if s.memo != "" {
				ns = []string{s.memo}
			}
			n := b.full(s.acc)
			sums[n].Add(sums[n], v)
			ps = append(ps, fmt.Sprintf("%s %s %s %q", n, fmtDec(v, c.dec()), c.id, ns))
		}
		sort.Strings(ps)
		add("tx %s %q %q %q %s", gcDay(t.stamp), t.num, desc, notes, strings.Join(ps, ", "))
	}
	for i, a := range b.accs {
		add("balance %s %s %s", b.full(i), fmtDec(sums[b.full(i)], b.com(a.com).dec()), a.com)
	}
	sort.Strings(out)
	return
}

// gcGot lists everything loaded.
func gcGot() (out []string) {
	add := func(f string, args ...any) { out = append(out, fmt.Sprintf(f, args...)) }
	coin.CommoditiesDo(func(c *coin.Commodity) { add("commodity %s %q %d", c.Id, c.Name, c.Decimals) })
	coin.AccountsDo(func(a *coin.Account) {
		if a == coin.Root || a == coin.Unbalanced {
			return
		}
		add("account %s %s %q %s/%s", a.FullName, a.Commodity.Id, a.Description, a.OFXBankId, a.OFXAcctId)
		add("balance %s %v %s", a.FullName, a.Balance(), a.Balance().Commodity.Id)
	})
	for _, p := range coin.Prices {
		add("price %s %s %v %s", dateStr(p.Time), p.Commodity.Id, p.Value, p.Currency.Id)
	}
	for _, t := range coin.Transactions {
		var ps []string
		for _, p := range t.Postings {
			ps = append(ps, fmt.Sprintf("%s %v %s %q", p.Account.FullName, p.Quantity, p.Quantity.Commodity.Id, p.Notes))
		}
		sort.Strings(ps)
		add("tx %s %q %q %q %s", dateStr(t.Posted), t.Code, t.Description, t.Notes, strings.Join(ps, ", "))
	}
	sort.Strings(out)
	return
}

var gcHead = regexp.MustCompile(`(?m)^(commodity|account) .*$`)

// p29check converts the book in every mode and compares what loads with the book.
func p29check(e *Env, b gcBook, modes ...int) {
	src := e.Sub("src", nil)
	fn := filepath.Join(src, "book.gnucash")
	f, err := os.Create(fn)
	must(err)
	z, _ := gzip.NewWriterLevel(f, gzip.BestSpeed)
	text := b.xml()
	_, err = z.Write([]byte(text))
	must(err)
	must(z.Close())
	must(f.Close())
	e.State(text)
	want := b.want()
	for _, mode := range modes {
		db := e.Sub("db", nil)
		what := []string{"to stdout", "to a directory", "by year"}[mode]
		var r Result
		switch mode {
		case 0:
			r = e.RunEnv("gc2coin", db, []string{"COINDB="}, "", "-gnucashdb", fn)
		case 1:
			r = e.RunEnv("gc2coin", db, []string{"GNUCASHDB=" + fn}, "")
		case 2:
			r = e.Run("gc2coin", db, "-y", "-gnucashdb", fn)
		}
		files := map[string]string{}
		if mode == 0 {
			files["stdout"] = r.Out
		} else {
			es, _ := os.ReadDir(db)
			for _, x := range es {
				files[x.Name()] = string(mustRead(filepath.Join(db, x.Name())))
			}
		}
		input := func() string {
			s := fmt.Sprintf("gc2coin %s: exit code %d\n%s\n", what, r.Code, r.Err)
			for _, n := range sortedKeys(files) {
				s += "--- " + n + "\n" + clipped(files[n], 3000)
			}
			return s + "--- book\n" + clipped(strings.Join(want, "\n"), 4000)
		}
		sig := fmt.Sprint(mode, hash64(text))
		if r.Code != 0 {
			e.Fail("exit "+sig, "%s", input())
			return
		}
		var got []string
		load := func() {
			if mode == 0 {
				loadText(r.Out)
			} else {
				coin.DB = db
				coin.AccountsFile, coin.CommoditiesFile = filepath.Join(db, "accounts.coin"), filepath.Join(db, "commodities.coin")
				coin.PricesFile, coin.TransactionsFile = filepath.Join(db, "prices.coin"), filepath.Join(db, "transactions.coin")
				coin.LoadAll()
			}
			got = gcGot()
		}
		stderr, msg, failed := e.lib(load)
		if failed {
			e.Fail("load "+sig, "the ledger does not load: %s %s\n%s", msg, stderr, input())
			return
		}
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); g != w {
			e.Fail("diff "+sig, "the ledger differs from the book (got / want):\n%s\n%s", firstDiff(g, w), input())
			return
		}
		// nothing is defined twice, transactions are in date order
		seen := map[string]bool{}
		last := map[string]string{}
		for _, n := range sortedKeys(files) {
			for _, h := range gcHead.FindAllString(files[n], -1) {
				if seen[h] {
					e.Fail("twice "+sig, "%q occurs twice\n%s", h, input())
					return
				}
				seen[h] = true
			}
			for _, l := range strings.Split(files[n], "\n") {
				k := ""
				if strings.HasPrefix(l, "P ") && len(l) > 12 {
					k, l = "P", l[2:12]
				} else if len(l) > 10 && l[0] >= '0' && l[0] <= '9' {
					k, l = "T", l[:10]
				}
				if k == "" {
					continue
				}
				if mode == 2 && n != l[:4]+map[string]string{"P": ".prices", "T": ".coin"}[k] {
					e.Fail("year "+sig, "entry of %s in %s\n%s", l, n, input())
					return
				}
				if l < last[n+k] {
					e.Fail("order "+sig, "%s comes after %s in %s\n%s", l, last[n+k], n, input())
					return
				}
				last[n+k] = l
			}
		}
		e.Outcome(fmt.Sprint(mode, len(got), len(files)))
	}
}

func init() {
	coms := []gcCom{{"CAD", "", 100}, {"USD", "", 0}, {"ZLB", "BMO Low & High ETF", 1000}, {"YEN", "", 1}, {"BTC", "bit", 100000000}}
	accs := []gcAcc{{"Assets", -1, "CAD", "All assets", ""}, {"Bank", 0, "CAD", "", "123 456"}, {"Joint Account", 1, "USD", "joint", "789"}, {"Investments", 0, "ZLB", "", ""}, {"Expenses", -1, "CAD", "what I spent", ""}, {"Yen", 0, "YEN", "", "abc"}, {"Coins", 3, "BTC", "", ""}}
	stamps := []string{"2019-12-31 23:59:00 -0500", "2020-01-01 00:00:00 +0200", "2020-06-15 10:59:00 +0000", "2018-02-28 05:59:00 -0500"}
	register(&Prop{
		ID: "P29", Level: "model_checking", Bins: []string{"gc2coin"},
		Rule:        "a case is a batch of books converted to a stream, a directory and by year, and loaded; states are distinct books",
		Assumptions: []string{"names and codes that coin's text format can express, distinct when spaces are removed", "quantities have no more decimals than the commodity's fraction", "descriptions contain no ';' and do not start with a parenthesised word"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			all := []int{0, 1, 2}
			// every tree of accounts in every listing order
			trees := func(c *Chooser) *Case {
				n := c.N(4)
				if thorough {
					n = c.N(5)
				}
				b := gcBook{coms: coms[:4], template: (c.N(2) == 1)}
				names := []string{"B b", "A", "C-1", "A_x y"}
				for i := 0; i < n; i++ {
					b.accs = append(b.accs, gcAcc{names[i], c.N(i+1) - 1, coms[(i*3+n)%4].id, []string{"", "note of it"}[i%2], ""})
				}
				perm := permFromIndex(n+1, c.N(fact(n+1)))
				for _, k := range perm {
					b.order = append(b.order, k-1)
				}
				for i := 0; i < n; i++ {
					b.txs = append(b.txs, gcTx{stamps[i], "", "t", []gcSplit{{i, fmt.Sprint(i*7 + 3), "1", ""}, {(i + 1) % n, "-17", "1", ""}, {i, "1", "1", ""}}})
					if s := b.txs[i].splits; b.accs[s[0].acc].com == b.accs[s[1].acc].com {
						s[1].num = fmt.Sprint(-i*7 - 4)
					}
				}
				return &Case{Key: fmt.Sprint("trees ", b.accs, b.order, b.template), Run: func(e *Env) {
					p29check(e, b, []int{len(b.accs) % 2, 2}...)
				}}
			}
			// transactions: kinds of splits, texts, dates
			texts := []string{"plain", "x - y", "a - b - c", "", " - only note", "é & <x>", "tail - ", "x-y", strings.Repeat("long ", 14) + "- " + strings.Repeat("n", 30), "#tag: v - #more, k: v", "5 CAD", "a  b"}
			memos := []string{"", "memo", "#t: v", "a; b", strings.Repeat("m", 120)}
			split := func(k int) []gcSplit {
				return [][]gcSplit{
					{{1, "500", "100", ""}, {4, "-500", "100", ""}},
					{{4, "1", "2", ""}, {1, "-1", "4", ""}, {0, "-25", "100", ""}},
					{{3, "82612", "1000", ""}, {1, "-195300", "100", ""}},
					{{2, "-3", "1", ""}, {5, "300", "1", ""}, {6, "1", "100000000", ""}},
					{{1, "0", "1", ""}, {4, "0", "100", ""}},
					{{3, "0", "1", ""}, {1, "7", "1", ""}, {4, "-7", "1", ""}},
				}[k%6]
			}
			histories := func(c *Chooser) *Case {
				n := 1 + c.N(3)
				if thorough {
					n = 1 + c.N(4)
				}
				var ks []int
				for i := 0; i < n; i++ {
					k := c.N(12)
					ks = append(ks, k)
				}
				return &Case{Key: fmt.Sprint("histories ", ks), Run: func(e *Env) {
					b := gcBook{coms: coms, accs: accs, template: n%2 == 1}
					for i, k := range ks {
						t := gcTx{stamps[k%4], []string{"", "12", "A1"}[(k+i)%3], texts[(k*5+i*7)%len(texts)], append([]gcSplit{}, split(k/2+i)...)}
						for j := range t.splits {
							t.splits[j].memo = memos[(k+i*2+j)%len(memos)]
						}
						b.txs = append(b.txs, t)
						if k > 3 {
							b.prices = append(b.prices, gcPrice{stamps[(k+1)%4], []string{"USD", "ZLB", "BTC"}[k%3], []string{"CAD", "USD"}[k%2-b2i(k%3 == 0)*(k%2)], fmt.Sprint(k*1000 + 1), "1000"})
						}
					}
					modes := []int{0, 1, 2}
					if n > 2 {
						modes = []int{(ks[0] + ks[1] + ks[2]) % 3}
					}
					p29check(e, b, modes...)
				}}
			}
			alltexts := func(c *Chooser) *Case {
				i, m := c.N(len(texts)), c.N(3)
				return &Case{Key: fmt.Sprint("texts ", i, m), Run: func(e *Env) {
					b := gcBook{coms: coms, accs: accs}
					for j, memo := range memos {
						for k := 0; k < 6; k++ {
							t := gcTx{stamps[(i+j)%4], []string{"", "12", "A1", "x_9"}[(j+k)%4], texts[i], append([]gcSplit{}, split(k)...)}
							t.splits[j%len(t.splits)].memo = memo
							t.splits[k%2].memo = memos[(j+k)%len(memos)]
							b.txs = append(b.txs, t)
						}
					}
					p29check(e, b, m)
				}}
			}
			// amounts in every form for every fraction
			amounts := func(c *Chooser) *Case {
				f := []int64{0, 1, 10, 100, 1000, 10000, 1000000, 100000000}[c.N(8)]
				m := c.N(3)
				return &Case{Key: fmt.Sprint("amounts ", f, m), Run: func(e *Env) {
					cs := []gcCom{{"CAD", "", 100}, {"XX", "thing", f}}
					b := gcBook{coms: cs, accs: []gcAcc{{"A", -1, "XX", "", ""}, {"B", -1, "XX", "", ""}, {"C", -1, "CAD", "", ""}}}
					dec := cs[1].dec()
					for _, n := range []string{"0", "1", "5", "99", "100", "123456789", "922337203685477580", "9223372036854775807", "9223372036854775808", "-1", "-50", "-12345678901234567890123"} {
						for _, d := range []int64{1, 2, 5, 10, 20, 25, 100, 1000, 1000000, 100000000} {
							v, _ := new(big.Int).SetString(n, 10)
							if x := new(big.Int).Mul(v, pow10i(dec)); new(big.Int).Rem(x, big.NewInt(d)).Sign() != 0 {
								continue // more decimals than the fraction
							}
							neg := new(big.Int).Neg(v).String()
							b.txs = append(b.txs, gcTx{stamps[len(b.txs)%4], "", "x", []gcSplit{{0, n, fmt.Sprint(d), ""}, {1, neg, fmt.Sprint(d), ""}}})
							b.txs = append(b.txs, gcTx{stamps[len(b.txs)%4], "", "y", []gcSplit{{0, n, fmt.Sprint(d), ""}, {2, "12", "1", ""}}})
							if v.Sign() > 0 {
								b.prices = append(b.prices, gcPrice{stamps[len(b.prices)%4], "CAD", "XX", n, fmt.Sprint(d)}, gcPrice{stamps[len(b.prices)%4], "XX", "CAD", n, "100"})
							}
						}
					}
					p29check(e, b, m)
				}}
			}
			// dates around year ends in every zone, prices and transactions in any order
			dates := func(c *Chooser) *Case {
				z := []string{"-1200", "-0500", "+0000", "+0530", "+1300"}[c.N(5)]
				h := []string{"00:00:00", "05:59:00", "10:59:00", "23:59:59"}[c.N(4)]
				rev := (c.N(2) == 1)
				m := c.N(3)
				return &Case{Key: fmt.Sprint("dates ", z, h, rev, m), Run: func(e *Env) {
					b := gcBook{coms: coms, accs: accs}
					for d := 0; d < 400; d++ {
						t := time.Date(2019, 11, 20, 0, 0, 0, 0, time.UTC).AddDate(0, 0, d)
						s := t.Format("2006-01-02 ") + h + " " + z
						b.txs = append(b.txs, gcTx{s, "", fmt.Sprint("d", d), split(d)})
						if d%3 == 0 {
							b.prices = append(b.prices, gcPrice{s, "ZLB", "CAD", fmt.Sprint(d*10 + 1), "10"})
						}
					}
					if rev {
						for i, j := 0, len(b.txs)-1; i < j; i, j = i+1, j-1 {
							b.txs[i], b.txs[j] = b.txs[j], b.txs[i]
						}
						for i, j := 0, len(b.prices)-1; i < j; i, j = i+1, j-1 {
							b.prices[i], b.prices[j] = b.prices[j], b.prices[i]
						}
					}
					p29check(e, b, m)
				}}
			}
			many := func(c *Chooser) *Case {
				n := []int{9, 13, 14, 30}[c.N(4)]
				shape := c.N(3)
				m := c.N(3)
				return &Case{Key: fmt.Sprint("many ", n, shape, m), Run: func(e *Env) {
					b := gcBook{}
					for i := 0; i < n; i++ {
						id := fmt.Sprintf("K%d", i)
						if i == n/2 && shape != 2 {
							id = "CAD"
						}
						b.coms = append(b.coms, gcCom{id, "", []int64{100, 1, 1000}[i%3]})
						b.accs = append(b.accs, gcAcc{fmt.Sprintf("Acc %d", (i*11)%n), []int{-1, i - 1, i/2 - 1}[shape], id, "", ""})
						if i > 0 {
							b.prices = append(b.prices, gcPrice{stamps[i%2], id, b.coms[0].id, fmt.Sprint(i), "1"})
						}
						for j := 0; j < 3; j++ {
							b.txs = append(b.txs, gcTx{stamps[j%2], "", fmt.Sprint("t", i, j), []gcSplit{{i, "5", "1", ""}, {(i + 1) % n, "-5", "1", ""}, {(i + 2) % n, "9", "1", ""}}})
						}
					}
					p29check(e, b, m)
				}}
			}
			// names that repeat, contain each other or have many blanks
			odd := func(c *Chooser) *Case {
				k, m, rev := c.N(6), c.N(3), (c.N(2) == 1)
				return &Case{Key: fmt.Sprint("odd ", k, m, rev), Run: func(e *Env) {
					cs := []gcCom{{"CAD", "", 100}, {"TPL", "template", 1000}, {"template2", "templates of all kinds", 10}, {"CADX", "CAD", 0}}
					if k%2 == 0 {
						cs[1].name = "template fund"
					}
					names := [][]string{{"A b c d e", "A", "A", "A"}, {"Bank", "Bank", "Bank Two", "Two Bank"}, {"R", "Root", "Rooted", "Root"}, {"Imbalance-CAD", "template", "Template Root", "Orphan-CAD"}, {" a  b ", "B 2 3 4", "C_", "x-y z"}, {"Assets", "Ass", "Assets", "As"}}[k]
					b := gcBook{coms: cs, template: k%2 == 1 && cs[1].name != "template"}
					for i, n := range names {
						b.accs = append(b.accs, gcAcc{n, i - 1, cs[i].id, []string{"", "template", "two  blanks", "a; b"}[(i+k)%4], []string{"12  34", " 5", "0012\t0034", ""}[(i*3+k)%4]})
						b.txs = append(b.txs, gcTx{stamps[i], []string{"", "a_b"}[i%2], "t", []gcSplit{{i, "7", "1", ""}, {(i + 1) % len(names), "-5", "1", "m"}}})
						if i > 0 {
							b.prices = append(b.prices, gcPrice{stamps[i], cs[i].id, cs[i-1].id, "7", "2"}, gcPrice{stamps[i], cs[i-1].id, cs[i].id, "5", "1"})
						}
					}
					b.order = []int{-1, 0, 1, 2, 3}
					if rev {
						b.order = []int{3, 2, 1, 0, -1}
					}
					p29check(e, b, m)
				}}
			}
			_ = all
			return []Space{
				{Name: "trees", Rule: "every tree of up to 3 (thorough 4) accounts in every listing order, with and without scheduled transactions", Gen: trees},
				{Name: "histories", Rule: "every history of up to 3 (thorough 4) transactions out of 12 kinds, with prices", Gen: histories},
				{Name: "texts", Rule: "12 descriptions x 5 memos x 6 kinds of splits x codes", Gen: alltexts},
				{Name: "amounts", Rule: "numerators of up to 23 digits over 10 denominators for 8 fractions", Gen: amounts},
				{Name: "dates", Rule: "400 days around year ends at 4 times in 5 zones, forward and reverse", Gen: dates},
				{Name: "odd", Rule: "accounts and commodities whose names repeat, contain each other, have many blanks or those of special ones", Gen: odd},
				{Name: "many", Rule: "9-30 commodities and accounts, wide, deep and in pairs", Gen: many},
			}
		},
	})
}
