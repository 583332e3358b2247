package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P13: formatting preserves the meaning of a file. P14: it sorts and is idempotent.

var p13coms = []Com{{Id: "CAD", Dec: 2, Default: true}, {Id: "BND", Dec: 5}, {Id: "YEN", Dec: 0}, {Id: "Q_1", Dec: 3}}

var p13accs = []Acc{{Name: "A", Com: "CAD"}, {Name: "Assets:Bank:Chequing", Com: "CAD"}, {Name: "Expenses:" + strings.Repeat("LongName", 8) + ":x-y/z_1", Com: "CAD"},
	{Name: "Fund", Com: "BND"}, {Name: "Fund:Deep:Er", Com: "BND"}, {Name: "Yen:Cash", Com: "YEN"}, {Name: "Yen:Bank", Com: "YEN"}, {Name: "Q", Com: "Q_1"}, {Name: "Q:R", Com: "Q_1"}}

func p13head() string { return comsText(p13coms...) + accsText(p13accs...) }

func p13decOf(com string) int {
	for _, c := range p13coms {
		if c.Id == com {
			return c.Dec
		}
	}
	panic(com)
}

func p13comOf(acc string) string {
	for _, a := range p13accs {
		if a.Name == acc {
			return a.Com
		}
	}
	return "CAD" // implied account
}

// p13squeeze is white space trimming of a text.
func p13squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// p13want is what a transaction means, by the structure it was made from.
func p13want(t Tx, squeeze bool) string {
	sq := func(s string) string {
		if squeeze {
			return p13squeeze(s)
		}
		return strings.TrimRight(s, " \t")
	}
	notes := func(short string, long []string, sq func(string) string) []string {
		out := []string{}
		for _, n := range append([]string{short}, long...) {
			if n != "" {
				out = append(out, sq(n))
			}
		}
		return out
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s code %q desc %q notes %q\n", t.Date, t.Code, sq(t.Desc), notes(t.Note, t.Notes, sq))
	sum := new(big.Int)
	for _, p := range t.Ps {
		if p.Amt != "" {
			sum.Add(sum, parseDec(p.Amt, p13decOf(p.Com)))
		}
	}
	for _, p := range t.Ps {
		amt, com := p.Amt, p.Com
		if amt == "" {
			com = p13comOf(p.Acc)
			amt = fmtDec(new(big.Int).Neg(sum), p13decOf(com))
		} else {
			amt = fmtDec(parseDec(amt, p13decOf(com)), p13decOf(com))
		}
		bal := ""
		if p.Bal != "" {
			bal = fmtDec(parseDec(p.Bal, p13decOf(p.BalCom)), p13decOf(p.BalCom)) + " " + p.BalCom
		}
		plain := func(s string) string { return strings.TrimRight(s, " \t") }
		fmt.Fprintf(&b, "  %s %s %s = %s notes %q\n", p.Acc, amt, com, bal, notes(p.Note, p.Notes, plain))
	}
	return b.String()
}

// p13got is what the library makes of a transaction.
func p13got(t *coin.Transaction) string {
	var b strings.Builder
	no := func(l []string) []string {
		out := []string{}
		return append(out, trimAll(l)...)
	}
	fmt.Fprintf(&b, "%s code %q desc %q notes %q\n", dateStr(t.Posted), t.Code, strings.TrimRight(t.Description, " \t"), no(t.Notes))
	for _, p := range t.Postings {
		bal := ""
		if p.BalanceAsserted {
			bal = fmt.Sprintf("%v %s", p.Balance, p.Balance.Commodity.Id)
		}
		fmt.Fprintf(&b, "  %s %v %s = %s notes %q\n", p.Account.FullName, p.Quantity, p.Quantity.Commodity.Id, bal, no(p.Notes))
	}
	return b.String()
}

// p13tags lists tags of a loaded transaction.
func p13tags(t *coin.Transaction) string {
	s := fmt.Sprintf("%q", trimMap(t.Tags))
	for _, p := range t.Postings {
		s += fmt.Sprintf(" %q", trimMap(p.Tags))
	}
	return s
}

func p13asserted(t Tx) bool {
	for _, p := range t.Ps {
		if p.Bal != "" {
			return true
		}
	}
	return false
}

// p13order is the order of formatted output.
func p13order(ts []Tx) []Tx {
	out := append([]Tx{}, ts...)
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].Date != out[j].Date {
			return out[i].Date < out[j].Date
		}
		return !p13asserted(out[i]) && p13asserted(out[j])
	})
	return out
}

// p13read loads text and lists its transactions.
func p13read(e *Env, text string) (txs, tags []string, refused string) {
	_, out, failed := e.lib(func() {
		loadText(text)
		for _, t := range coin.Transactions {
			txs = append(txs, p13got(t))
			tags = append(tags, p13tags(t))
		}
	})
	if failed {
		refused = out
		if refused == "" {
			refused = "refused"
		}
	}
	return
}

type p13mode struct {
	trim, inplace, ledger bool
}

// p13format runs the format command over a file; the file's directory is fresh.
func p13format(e *Env, m p13mode, texts ...string) (out string, ok bool) {
	db := e.Sub("db", Files{"commodities.coin": comsText(p13coms...), "accounts.coin": accsText(p13accs...)})
	args := []string{"format"}
	if m.trim {
		args = append(args, "-t")
	}
	if m.inplace {
		args = append(args, "-i")
	}
	for i, t := range texts {
		fn := fmt.Sprintf("%s/f%d.coin", db, i)
		must(os.WriteFile(fn, []byte(t), 0o644))
		args = append(args, fn)
	}
	r := e.Run("coin", db, args...)
	if r.Code != 0 || r.Hang {
		e.Fail("refused "+texts[0], "coin %v: exit %d %s\n%s", args, r.Code, r.Err, clip(texts[0], 2000))
		return "", false
	}
	if m.inplace {
		if r.Out != "" {
			e.Fail("output "+texts[0], "format -i also prints %s", r.Out)
		}
		for i := range texts {
			b, err := os.ReadFile(fmt.Sprintf("%s/f%d.coin", db, i))
			must(err)
			out += string(b)
		}
		return out, true
	}
	return r.Out, true
}

// p13check formats files made of the transactions given and compares what the result means.
func p13check(e *Env, m p13mode, files ...[]Tx) {
	var texts []string
	var want []string
	for _, f := range files {
		texts = append(texts, txsText(f...))
		for _, t := range p13order(f) {
			want = append(want, p13want(t, m.trim))
		}
	}
	_, tags0, ref := p13read(e, p13head()+strings.Join(texts, "\n"))
	if ref != "" {
		e.Fail("model "+texts[0], "the library refuses the original: %s\n%s", ref, clip(texts[0], 2000))
		return
	}
	out, ok := p13format(e, m, texts...)
	if !ok {
		return
	}
	got, tags, ref := p13read(e, p13head()+out)
	e.State(out)
	if ref != "" {
		e.Fail("unreadable "+texts[0], "formatted output is refused: %s\n%s\n--- original\n%s", ref, clip(out, 3000), clip(texts[0], 3000))
		return
	}
	if len(files) > 1 { // reading sorts over all files
		sort.Strings(want)
		sort.Strings(got)
		sort.Strings(tags)
		sort.Strings(tags0)
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "nothing", "nothing"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			e.Fail("meaning "+w, "transaction %d of %d (formatted: %d) reads back as\n%s\n--- should be\n%s", i, len(want), len(got), g, w)
			return
		}
	}
	if !m.trim && fmt.Sprint(tags) != fmt.Sprint(tags0) {
		e.Fail("tags "+texts[0], "tags of the formatted file are\n%v\n--- were\n%v", clip(fmt.Sprint(tags), 3000), clip(fmt.Sprint(tags0), 3000))
	}
	// again, byte for byte
	if len(files) == 1 {
		again, ok := p13format(e, m, out)
		if ok && again != out {
			e.Fail("idempotent "+texts[0], "formatting again gives\n%s\n--- instead of\n%s", firstDiff(again, out), firstDiff(out, again))
		}
	}
}

// firstDiff shows a around its first difference from b.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-300, i+300
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("(at byte %d of %d) ...%s...", i, len(a), a[lo:hi])
}

func p13text(n int) string {
	s := "Lorem ipsum dolor sit amet, consectetur elit sed do (eiusmod) tempor = 5.00 CAD incididunt ut labore "
	for len(s) < n {
		s += s
	}
	s = s[:n]
	if strings.HasSuffix(s, " ") {
		s = s[:n-1] + "."
	}
	return s
}

var p13values = []string{"0", "1", "-1", "5.5", "-0.05", "0.00001", "12.34567", "-999.99", "1000", "-123456.78", "99999999.99999", "-1234567890123.45", "123456789012345678901234.56789"}

var p13descs = []string{"", "x", "Payee", "two  words", "a (b) c", "1.00 CAD", "2020/01/01", "= 5", "Café – ☃", "tab\there", "#hash: in text", "end:", "A  5.00 CAD", "%", "'quo\"te", "account B"}

var p13notes = []string{"", "n", "#tag", "#k: v w", "a #b: c, #d", "x  y", "é ☃", "; semi", "A 5.00 CAD", "2020/01/01 x", "end test", "#k:v, more", "P 1"}

func p13simple(d time.Time) Tx {
	return Tx{Date: dateStr(d), Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "Assets:Bank:Chequing", Amt: "-1.00", Com: "CAD"}}}
}

// spaces of transactions; each leaf is a list of transactions in one file.
type p13space struct {
	name, rule string
	gen        func(c *Chooser) []Tx
}

func p13spaces(tier string) []p13space {
	day := func(i int) time.Time { return ymdDate(2019, 11, 28).AddDate(0, 0, i) }
	heads := func(c *Chooser) []Tx {
		code := []string{"", "c1", "123456789012"}[c.N(3)]
		dl := c.N(len(p13descs) + 12)
		desc := ""
		if dl < len(p13descs) {
			desc = p13descs[dl]
		} else {
			desc = p13text([]int{20, 40, 55, 60, 64, 65, 66, 67, 70, 90, 150, 400}[dl-len(p13descs)])
		}
		var ts []Tx
		for n := 0; n <= 90; n++ {
			for _, long := range [][]string{nil, {"second"}} {
				t := p13simple(day(len(ts)))
				t.Code, t.Desc, t.Notes = code, desc, long
				if n > 0 {
					t.Note = p13text(n)
				}
				ts = append(ts, t)
			}
		}
		return ts
	}
	notes := func(c *Chooser) []Tx {
		// every combination of short and long notes of transaction and postings
		short := p13notes[c.N(len(p13notes))]
		n := c.N(3)
		var ts []Tx
		for i := 0; i < 13; i++ {
			for j := 0; j < 13; j++ {
				for where := 0; where < 3; where++ {
					t := p13simple(day(len(ts)))
					t.Desc = "d"
					var long []string
					for _, x := range []string{p13notes[i], p13notes[j]}[:min(n, 2)] {
						if x != "" {
							long = append(long, x)
						}
					}
					if where == 0 {
						t.Note, t.Notes = short, long
					} else {
						t.Ps[where-1].Note, t.Ps[where-1].Notes = short, long
						t.Note = p13notes[i]
						t.Ps[2-where].Note = p13notes[j]
					}
					ts = append(ts, t)
				}
			}
		}
		return ts
	}
	pairs := map[string][]string{"CAD": {"A", "Assets:Bank:Chequing", "Expenses:" + strings.Repeat("LongName", 8) + ":x-y/z_1"}, "BND": {"Fund", "Fund:Deep:Er"}, "YEN": {"Yen:Cash", "Yen:Bank"}, "Q_1": {"Q", "Q:R"}}
	amounts := func(c *Chooser) []Tx {
		com := p13coms[c.N(4)]
		out := c.N(3) // which amount is left out: none, 0, 1
		bals := c.N(4)
		note := c.N(3)
		cross := c.N(2) == 1 // balances asserted in another commodity
		if cross && bals == 0 {
			return nil
		}
		var ts []Tx
		as := pairs[com.Id]
		for _, v := range p13values {
			for i := range as {
				for j := range as {
					x := parseDec(v, com.Dec)
					ps := []Post{{Acc: as[i], Amt: fmtDec(x, com.Dec), Com: com.Id}, {Acc: as[j], Amt: fmtDec(new(big.Int).Neg(x), com.Dec), Com: com.Id}}
					if out > 0 {
						if bals>>(out-1)&1 == 1 {
							return nil // a balance needs an amount
						}
						ps[out-1].Amt, ps[out-1].Com = "", ""
					}
					for k := range ps {
						if bals>>k&1 == 1 {
							ps[k].Bal, ps[k].BalCom = fmtDec(parseDec([]string{"0", "-5", v, "7777777.5"}[(k+i+j)%4], com.Dec), com.Dec), com.Id
							if cross {
								o := p13coms[(k+i+j)%4]
								ps[k].Bal, ps[k].BalCom = fmtDec(parseDec([]string{"0", "-5", v, "7777777.5"}[(k+i+j)%4], o.Dec), o.Dec), o.Id
							}
						}
					}
					switch note {
					case 1:
						ps[0].Note = "note one"
						ps[1].Notes = []string{"note two", "#t: 3"}
					case 2:
						ps[1].Note = p13text(100)
						ps[0].Notes = []string{p13text(120)}
					}
					ts = append(ts, Tx{Date: dateStr(day(len(ts))), Desc: "t", Ps: ps})
				}
			}
		}
		return ts
	}
	many := func(c *Chooser) []Tx {
		// n postings in every order of accounts, one of them possibly left out, also of several commodities
		n := 1 + c.N(5)
		mixed := c.N(2) == 1
		left := c.N(n + 1)
		if mixed && left > 0 {
			return nil
		}
		var ts []Tx
		names := []string{"A", "Assets:Bank:Chequing", pairs["CAD"][2], "A", "Assets:Bank:Chequing"}
		permute(n, func(p []int) {
			var ps []Post
			sum := new(big.Int)
			for k := 0; k < n; k++ {
				v := big.NewInt(int64((p[k]+1)*(1-2*(p[k]%2))) * 12345)
				if k == n-1 {
					v = new(big.Int).Neg(sum)
				}
				sum.Add(sum, v)
				ps = append(ps, Post{Acc: names[p[k]], Amt: fmtDec(v, 2), Com: "CAD"})
				if mixed {
					m := []struct{ a, v, c string }{{"Fund", "1.23456", "BND"}, {"Yen:Cash", "-700", "YEN"}, {"Q", "0.125", "Q_1"}, {"A", "-2.50", "CAD"}, {"Fund:Deep:Er", "-0.00001", "BND"}}[p[k]]
					ps[k] = Post{Acc: m.a, Amt: m.v, Com: m.c}
				}
			}
			if left > 0 {
				ps[left-1].Amt, ps[left-1].Com = "", ""
			}
			if mixed && n == 1 {
				return
			}
			ts = append(ts, Tx{Date: dateStr(day(len(ts))), Desc: "t", Ps: ps})
		})
		return ts
	}
	twins := func(c *Chooser) []Tx {
		// equal and near-equal transactions on the same and neighbouring days, none may be merged
		n := 2 + c.N(2)
		if tier == "thorough" {
			n = 2 + c.N(3)
		}
		var ts []Tx
		for i := 0; i < n; i++ {
			t := p13simple(day(c.N(2)))
			switch c.N(5) {
			case 1:
				t.Desc = "other"
			case 2:
				t.Code = "c"
			case 3:
				t.Ps[0].Bal, t.Ps[0].BalCom = "1.00", "CAD"
			case 4:
				t.Ps[0], t.Ps[1] = t.Ps[1], t.Ps[0]
				t.Note = "swapped"
			}
			ts = append(ts, t)
		}
		return ts
	}
	return []p13space{
		{"headers", "code x description (contents and lengths) x short note of 0-90 characters x following note", heads},
		{"notes", "13 note texts in all short and long positions of transaction and postings", notes},
		{"amounts", "13 magnitudes x 0, 2, 3, 5 decimals x account pairs x left-out amount x balance assertions x notes", amounts},
		{"postings", "1-5 postings in every order, one amount left out, one or several commodities", many},
		{"twins", "2-3 (thorough 4) equal or nearly equal transactions on two days", twins},
	}
}

func init() {
	register(&Prop{
		ID: "P13", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is a file of up to about 500 transactions; states are distinct formatted outputs",
		Assumptions: []string{"files of transactions only (format writes nothing else)", "texts are compared without trailing blanks, notes without leading blanks", "transactions are well formed; the library reading the output is pinned to the structure the input was made from"},
		Spaces: func(tier string) []Space {
			var spaces []Space
			modes := []p13mode{{}, {inplace: true}}
			for _, s := range p13spaces(tier) {
				s := s
				spaces = append(spaces, Space{Name: s.name, Rule: s.rule, Gen: func(c *Chooser) *Case {
					m := modes[0]
					if s.name != "twins" || tier == "thorough" {
						m = modes[c.N(2)]
					}
					ts := s.gen(c)
					if len(ts) == 0 {
						return nil
					}
					return &Case{Key: s.name + fmt.Sprint(m) + txsText(ts...), Run: func(e *Env) { p13check(e, m, ts) }}
				}})
			}
			// one transaction per file: nothing around it, and several files at once
			singles := func(c *Chooser) *Case {
				nf := 1 + c.N(3)
				m := modes[c.N(2)]
				var files [][]Tx
				key := fmt.Sprint(m)
				for f := 0; f < nf; f++ {
					var ts []Tx
					for i, n := 0, c.N(3); i < n; i++ {
						t := p13simple(ymdDate(2020, 1, 3-c.N(2)))
						t.Desc = fmt.Sprintf("file %d tx %d", f, i)
						if c.N(2) == 1 {
							t.Ps[1].Amt, t.Ps[1].Com = "", ""
							t.Ps[0].Bal, t.Ps[0].BalCom = "9.00", "CAD"
							t.Notes = []string{"long"}
						}
						ts = append(ts, t)
					}
					key += fmt.Sprint(len(ts)) + txsText(ts...)
					files = append(files, ts)
				}
				return &Case{Key: key, Run: func(e *Env) { p13check(e, m, files...) }}
			}
			spaces = append(spaces, Space{Name: "files", Rule: "1-3 files of 0-2 transactions formatted by one command", Gen: singles})
			abbrev := func(c *Chooser) *Case {
				// accounts given by abbreviations come out under their full names
				i := c.N(6)
				exps := [][2]string{{"Assets::Cheq", "Assets:Bank:Chequing"}, {"ass:bank:cheq", "Assets:Bank:Chequing"}, {"A", "A"}, {"longname", parentOf(p13accs[2].Name)}, {"x-y", p13accs[2].Name}, {"exp::x-y", p13accs[2].Name}}
				j := c.N(6)
				return &Case{Key: fmt.Sprint("abbreviations ", i, j), Run: func(e *Env) {
					text := fmt.Sprintf("2020/01/01 p\n  %s  1.00 CAD\n  %s\n\n", exps[i][0], exps[j][0])
					out, ok := p13format(e, p13mode{}, text)
					if !ok {
						return
					}
					got, _, ref := p13read(e, p13head()+out)
					want := p13want(Tx{Date: "2020/01/01", Desc: "p", Ps: []Post{{Acc: exps[i][1], Amt: "1.00", Com: "CAD"}, {Acc: exps[j][1]}}}, false)
					if ref != "" || len(got) != 1 || got[0] != want || !strings.Contains(out, exps[i][1]+" ") {
						e.Fail("abbreviation "+text, "%s\n%s\n--- should mean\n%s%s", text, out, want, ref)
					}
				}}
			}
			return append(spaces, Space{Name: "abbreviations", Rule: "pairs of account abbreviations", Gen: abbrev})
		},
	})
	register(&Prop{
		ID: "P14", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is a file of transactions formatted twice; states are distinct outputs",
		Assumptions: []string{"as for P13"},
		Spaces: func(tier string) []Space {
			var spaces []Space
			for _, s := range p13spaces(tier)[:4] {
				s := s
				spaces = append(spaces, Space{Name: "trim-" + s.name, Rule: "format -t: " + s.rule, Gen: func(c *Chooser) *Case {
					m := p13mode{trim: true, inplace: c.N(2) == 1}
					ts := s.gen(c)
					if len(ts) == 0 {
						return nil
					}
					return &Case{Key: s.name + fmt.Sprint(m) + txsText(ts...), Run: func(e *Env) { p13check(e, m, ts) }}
				}})
			}
			seqs := func(c *Chooser) *Case {
				n := c.N(5)
				if tier == "thorough" {
					n = c.N(7)
				}
				days, kinds := 3, 2
				if n > 4 {
					days = 2
				}
				var ts []Tx
				if n <= 3 {
					kinds = 5
				}
				for i := 0; i < n; i++ {
					t := p13simple([]time.Time{ymdDate(2020, 1, 1), ymdDate(2019, 12, 31), ymdDate(2020, 1, 10)}[c.N(days)])
					t.Desc = fmt.Sprint("t", i)
					switch k := c.N(kinds); k {
					case 1:
						t.Ps[i%2].Bal, t.Ps[i%2].BalCom = "3.00", "CAD"
					case 2, 3, 4:
						// three postings: plain, or with one of them asserted
						t.Ps = append(t.Ps, t.Ps[1])
						t.Ps[1].Amt, t.Ps[2].Amt = "-0.40", "-0.60"
						if k > 2 {
							p := &t.Ps[[]int{1, (i % 2) * 2}[k-3]]
							p.Bal, p.BalCom = "3.00", "CAD"
						}
					}
					ts = append(ts, t)
				}
				return &Case{Key: fmt.Sprint("order ", n) + txsText(ts...), Run: func(e *Env) { p14order(e, ts) }}
			}
			big := func(c *Chooser) *Case {
				// long same-day runs with up to b asserted or differently dated transactions
				n := []int{12, 13, 24, 40, 70}[c.N(5)]
				base := c.N(2) // most are plain, or most are asserted
				var ts []Tx
				for i := 0; i < n; i++ {
					k := 0
					if i < 14 || i%7 == 0 {
						k = c.Dev(4)
					}
					t := p13simple(ymdDate(2020, 1, 5))
					t.Desc = fmt.Sprint("t", i)
					if (k == 1) != (base == 1) {
						t.Ps[1].Bal, t.Ps[1].BalCom = "3.00", "CAD"
					}
					if k >= 2 {
						t.Date = dateStr(ymdDate(2020, 1, 2*k+1-1)) // 4 and 6
					}
					ts = append(ts, t)
				}
				return &Case{Key: fmt.Sprint("long order ", n, base) + txsText(ts...), Run: func(e *Env) { p14order(e, ts) }}
			}
			bb := 1
			if tier == "thorough" {
				bb = 2
			}
			trims := func(c *Chooser) *Case {
				var ts []Tx
				pick := func(c *Chooser) string {
					return []string{"a b", "a  b", "a\tb", " a   b ", "a \t b", "a    ", "   "}[c.N(7)]
				}
				d, n, l := pick(c), pick(c), pick(c)
				for _, post := range []string{"", "x  y", "x\ty"} {
					t := p13simple(ymdDate(2020, 1, 1+len(ts)))
					t.Desc, t.Note, t.Notes = strings.TrimSpace(d), strings.TrimSpace(n), nil
					if strings.TrimSpace(l) != "" {
						t.Notes = []string{strings.TrimSpace(l) + "  "}
					}
					t.Ps[0].Note, t.Ps[1].Notes = post, nil
					if post != "" {
						t.Ps[1].Notes = []string{post}
					}
					ts = append(ts, t)
				}
				return &Case{Key: fmt.Sprintf("trim %q %q %q", d, n, l), Run: func(e *Env) {
					p13check(e, p13mode{trim: true}, ts)
					p13check(e, p13mode{trim: true, inplace: true}, ts)
					text := txsText(ts...)
					trimmed, ok1 := p13format(e, p13mode{trim: true}, text)
					plain, ok2 := p13format(e, p13mode{}, text)
					if !ok1 || !ok2 {
						return
					}
					// only white space differs
					nows := func(s string) string { return strings.Join(strings.Fields(s), "") }
					if a, b := nows(trimmed), nows(plain); a != b {
						e.Fail("trim "+text, "trimming changes more than white space:\n%s\n%s", trimmed, plain)
					}
					if again, ok := p13format(e, p13mode{}, trimmed); ok && again != trimmed {
						e.Fail("trim again "+text, "formatting trimmed output changes it:\n%s\n%s", again, trimmed)
					}
				}}
			}
			return append(spaces,
				Space{Name: "orders", Rule: "every sequence of up to 4 (thorough 6) transactions of three days with or without assertion", Gen: seqs},
				Space{Name: "long-orders", Rule: "12-70 transactions of one day with up to b exceptions", Bound: bb, Gen: big},
				Space{Name: "trims", Rule: "white space patterns of description, short and long note", Gen: trims})
		},
	})
}

// p14order formats transactions and compares the order of the output text itself.
func p14order(e *Env, ts []Tx) {
	text := txsText(ts...)
	var want []string
	for _, t := range p13order(ts) {
		want = append(want, t.Date+" "+t.Desc)
	}
	out, ok := p13format(e, p13mode{}, text)
	if !ok {
		return
	}
	var got []string
	for _, l := range nonEmptyLines(out) {
		if l[0] != ' ' && l[0] != '\t' {
			got = append(got, strings.TrimRight(l, " "))
		}
	}
	e.State(out)
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		e.Fail("order "+text, "formatted order is\n%s\n--- should be\n%s\n--- input\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"), text)
		return
	}
	in, ok := p13format(e, p13mode{inplace: true}, text)
	if ok && in != out {
		e.Fail("in place "+text, "format -i writes\n%s\n--- standard output is\n%s", in, out)
	}
	again, ok := p13format(e, p13mode{}, out)
	if ok && again != out {
		e.Fail("idempotent "+text, "formatting again gives\n%s\n--- instead of\n%s", again, out)
	}
}
