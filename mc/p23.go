package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// P23: ledger statistics and checks.
// P24: tag and commodity listings.

var p23loc = regexp.MustCompile(`^\S+\.coin:\d+$`)

func p23base(loc string) string { return loc[strings.LastIndex(loc, "/")+1:] }

type p23tx struct {
	Tx
	loc string
}

// p23place assigns files and lines.
func p23place(l *p18led) (out []p23tx) {
	line := 1
	for _, t := range l.txs[:l.split] {
		out = append(out, p23tx{t, fmt.Sprint("u.coin:", line)})
		line += lines(t.text())
	}
	line = 1
	for _, t := range l.txs[l.split:] {
		out = append(out, p23tx{t, fmt.Sprint("t.coin:", line)})
		line += lines(t.text())
	}
	return
}

func p23value(v *big.Int, com string) *big.Rat {
	return new(big.Rat).SetFrac(v, pow10i(p18dec(com)))
}

type p23opts struct {
	d, u, c    bool
	begin, end string
}

func (o p23opts) args() []string {
	a := []string{"stats"}
	for _, f := range []struct {
		on bool
		f  string
	}{{o.d, "-d"}, {o.u, "-u"}, {o.c, "-c"}} {
		if f.on {
			a = append(a, f.f)
		}
	}
	if o.begin != "" {
		a = append(a, "-b", o.begin)
	}
	if o.end != "" {
		a = append(a, "-e", o.end)
	}
	return a
}

// p23expect is the list of findings and the counts.
func p23expect(l *p18led, o p23opts) (finds []string, counts map[string]int) {
	var sel []p23tx
	for _, t := range p23place(l) {
		if (o.begin == "" || t.Date >= o.begin) && (o.end == "" || t.Date < o.end) {
			sel = append(sel, t)
		}
	}
	canon := func(t p23tx) string {
		s := t.Date + " (" + t.Code + ")"
		am := p18amounts(l, t.Tx)
		for i, p := range t.Ps {
			c := p.Com
			if c == "" {
				c = l.com(p.Acc)
			}
			s += fmt.Sprint("|", p.Acc, am[i], c)
		}
		return s
	}
	if o.d {
		cs := make([]string, len(sel))
		for i := range sel {
			cs[i] = canon(sel[i])
		}
		for i := range sel {
			for j := 0; j < i; j++ {
				if cs[i] == cs[j] {
					p := []string{sel[j].loc, sel[i].loc}
					sort.Strings(p)
					finds = append(finds, "DUPLICATE "+strings.Join(p, " "))
				}
			}
		}
		sort.Strings(finds)
		return finds, nil
	}
	for _, t := range sel {
		if o.u {
			for _, p := range t.Ps {
				if p.Acc == "Unbalanced" {
					finds = append(finds, "UNBALANCED "+t.loc)
				}
			}
		}
		if o.c && len(t.Ps) == 2 {
			am := p18amounts(l, t.Tx)
			c0, c1 := t.Ps[0].Com, t.Ps[1].Com
			if c0 == "" {
				c0 = l.com(t.Ps[0].Acc)
			}
			if c1 == "" {
				c1 = l.com(t.Ps[1].Acc)
			}
			a, b := p23value(am[0], c0), p23value(am[1], c1)
			if c0 != c1 && new(big.Rat).Neg(a).Cmp(b) == 0 {
				finds = append(finds, fmt.Sprint("CONVERSION ", t.Date, " ", fmtDec(am[0], p18dec(c0)), c0, " ", fmtDec(am[1], p18dec(c1)), c1, " ", t.loc))
			}
		}
	}
	sort.Strings(finds)
	var names []string
	for _, a := range l.accs {
		names = append(names, a.Name)
	}
	return finds, map[string]int{"Commodities": len(p18coms), "Prices": len(p18prices), "Accounts": len(closure(names)), "Transactions": len(sel)}
}

func p23read(out string) (finds []string, counts map[string]int) {
	counts = map[string]int{}
	var locs []string
	mode := ""
	flush := func() {
		switch mode {
		case "d":
			for i, x := range locs {
				locs[i] = p23base(x)
			}
			sort.Strings(locs)
			finds = append(finds, "DUPLICATE "+strings.Join(locs, " "))
		case "u":
			finds = append(finds, "UNBALANCED "+p23base(strings.Join(locs, " ")))
		}
		mode, locs = "", nil
	}
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "DUPLICATE"):
			flush()
			mode = "d"
		case strings.HasPrefix(l, "UNBALANCED"):
			flush()
			mode = "u"
		case strings.HasPrefix(l, "BAD CONVERSION"):
			flush()
			f := strings.Fields(l)
			// BAD CONVERSION: date a com => b com : location
			if len(f) == 10 {
				finds = append(finds, fmt.Sprint("CONVERSION ", f[2], " ", f[3], f[4], " ", f[6], f[7], " ", p23base(f[9])))
			} else {
				finds = append(finds, l)
			}
		case p23loc.MatchString(l):
			locs = append(locs, l)
		default:
			for _, k := range []string{"Commodities", "Prices", "Accounts", "Transactions"} {
				var n int
				if strings.HasPrefix(l, k+":") {
					flush()
					fmt.Sscan(l[len(k)+1:], &n)
					counts[k] = n
				}
			}
		}
	}
	flush()
	sort.Strings(finds)
	return
}

func p23check(e *Env, db string, l *p18led, o p23opts) {
	r := e.Run("coin", db, o.args()...)
	finds, counts := p23expect(l, o)
	sig := fmt.Sprint(o.args()) + txsText(l.txs...)
	e.State(sig)
	g, gc := p23read(r.Out)
	e.Outcome(fmt.Sprint(len(finds)))
	if r.Code != 0 || strings.Join(g, "\n") != strings.Join(finds, "\n") {
		e.Fail(sig, "coin %v: exit %d, reports\n%s\n--- should be\n%s\n%s\n--- transactions\n%s", o.args(), r.Code, strings.Join(g, "\n"), strings.Join(finds, "\n"), r.Err, clip(txsText(l.txs...), 3000))
		return
	}
	for k, n := range counts {
		if gc[k] != n {
			e.Fail(sig, "coin %v: counts %d %s, should be %d\n%s\n--- transactions\n%s", o.args(), gc[k], k, n, r.Out, clip(txsText(l.txs...), 3000))
			return
		}
	}
}

// --- P24 ---

func p24tags(e *Env, db string, l *p18led, rex string, v, a bool) {
	args := []string{"tags"}
	if v {
		args = append(args, "-v")
	}
	if a {
		args = append(args, "-a")
	}
	if rex != "" {
		args = append(args, rex)
	}
	vals, accs := map[string]map[string]bool{}, map[string]map[string]bool{}
	use := func(m map[string]string, as ...string) {
		for k, val := range m {
			if rex != "" && !cachedRex("(?i)"+rex).MatchString(k) {
				continue
			}
			if vals[k] == nil {
				vals[k], accs[k] = map[string]bool{}, map[string]bool{}
			}
			if val != "" {
				vals[k][val] = true
			}
			for _, x := range as {
				accs[k][x] = true
			}
		}
	}
	for _, t := range l.txs {
		var all []string
		for _, p := range t.Ps {
			use(p09of(p16notes(p.Note, p.Notes)...), p.Acc)
			all = append(all, p.Acc)
		}
		use(p09of(p16notes(t.Note, t.Notes)...), all...)
	}
	var want []string
	for _, k := range sortedKeys(vals) {
		s := k
		if len(vals[k]) > 0 {
			s += ":"
			if v {
				s += ` "` + strings.Join(sortedKeys(vals[k]), `", "`) + `"`
			}
		}
		want = append(want, s)
		if a {
			for _, x := range sortedKeys(accs[k]) {
				want = append(want, "\t"+x)
			}
		}
	}
	r := e.Run("coin", db, args...)
	// accounts in any order
	var got []string
	var pend []string
	flush := func() {
		sort.Strings(pend)
		got = append(got, pend...)
		pend = nil
	}
	for _, line := range nonEmptyLines(r.Out) {
		if line[0] == '\t' || line[0] == ' ' {
			pend = append(pend, "\t"+strings.TrimSpace(line))
			continue
		}
		flush()
		got = append(got, line)
	}
	flush()
	sig := fmt.Sprint(args) + txsText(l.txs...)
	e.State(sig)
	if r.Code != 0 || strings.Join(got, "\n") != strings.Join(want, "\n") {
		e.Fail(sig, "coin %v: exit %d\n%s%s\n--- should be\n%s\n--- transactions\n%s", args, r.Code, r.Out, r.Err, strings.Join(want, "\n"), clip(txsText(l.txs...), 3000))
	}
}

type p24pri struct {
	Pri
	loc string
}

func p24prices(e *Env, db string, coms []Com, ps []p24pri, sig string) {
	e.State(sig)
	dec := func(id string) int {
		for _, c := range coms {
			if c.Id == id {
				return c.Dec
			}
		}
		return 2
	}
	value := func(p Pri) string {
		v := p.Val
		if !strings.Contains(v, ".") {
			v += "."
		}
		d := dec(p.Cur)
		return fmtDec(parseDec(trimDec(v, d), d), d)
	}
	ids := map[string]Com{}
	for _, c := range coms {
		ids[c.Id] = c
	}
	bad := func(what, out, want string) {
		e.Fail(what+sig, "coin commodities %s prints\n%s\n--- should be\n%s\n--- prices\n%s", what, out, want, sig)
	}
	// statistics
	r := e.Run("coin", db, "com", "-p")
	rows := nonEmptyLines(r.Out)
	names := sortedKeys(ids)
	if r.Code != 0 || len(rows) != len(names) {
		bad("-p", r.Out+r.Err, fmt.Sprint(names))
		return
	}
	for i, id := range names {
		byCur := map[string][]p24pri{}
		for _, p := range ps {
			if p.Com == id {
				byCur[p.Cur] = append(byCur[p.Cur], p)
			}
		}
		f := strings.SplitN(rows[i], ":", 2)
		if strings.TrimSpace(f[0]) != id {
			bad("-p", r.Out, "row of "+id)
			return
		}
		n := 0
		if len(f) == 2 {
			for _, s := range strings.Split(f[1], ", ") {
				w := strings.Fields(s) // date value cur [count]
				if len(w) != 4 {
					bad("-p", r.Out, "prices of "+id)
					return
				}
				n++
				last := ""
				for _, p := range byCur[w[2]] {
					last = max(last, p.Date)
				}
				ok := false
				for _, p := range byCur[w[2]] {
					ok = ok || p.Date == last && value(p.Pri) == w[1]
				}
				if !ok || w[0] != last || w[3] != fmt.Sprintf("[%d]", len(byCur[w[2]])) {
					bad("-p", r.Out, fmt.Sprint("latest of ", byCur[w[2]]))
					return
				}
			}
		}
		if n != len(byCur) {
			bad("-p", r.Out, fmt.Sprint(id, " in currencies ", sortedKeys(byCur)))
			return
		}
		// every price of the commodity
		for _, loc := range []bool{false, true} {
			args := []string{"com", id}
			if loc {
				args = []string{"com", "-f", id}
			}
			r := e.Run("coin", db, args...)
			want := map[string]int{}
			for _, p := range ps {
				if p.Com == id {
					s := p.Date + " " + value(p.Pri) + " " + p.Cur
					if loc {
						s += " " + p.loc
					}
					want[s]++
				}
			}
			prev := map[string]string{}
			lines := nonEmptyLines(r.Out)
			wrong := r.Code != 0
			for _, x := range lines {
				w := strings.Fields(x)
				if len(w) != 3+b2i(loc) {
					wrong = true
					break
				}
				if loc {
					w[3] = p23base(w[3])
				}
				k := strings.Join(w, " ")
				want[k]--
				if want[k] < 0 || prev[w[2]] != "" && prev[w[2]] < w[0] {
					wrong = true
				}
				prev[w[2]] = w[0]
			}
			for _, n := range want {
				wrong = wrong || n != 0
			}
			if wrong {
				bad(fmt.Sprint(args), r.Out+r.Err, fmt.Sprint(want))
				return
			}
		}
	}
	// plain listing
	r = e.Run("coin", db, "com")
	rows = nonEmptyLines(r.Out)
	if r.Code != 0 || len(rows) != len(names) {
		bad("", r.Out+r.Err, fmt.Sprint(names))
		return
	}
	for i, id := range names {
		c := cells(rows[i])
		q := ""
		if ids[id].Symbol != "" && !ids[id].NoMkt {
			q = "Q"
		}
		if len(c) != 4 || c[0] != id || c[1] != ids[id].Symbol || c[2] != q || c[3] != ids[id].Note {
			bad("", r.Out, fmt.Sprint(ids[id]))
			return
		}
	}
}

// trimDec cuts or fills the decimals of a number written with a point.
func trimDec(v string, d int) string {
	i := strings.Index(v, ".")
	f := v[i+1:]
	for len(f) < d {
		f += "0"
	}
	if d == 0 {
		return v[:i]
	}
	return v[:i+1] + f[:d]
}

func init() {
	register(&Prop{
		ID: "P23", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one or a few ledgers with all option combinations; states are distinct (ledger, options) pairs",
		Assumptions: []string{"transactions are the same only with their postings in the same order", "the order of reports is not checked"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			accs := []Acc{{Name: "A", Com: "CAD"}, {Name: "B:C", Com: "CAD"}, {Name: "F", Com: "BND"}, {Name: "Y", Com: "YEN"}}
			cad := func(date, code, from, to, amt string) Tx {
				return Tx{Date: date, Code: code, Desc: "d", Ps: []Post{{Acc: from, Amt: amt, Com: "CAD"}, {Acc: to}}}
			}
			d1, d2 := "2020/01/01", "2020/01/02"
			alpha := []Tx{
				cad(d1, "", "A", "B:C", "1.00"), cad(d2, "", "A", "B:C", "1.00"), cad(d1, "x", "A", "B:C", "1.00"),
				cad(d1, "", "A", "B:C", "1.01"), cad(d1, "", "B:C", "A", "-1.00"), cad(d1, "", "A", "A", "1.00"),
				{Date: d1, Desc: "other", Note: "n", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD", Note: "#t"}, {Acc: "B:C", Amt: "-1.00", Com: "CAD", Bal: "5.00", BalCom: "CAD"}}},
				{Date: d1, Desc: "three", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "B:C", Amt: "-1.00", Com: "CAD"}, {Acc: "A", Amt: "0.00", Com: "CAD"}}},
				{Date: d1, Desc: "mixed", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "F", Amt: "-1.00000", Com: "BND"}}},
				{Date: d1, Desc: "mixed", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "F", Amt: "-1.00009", Com: "BND"}}},
				// another commodity than the account's
				{Date: d1, Desc: "foreign", Ps: []Post{{Acc: "A", Amt: "1", Com: "YEN"}, {Acc: "Y", Amt: "-1", Com: "YEN"}}},
				{Date: d1, Desc: "foreign", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "Y", Amt: "-1", Com: "YEN"}}},
				// different from the fourth posting on
				{Date: d1, Desc: "long", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "B:C", Amt: "-1.00", Com: "CAD"}, {Acc: "A", Amt: "2.00", Com: "CAD"}, {Acc: "B:C", Amt: "-1.50", Com: "CAD"}, {Acc: "A"}}},
				{Date: d1, Desc: "long", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "B:C", Amt: "-1.00", Com: "CAD"}, {Acc: "A", Amt: "2.00", Com: "CAD"}, {Acc: "B:C", Amt: "-1.25", Com: "CAD"}, {Acc: "A"}}},
			}
			n := 3
			if thorough {
				n = 4
			}
			dupes := func(c *Chooser) *Case {
				var idx []int
				for i := 0; i < n; i++ {
					idx = append(idx, c.N(len(alpha)))
				}
				l := &p18led{accs: accs, split: (idx[0] + idx[1]) % 3}
				for _, i := range idx {
					l.txs = append(l.txs, alpha[i])
				}
				return &Case{Key: fmt.Sprint("dupes ", idx), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					p23check(e, db, l, p23opts{d: true})
					if idx[0] == idx[2] || thorough {
						p23check(e, db, l, p23opts{u: true, c: true})
						p23check(e, db, l, p23opts{d: true, begin: "2020/01/02"})
						p23check(e, db, l, p23opts{d: true, end: "2020/01/02"})
					}
				}}
			}
			// transactions that are nearly the same
			near := func(c *Chooser) *Case {
				names := []string{"B:C", "A:C", "C", "B:c", "B:C:C", "B"}
				as := []Acc{{Name: "A", Com: "CAD"}, {Name: "Z", Com: "CAD"}}
				for _, n := range names {
					as = append(as, Acc{Name: n, Com: "CAD"})
				}
				variant := func(i int) Tx {
					return cad(d1, []string{"", "x", "X"}[i/24], "A", names[i%6], []string{"1.00", "-1.00", "1.01", "10.00"}[i/6%4])
				}
				i, j := c.N(72), c.N(72)
				if j < i {
					return nil
				}
				l := &p18led{accs: as, txs: []Tx{variant(i), cad(d1, "", "A", "Z", "3.00"), variant(j)}}
				return &Case{Key: fmt.Sprint("near ", i, j), Run: func(e *Env) { p23check(e, e.Sub("db", l.files()), l, p23opts{d: true}) }}
			}
			checks := func(c *Chooser) *Case {
				// two postings of any accounts and amounts, or more with Unbalanced
				kind := c.N(5)
				a, b := c.N(5), c.N(5)
				names := []string{"A", "B:C", "F", "Y", "Unbalanced"}
				l := &p18led{accs: accs}
				for i, v := range []string{"1", "-1", "0", "1.00", "2.5", "1.00001", "-1.005", "12345678901234567890"} {
					for j, w := range []string{"-1", "1", "0", "-1.00001", "-2.5", "1.005", "-1.01", "-12345678901234567890"} {
						if kind > 1 && (i+j)%3 != 0 {
							continue
						}
						ca, cb := l.com(names[a]), l.com(names[b])
						f := func(v, com string) string {
							if !strings.Contains(v, ".") {
								v += "."
							}
							return trimDec(v, p18dec(com))
						}
						t := Tx{Date: dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, (i*8+j*5)%9)), Desc: "d", Ps: []Post{{Acc: names[a], Amt: f(v, ca), Com: ca}, {Acc: names[b], Amt: f(w, cb), Com: cb}}}
						if ca == cb && (kind != 3 || ca == "CAD") {
							t.Ps[1].Amt = ""
						}
						switch kind {
						case 2:
							t.Ps = append(t.Ps, Post{Acc: names[a], Amt: f("0", ca), Com: ca})
						case 3:
							t.Ps = append(t.Ps, Post{Acc: "Unbalanced", Amt: "0.00", Com: "CAD"})
						case 4:
							t.Ps = t.Ps[:1]
							t.Ps[0].Amt = f("0", ca)
						case 1:
							if ca != cb {
								// the other's commodity on an account
								t.Ps[1].Com, t.Ps[1].Amt = ca, f(w, ca)
							}
						}
						l.txs = append(l.txs, t)
					}
				}
				return &Case{Key: fmt.Sprint("checks ", kind, a, b), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					p23check(e, db, l, p23opts{c: true})
					p23check(e, db, l, p23opts{u: true})
					p23check(e, db, l, p23opts{u: true, c: true, begin: "2020/01/03", end: "2020/01/08"})
					p23check(e, db, l, p23opts{d: true})
				}}
			}
			dates := func(c *Chooser) *Case {
				n := []int{0, 1, 2, 13, 40}[c.N(5)]
				step := c.N(3)
				order := c.N(3)
				l := &p18led{accs: accs}
				for i := 0; i < n; i++ {
					k := []int{i, n - 1 - i, (i * 7) % n}[order]
					d := ymdDate(2019, 12, 20).AddDate(0, 0, k*step)
					if step == 0 {
						d = ymdDate(2019, 12, 20).AddDate(0, 0, k/5)
					}
					t := cad(dateStr(d), "", []string{"A", "Unbalanced"}[k%2], "B:C", fmt.Sprint(k%2+1, ".00"))
					if k%3 == 0 {
						t = Tx{Date: dateStr(d), Desc: "d", Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "Y", Amt: "-1", Com: "YEN"}}}
					}
					l.txs = append(l.txs, t)
				}
				if n > 5 {
					l.split = n / 3
				}
				return &Case{Key: fmt.Sprint("dates ", n, step, order), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					span := n*max(step, 1) + 2
					if step == 0 {
						span = n/5 + 3
					}
					for b := -1; b < span; b++ {
						for _, w := range []int{0, 1, 2, 5, 500} {
							if span > 20 && (b+w)%3 != 1 && !thorough {
								continue
							}
							o := p23opts{u: true, c: true, begin: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b)), end: dateStr(ymdDate(2019, 12, 20).AddDate(0, 0, b+w))}
							if w == 500 {
								o.end = ""
							}
							p23check(e, db, l, o)
							o.d = true
							p23check(e, db, l, o)
							p23check(e, db, l, p23opts{end: o.end})
						}
					}
				}}
			}
			counts := func(c *Chooser) *Case {
				i := c.N(6)
				l := &p18led{accs: append([]Acc{}, accs...)}
				for k := 0; k < i*3; k++ {
					l.accs = append(l.accs, Acc{Name: fmt.Sprintf("N%d:M:K%d", k%2, k), Com: "CAD"})
					l.txs = append(l.txs, cad(fmt.Sprintf("2020/%02d/01", 1+k%12), "", "A", l.accs[len(l.accs)-1].Name, "3.00"))
				}
				return &Case{Key: fmt.Sprint("counts ", i), Run: func(e *Env) {
					f := l.files()
					db := e.Sub("db", f)
					p23check(e, db, l, p23opts{})
					p23check(e, db, l, p23opts{u: true, c: true})
					// the same through includes and in several files
					f["accounts.coin"], f["more.inc"] = "include more.inc\n", f["accounts.coin"]
					p23check(e, e.Sub("db2", f), l, p23opts{})
				}}
			}
			return []Space{
				{Name: "dupes", Rule: "every ledger of 3 (thorough 4) out of 14 similar transactions, over two files", Gen: dupes},
				{Name: "near", Rule: "every two of 72 transactions that differ by code, amount or account, with another between them", Gen: near},
				{Name: "checks", Rule: "transactions between any two accounts (Unbalanced too) with 64 pairs of amounts, of two and other numbers of postings, in own and foreign commodities", Gen: checks},
				{Name: "dates", Rule: "0-40 transactions with and without date ties in three written orders over two files; begin and end dates all over", Gen: dates},
				{Name: "counts", Rule: "growing numbers of accounts and transactions", Gen: counts},
			}
		},
	})

	register(&Prop{
		ID: "P24", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one ledger or set of prices with all listing options; states are distinct (ledger, options) pairs",
		Assumptions: []string{"of prices of one day any may count as the latest", "accounts of a tag may come in any order"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			notes := []string{"", "#a", "#a: x", "#A: y, #b", "t #b: x y", "#a: x, #a-b: z", `#c: "q"`}
			accs := []Acc{{Name: "A", Com: "CAD"}, {Name: "A:B", Com: "CAD"}, {Name: "C", Com: "CAD"}}
			led := func(ns []string, long bool) *p18led {
				l := &p18led{accs: accs}
				for i := 0; i+2 < len(ns); i += 3 {
					t := Tx{Date: fmt.Sprintf("2020/01/%02d", 9-i), Desc: "d", Ps: []Post{{Acc: accs[i%3].Name, Amt: "1.00", Com: "CAD"}, {Acc: accs[(i/3+1)%3].Name}}}
					if long {
						t.Notes, t.Ps[0].Notes, t.Ps[1].Notes = []string{"first", ns[i]}, []string{ns[i+1]}, []string{"#a: w", ns[i+2]}
						for _, x := range []*[]string{&t.Notes, &t.Ps[0].Notes, &t.Ps[1].Notes} {
							if len(*x) > 0 && (*x)[len(*x)-1] == "" {
								*x = (*x)[:len(*x)-1]
							}
						}
					} else {
						t.Note, t.Ps[0].Note, t.Ps[1].Note = ns[i], ns[i+1], ns[i+2]
					}
					l.txs = append(l.txs, t)
				}
				return l
			}
			tags := func(c *Chooser) *Case {
				var ns []string
				for i := 0; i < 3; i++ {
					ns = append(ns, notes[c.N(len(notes))])
				}
				second := c.N(4)
				if thorough {
					second = c.N(49)
				}
				ns = append(ns, notes[second%7], notes[(second*3+2)%7], notes[(second*5+second/7)%7])
				l := led(ns, second%2 == 1)
				return &Case{Key: fmt.Sprintf("tags %q", ns), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					rex := []string{"", "a", "^a$", "B", "[-]b|c", "zz"}[(len(ns[0])+len(ns[1])+second)%6]
					p24tags(e, db, l, rex, true, true)
					p24tags(e, db, l, "", second%2 == 0, len(ns[2])%2 == 0)
				}}
			}
			// values, keys and accounts that are nearly the same
			alike := func(c *Chooser) *Case {
				vals := []string{"", "x", "X", "xx", "x x", "x  x", "é", "É", "0", "00"}
				keys := []string{"a", "A", "aa", "a-", "a/a"}
				as := []Acc{{Name: "A", Com: "CAD"}, {Name: "A:A", Com: "CAD"}, {Name: "a", Com: "CAD"}, {Name: "A:a", Com: "CAD"}}
				var ns []string
				if c.N(2) == 0 {
					for i := 0; i < 3; i++ {
						ns = append(ns, "#a: "+vals[c.N(len(vals))])
					}
				} else {
					for i := 0; i < 3; i++ {
						ns = append(ns, "#"+keys[c.N(len(keys))]+": "+vals[1+c.N(2)])
					}
				}
				for i, n := range ns {
					ns[i] = strings.TrimSuffix(n, ": ")
				}
				k := len(ns[0]) + 3*len(ns[1])
				l := &p18led{accs: as, txs: []Tx{
					{Date: "2020/01/01", Desc: "d", Ps: []Post{{Acc: as[k%4].Name, Amt: "1.00", Com: "CAD", Note: ns[0]}, {Acc: as[(k+1)%4].Name, Note: ns[1]}}},
					{Date: "2020/01/02", Desc: "d", Note: ns[2], Ps: []Post{{Acc: as[(k+2)%4].Name, Amt: "1.00", Com: "CAD"}, {Acc: as[(k+3)%4].Name}}}}}
				return &Case{Key: fmt.Sprintf("alike %q", ns), Run: func(e *Env) { p24tags(e, e.Sub("db", l.files()), l, "", true, true) }}
			}
			many := func(c *Chooser) *Case {
				n := []int{7, 8, 9, 13, 30}[c.N(5)]
				mode := c.N(3)
				l := &p18led{accs: accs}
				for i := 0; i < n; i++ {
					tag := []string{fmt.Sprintf("#k%d: v", i*7%n), fmt.Sprintf("#k: v%d", i*7%n), fmt.Sprintf("#k%d, #k%d: v%d", i%5, i*3%7, i%4)}[mode]
					t := Tx{Date: fmt.Sprintf("2020/01/%02d", 1+i%28), Desc: "d", Ps: []Post{{Acc: accs[i%3].Name, Amt: "1.00", Com: "CAD"}, {Acc: accs[i/3%3].Name}}}
					switch i % 3 {
					case 0:
						t.Note = tag
					case 1:
						t.Ps[0].Note = tag
					case 2:
						t.Ps[1].Notes = []string{"n", tag}
					}
					l.txs = append(l.txs, t)
				}
				return &Case{Key: fmt.Sprint("many ", n, mode), Run: func(e *Env) {
					db := e.Sub("db", l.files())
					for _, rex := range []string{"", "k", "1$", "^K2"} {
						for i := 0; i < 4; i++ {
							p24tags(e, db, l, rex, i%2 == 1, i/2 == 1)
						}
					}
				}}
			}
			coms := []Com{{Id: "CAD", Dec: 2, Default: true, Symbol: "CADX", Note: "Canadian $"}, {Id: "BND", Dec: 5, Symbol: "BND.TO"}, {Id: "YEN", Dec: 0, NoMkt: true, Symbol: "Y", Note: "a | b"}}
			coms[2].Note = "Japanese"
			priceCase := func(e *Env, cs []Com, ps []Pri, two bool) {
				f := Files{"commodities.coin": comsText(cs...), "accounts.coin": ""}
				var placed []p24pri
				text := func(ps []Pri, fn string) string {
					s := ""
					for i, p := range ps {
						s += p.text()
						placed = append(placed, p24pri{p, fmt.Sprint(fn, ":", i+1)})
					}
					return s
				}
				if two {
					f["a.prices"], f["b.prices"] = text(ps[:len(ps)/2], "a.prices"), text(ps[len(ps)/2:], "b.prices")
				} else {
					f["prices.coin"] = text(ps, "prices.coin")
				}
				p24prices(e, e.Sub("db", f), cs, placed, fmt.Sprint(two, f["prices.coin"], f["a.prices"], "--", f["b.prices"]))
			}
			prices := func(c *Chooser) *Case {
				n := 2 + c.N(2)
				if thorough {
					n += c.N(2)
				}
				var ps []Pri
				for i := 0; i < n; i++ {
					k := c.N(8)
					if i > 2 {
						k = (k*3 + i) % 8
					}
					pair := [][2]string{{"BND", "CAD"}, {"BND", "YEN"}, {"YEN", "CAD"}, {"CAD", "YEN"}}[k/2]
					ps = append(ps, Pri{[]string{"2020/01/02", "2019/12/31"}[k%2], pair[0], pair[1], []string{"1.25", "300", "0.999", "7.00001", "12"}[i]})
				}
				return &Case{Key: fmt.Sprint("prices ", ps), Run: func(e *Env) { priceCase(e, coms, ps, len(ps[0].Val+ps[1].Com)%2 == 0) }}
			}
			manyPrices := func(c *Chooser) *Case {
				n := []int{0, 1, 11, 13, 14, 40}[c.N(6)]
				order := c.N(3)
				wide := c.N(2) == 1
				cs := append([]Com{}, coms...)
				if wide {
					for i := 0; i < 12; i++ {
						cs = append(cs, Com{Id: fmt.Sprintf("C%c%d", 'A'+i*5%12, i), Dec: i % 4, Note: fmt.Sprint("n", i)})
					}
				}
				var ps []Pri
				for i := 0; i < n; i++ {
					k := []int{i, n - 1 - i, (i * 11) % max(n, 1)}[order]
					p := Pri{dateStr(ymdDate(2019, 12, 1).AddDate(0, 0, k*3)), "BND", []string{"CAD", "YEN"}[k%2], fmt.Sprintf("%d.%02d", k+1, k)}
					if wide {
						p.Cur = cs[(k*5)%len(cs)].Id
						p.Com = cs[1+k%3].Id
						if p.Cur == p.Com {
							p.Cur = "CAD"
						}
					}
					ps = append(ps, p)
				}
				return &Case{Key: fmt.Sprint("many prices ", n, order, wide), Run: func(e *Env) { priceCase(e, cs, ps, order == 1) }}
			}
			return []Space{
				{Name: "alike", Rule: "three notes whose tags' values or keys are any of 10 values or 5 keys that are nearly the same", Gen: alike},
				{Name: "tags", Rule: "two transactions whose notes and postings' notes are any of 7 texts with tags", Gen: tags},
				{Name: "many-tags", Rule: "7-30 keys, values or both, all options", Gen: many},
				{Name: "prices", Rule: "every list of 2-3 (thorough 5) prices over 4 pairs and two days", Gen: prices},
				{Name: "many-prices", Rule: "0-40 prices in three orders over 2 or up to 15 currencies, one or two files", Gen: manyPrices},
			}
		},
	})
}
