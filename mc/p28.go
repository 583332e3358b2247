package main

import (
	"encoding/csv"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
)

// P28: CSV import follows the source mapping.

// p28rule is one line of a source mapping.
type p28rule struct {
	name string
	idx  int // of the record, -1 for a derived value
	out  string
	rex  string // extraction or condition
	cond string // value the condition looks at
}

func (r p28rule) text() string {
	s := "  " + r.name
	if r.idx >= 0 {
		s += fmt.Sprint(" ", r.idx)
		if r.rex != "" {
			s += fmt.Sprintf(" \"%s\" %s", r.out, r.rex)
		}
	} else {
		s += fmt.Sprintf(" \"%s\"", r.out)
		if r.cond != "" {
			s += " " + r.cond + " " + r.rex
		}
	}
	return s + "\n"
}

type p28source struct {
	name  string
	skip  int
	rules []p28rule
}

func (s p28source) text() string {
	t := s.name
	if s.skip > 0 || len(s.name)%2 == 0 {
		t += fmt.Sprint(" ", s.skip)
	}
	t += "\n"
	for _, r := range s.rules {
		t += r.text()
	}
	return t
}

// value of a name for a record
func (s p28source) value(name string, row []string) string {
	for _, r := range s.rules {
		if r.name != name {
			continue
		}
		v := ""
		if r.idx >= 0 {
			v = row[r.idx]
			if r.rex != "" {
				m := cachedRex(r.rex).FindStringSubmatch(v)
				if m == nil {
					continue
				}
				v = fillTemplate(r.out, func(k string, braces bool) (string, bool) {
					if braces || len(k) != 1 || k[0] < '0' || k[0] > '9' {
						return "", false
					}
					if i := int(k[0] - '0'); i < len(m) {
						return m[i], true
					}
					return "", true
				})
			}
		} else {
			if r.cond != "" && !cachedRex(r.rex).MatchString(s.value(r.cond, row)) {
				continue
			}
			v = fillTemplate(r.out, func(k string, braces bool) (string, bool) {
				if !braces {
					return "", false
				}
				return s.value(k, row), true
			})
		}
		if v != "" {
			return v
		}
	}
	return ""
}

// fillTemplate replaces $d and ${name}.
func fillTemplate(t string, get func(k string, braces bool) (string, bool)) (out string) {
	for i := 0; i < len(t); i++ {
		if t[i] == '$' && i+1 < len(t) {
			if t[i+1] == '{' {
				if j := strings.IndexByte(t[i:], '}'); j > 0 {
					if v, ok := get(t[i+2:i+j], true); ok {
						out += v
						i += j
						continue
					}
				}
			} else if v, ok := get(t[i+1:i+2], false); ok {
				out += v
				i++
				continue
			}
			panic("literal $ in template " + t)
		}
		out += t[i : i+1]
	}
	return
}

type p28acc struct {
	name, com string
}

// p28book: accounts, commodities and rules of a database.
type p28book struct {
	accs  []p28acc
	rules []p25group
}

var p28syms = map[string]string{"CAD": "CAD", "USD": "USD", "VXF": "VXF", "QQ": "QQ", "US": "USD", "q_": "QQ", "Qq": "Qq", "vxf": "Qq"}
var p28decs = map[string]int{"CAD": 2, "USD": 2, "VXF": 3, "QQ": 0, "Qq": 1}

func (b p28book) text() string {
	s := comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "USD", Dec: 2, Symbol: "US"}, Com{Id: "VXF", Dec: 3}, Com{Id: "QQ", Symbol: "q_"}, Com{Id: "Qq", Dec: 1, Symbol: "vxf"})
	for _, c := range []string{"USD", "VXF", "QQ", "Qq"} {
		s += "P 2000/01/01 " + c + " 1 CAD\n"
	}
	for _, a := range b.accs {
		s += "account " + a.name + "\n"
		if a.com != "" {
			s += "  commodity " + a.com + "\n"
		}
	}
	return s
}

func (b p28book) com(acc string) string {
	for _, a := range b.accs {
		if a.name == acc && a.com != "" {
			return a.com
		}
	}
	return "CAD"
}

// fitting is the first sub-account in that commodity, the account itself last.
func (b p28book) fitting(com, acc string) string {
	var kids []string
	for _, a := range b.accs {
		if parentOf(a.name) == acc {
			kids = append(kids, a.name)
		}
	}
	sort.Strings(kids)
	for _, k := range kids {
		if f := b.fitting(com, k); f != "" {
			return f
		}
	}
	if b.com(acc) == com {
		return acc
	}
	return ""
}

type p28tx struct {
	date, desc string
	notes      []string
	posts      []string
}

func (t p28tx) String() string {
	return fmt.Sprintf("%s () %q %q %s", t.date, t.desc, t.notes, strings.Join(t.posts, ", "))
}

func words(s string) string { return strings.Join(strings.Fields(s), " ") }

// record is what a record becomes: nil if dropped; ok false if it cannot be imported.
func (b p28book) record(s p28source, row []string) (t *p28tx, ok bool) {
	v := func(n string) string { return s.value(n, row) }
	id := v("account")
	acc := ""
	for _, g := range b.rules {
		if g.acc != "" && g.name == id {
			acc = g.acc
		}
	}
	if acc == "" {
		return nil, false
	}
	desc := words(v("description"))
	to := "Unbalanced"
	d := p25decide(b.rules, id, desc)
	if d == "--" {
		return nil, true
	}
	var notes []string
	if d != "Unbalanced []" {
		to, _, _ = strings.Cut(d, " ")
		for _, g := range b.rules {
			for _, r := range g.rules {
				if r.acc != "" && d == fmt.Sprintf("%s %q", r.acc, r.notes) {
					notes = r.notes
				}
			}
		}
	}
	date := v("date")
	if len(date) != 10 || date[4] != '/' || date[7] != '/' {
		return nil, false
	}
	if n := words(v("note")); n != "" {
		notes = append([]string{n}, notes...)
	}
	com := b.com(to)
	if c := v("currency"); c != "" {
		if com = p28syms[c]; com == "" {
			return nil, false
		}
	}
	parse := func(s, com string) *big.Int {
		if !cachedRex(`^[-+]?\d+(\.\d*)?$`).MatchString(s) {
			return nil
		}
		return ofxAmount(s, p28decs[com])
	}
	amt := parse(v("amount"), com)
	if amt == nil {
		return nil, false
	}
	fit := func(com, acc string) string {
		if f := b.fitting(com, acc); f != "" {
			return f
		}
		return "Unbalanced"
	}
	to = fit(com, to)
	post := func(acc string, v *big.Int, com string) string {
		return acc + " " + fmtDec(v, p28decs[com]) + " " + com
	}
	t = &p28tx{date: date, desc: desc, notes: notes}
	sym, q := v("symbol"), v("quantity")
	if sym != "" {
		c2 := p28syms[sym]
		if c2 == "" {
			return nil, false
		}
		if q != "" {
			qty := parse(q, c2)
			if qty == nil {
				return nil, false
			}
			if qty.Sign()*amt.Sign() > 0 {
				qty.Neg(qty)
			}
			if b.com(fit(c2, acc)) == b.com(to) {
				return nil, false // no account to hold it: does not balance
			}
			t.posts = []string{post(fit(c2, acc), qty, c2), post(to, amt, com)}
		}
	}
	if t.posts == nil {
		t.posts = []string{post(fit(com, acc), amt, com), post(to, new(big.Int).Neg(amt), com)}
	}
	sort.Strings(t.posts)
	return t, true
}

// p28check imports files of records and compares; rows the model refuses must be left out by the caller.
func p28check(e *Env, b p28book, sources []p28source, s p28source, fields string, header []string, files ...[][]string) {
	f := Files{"accounts.coin": b.text(), "commodities.coin": ""}
	text := ""
	for i, x := range sources {
		text += x.text()
		if i%2 == 1 {
			text += "\n"
		}
	}
	f["csv.rules"] = text + "---\n" + p25text(b.rules, true)
	db := e.Sub("db", f)
	var want []*p28tx
	args := []string{"-source", s.name}
	if fields != "" {
		args = []string{"-fields", fields}
	}
	var all strings.Builder
	for i, rows := range files {
		var t strings.Builder
		for _, h := range header {
			t.WriteString(h + "\n")
		}
		w := csv.NewWriter(&t)
		w.UseCRLF = i%2 == 1
		must(w.WriteAll(rows))
		n := fmt.Sprintf("in%d.csv", i)
		must(os.WriteFile(db+"/"+n, []byte(t.String()), 0o644))
		all.WriteString("--- " + n + "\n" + t.String())
		args = append(args, n)
		for _, r := range rows {
			x, ok := b.record(s, r)
			if !ok {
				panic(fmt.Sprintf("row %q cannot be imported", r))
			}
			if x != nil {
				want = append(want, x)
			}
		}
	}
	sort.SliceStable(want, func(i, j int) bool { return want[i].date < want[j].date })
	r := e.Run("csv2coin", db, args...)
	e.State(text + all.String())
	input := func() string {
		return fmt.Sprint("csv2coin ", args, "\n--- csv.rules\n", f["csv.rules"], "--- accounts.coin\n", f["accounts.coin"], "--- stderr\n", r.Err, "--- output\n", clipped(r.Out, 2000), clipped(all.String(), 4000))
	}
	sig := fmt.Sprint(hash64(text+fields), len(want))
	if r.Code != 0 {
		e.Fail("exit "+sig, "exit code %d\n%s", r.Code, input())
		return
	}
	var got []string
	_, msg, failed := e.lib(func() { got = impLoad(b.text() + r.Out) })
	if failed {
		e.Fail("invalid "+sig, "the output does not load: %s\n%s", msg, input())
		return
	}
	e.traces += len(want)
	for i := 0; i < len(want) || i < len(got); i++ {
		g, w := "(nothing)", "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i].String()
		}
		if g != w {
			e.Fail("tx "+sig, "transaction %d is\n  %s\nshould be\n  %s\n%s", i, g, w, input())
			return
		}
	}
	e.Outcome(fmt.Sprint(len(want)))
	if len(files) == 2 && fields == "" { // the mapping dumped and loaded
		dump := e.Run("csv2coin", db, "-rules")
		must(os.WriteFile(db+"/csv.rules", []byte(dump.Out), 0o644))
		if again := e.Run("csv2coin", db, args...); dump.Code != 0 || again.Code != 0 || again.Out != r.Out {
			e.Fail("dump "+sig, "with the rules as dumped the import differs at %s: %s %s\n--- dump\n%s%s", firstDiff(again.Out, r.Out), dump.Err, again.Err, dump.Out, input())
		}
	}
}

func clipped(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...\n"
	}
	return s
}

func init() {
	rules := []p25group{
		{name: "g", rules: []p25rule{{acc: "Ex:Fee", expr: "Fee|HST", notes: []string{"#fee", "k: v"}}, {acc: "", expr: "drop"}}},
		{"A1", "As:Inv", []p25rule{{acc: "In:Div", expr: "^Div"}, {ref: "g"}, {acc: "As:Inv", expr: "Buy|Sell"}}},
		{"B2", "As:Bank", []p25rule{{ref: "g"}, {acc: "As:Inv", expr: "Buy", notes: []string{"bought"}}}},
	}
	accs := []p28acc{{"As:Inv", ""}, {"As:Inv:USD", "USD"}, {"As:Inv:VXF", "VXF"}, {"As:Inv:QQ", "QQ"}, {"As:Inv:QQ:Deep", "QQ"}, {"As:Inv:Qa", "Qq"}, {"As:Bank", "CAD"}, {"Ex:Fee", ""}, {"In:Div", "USD"}, {"In:Div:Can", "CAD"}}
	book := p28book{accs, rules}
	d := func(name string, idx int) p28rule { return p28rule{name: name, idx: idx} }
	x := func(name string, idx int, out, rex string) p28rule {
		return p28rule{name: name, idx: idx, out: out, rex: rex}
	}
	t := func(name, out string) p28rule { return p28rule{name: name, idx: -1, out: out} }
	tc := func(name, out, cond, rex string) p28rule {
		return p28rule{name: name, idx: -1, out: out, cond: cond, rex: rex}
	}
	// 0 account 1 date 2 description 3 amount 4 other amount 5 currency 6 symbol 7 quantity 8 note 9 date in another form
	dims := [][][]p28rule{
		{{d("account", 0)}, {t("account", "A1")}, {x("account", 0, "B$2", `(.)(.)`), d("account", 0)}, {tc("account", "B2", "description", "Fee"), t("account", "A1")}},
		{{d("description", 2)}, {d("what", 2), d("What", 7), d("whats", 6), t("description", "${what} ${What} of ${whats}")}, {x("description", 2, "$1", `^(Div)`), d("description", 2)}, {d("what", 2), d("how", 7), t("description", "{${what}} ${how}}")}},
		{{d("date", 1)}, {x("date", 9, "$3/$2/$1", `(\d\d)\.(\d\d)\.(\d{4})`)}, {x("y", 9, "$1", `.*\.(.*)`), x("Y", 1, "/$1/$2", `/(\d+)/(\d+)`), t("date", "${y}${Y}")}},
		{{d("amount", 3), x("amount", 4, "-$1", `VALUE = ([\d.]+)`)}, {x("amount", 4, "$1$2", `(-?)VALUE = \s*([\d.]+)`), d("amount", 3), t("amount", "7")}, {tc("amount", "${neg}", "description", "Fee"), x("neg", 3, "-$0", `^\d[\d.]*$`), d("amount", 3), x("amount", 4, "$0", `\d+`)}},
		{nil, {d("currency", 5)}, {t("currency", "USD")}, {tc("currency", "US", "account", "A"), t("currency", "CAD")}},
		{nil, {d("symbol", 6)}, {d("sym", 6), tc("symbol", "${sym}", "description", "Buy|Sell")}, {x("symbol", 6, "$1", `^(...)$`), d("rawq", 7), tc("symbol", "VXF", "rawq", ".")}},
		{nil, {d("quantity", 7)}, {x("quantity", 7, "$1", `^-?(\d.*)`)}, {d("q", 7), tc("quantity", "${q}", "symbol", "VXF|USD")}},
		{nil, {d("note", 8)}, {t("note", "${amount} ${symbol}"), d("note", 8)}, {tc("note", "x", "note1", "^$"), d("note1", 8)}, {x("gap", 0, "a  b", `.`), tc("note", "two", "gap", "^a  b$"), d("note", 8)}},
	}
	var rows [][]string
	{
		ids := []string{"A1", "B2"}
		dates := []string{"2020/01/31", "2019/12/31", "2020/02/29"}
		descs := []string{"Buy", " Div  x ", "HST Fee", "drop it", "", "Sell\nall"}
		amts := [][2]string{{"10.50", ""}, {"-3", "VALUE = 2.25"}, {"", "VALUE = 8"}, {"0", "-VALUE = 0.5"}}
		curs := []string{"", "CAD", "USD", "US"}
		syms := []string{"", "VXF", "QQ", "q_", "Qq", "vxf"}
		qs := []string{"", "5", "-4.", "2.000"}
		notes := []string{"", "a  note, \"quoted\"", "#t: v"}
		k := 0
		for _, id := range ids {
			for di, desc := range descs {
				for ai, a := range amts {
					for ci, c := range curs {
						for si, s := range syms {
							for qi, q := range qs {
								dt := dates[(di+ai+ci+si+qi)%3]
								n := notes[(k+k/7)%3]
								k++
								rows = append(rows, []string{id, dt, desc, a[0], a[1], c, s, q, n, dt[8:] + "." + dt[5:7] + "." + dt[:4]})
							}
						}
					}
				}
			}
		}
	}
	register(&Prop{
		ID: "P28", Level: "model_checking", Bins: []string{"csv2coin"},
		Rule:        "a case is a source mapping with its records, imported through the command; states are distinct (mapping, records) pairs",
		Assumptions: []string{"records that lack an amount, a date or a known account or commodity are refused and not part of the property", "'$' in templates only for references", "amounts have no more decimals than their commodity", "descriptions contain no ';'", "conversions have accounts of two different commodities to go to"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			mapping := func(c *Chooser) *Case {
				var ks []int
				sum := 0
				s := p28source{name: "src"}
				for i, dim := range dims {
					k := 0
					if thorough {
						k = c.N(len(dim))
					} else {
						k = c.Dev(len(dim))
					}
					ks = append(ks, k)
					sum += k * (i + 1)
					s.rules = append(s.rules, dim[k]...)
				}
				if thorough && (ks[1] == 3 || ks[7] == 3) && sum%3 > 0 {
					return nil
				}
				if sum%3 == 1 { // the order of lines of different values does not matter
					sort.SliceStable(s.rules, func(i, j int) bool { return s.rules[i].name < s.rules[j].name })
				}
				step := 7
				if thorough {
					step = 19
				}
				return &Case{Key: fmt.Sprint("mapping ", ks), Run: func(e *Env) {
					var use [][]string
					for i := sum % step; i < len(rows); i += step {
						if _, ok := book.record(s, rows[i]); ok {
							use = append(use, rows[i])
						}
					}
					files := [][][]string{use}
					if sum%2 == 0 {
						files = [][][]string{use[:len(use)/3], use[len(use)/3:]}
					}
					p28check(e, book, []p28source{s}, s, "", nil, files...)
				}}
			}
			// one record alone, for every one
			single := func(c *Chooser) *Case {
				k := c.N(64)
				return &Case{Key: fmt.Sprint("single ", k), Run: func(e *Env) {
					s := p28source{name: "one"}
					for i, dim := range dims {
						s.rules = append(s.rules, dim[(k>>(i%6))%len(dim)]...)
					}
					for i := k; i < len(rows); i += 64 {
						if _, ok := book.record(s, rows[i]); ok {
							p28check(e, book, []p28source{s}, s, "", nil, [][]string{rows[i]})
						}
					}
				}}
			}
			fields := func(c *Chooser) *Case {
				n := 4 + c.N(5)
				p := c.N(24)
				return &Case{Key: fmt.Sprint("fields ", n, p), Run: func(e *Env) {
					names := []string{"account", "description", "date", "amount", "currency", "symbol", "quantity", "note"}
					cols := []int{0, 2, 1, 3, 5, 6, 7, 8}
					order := permFromIndex(4, p)
					s := p28source{}
					var idx []string
					pos := append(append([]int{}, order...), 4, 5, 6, 7)
					if p%2 == 1 {
						pos[4], pos[7] = 7, 4
					}
					for i := 0; i < n; i++ {
						s.rules = append(s.rules, d(names[i], pos[i]))
						idx = append(idx, fmt.Sprint(pos[i]))
					}
					var use [][]string
					for i := p; i < len(rows); i += 11 {
						row := make([]string, 8)
						for j := range cols {
							row[pos[j]] = rows[i][cols[j]]
						}
						if _, ok := book.record(s, row); ok {
							use = append(use, row)
						}
					}
					p28check(e, book, nil, s, strings.Join(idx, ","), nil, use)
				}}
			}
			// header lines of any shape, several sources in the rules
			headers := func(c *Chooser) *Case {
				n := c.N(7)
				var hs []string
				for i := 0; i < n; i++ {
					if i > 1 && n > 3 { // many lines of one shape
						hs = append(hs, hs[i-1])
						continue
					}
					hs = append(hs, []string{"Account statement", "a,b,c,d,e,f,g,h,i,j", "\"quoted, field\",x", "2020/01/01,1,2,3,4,5,6,7,8,9,10,11,12"}[c.N(4)])
				}
				which := c.N(4)
				return &Case{Key: fmt.Sprint("headers ", hs, which), Run: func(e *Env) {
					var ss []p28source
					for i := 0; i < 4; i++ {
						s := p28source{name: []string{"s1", "src_2", "Three", "x4"}[i], skip: i}
						if i == which {
							s.skip = n
						}
						for _, dim := range dims {
							s.rules = append(s.rules, dim[(i+1)%len(dim)]...)
						}
						ss = append(ss, s)
					}
					var use [][]string
					for i := which; i < len(rows); i += 37 {
						if _, ok := book.record(ss[which], rows[i]); ok {
							use = append(use, rows[i])
						}
					}
					for m := range use {
						if m == 1 || m == len(use)-1 || m == 5 {
							p28check(e, book, ss[:which+1], ss[which], "", hs, use[:m])
							p28check(e, book, ss, ss[which], "", hs, use[m:], use[:m])
						}
					}
				}}
			}
			// trees of accounts: every parent and commodity of four sub-accounts
			trees := func(c *Chooser) *Case {
				n := c.N(5)
				coms := []string{"", "USD", "VXF"}
				bk := p28book{rules: []p25group{{"A1", "As", []p25rule{{acc: "In", expr: "in"}, {acc: "As", expr: "self"}}}}}
				bk.accs = []p28acc{{"As", coms[c.N(3)]}, {"In", ""}}
				for i := 0; i < n; i++ {
					p := c.N(i + 2)
					parent := "As"
					if p == i+1 {
						parent = "In"
					} else if p > 0 {
						parent = bk.accs[1+p].name
					}
					if n == 4 && !thorough && p > 0 && i > 0 && (p+i)%2 == 0 {
						return nil
					}
					k := c.N(3)
					bk.accs = append(bk.accs, p28acc{parent + ":" + []string{"M", "B", "X", "A"}[i], coms[k]})
				}
				return &Case{Key: fmt.Sprint("trees ", bk.accs), Run: func(e *Env) {
					s := p28source{name: "s", rules: []p28rule{d("account", 0), d("date", 1), d("description", 2), d("amount", 3), d("currency", 4), d("symbol", 5), d("quantity", 6)}}
					var use [][]string
					for _, desc := range []string{"in", "self", "none"} {
						for _, cur := range []string{"", "CAD", "USD", "VXF"} {
							for _, sym := range []string{"", "CAD", "VXF", "QQ"} {
								for _, v := range [][2]string{{"5", ""}, {"-5", "2"}} {
									row := []string{"A1", "2020/01/01", desc, v[0], cur, sym, v[1]}
									if _, ok := bk.record(s, row); ok {
										use = append(use, row)
									}
								}
							}
						}
					}
					p28check(e, bk, []p28source{s}, s, "", nil, use)
				}}
			}
			// many records over few days, several files
			order := func(c *Chooser) *Case {
				n := []int{0, 1, 11, 12, 13, 14, 40, 200}[c.N(8)]
				m := 1 + c.N(5)
				files := 1 + c.N(3)
				return &Case{Key: fmt.Sprint("order ", n, m, files), Run: func(e *Env) {
					s := p28source{name: "s", rules: []p28rule{d("account", 0), d("date", 1), d("description", 2), d("amount", 3)}}
					fs := make([][][]string, files)
					for i := 0; i < n; i++ {
						fs[i%files] = append(fs[i%files], []string{[]string{"A1", "B2"}[i%2], ymdDate(2020, 1, 30+i*7%m).Format("2006/01/02"), fmt.Sprint([]string{"x", "Div", "Fee", "drop", "Buy"}[i%5], " ", i), fmt.Sprint(i - n/2)})
					}
					p28check(e, book, []p28source{s}, s, "", nil, fs...)
				}}
			}
			// records without an account must not be imported anywhere
			refuse := func(c *Chooser) *Case {
				k := c.N(6)
				return &Case{Key: fmt.Sprint("refuse ", k), Run: func(e *Env) {
					row := []string{"A1", "2020/01/01", "x", "5", "CAD"}
					switch k {
					case 1:
						row[0] = ""
					case 2:
						row[0] = "C3"
					case 3:
						row[3] = ""
					case 4:
						row[4] = "EUR"
					case 5:
						row[1] = "2020-13-01"
					}
					s := p28source{name: "s", rules: []p28rule{d("account", 0), d("date", 1), d("description", 2), d("amount", 3), d("currency", 4)}}
					_, ok := book.record(s, row)
					db := e.Sub("db", Files{"accounts.coin": book.text(), "commodities.coin": "", "csv.rules": s.text() + "---\n" + p25text(rules, false), "in.csv": strings.Join(row, ",") + "\n"})
					r := e.Run("csv2coin", db, "-source", "s", "in.csv")
					if (r.Code == 0) != ok || !ok && strings.TrimSpace(r.Out) != "" {
						e.Fail(fmt.Sprint("refuse ", k), "record %q: exit code %d\n%s\n%s", row, r.Code, r.Out, r.Err)
					}
				}}
			}
			bound := 2
			if thorough {
				bound = -1
			}
			return []Space{
				{Name: "mapping", Rule: "source mappings over 8 values with 3-4 variants each (thorough: all, of those with the two last variants a third; quick: all that differ from the basic one in up to 3), over a slice of 4608 records", Bound: b2i(bound > 0) * 3, Gen: mapping},
				{Name: "single", Rule: "every record alone under one of 64 mappings", Gen: single},
				{Name: "fields", Rule: "4-8 fields given on the command line in 24 orders", Gen: fields},
				{Name: "headers", Rule: "0-6 header lines of 4 shapes with 4 sources", Gen: headers},
				{Name: "trees", Rule: "every tree of up to 4 sub-accounts with every choice of 3 commodities", Gen: trees},
				{Name: "order", Rule: "up to 200 records over up to 5 days in up to 3 files", Gen: order},
				{Name: "refuse", Rule: "records that lack something are refused", Gen: refuse},
			}
		},
	})
}
