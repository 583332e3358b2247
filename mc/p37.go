package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// P37: Ledger compatible output says the same to Ledger.

// what cannot be part of a commodity symbol in Ledger unless it is quoted (of its manual)
const ledgerSpecial = " \t0123456789.,;:?!-+*^/&|=<>[](){}@"

var (
	ledgerDate = regexp.MustCompile(`^(\d{4}/\d\d/\d\d)(\s|$)`)
	ledgerNum  = regexp.MustCompile(`^-?\d+(\.\d+)?`)
	ledgerCode = regexp.MustCompile(`^\s*\(([^)]*)\)`)
)

// ledgerSymbol reads a commodity symbol off the beginning of the text.
func ledgerSymbol(s string) (id, rest string, err error) {
	if strings.HasPrefix(s, `"`) {
		i := strings.IndexByte(s[1:], '"')
		if i < 1 {
			return "", "", fmt.Errorf("quoted symbol without end: %s", s)
		}
		return s[1 : 1+i], s[2+i:], nil
	}
	i := strings.IndexAny(s, ledgerSpecial+`"`)
	if i < 0 {
		i = len(s)
	}
	if i == 0 {
		return "", "", fmt.Errorf("no symbol: %s", s)
	}
	if i < len(s) && s[i] != ' ' && s[i] != ';' {
		return "", "", fmt.Errorf("symbol that has to be quoted: %s", s)
	}
	return s[:i], s[i:], nil
}

func ledgerAmount(s string) (amt, id, rest string, err error) {
	amt = ledgerNum.FindString(s)
	if amt == "" {
		return "", "", "", fmt.Errorf("no amount: %s", s)
	}
	id, rest, err = ledgerSymbol(strings.TrimLeft(s[len(amt):], " "))
	return
}

func ledgerNote(s string) (notes []string, err error) {
	s = strings.TrimSpace(s)
	if s == "" {
		return nil, nil
	}
	if s[0] != ';' {
		return nil, fmt.Errorf("what is %s", s)
	}
	return []string{strings.TrimSpace(s[1:])}, nil
}

type ledgerEntry struct {
	kind, head string
	dec        int
	sub        []string
	notes      []string
	posts      []string
	pnotes     [][]string
}

func (x *ledgerEntry) String() string {
	switch x.kind {
	case "tx":
		var ps []string
		for i, p := range x.posts {
			ps = append(ps, fmt.Sprintf("%s %q", p, x.pnotes[i]))
		}
		sort.Strings(ps)
		return fmt.Sprintf("tx %s %q %s", x.head, x.notes, strings.Join(ps, ", "))
	}
	sort.Strings(x.sub)
	return fmt.Sprintf("%s %s %q", x.kind, x.head, x.sub)
}

// readLedger reads as Ledger does what coin writes for it.
func readLedger(text string) (out []string, err error) {
	var cur *ledgerEntry
	done := func() {
		if cur != nil {
			out = append(out, cur.String())
		}
		cur = nil
	}
	for i, l := range strings.Split(text, "\n") {
		if err := func() (err error) {
			if strings.TrimSpace(l) == "" {
				done()
				return nil
			}
			t := strings.TrimSpace(l)
			if l[0] != ' ' {
				done()
				word, rest, _ := strings.Cut(l, " ")
				rest = strings.TrimSpace(rest)
				switch {
				case word == "commodity":
					id, more, err := ledgerSymbol(rest)
					if err != nil || more != "" {
						return fmt.Errorf("commodity: %v %s", err, more)
					}
					cur = &ledgerEntry{kind: "commodity", head: id}
				case word == "account":
					cur = &ledgerEntry{kind: "account", head: rest}
				case word == "P":
					m := ledgerDate.FindString(rest)
					if m == "" {
						return fmt.Errorf("price without date")
					}
					id, more, err := ledgerSymbol(strings.TrimLeft(rest[len(m):], " "))
					if err != nil {
						return err
					}
					amt, id2, more, err := ledgerAmount(strings.TrimLeft(more, " "))
					if err != nil || strings.TrimSpace(more) != "" {
						return fmt.Errorf("price: %v %s", err, more)
					}
					out = append(out, fmt.Sprint("price ", strings.TrimSpace(m), " ", id, " ", amt, " ", id2))
				default:
					m := ledgerDate.FindString(l)
					if m == "" {
						return fmt.Errorf("what is it")
					}
					cur = &ledgerEntry{kind: "tx"}
					code, rest := "", l[len(m):]
					if c := ledgerCode.FindStringSubmatch(rest); c != nil {
						code, rest = c[1], rest[len(c[0]):]
					}
					desc, note, found := strings.Cut(rest, ";")
					if found {
						cur.notes = append(cur.notes, strings.TrimSpace(note))
					}
					cur.head = fmt.Sprintf("%s %q %q", strings.TrimSpace(m), code, strings.TrimSpace(desc))
				}
				return nil
			}
			if cur == nil {
				return fmt.Errorf("a line of no entry")
			}
			if cur.kind != "tx" {
				word, rest, _ := strings.Cut(t, " ")
				rest = strings.TrimSpace(rest)
				switch cur.kind + " " + word {
				case "commodity note", "account note", "account closed":
				case "commodity nomarket", "commodity default":
					if rest != "" {
						return fmt.Errorf("what is %s", rest)
					}
				case "commodity format":
					amt, id, more, err := ledgerAmount(rest)
					if err != nil || more != "" {
						return fmt.Errorf("format: %v %s", err, more)
					}
					rest = amt + " " + id
				case "account commodity":
					id, more, err := ledgerSymbol(rest)
					if err != nil || more != "" {
						return fmt.Errorf("commodity: %v %s", err, more)
					}
					rest = id
				default:
					return fmt.Errorf("Ledger does not know it")
				}
				cur.sub = append(cur.sub, strings.TrimSpace(word+" "+rest))
				return nil
			}
			if t[0] == ';' {
				n := strings.TrimSpace(t[1:])
				if k := len(cur.posts); k > 0 {
					cur.pnotes[k-1] = append(cur.pnotes[k-1], n)
				} else {
					cur.notes = append(cur.notes, n)
				}
				return nil
			}
			// the account ends at two blanks
			acc, rest, found := strings.Cut(t, "  ")
			if !found {
				return fmt.Errorf("no amount")
			}
			amt, id, rest, err := ledgerAmount(strings.TrimLeft(rest, " "))
			if err != nil {
				return err
			}
			p := fmt.Sprint(acc, " ", amt, " ", id)
			if rest = strings.TrimSpace(rest); strings.HasPrefix(rest, "=") {
				amt, id, more, err := ledgerAmount(strings.TrimLeft(rest[1:], " "))
				if err != nil {
					return err
				}
				p += fmt.Sprint(" = ", amt, " ", id)
				rest = more
			}
			ns, err := ledgerNote(rest)
			if err != nil {
				return err
			}
			cur.posts = append(cur.posts, p)
			cur.pnotes = append(cur.pnotes, ns)
			return nil
		}(); err != nil {
			return nil, fmt.Errorf("line %d %q: %v", i+1, l, err)
		}
	}
	done()
	sort.Strings(out)
	return out, nil
}

// ledgerTx is what Ledger has to understand of a transaction.
func ledgerTx(t Tx, dec map[string]int) string {
	x := &ledgerEntry{kind: "tx", head: fmt.Sprintf("%s %q %q", t.Date, t.Code, t.Desc)}
	if t.Note != "" {
		x.notes = append(x.notes, t.Note)
	}
	x.notes = append(x.notes, t.Notes...)
	for _, p := range t.Ps {
		s := fmt.Sprint(p.Acc, " ", fmtDec(parseDec(p.Amt, dec[p.Com]), dec[p.Com]), " ", p.Com)
		if p.Bal != "" {
			s += fmt.Sprint(" = ", fmtDec(parseDec(p.Bal, dec[p.BalCom]), dec[p.BalCom]), " ", p.BalCom)
		}
		x.posts = append(x.posts, s)
		var ns []string
		if p.Note != "" {
			ns = append(ns, p.Note)
		}
		x.pnotes = append(x.pnotes, append(ns, p.Notes...))
	}
	return x.String()
}

// p37format formats the transactions for Ledger, in every way there is.
func p37format(e *Env, sig string, coms []Com, accs []Acc, ts []Tx) {
	dec := map[string]int{}
	for _, c := range coms {
		dec[c.Id] = c.Dec
	}
	var want []string
	src := ""
	for _, t := range ts {
		want = append(want, ledgerTx(t, dec))
		src += t.text()
	}
	sort.Strings(want)
	fs := Files{"commodities.coin": comsText(coms...), "accounts.coin": accsText(accs...), "t.coin": src}
	e.State(src)
	db := e.Sub("db", fs)
	for _, args := range [][]string{{"format", "-ledger", "t.coin"}, {"f", "-t", "-ledger", "t.coin"}, {"fmt", "-i", "-ledger", "t.coin"}} {
		r := e.Run("coin", db, args...)
		out := r.Out
		if args[1] == "-i" {
			out = string(mustRead(filepath.Join(db, "t.coin")))
		}
		e.Outcome(fmt.Sprint(r.Code, hash64(out)))
		got, err := readLedger(out)
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); r.Code != 0 || err != nil || g != w {
			e.Fail(sig, "coin %v (exit %d): Ledger does not read the same: %v\n%s\n--- output\n%s\n--- source\n%s%s", args, r.Code, err, firstDiff(g, w), clipped(out, 3000), clipped(src, 3000), r.Err)
			return
		}
	}
}

// p37gnucash converts a book for Ledger, in every way there is.
func p37gnucash(e *Env, ids []string, fracs []int64) {
	raw, b := gcBook{}, gcBook{template: true}
	for i, id := range ids {
		raw.coms = append(raw.coms, gcCom{id, "Name " + fmt.Sprint(i), fracs[i%len(fracs)]})
		b.coms = append(b.coms, gcCom{xmlText(id), "Name " + fmt.Sprint(i), fracs[i%len(fracs)]})
		b.accs = append(b.accs, gcAcc{fmt.Sprint("Acc", i), i/2 - 1, xmlText(id), "desc", []string{"123 456", "789", ""}[i%3]})
		b.prices = append(b.prices, gcPrice{"2019-12-31 10:59:00 +0000", xmlText(id), xmlText(ids[(i+1)%len(ids)]), "5", "4"})
	}
	var want []string
	for i, id := range ids {
		c := raw.coms[i]
		f := "1"
		if c.dec() > 0 {
			f += "." + strings.Repeat("0", c.dec())
		}
		sub := []string{"note " + c.name, "format " + f + " " + id}
		if id == "CAD" {
			sub = append(sub, "default")
		}
		want = append(want, (&ledgerEntry{kind: "commodity", head: id, sub: sub}).String())
		want = append(want, (&ledgerEntry{kind: "account", head: b.full(i), sub: []string{"note desc", "commodity " + id}}).String())
		cur := raw.coms[(i+1)%len(ids)]
		want = append(want, fmt.Sprint("price 2019/12/31 ", id, " ", fmtDec(gcAmount("5", "4", cur.dec()), cur.dec()), " ", cur.id))
		j := (i + 1) % len(ids)
		stamp := fmt.Sprintf("%d-03-0%d 10:59:00 +0000", 2019+i%2, 1+i%9)
		b.txs = append(b.txs, gcTx{stamp, "7", fmt.Sprint("t", i), []gcSplit{{i, "-5", "2", "memo"}, {j, "700", "100", ""}}})
		cj := raw.coms[j]
		amt := func(n, d int64, c gcCom) string {
			return fmtDec(gcAmount(big.NewInt(n).String(), big.NewInt(d).String(), c.dec()), c.dec()) + " " + c.id
		}
		want = append(want, (&ledgerEntry{kind: "tx", head: fmt.Sprintf("%s %q %q", gcDay(stamp), "7", fmt.Sprint("t", i)),
			posts: []string{b.full(i) + " " + amt(-5, 2, c), b.full(j) + " " + amt(7, 1, cj)}, pnotes: [][]string{{"memo"}, nil}}).String())
	}
	sort.Strings(want)
	e.State(fmt.Sprint(ids))
	src := e.Sub("src", Files{"book.gnucash": gzipped(b.xml())})
	for _, args := range [][]string{{"-l"}, {"-l", "dir"}, {"-y", "-l", "dir"}} {
		db := e.Sub("db", nil)
		env := []string{"GNUCASHDB=" + filepath.Join(src, "book.gnucash")}
		opts := args
		if args[len(args)-1] == "dir" {
			opts = args[:len(args)-1]
		} else {
			env = append(env, "COINDB=")
		}
		r := e.RunEnv("gc2coin", db, env, "", opts...)
		out := r.Out
		es, _ := os.ReadDir(db)
		for _, x := range es {
			out += string(mustRead(filepath.Join(db, x.Name()))) + "\n"
		}
		e.Outcome(fmt.Sprint(r.Code, hash64(out)))
		all, err := readLedger(out)
		var got []string
		for _, x := range all { // the account coin has for itself
			if !strings.HasPrefix(x, "account Unbalanced ") && !strings.HasPrefix(x, "account Root ") && !strings.HasPrefix(x, "account  ") {
				got = append(got, x)
			}
		}
		if g, w := strings.Join(got, "\n"), strings.Join(want, "\n"); r.Code != 0 || err != nil || g != w {
			e.Fail(fmt.Sprint("book ", ids), "gc2coin %v (exit %d): Ledger does not read the same: %v\n%s\n--- output\n%s\n%s", args, r.Code, err, firstDiff(g, w), clipped(out, 3000), r.Err)
			return
		}
	}
}

func init() {
	register(&Prop{
		ID: "P37", Level: "model_checking", Bins: []string{"coin", "gc2coin"},
		Rule: "a case is a set of commodities, a layout of transactions, or a book; states are distinct inputs",
		Assumptions: []string{
			"a reader written for this stands for Ledger: entries, symbols, amounts and notes as its manual has them; lines closed and commodity of accounts, and a note of a transaction after one blank, are taken as coin means them",
			"GnuCash commodities have no double quotes in their ids",
		},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			depth, wide := 2, 2
			if thorough {
				depth, wide = 3, 3
			}
			ids := func(c *Chooser) *Case {
				// all identifiers of up to 1+depth characters beginning so
				id := []string{"A", "b", "CAD"}[c.N(3)]
				for n := c.N(depth + 1); n > 0; n-- {
					id += string("A1_9z"[c.N(5)])
				}
				other := []string{"USD", "K7", "x"}[c.N(3)]
				if id == other {
					return nil
				}
				return &Case{Key: fmt.Sprint("ids ", id, other), Run: func(e *Env) {
					coms := []Com{{Id: id, Dec: 2, Default: true}, {Id: other, Dec: 0}}
					accs := []Acc{{Name: "As:A", Com: id}, {Name: "As:B", Com: id}, {Name: "Ex:C", Com: other}, {Name: "Ex:D", Com: other}}
					ts := []Tx{
						{Date: "2020/01/01", Desc: "one", Ps: []Post{{Acc: "As:A", Amt: "1.00", Com: id, Bal: "1.00", BalCom: id}, {Acc: "As:B", Amt: "-1.00", Com: id}}},
						{Date: "2020/01/02", Desc: "two", Code: "7", Ps: []Post{{Acc: "As:A", Amt: "-1.00", Com: id}, {Acc: "Ex:C", Amt: "3", Com: other, Bal: "3", BalCom: other}}},
						{Date: "2020/01/03", Desc: "three", Ps: []Post{{Acc: "Ex:C", Amt: "12345", Com: other, Note: "n"}, {Acc: "Ex:D", Amt: "-12345", Com: other, Bal: "7.50", BalCom: id}}},
					}
					p37format(e, fmt.Sprint("ids ", id, other), coms, accs, ts)
				}}
			}
			layout := func(c *Chooser) *Case {
				id, dec := []string{"CAD", "K1", "A_9", "Long_Symbol_of_20_x"}[c.N(4)], []int{0, 2, 5}[c.N(3)]
				bal := c.N(2) == 1
				desc := []string{"", "d", strings.Repeat("long ", 12) + "x"}[c.N(3)]
				kind := c.N(3)
				return &Case{Key: fmt.Sprint("layout ", id, dec, bal, desc, kind), Run: func(e *Env) {
					coms := []Com{{Id: id, Dec: dec, Default: true}}
					accs := []Acc{{Name: "As:A", Com: id}, {Name: "Ex:" + strings.Repeat("Long", 6), Com: id}}
					var ts []Tx
					day := ymdDate(2020, 1, 1)
					amts := []string{"0", "1", "-1", "99", "-100", "1234567890123"}
					for n := 0; n <= 90; n++ {
						note := strings.Repeat("n", n)
						amt := fmtDec(parseDec(amts[n%len(amts)], dec), dec)
						neg := fmtDec(new(big.Int).Neg(parseDec(amts[n%len(amts)], dec)), dec)
						p := Post{Acc: accs[n%2].Name, Amt: amt, Com: id}
						if bal {
							p.Bal, p.BalCom = amt, id
						}
						t := Tx{Date: dateStr(day.AddDate(0, 0, n)), Desc: desc, Code: []string{"", "123"}[n%2]}
						switch kind {
						case 0:
							t.Note = note
						case 1:
							p.Note = note
						case 2:
							p.Note, t.Note = note, strings.TrimSpace("#tag: value, "+note)
							p.Notes, t.Notes = []string{strings.TrimSpace("second " + note), "third"}, []string{strings.TrimSpace("second " + note)}
							if n == 0 {
								p.Note = "x"
							}
						}
						t.Ps = []Post{p, {Acc: accs[1-n%2].Name, Amt: neg, Com: id}}
						ts = append(ts, t)
					}
					p37format(e, fmt.Sprint("layout ", id, dec, bal, desc, kind), coms, accs, ts)
				}}
			}
			// ids of GnuCash: anything goes
			special := ledgerSpecial[:1] + ledgerSpecial[2:] + "#$%'_~\\`é"
			books := func(c *Chooser) *Case {
				var chars []string
				rs := []rune(special)
				for n := 1 + c.N(wide); n > 0; n-- {
					if len(chars) < 2 {
						chars = append(chars, string(rs[c.N(len(rs))]))
					} else {
						chars = append(chars, string([]rune(". 1-/")[c.N(5)]))
					}
				}
				return &Case{Key: fmt.Sprint("book ", chars), Run: func(e *Env) {
					s := strings.Join(chars, "")
					in := "A" + strings.Join(chars, "b") + "C"
					ids := []string{"CAD", in, "XY" + s, "X" + s + "Y", "USD"}
					if !strings.HasPrefix(s, " ") && !strings.HasSuffix(s, " ") {
						ids = append(ids, s+"XY")
					}
					if strings.HasSuffix(s, " ") {
						ids = append(ids[:2], ids[3:]...)
					}
					p37gnucash(e, ids, []int64{100, 1, 100000})
				}}
			}
			return []Space{
				{Name: "ids", Rule: fmt.Sprintf("every commodity id of a beginning and up to %d of 5 characters with 3 others, everywhere a transaction can have one", depth), Gen: ids},
				{Name: "layout", Rule: "notes of every length up to 90 for transactions and postings, 4 ids, 3 decimals, assertions, descriptions", Gen: layout},
				{Name: "books", Rule: fmt.Sprintf("GnuCash books of commodities with every string of up to %d of 45 characters at the beginning, middle and end of their ids (the third of 5), in 3 modes", wide), Gen: books},
			}
		},
	})
}
