package main

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/mkobetic/coin"
)

// P35: input that is not understood is refused, with its place.

// What a line means in each place a line can be in.
type p35what int

const (
	bad   p35what = iota
	skip          // blank or comment
	comH          // starts a commodity
	accH          // starts an account
	price         // a whole price
	tranH         // starts a transaction
	testH         // starts a test clause
	prop          // a property of a commodity or account
	post          // a posting
	noted         // a note of a transaction or posting
	gone          // an include of nothing
)

type p35line struct {
	text string
	top  p35what // as the first line of an entry (lines that are not indented)
	com  p35what // under a commodity (indented lines)
	acc  p35what // under an account
	tran p35what // under a transaction
	name string  // of the commodity, account or posting's account
	amt  string  // of the posting or the price
	cur  string  // its commodity
	asr  string  // the commodity of the asserted balance
}

var p35lines = []p35line{
	{text: "", top: skip},
	{text: "   ", top: skip},
	{text: "; comment", top: skip},
	{text: "commodity USD", top: comH, name: "USD"},
	{text: "account As:Cash", top: accH, name: "As:Cash"},
	{text: "P 2020/01/02 USD 2.00 CAD", top: price, name: "USD", amt: "2.00", cur: "CAD"},
	{text: "2020/03/01 Shop", top: tranH},
	{text: "test accounts", top: testH},
	{text: "end test"},
	{text: "include nosuch.coin", top: gone},
	// under an entry
	{text: "  note Some text", com: prop, acc: prop, name: "note"},
	{text: "  format 1.00 USD", com: prop, name: "format", amt: "1.00", cur: "USD"},
	{text: "  commodity USD", acc: prop, name: "commodity", cur: "USD"},
	{text: "  closed 2020/02/02", acc: prop, name: "closed"},
	{text: "  nomarket", com: prop, tran: post, name: "nomarket"},
	{text: "  As:Bank  -5.00 CAD", tran: post, name: "As:Bank", amt: "-5.00", cur: "CAD"},
	{text: "\tEx:Food", tran: post, name: "Ex:Food"},
	{text: "  Ex:Food  5.00 CAD ; lunch", tran: post, name: "Ex:Food", amt: "5.00", cur: "CAD"},
	{text: "  Ex:Food  5.00 CAD = 5.00 XXX", tran: post, name: "Ex:Food", amt: "5.00", cur: "CAD", asr: "XXX"},
	{text: "  ; remark", tran: noted},
	// never read
	{text: "commodity"}, {text: "commodity 9"}, {text: "commodityUSD"},
	{text: "account"}, {text: "account 9x"}, {text: "accountAs:Cash"},
	{text: "P 2020/01/02 USD"}, {text: "P  USD 2.00 CAD"}, {text: "P 2020/01/02 2.00 CAD"},
	{text: "P 2020/01/02 CAD 2.00 USD", top: price, name: "CAD", amt: "2.00", cur: "USD"},
	{text: "P 2020/01/02 XXX 2.00 CAD", top: price, name: "XXX", amt: "2.00", cur: "CAD"},
	{text: "12 Shop"}, {text: "2x"}, {text: "test"}, {text: "testing"}, {text: "include"}, {text: "include  "}, {text: "hello"}, {text: "-5.00 CAD"}, {text: "é"},
	{text: "  closed soon"},
	{text: "  symbol", tran: post, name: "symbol"},
	{text: "  note", tran: post, name: "note"},
	{text: "  ofx_acctid x1"},
	{text: "2020-03-01 Shop"}, {text: "2020/03/011 Shop"}, {text: "2020/02/30 Shop"}, {text: "2020/13/01"},
	{text: "2021/2/29 (1) x ; y"}, {text: "2020/2/29(1)"},
	{text: "  Ex:Food 5.00"}, {text: "  Ex:Food  1,000.00 CAD"}, {text: "  Ex:Food  5.00CAD"}, {text: "  Ex:Food  5.00 CAD @ 2.00 USD"}, {text: "  Ex:Food  5.00 CAD=5.00 CAD"},
	{text: "  closed 2020-02-03"}, {text: "  closed 2021/02/29"}, {text: "  commodity U$D"}, {text: "  format 1.00 U$D"}, {text: "  symbol C$"}, {text: "  my note x"},
	{text: "commodity U$D"}, {text: "account As:Ca$h"}, {text: "P 2020/01/02 CAD 2.00 CAD each"},
	{text: "  Ex:Food  5.00 XXX", tran: post, name: "Ex:Food", amt: "5.00", cur: "XXX"},
	{text: "  No:Such  5.00 CAD", tran: post, name: "No:Such", amt: "5.00", cur: "CAD"},
	{text: "  9 lives"}, {text: "  ***"},
}

// p35scan reads the parts of a line.
type p35scan struct {
	s  string
	ok bool
}

func (r *p35scan) fail() { r.ok = false }

func (r *p35scan) run(in func(c byte) bool) (got string) {
	i := 0
	for i < len(r.s) && in(r.s[i]) {
		i++
	}
	got, r.s = r.s[:i], r.s[i:]
	return
}

func p35blank(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' || c == '\n' }
func p35digit(c byte) bool { return c >= '0' && c <= '9' }
func p35letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func p35word(c byte) bool { return p35letter(c) || p35digit(c) || c == '_' }

// ws reads at least one blank.
func (r *p35scan) ws() {
	if r.run(p35blank) == "" {
		r.fail()
	}
}

func (r *p35scan) has(prefix string) bool {
	if strings.HasPrefix(r.s, prefix) {
		r.s = r.s[len(prefix):]
		return true
	}
	return false
}

func (r *p35scan) lit(x string) {
	if !r.has(x) {
		r.fail()
	}
}

// end reads blanks and a comment up to the end of the line.
func (r *p35scan) end() bool {
	r.run(p35blank)
	return r.ok && (r.s == "" || r.s[0] == ';')
}

// word reads a name that starts with a letter.
func (r *p35scan) name(in func(c byte) bool) string {
	if r.s == "" || !p35letter(r.s[0]) {
		r.fail()
		return ""
	}
	return r.run(in)
}

func (r *p35scan) account(abbreviated bool) string {
	in := func(c byte) bool { return p35word(c) || c == '/' || c == '-' }
	got := r.name(in)
	for r.ok && strings.HasPrefix(r.s, ":") {
		sep := ":"
		if abbreviated && strings.HasPrefix(r.s, "::") {
			sep = "::"
		}
		r.lit(sep)
		got += sep + r.name(in)
	}
	return got
}

func (r *p35scan) number() string {
	got := ""
	if r.has("-") {
		got = "-"
	}
	d := r.run(p35digit)
	if d == "" {
		r.fail()
	}
	got += d
	if r.has(".") {
		d := r.run(p35digit)
		if d == "" {
			r.fail()
		}
		got += "." + d
	}
	return got
}

func (r *p35scan) amount() (amt, com string) {
	amt = r.number()
	r.ws()
	return amt, r.name(p35word)
}

func (r *p35scan) date() {
	d := r.run(func(c byte) bool { return !p35blank(c) && c != ';' })
	if len(p07read(ymdDate(2024, 1, 1), d)) == 0 {
		r.fail()
	}
}

// p35read says what a line means in every place.
func p35read(text string) (l p35line) {
	l.text = text
	text = strings.TrimSuffix(text, "\r")
	if strings.TrimSpace(text) == "" {
		l.top = skip
		return
	}
	if !p35blank(text[0]) {
		r := &p35scan{text, true}
		keyword := func(k string) bool {
			x := &p35scan{text, true}
			if !x.has(k) || x.s == "" || !p35blank(x.s[0]) {
				return false
			}
			if k != "include" && k != "account" && x.s[0] != ' ' && x.s[0] != '\t' {
				return false // odd blanks are not expected here
			}
			x.run(p35blank)
			r = x
			return true
		}
		switch {
		case strings.ContainsRune(";#%|*", rune(text[0])):
			l.top = skip
		case keyword("include"):
			if r.s != "" && !strings.Contains(r.s, "[") {
				l.top = gone
			}
		case keyword("account"):
			if n := r.account(false); r.end() {
				l.top, l.name = accH, n
			}
		case keyword("commodity"):
			if n := r.name(p35word); r.end() {
				l.top, l.name = comH, n
			}
		case keyword("test"):
			l.top = testH
		case keyword("P"):
			r.date()
			r.ws()
			n := r.name(p35word)
			r.ws()
			if amt, cur := r.amount(); r.end() {
				l.top, l.name, l.amt, l.cur = price, n, amt, cur
			}
		case p35digit(text[0]):
			if r.date(); r.ok {
				l.top = tranH
			}
		}
		return
	}
	body := func() *p35scan {
		r := &p35scan{text, true}
		r.ws()
		return r
	}
	prop1 := func(k string) *p35scan {
		r := body()
		r.lit(k)
		if r.ok {
			l.name = k
			r.ws()
		}
		return r
	}
	if r := prop1("note"); r.ok && r.s != "" {
		l.com, l.acc = prop, prop
		return // a posting to the account "note" cannot be followed by anything, a comment is a note here
	}
	if r := prop1("format"); r.ok {
		if l.amt, l.cur = r.amount(); r.end() {
			l.com = prop
			return
		}
		l.amt, l.cur = "", ""
	}
	if r := prop1("commodity"); r.ok {
		if l.cur = r.name(p35word); r.end() {
			l.acc = prop
			return
		}
		l.cur = ""
	}
	if r := prop1("closed"); r.ok {
		if r.date(); r.end() {
			l.acc = prop
			return
		}
	}
	for _, k := range []string{"ofx_bankid", "ofx_acctid", "csv_acctid", "symbol"} {
		if r := prop1(k); r.ok {
			in := map[string]func(byte) bool{"csv_acctid": p35word, "symbol": func(c byte) bool { return p35word(c) || c == '.' }}[k]
			if in == nil {
				in = p35digit
			}
			if r.run(in) != "" && r.end() {
				if k == "symbol" {
					l.com = prop
				} else {
					l.acc = prop
				}
				return
			}
		}
	}
	for _, k := range []string{"nomarket", "default"} {
		r := body()
		if r.lit(k); r.end() {
			l.com = prop
		}
	}
	l.name = ""
	r := body()
	if r.has(";") {
		l.tran = noted
		return
	}
	n := r.account(true)
	if !r.ok {
		return
	}
	if r.end() {
		l.tran, l.name = post, n
		return
	}
	x := body()
	x.account(true)
	x.ws()
	amt, cur := x.amount()
	asr := ""
	y := *x
	y.ws()
	if y.ok && y.has("=") {
		x = &y
		x.ws()
		_, asr = x.amount()
	}
	if x.end() {
		l.tran, l.name, l.amt, l.cur, l.asr = post, n, amt, cur, asr
	}
	return
}

// p35cents is an amount in hundredths, the rest is cut off.
func p35cents(amt string) *big.Int {
	whole, rest, _ := strings.Cut(amt, ".")
	n, _ := new(big.Int).SetString(whole+(rest + "00")[:2], 10)
	return n
}

func p35money(n *big.Int) string {
	s := fmt.Sprintf("%03s", new(big.Int).Abs(n).String())
	s = s[:len(s)-2] + "." + s[len(s)-2:]
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

const p35head = "commodity CAD\naccount As:Bank\naccount Ex:Food\n\n"

var p35headLines = strings.Count(p35head, "\n")

// p35fault is the lines of the entry that cannot be read, up to what is wrong.
type p35fault struct{ from, to int }

type p35found struct {
	coms, accs, prices, trans, tests []string
}

func (f p35found) String() string {
	return fmt.Sprintf("commodities %q accounts %q prices %q transactions %q tests %q", f.coms, f.accs, sorted(f.prices), sorted(f.trans), f.tests)
}

// p35model reads lines as the documentation says they are read.
func p35model(lines []p35line) (faults []p35fault, found p35found) {
	coms := map[string]bool{"CAD": true}
	type account struct {
		p35fault
		com string
	}
	accs := map[string]*account{"As:Bank": {com: "CAD"}, "Ex:Food": {com: "CAD"}}
	type posting struct{ acc, amt string }
	type tran struct {
		p35fault
		posts []posting
	}
	var trans []*tran
	type pr struct {
		p35fault
		com, text string
	}
	var prices []pr
	place := "" // the kind of entry the previous line belongs to
	var at p35fault
	var a *account
	var t *tran
	var test []string
	for i, l := range lines {
		n := i + 1
		if place == "test" {
			if strings.TrimSpace(l.text) == "end test" {
				found.tests = append(found.tests, strings.Join(test, "\n"))
				place = ""
				continue
			}
			test = append(test, l.text)
			continue
		}
		if strings.TrimSpace(l.text) != "" && p35blank(l.text[0]) {
			at.to = n
			var what p35what
			switch place {
			case "com":
				what = l.com
			case "acc":
				what = l.acc
			case "tran":
				what = l.tran
			default:
				at = p35fault{n, n}
			}
			switch what {
			case bad:
				return append(faults, at), found
			case prop:
				if place == "acc" {
					a.to = n
					if l.cur != "" {
						a.com = l.cur
					}
				}
			case post:
				t.to = n
				if l.cur != "" && l.amt != "" && !coms[l.cur] || l.asr != "" && !coms[l.asr] {
					return append(faults, at), found
				}
				t.posts = append(t.posts, posting{l.name, l.amt})
			}
			continue
		}
		place = ""
		at = p35fault{n, n}
		switch l.top {
		case bad:
			return append(faults, at), found
		case comH:
			coms[l.name] = true
			place = "com"
		case accH:
			a = &account{at, "CAD"}
			accs[l.name] = a
			place = "acc"
		case tranH:
			t = &tran{p35fault: at}
			trans = append(trans, t)
			place = "tran"
		case testH:
			place, test = "test", nil
		case price:
			if !coms[l.cur] {
				return append(faults, at), found
			}
			prices = append(prices, pr{at, l.name, l.name + " " + p35money(p35cents(l.amt)) + " " + l.cur})
		}
	}
	if place == "test" {
		at.to = len(lines)
		faults = append(faults, at)
	}
	for _, p := range prices {
		if !coms[p.com] {
			faults = append(faults, p.p35fault)
		}
		found.prices = append(found.prices, p.text)
	}
	for _, a := range accs {
		if !coms[a.com] {
			faults = append(faults, a.p35fault)
		}
	}
	for _, n := range closure(sortedKeys(accs)) {
		com := "CAD"
		if a := accs[n]; a != nil {
			com = a.com
		}
		if strings.Contains(n, ":") {
			found.accs = append(found.accs, n+" "+com)
		}
	}
	found.accs = sorted(found.accs)
	found.coms = sorted(sortedKeys(coms))
	for _, t := range trans {
		sum, missing, wrong := new(big.Int), -1, false
		s := ""
		for i, p := range t.posts {
			x := p06expr{}
			for _, w := range strings.Split(p.acc, ":") {
				if w == "" {
					x.skip[len(x.skip)-1] = true
					continue
				}
				x.parts, x.skip = append(x.parts, w), append(x.skip, false)
			}
			p.acc = p06select(closure(sortedKeys(accs)), x)
			t.posts[i].acc = p.acc
			if p.acc == "" || p.acc == "As:Cash" {
				wrong = true
				continue
			}
			if p.amt == "" {
				wrong = wrong || missing >= 0
				missing = i
				continue
			}
			sum.Add(sum, p35cents(p.amt))
		}
		if wrong || missing < 0 && sum.Sign() != 0 {
			faults = append(faults, t.p35fault)
			continue
		}
		for i, p := range t.posts {
			if i == missing {
				p.amt = p35money(sum.Neg(sum))
			} else {
				p.amt = p35money(p35cents(p.amt))
			}
			s += p.acc + " " + p.amt + "\n"
		}
		found.trans = append(found.trans, s)
	}
	return
}

var p35place = regexp.MustCompile(`([\w./-]*\.coin):(\d+)`)

// p35loaded is what the library holds.
func p35loaded() (f p35found) {
	coin.CommoditiesDo(func(c *coin.Commodity) { f.coms = append(f.coms, c.Id) })
	coin.AccountsDo(func(a *coin.Account) {
		if strings.Contains(a.FullName, ":") {
			f.accs = append(f.accs, a.FullName+" "+a.Commodity.Id)
		}
	})
	for _, p := range coin.Prices {
		f.prices = append(f.prices, p.Commodity.Id+" "+p.Value.String()+" "+p.Currency.Id)
	}
	for _, t := range coin.Transactions {
		s := ""
		for _, p := range t.Postings {
			s += p.Account.FullName + " " + p.Quantity.String() + "\n"
		}
		f.trans = append(f.trans, s)
	}
	for _, t := range coin.Tests {
		f.tests = append(f.tests, strings.TrimSuffix(string(t.Result), "\n"))
	}
	return
}

// p35use renders everything that was loaded.
func p35use() {
	var b strings.Builder
	coin.CommoditiesDo(func(c *coin.Commodity) {
		must(c.Write(&b, true))
		b.WriteString(c.String())
		_, err := json.Marshal(c)
		must(err)
	})
	coin.AccountsDo(func(a *coin.Account) {
		must(a.Write(&b, true))
		b.WriteString(a.String())
		_, err := json.Marshal(a)
		must(err)
	})
	for _, p := range coin.Prices {
		b.WriteString(p.String())
		_, err := json.Marshal(p)
		must(err)
	}
	for _, t := range coin.Transactions {
		b.WriteString(t.String())
		_, err := json.Marshal(t)
		must(err)
	}
}

// p35crash tells whether a program died instead of refusing.
func p35crash(s string) bool {
	for _, x := range []string{"runtime error", "fatal error:", "stack overflow", "goroutine stack exceeds", "concurrent map"} {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// p35clip keeps the telling part of a message.
func p35clip(s string) string { return clip(s, 600) }

// p35lib loads text into the library: refused reports whether it was, and the message.
func p35lib(e *Env, text string) (refused bool, msg string) {
	stderr, out, failed := e.lib(func() { loadText(text) })
	return failed, stderr + out
}

// p35text compares what becomes of the lines with the model.
func p35text(e *Env, ls []p35line) {
	var b strings.Builder
	b.WriteString(p35head)
	for _, l := range ls {
		b.WriteString(l.text + "\n")
	}
	text := b.String()
	e.State(text)
	faults, want := p35model(ls)
	refused, msg := p35lib(e, text)
	sig := "lines " + text
	switch {
	case p35crash(msg):
		e.Fail(sig, "loading crashes: %s\n--- ledger\n%s", p35clip(msg), text)
	case refused != (len(faults) > 0):
		if refused {
			e.Fail(sig, "a ledger without faults is refused: %s\n--- ledger\n%s", p35clip(msg), text)
		} else {
			e.Fail(sig, "a ledger that cannot be read as written is accepted, fault in lines %v (counted from %d)\n--- ledger\n%s", faults, p35headLines+1, text)
		}
	case refused:
		e.Outcome("refused")
		if !p35placed(msg, "t.coin", faults) {
			e.Fail(sig, "the refusal does not tell the place of the fault (lines %v after line %d): %s\n--- ledger\n%s", faults, p35headLines, p35clip(msg), text)
		}
	default:
		got := p35loaded()
		e.Outcome(got.String())
		if got.String() != want.String() {
			e.Fail(sig, "loaded is\n%s\nshould be\n%s\n--- ledger\n%s", got, want, text)
			return
		}
		if out, failed := e.Guarded(p35use); failed {
			e.Fail(sig, "what was accepted cannot be used: %s\n--- ledger\n%s", p35clip(out), text)
		}
	}
}

// p35placed tells whether the message names one of the faults.
func p35placed(msg, file string, faults []p35fault) bool {
	for _, m := range p35place.FindAllStringSubmatch(msg, -1) {
		if m[1] != file {
			continue
		}
		n, _ := strconv.Atoi(m[2])
		for _, f := range faults {
			if f.from+p35headLines <= n && n <= f.to+p35headLines {
				return true
			}
		}
	}
	return false
}

var p35tokens = []string{"commodity", "CAD", "account", "As:Bank", "Ex:Food", "Ex:", "5.00", "-5", "-", "2020/03/01", "99/99", "2020", "+1d", "+99999999999999999999w",
	"=", ";", "n", "(12)", "(", "#x: y", ":", "é", "\x00", "\xff", "\"", "99999999999999999999.999", "include", "test", "P", "closed", "note", "format", "nomarket", "symbol", "$", "[", "\r", "\t"}

// p35run runs a program: crashes and hangs are failures.
func p35run(e *Env, sig string, r Result, input string) bool {
	e.Outcome(fmt.Sprint(r.Code, clip(r.Out, 200)))
	if r.Hang || r.Code < 0 || p35crash(r.Err) {
		e.Fail(sig, "crashes (exit %d): %s\n--- input\n%s", r.Code, p35clip(r.Err), input)
		return false
	}
	if r.Code != 0 && strings.TrimSpace(r.Err) == "" && strings.TrimSpace(r.Out) == "" {
		e.Fail(sig, "refused without a message (exit %d)\n--- input\n%s", r.Code, input)
		return false
	}
	return true
}

// p35ofx is a statement with optional parts; a set bit of mask removes a part.
var p35ofxParts = []string{
	"<STATUS><CODE>0<SEVERITY>INFO</STATUS>",
	"<CURDEF>CAD",
	"<BANKACCTFROM><BANKID>1<ACCTID>11<ACCTTYPE>CHECKING</BANKACCTFROM>\n",
	"<BANKTRANLIST>",
	"<DTSTART>20200101<DTEND>20200201\n",
	"<STMTTRN><TRNTYPE>DEBIT",
	"<DTPOSTED>20200105",
	"<TRNAMT>-5.00",
	"<FITID>1",
	"<NAME>Shop",
	"</STMTTRN>\n",
	"</BANKTRANLIST>\n",
	"<LEDGERBAL><BALAMT>10.00",
	"<DTASOF>20200201",
	"</LEDGERBAL>",
}

func p35ofxText(removed map[int]bool, card bool) string {
	s := ofxText(nil)
	head, tail := strings.TrimSuffix(s, "</OFX>\n"), "</OFX>\n"
	body := ""
	for i, p := range p35ofxParts {
		if !removed[i] {
			body += p
		}
	}
	if card {
		body = strings.NewReplacer("BANKACCTFROM", "CCACCTFROM", "<BANKID>1", "", "<ACCTTYPE>CHECKING", "").Replace(body)
		status := p35ofxParts[0]
		if removed[0] {
			status = ""
		}
		return head + "<CREDITCARDMSGSRSV1>\n<CCSTMTTRNRS><TRNUID>0" + status + "<CCSTMTRS>" + strings.TrimPrefix(body, status) + "</CCSTMTRS></CCSTMTTRNRS>\n</CREDITCARDMSGSRSV1>\n" + tail
	}
	status := p35ofxParts[0]
	if removed[0] {
		status = ""
	}
	return head + "<BANKMSGSRSV1>\n<STMTTRNRS><TRNUID>0" + status + "<STMTRS>" + strings.TrimPrefix(body, status) + "</STMTRS></STMTTRNRS>\n</BANKMSGSRSV1>\n" + tail
}

var p35db = Files{
	"commodities.coin":  "commodity CAD\n  format 1.00 CAD\n",
	"accounts.coin":     "account As:Bank\n  commodity CAD\n  ofx_acctid 11\n  csv_acctid 11\naccount Ex:Food\naccount Ex:Tax\n",
	"prices.coin":       "",
	"transactions.coin": "2020/03/01 Shop\n  As:Bank  -5.00 CAD\n  Ex:Food\n",
}

func p35with(fs Files) Files {
	out := Files{}
	for k, v := range p35db {
		out[k] = v
	}
	for k, v := range fs {
		out[k] = v
	}
	return out
}

var p35rules = []string{"", "11 As:Bank", "11", "common", "  @common", "  @nosuch", "  Ex:Food  FOO", "  Ex:Food", "  --  BAR", "  -- ", "  No:Such X", "11 No:Such", "  Ex:Food  (", "  Ex:Food [a-", "  ; note", "  ;", " @", "---", "é", "  $ x", "11 $", "  ::", "11 :", "  \\"}

var p35sources = []string{"", "src 1", "src", "src x", "src 99999999999999999999", "  account 0", "  account \"11\"", "  account", "  description 1", "  description 9", "  date 2", "  date \"2020/03/01\"",
	"  amount 3", "  amount 3 \"$1\" (.*)", "  amount 3 \"$9\" (.*)", "  amount 3 \"$\" (.*)", "  amount 3 \"x$\" (", "  note \"$\"", "  note \"${\"", "  note \"${note}\"", "  note \"${x}\"", "  x \"${note}\"",
	"  note \"a$\" description .*", "  note \"n\" nosuch .*", "  note \"\"", "  symbol \"${symbol} ${symbol}\"", "  99999999999999999999 1", "  quantity 99999999999999999999", "---"}

func init() {
	for _, l := range p35lines {
		if r := p35read(l.text); r != l {
			panic(fmt.Sprintf("%+v is not %+v", r, l))
		}
	}
	register(&Prop{
		ID: "P35", Level: "model_checking", Bins: []string{"coin", "ofx2coin", "csv2coin", "gc2coin", "coin2html"},
		Rule: "a case is a batch of inputs sharing a beginning, or one input of a program; states are distinct inputs",
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			linesOf := func(al []p35line, free, tail int) func(c *Chooser) *Case {
				return func(c *Chooser) *Case {
					var ls []p35line
					key := "lines"
					for i := 0; i < free; i++ {
						k := c.N(len(al))
						ls = append(ls, al[k])
						key += fmt.Sprint(" ", k)
					}
					return &Case{Key: key, Run: func(e *Env) {
						var rec func(ls []p35line, left int)
						rec = func(ls []p35line, left int) {
							p35text(e, ls)
							if left == 0 || len(e.fails) > 19 {
								return
							}
							for _, l := range al {
								rec(append(ls[:len(ls):len(ls)], l), left-1)
							}
						}
						rec(ls, tail)
					}}
				}
			}
			var short []p35line
			for i, l := range p35lines {
				if i != 1 && i != 2 && l.top == skip || l.top > skip || l.tran == noted || l.amt != "" && l.cur == "CAD" || l.text == "  nomarket" || l.text == "  closed 2020/02/02" || l.text == "end test" || l.text == "hello" {
					short = append(short, l)
				}
			}
			depth := 2
			tokens := func(c *Chooser) *Case {
				indent := []string{"", "  "}[c.N(2)]
				before := []string{"", "commodity CAD\n", "account As:Bank\n", "2020/03/01 Shop\n  Ex:Food\n"}[c.N(4)]
				glue := []string{" ", ""}[c.N(2)]
				a := c.N(len(p35tokens))
				b := ""
				if thorough {
					b = glue + p35tokens[c.N(len(p35tokens))]
				}
				var ls []p35line
				for _, l := range strings.SplitAfter(before, "\n") {
					if l != "" {
						ls = append(ls, p35read(strings.TrimSuffix(l, "\n")))
					}
				}
				return &Case{Key: fmt.Sprintf("tokens %q %q %q %q %q", indent, before, glue, p35tokens[a], b), Run: func(e *Env) {
					var rec func(s string, left int)
					rec = func(s string, left int) {
						p35text(e, append(ls[:len(ls):len(ls)], p35read(s)))
						if left == 0 || len(e.fails) > 19 {
							return
						}
						for _, t := range p35tokens {
							rec(s+glue+t, left-1)
						}
					}
					rec(indent+p35tokens[a]+b, 2)
				}}
			}
			// every end of a line
			const letters = " ;05C:-=/.(+d"
			tails := func(c *Chooser) *Case {
				begin := []string{"2020/03/01", "2020/03/", "2020", "P 2020/01/02 CAD 5", "P 2020/01/02 CAD 5 CA", "account As", "account As:B", "commodity C", "commodity ", "include x",
					"commodity CAD\n  format 5", "commodity CAD\n  symbol C", "commodity CAD\n  note", "commodity CAD\n  nomarket", "commodity CAD\n  default",
					"account As:Bank\n  commodity CAD", "account As:Bank\n  closed 2020", "account As:Bank\n  closed", "account As:Bank\n  ofx_acctid 5", "account As:Bank\n  csv_acctid C", "account As:Bank\n  note",
					"2020/03/01\n  As:Bank", "2020/03/01\n  Ex", "2020/03/01\n  Ex:Food\n  As:Bank 5", "2020/03/01\n  Ex:Food\n  As:Bank 5 CAD", "2020/03/01\n  Ex:Food\n  As:Bank 5.00 CAD =", "2020/03/01\n  Ex:Food\n  As:Bank 5.00 CAD = 5.00 CAD", "2020/03/01\n ", "2020/03/01 ("}[c.N(29)]
				first := letters[c.N(len(letters))]
				n := 2
				if thorough {
					n = 4
				}
				before, last := []string{}, begin
				if i := strings.LastIndex(begin, "\n"); i >= 0 {
					before, last = strings.Split(begin[:i], "\n"), begin[i+1:]
				}
				var ls []p35line
				for _, l := range before {
					ls = append(ls, p35read(l))
				}
				return &Case{Key: fmt.Sprintf("tails %q %c", begin, first), Run: func(e *Env) {
					var rec func(s string, left int)
					rec = func(s string, left int) {
						if strings.HasPrefix(s, "include") && strings.Contains(s, "..") {
							return // may name a directory that exists
						}
						p35text(e, append(ls[:len(ls):len(ls)], p35read(s)))
						if left == 0 || len(e.fails) > 19 {
							return
						}
						for i := range letters {
							rec(s+letters[i:i+1], left-1)
						}
					}
					rec(last+string(first), n)
				}}
			}
			// a fault in any of the files of a ledger
			files := func(c *Chooser) *Case {
				faulty := []string{"hello", "  lost", "account", "commodity 9", "P 2020/01/02 CAD", "2x", "include", "test x", "account As:New\n  closed soon", "2020/01/01 A\n  No:Such 5.00 CAD\n  Ex:Food", "2020/01/01 A\n  As:Bank\n  Ex:Food", "2020/01/01 A\n  As:Bank 5.00 XXX\n  Ex:Food", "account As:New\n  commodity XXX"}
				f := c.N(len(faulty))
				at := c.N(6)
				cmd := [][]string{{"coin", "balance"}, {"coin", "register", "Ex"}, {"coin", "stats"}, {"coin", "tags"}, {"coin2html"}}[c.N(5)]
				return &Case{Key: fmt.Sprint("files ", f, at, cmd), Run: func(e *Env) {
					fs := p35with(nil)
					n := []string{"commodities.coin", "accounts.coin", "prices.coin", "transactions.coin", "sub/more.coin", "2020.coin"}[at]
					switch n {
					case "sub/more.coin":
						fs["transactions.coin"] += "include sub/*.coin\n"
						fs[n] = ""
					case "2020.coin":
						fs[n] = fs["transactions.coin"]
						delete(fs, "transactions.coin")
					}
					k := strings.Count(fs[n], "\n")
					fs[n] += "\n; here\n" + faulty[f] + "\n"
					db := e.Sub("db", fs)
					r := e.Run(cmd[0], db, cmd[1:]...)
					in := fmt.Sprint(cmd, " with ", faulty[f], " in ", n)
					if !p35run(e, in, r, in) {
						return
					}
					if r.Code == 0 || r.Out != "" {
						e.Fail(in, "%s is not refused (exit %d), output\n%s", in, r.Code, p35clip(r.Out))
						return
					}
					ok := false
					for _, m := range p35place.FindAllStringSubmatch(r.Err, -1) {
						l, _ := strconv.Atoi(m[2])
						ok = ok || strings.HasSuffix("/"+m[1], "/"+n) && l >= k+3 && l <= k+3+strings.Count(faulty[f], "\n")
					}
					if !ok {
						e.Fail(in, "%s: the refusal does not name %s and a line from %d on: %s", in, n, k+3, p35clip(r.Err))
					}
				}}
			}
			rules := func(c *Chooser) *Case {
				a, b := c.N(len(p35rules)), c.N(len(p35rules))
				return &Case{Key: fmt.Sprint("rules ", a, b), Run: func(e *Env) {
					resetLib()
					p25setup()
					var rec func(s string, left int)
					rec = func(s string, left int) {
						e.State("rules " + s)
						out, failed := e.Guarded(func() {
							ri, err := coin.ReadRules(strings.NewReader(s))
							if err == nil {
								var w strings.Builder
								must(ri.Write(&w))
								for _, ars := range ri.Accounts {
									ars.RuleFor("FOO")
								}
							}
						})
						e.Outcome(fmt.Sprint(failed))
						if p35crash(out) {
							e.Fail("rules "+s, "reading rules crashes: %s\n--- rules\n%s", p35clip(out), s)
						}
						if left == 0 {
							return
						}
						for _, r := range p35rules {
							rec(s+r+"\n", left-1)
						}
					}
					n := 1
					if thorough {
						n = 2
					}
					rec(p35rules[a]+"\n"+p35rules[b]+"\n", n)
				}}
			}
			csvRun := func(e *Env, rules, in string, args ...string) {
				db := e.Sub("db", p35with(Files{"csv.rules": rules, "in.csv": in}))
				r := e.Run("csv2coin", db, append(args, "in.csv")...)
				input := fmt.Sprint(args, "\n--- csv.rules\n", rules, "--- in.csv\n", in)
				e.State(input)
				p35run(e, "csv "+input, r, input)
			}
			good := "src 1\n  account 0\n  description 1\n  date 2\n  amount 3\n"
			sources := func(c *Chooser) *Case {
				a, b := c.N(len(p35sources)), c.N(len(p35sources))
				mode := c.N(2)
				return &Case{Key: fmt.Sprint("sources ", a, b, mode), Run: func(e *Env) {
					s := p35sources[a] + "\n" + p35sources[b] + "\n"
					if mode == 1 { // at the end of what is right
						s = good + s
					}
					if thorough {
						for _, x := range p35sources {
							csvRun(e, s+x+"\n", "h\n11,FOO,2020/03/01,5.00\n", "-source=src")
						}
					}
					csvRun(e, s, "h\n11,FOO,2020/03/01,5.00\n", "-source=src")
					csvRun(e, s, "", "-rules")
				}}
			}
			rows := func(c *Chooser) *Case {
				cells := []string{"", "11", "FOO", "2020/03/01", "5.00", "1,5", "\"", "\"a\nb\"", "$", "-", "5.", ".5", "1.2.3", "0x1", "é", "99/99"}
				n := c.N(5)
				args := []string{"-source=src", "-fields=0,1,2,3", "-fields=3,2,1,0", "-fields=0,1,2,-1", "-fields=0,1,2,9", "-fields=0,1", "-fields=a,b,c,d", "-source=nosuch", "-source="}[c.N(9)]
				a := c.N(len(cells))
				return &Case{Key: fmt.Sprint("rows ", n, args, a), Run: func(e *Env) {
					base := []string{"11", "FOO", "2020/03/01", "5.00"}
					for k := range base {
						for _, head := range []string{"h\n", "", "h,h,h,h\n"} {
							row := append([]string{}, base...)
							row[k] = cells[a]
							csvRun(e, good, head+strings.Join(row[:n], ",")+"\n", args)
						}
					}
				}}
			}
			ofxRun := func(e *Env, text string, args ...string) Result {
				db := e.Sub("db", p35with(Files{"in.ofx": text}))
				e.State(text)
				r := e.Run("ofx2coin", db, append(args, "in.ofx")...)
				p35run(e, fmt.Sprint("ofx ", args, text), r, text)
				return r
			}
			ofx := func(c *Chooser) *Case {
				card := c.N(2) == 1
				mask := c.N(1 << 8)
				return &Case{Key: fmt.Sprint("ofx ", card, mask), Run: func(e *Env) {
					for high := 0; high < 1<<(len(p35ofxParts)-8); high++ {
						removed := map[int]bool{}
						for i := range p35ofxParts {
							if (mask|high<<8)>>i&1 == 1 {
								removed[i] = true
							}
						}
						if len(removed) > map[bool]int{false: 3, true: 6}[thorough] && !(removed[3] && removed[11] && len(removed) >= 9) {
							continue
						}
						r := ofxRun(e, p35ofxText(removed, card))
						whole := true // the list of transactions and its contents go together
						for i := 3; i <= 11; i++ {
							whole = whole && removed[i]
						}
						if whole && len(removed) == 9 && (r.Code != 0 || r.Out != "") {
							e.Fail(fmt.Sprint("ofx empty ", card), "a statement without transactions is not read as such (exit %d): %s%s", r.Code, p35clip(r.Err), r.Out)
						}
						if len(removed) == 0 && (r.Code != 0 || !strings.Contains(r.Out, "Shop")) {
							e.Fail(fmt.Sprint("ofx full ", card), "a whole statement is not read (exit %d): %s%s", r.Code, p35clip(r.Err), r.Out)
						}
					}
				}}
			}
			ofxCut := func(c *Chooser) *Case {
				card, bmo := c.N(2) == 1, c.N(2) == 1
				part := c.N(16)
				return &Case{Key: fmt.Sprint("cut ofx ", card, bmo, part), Run: func(e *Env) {
					text := strings.TrimSpace(p35ofxText(nil, card))
					var args []string
					if bmo {
						args = append(args, "-bmo")
					}
					for k := part; k < len(text); k += 16 {
						if r := ofxRun(e, text[:k], args...); r.Code == 0 {
							e.Fail(fmt.Sprint("cut ", card, bmo, k), "a statement cut after %d of %d bytes is not refused:\n%s", k, len(text), text[:k])
						}
					}
				}}
			}
			book := gcBook{coms: []gcCom{{"CAD", "", 0}, {"USD", "dollar", 100}}, accs: []gcAcc{{"As", -1, "CAD", "", ""}, {"Bank", 0, "USD", "d", "11"}},
				prices: []gcPrice{{"2020-01-02 00:00:00 +0000", "USD", "CAD", "13", "10"}},
				txs:    []gcTx{{"2020-01-05 10:59:00 +0000", "1", "Shop - late", []gcSplit{{0, "500", "100", "m"}, {1, "-500", "100", ""}}}}, template: true}
			xml := book.xml()
			elements := regexp.MustCompile(`<([a-z]+:)?[a-z-]+( [^<>]*)?>[^<>]*</[a-z:-]+>`).FindAllStringIndex(xml, -1)
			values := regexp.MustCompile(`>[^<>\n]+<`).FindAllStringIndex(xml, -1)
			gcRun := func(e *Env, xml, what string) Result {
				db := e.Sub("gc", Files{"book": gzipped(xml)})
				e.State(xml)
				r := e.RunEnv("gc2coin", db, []string{"GOMEMLIMIT=2GiB"}, "", "-gnucashdb", db+"/book")
				p35run(e, "gnucash "+what, r, what)
				return r
			}
			gnc := func(c *Chooser) *Case {
				i := c.N(len(elements))
				return &Case{Key: fmt.Sprint("gnucash without ", i), Run: func(e *Env) {
					a := elements[i]
					s := xml[:a[0]] + xml[a[1]:]
					gcRun(e, s, "without "+xml[a[0]:a[1]]+fmt.Sprint(a[0]))
					for j := i + 1; j < len(elements); j++ {
						b := elements[j]
						gcRun(e, xml[:a[0]]+xml[a[1]:b[0]]+xml[b[1]:], "without "+xml[a[0]:a[1]]+fmt.Sprint(a[0])+" and "+xml[b[0]:b[1]]+fmt.Sprint(b[0]))
					}
				}}
			}
			gncValue := func(c *Chooser) *Case {
				i := c.N(len(values))
				return &Case{Key: fmt.Sprint("gnucash value ", i), Run: func(e *Env) {
					a := values[i]
					for _, v := range []string{"", "x", "-", "1/0", "x/100", "5x/100", "1/x", "1/-1", "1/2/3", "2020-13-45 10:00:00 +0000", "99999999999999999999", gcGuid(-1), gcGuid(0), gcGuid(1), "CAD", "XXX"} {
						what := fmt.Sprintf("%s instead of %s at %d", v, xml[a[0]+1:a[1]-1], a[0])
						r := gcRun(e, xml[:a[0]+1]+v+xml[a[1]-1:], what)
						el := xml[strings.LastIndex(xml[:a[0]], "<")+1 : a[0]]
						if (el == "split:quantity" || el == "price:value") && r.Code == 0 && a[0] < strings.Index(xml, "template-trans") && !regexp.MustCompile(`^-?\d+/[1-9]\d*$`).MatchString(v) {
							e.Fail("gnucash "+what, "accepted: %s\n%s", what, r.Out)
						}
					}
				}}
			}
			// partly is what can be unpacked
			partly := func(zip string) string {
				z, err := gzip.NewReader(strings.NewReader(zip))
				if err != nil {
					return ""
				}
				b, _ := io.ReadAll(z)
				return string(b)
			}
			gncCut := func(c *Chooser) *Case {
				part := c.N(16)
				return &Case{Key: fmt.Sprint("gnucash cut ", part), Run: func(e *Env) {
					zip := gzipped(xml)
					for k := part; k < len(zip); k += 16 {
						db := e.Sub("gc", Files{"book": zip[:k]})
						r := e.Run("gc2coin", db, "-gnucashdb", db+"/book")
						if p35run(e, fmt.Sprint("cut gzip ", k), r, fmt.Sprint("cut after ", k)) && r.Code == 0 && strings.TrimSpace(partly(zip[:k])) != strings.TrimSpace(xml) {
							e.Fail(fmt.Sprint("cut gzip ", k), "a book cut after %d of %d bytes is accepted", k, len(zip))
						}
					}
					text := strings.TrimSpace(xml)
					for k := part; k < len(text); k += 16 {
						if r := gcRun(e, text[:k], fmt.Sprint("cut after ", k)); r.Code == 0 {
							e.Fail(fmt.Sprint("cut xml ", k), "a book cut after %d of %d characters is accepted", k, len(text))
						}
					}
				}}
			}
			odd := []string{"", "-", "x", "(", "[", "*", "::", "99/99", "2020", "+1d", "-1", "99999999999999999999", "é", "\xff", "a b", "!", "!:", "#", ":", "\\", "$", "--"}
			options := map[string][]string{
				"balance":           {"-b", "-e", "-p", "-t", "-l", "-z="},
				"register":          {"-b", "-e", "-p", "-t", "-l", "-o", "-g", "-m=", "-r=", "-f="},
				"register -r":       {"-g", "-l"},
				"register -r -y":    {"-g", "-l", "-o", "-b", "-e", "-c="},
				"register -r -bp":   {"-g", "-l", "-o", "-c="},
				"register -bt -m":   {"-g", "-l", "-o"},
				"accounts":          {"-c="},
				"commodities":       {"-p=", "-f="},
				"tags":              {"-v=", "-a="},
				"stats":             {"-b", "-e", "-d=", "-u=", "-c="},
				"format":            {"-i=", "-ledger=", "-t="},
				"modify":            {"-p", "-tt", "-pt", "-a", "-a:", "-pt:", "-tt:"},
				"modify -a As:Bank": {"-a:", "-pt:", "-tt:", "-p"},
				"test":              {"-v="},
				"version":           {"-x"},
				"":                  {""},
				"nosuch":            {""},
			}
			args := func(c *Chooser) *Case {
				cmds := sortedKeys(options)
				cmd := cmds[c.N(len(cmds))]
				o := options[cmd][c.N(len(options[cmd]))]
				v := odd[c.N(len(odd))]
				return &Case{Key: fmt.Sprintf("args %q %q %q", cmd, o, v), Run: func(e *Env) {
					for _, w := range append(odd, "transactions.coin", "As") {
						a := strings.Fields(cmd)
						if cmd == "" {
							a = []string{""}
						}
						switch {
						case o == "":
						case strings.HasSuffix(o, "="):
							a = append(a, o+v)
							if v == "x" {
								a[len(a)-1] = strings.TrimSuffix(o, "=")
							}
						default:
							a = append(a, o, v)
						}
						a = append(a, w)
						db := e.Sub("db", p35db)
						r := e.Run("coin", db, a...)
						e.State(fmt.Sprint(a))
						p35run(e, fmt.Sprintf("args %q", a), r, fmt.Sprintf("%q", a))
						if !thorough && o == "" {
							break
						}
					}
				}}
			}
			first, tail := 1, depth
			if thorough {
				first, tail = 2, 2
			}
			return []Space{
				{Name: "lines", Rule: "sequences of lines, right and wrong, against the model of reading", Gen: linesOf(p35lines, first, tail)},
				{Name: "long", Rule: "longer sequences of fewer lines", Gen: linesOf(short, first+1, tail)},
				{Name: "tokens", Rule: "sequences of tokens in a line after each kind of entry", Gen: tokens},
				{Name: "tails", Rule: "every end of every kind of line", Gen: tails},
				{Name: "files", Rule: "a fault in each file of a ledger under each command", Gen: files},
				{Name: "rules", Rule: "sequences of rule lines, right and wrong", Gen: rules},
				{Name: "sources", Rule: "sequences of csv source lines, right and wrong", Gen: sources},
				{Name: "rows", Rule: "csv rows of every length with odd cells under right and wrong options", Gen: rows},
				{Name: "ofx", Rule: "statements with parts removed", Gen: ofx},
				{Name: "ofx-cut", Rule: "statements cut after every byte", Gen: ofxCut},
				{Name: "gnucash", Rule: "books with one or two elements removed", Gen: gnc},
				{Name: "gnucash-values", Rule: "books with each value replaced", Gen: gncValue},
				{Name: "gnucash-cut", Rule: "books cut after every byte", Gen: gncCut},
				{Name: "args", Rule: "odd option values and arguments of every command", Gen: args},
			}
		},
	})
}
