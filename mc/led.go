package main

// Structured ledgers, their rendering, and the arithmetic of the reference models.
// Independent of the code under test: nothing here calls it.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type Com struct {
	Id      string
	Dec     int
	Default bool
	Note    string
	Symbol  string
	NoMkt   bool
}

func (c Com) text() string {
	f := "1"
	if c.Dec > 0 {
		f += "." + strings.Repeat("0", c.Dec)
	}
	s := "commodity " + c.Id + "\n"
	if c.Note != "" {
		s += "  note " + c.Note + "\n"
	}
	s += "  format " + f + " " + c.Id + "\n"
	if c.NoMkt {
		s += "  nomarket\n"
	}
	if c.Symbol != "" {
		s += "  symbol " + c.Symbol + "\n"
	}
	if c.Default {
		s += "  default\n"
	}
	return s + "\n"
}

type Acc struct {
	Name, Com, Note, Closed string
	Extra                   []string
}

func (a Acc) text() string {
	s := "account " + a.Name + "\n"
	if a.Note != "" {
		s += "  note " + a.Note + "\n"
	}
	if a.Com != "" {
		s += "  commodity " + a.Com + "\n"
	}
	if a.Closed != "" {
		s += "  closed " + a.Closed + "\n"
	}
	for _, x := range a.Extra {
		s += "  " + x + "\n"
	}
	return s + "\n"
}

type Pri struct{ Date, Com, Cur, Val string }

func (p Pri) text() string { return fmt.Sprintf("P %s %s %s %s\n", p.Date, p.Com, p.Val, p.Cur) }

type Post struct {
	Acc, Amt, Com string // Amt "" is left out
	Bal, BalCom   string
	Note          string   // short
	Notes         []string // long
}

func (p Post) text() string {
	s := "  " + p.Acc
	if p.Amt != "" {
		s += "  " + p.Amt + " " + p.Com
	}
	if p.Bal != "" {
		s += " = " + p.Bal + " " + p.BalCom
	}
	if p.Note != "" {
		s += " ; " + p.Note
	}
	s += "\n"
	for _, n := range p.Notes {
		s += "    ; " + n + "\n"
	}
	return s
}

type Tx struct {
	Date, Code, Desc, Note string
	Notes                  []string
	Ps                     []Post
}

func (t Tx) text() string {
	s := t.Date
	if t.Code != "" {
		s += " (" + t.Code + ")"
	}
	if t.Desc != "" {
		s += " " + t.Desc
	}
	if t.Note != "" {
		s += " ; " + t.Note
	}
	s += "\n"
	for _, n := range t.Notes {
		s += "  ; " + n + "\n"
	}
	for _, p := range t.Ps {
		s += p.text()
	}
	return s + "\n"
}

func comsText(cs ...Com) string {
	s := ""
	for _, c := range cs {
		s += c.text()
	}
	return s
}

func accsText(as ...Acc) string {
	s := ""
	for _, a := range as {
		s += a.text()
	}
	return s
}

func txsText(ts ...Tx) string {
	var s strings.Builder
	for _, t := range ts {
		s.WriteString(t.text())
	}
	return s.String()
}

// lines is the number of lines of a text.
func lines(s string) int { return strings.Count(s, "\n") }

// --- decimals ---

// parseDec reads a decimal text and cuts it toward zero at dec places, as an integer of 10^-dec units.
func parseDec(s string, dec int) *big.Int {
	neg := false
	if strings.HasPrefix(s, "-") {
		neg, s = true, s[1:]
	}
	ip, fp, _ := strings.Cut(s, ".")
	for len(fp) < dec {
		fp += "0"
	}
	fp = fp[:dec]
	v, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		panic("parseDec " + s)
	}
	if neg {
		v.Neg(v)
	}
	return v
}

// fmtDec prints units of 10^-dec with exactly dec decimals.
func fmtDec(v *big.Int, dec int) string {
	s := new(big.Int).Abs(v).String()
	for len(s) <= dec {
		s = "0" + s
	}
	if dec > 0 {
		s = s[:len(s)-dec] + "." + s[len(s)-dec:]
	}
	if v.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func cents(n int64) string { return fmtDec(big.NewInt(n), 2) }

func pow10i(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// mulTrunc is a*b/10^d cut toward zero.
func mulTrunc(a, b *big.Int, d int) *big.Int {
	p := new(big.Int).Mul(a, b)
	neg := p.Sign() < 0
	p.Abs(p)
	p.Div(p, pow10i(d))
	if neg {
		p.Neg(p)
	}
	return p
}

func rescale(v *big.Int, from, to int) *big.Int {
	if to >= from {
		return new(big.Int).Mul(v, pow10i(to-from))
	}
	return mulTrunc(v, big.NewInt(1), from-to)
}

// --- dates ---

func ymdDate(y, m, d int) time.Time { return time.Date(y, time.Month(m), d, 12, 0, 0, 0, time.UTC) }
func dateStr(t time.Time) string    { return t.Format("2006/01/02") }
func pdate(s string) time.Time {
	t, err := time.Parse("2006/01/02", s)
	must(err)
	return t
}

// --- table parsing ---

// cells splits a report line at | and trims the cells.
func cells(line string) []string {
	ps := strings.Split(line, "|")
	for i := range ps {
		ps[i] = strings.TrimSpace(ps[i])
	}
	return ps
}

func nonEmptyLines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			out = append(out, l)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func parentOf(full string) string {
	i := strings.LastIndex(full, ":")
	if i < 0 {
		return ""
	}
	return full[:i]
}

// closure adds all implied parents, Root and Unbalanced to a set of account names, sorted.
func closure(names []string) []string {
	m := map[string]bool{"Root": true, "Unbalanced": true}
	for _, n := range names {
		for n != "" {
			m[n] = true
			n = parentOf(n)
		}
	}
	return sortedKeys(m)
}

func isAncestorOrSelf(a, b string) bool {
	return a == "Root" || a == b || strings.HasPrefix(b, a+":")
}

// balRow is a line of the balance report.
type balRow struct{ own, cum, com, acc string }

func balanceRows(out string) (rows []balRow) {
	for _, l := range nonEmptyLines(out) {
		fs := strings.Fields(strings.ReplaceAll(l, "|", " "))
		if len(fs) != 4 {
			rows = append(rows, balRow{acc: "unreadable line " + l})
			continue
		}
		rows = append(rows, balRow{fs[0], fs[1], fs[2], fs[3]})
	}
	return
}
