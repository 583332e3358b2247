package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// P33, P34: the viewer of the exported page (cmd/coin2html/js), run in a small document of the harness
// (/verif/viewer). The page is driven as a user drives it and read as a user reads it: what is listed must
// agree with the controls shown.

// ---- the running viewer ----

type vTable struct {
	Head []string
	Rows [][]string
}

type vPage struct {
	Errors    []string
	Controls  map[string]string
	Views     []string
	Roots     []string
	Account   []string
	Commodity string
	Accounts  []string
	Excluded  []string
	Min, Max  string
	Tables    []vTable
	Titles    []string
	Bars      [][2]float64
	Legend    []string
	Details   []vTable
}

type vproc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var vprocs = map[string]*vproc{}

func (e *Env) viewer(tz string, req any) (*vPage, string) {
	p := vprocs[tz]
	if p == nil {
		js := filepath.Join(e.Bin, "viewer.js")
		c := exec.Command("node", js+".driver.cjs", js, js+".html")
		c.Env = append(os.Environ(), "TZ="+tz)
		in, err := c.StdinPipe()
		must(err)
		out, err := c.StdoutPipe()
		must(err)
		c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		must(c.Start())
		p = &vproc{c, in, bufio.NewReaderSize(out, 1<<20)}
		vprocs[tz] = p
	}
	e.traces++
	timer := time.AfterFunc(hangAfter, func() { p.cmd.Process.Kill() })
	_, err := io.WriteString(p.in, mustJSON(req)+"\n")
	line := ""
	if err == nil {
		line, err = p.out.ReadString('\n')
	}
	if !timer.Stop() || err != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		delete(vprocs, tz)
		return nil, "the page does not answer"
	}
	pg := &vPage{}
	if err := json.Unmarshal([]byte(line), pg); err != nil {
		return nil, "the page cannot be read: " + err.Error()
	}
	return pg, ""
}

// ---- model of the data ----

type vAcc struct{ name, com, closed string }

type vPost struct {
	acc string
	q   int64
	bal int64
}

type vTx struct {
	date, desc, loc string
	notes           []string
	ps              []vPost
}

type vLed struct {
	coms []Com
	accs []vAcc
	pris []Pri
	txs  []vTx
}

func (l *vLed) com(id string) Com {
	for _, c := range l.coms {
		if c.Id == id {
			return c
		}
	}
	panic("no commodity " + id)
}

func (l *vLed) acc(name string) *vAcc {
	for i := range l.accs {
		if l.accs[i].name == name {
			return &l.accs[i]
		}
	}
	return nil
}

func (l *vLed) accCom(name string) Com { return l.com(l.acc(name).com) }

// fill puts the transactions in order of their dates and computes the balances.
func (l *vLed) fill() *vLed {
	sort.SliceStable(l.txs, func(i, j int) bool { return l.txs[i].date < l.txs[j].date })
	run := map[string]int64{}
	for i := range l.txs {
		for j := range l.txs[i].ps {
			p := &l.txs[i].ps[j]
			run[p.acc] += p.q
			p.bal = run[p.acc]
		}
	}
	return l
}

func vPlain(q int64, c Com) string { return fmtDec(big.NewInt(q), c.Dec) + " " + c.Id }

// vAmount is how an amount is shown; whole units without decimals may come with separators or without.
func vAmount(q int64, c Com) string {
	s := fmtDec(big.NewInt(q), c.Dec)
	if c.Dec == 0 {
		return s + " " + c.Id
	}
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	ip, fp, _ := strings.Cut(s, ".")
	for i := len(ip) - 3; i > 0; i -= 3 {
		ip = ip[:i] + "," + ip[i:]
	}
	s = ip + "." + fp + " " + c.Id
	if neg {
		s = "-" + s
	}
	return s
}

func vSame(shown string, q int64, c Com) bool {
	w := vAmount(q, c)
	return shown == w || c.Dec == 0 && strings.ReplaceAll(shown, ",", "") == w
}

// data renders the ledger in the documented format of the page's data.
func (l *vLed) data() map[string]string {
	// JSON objects with keys in the order given
	obj := func(kv ...string) string {
		s := ""
		for i := 0; i < len(kv); i += 2 {
			if i > 0 {
				s += ","
			}
			s += mustJSON(kv[i]) + ":" + kv[i+1]
		}
		return "{" + s + "}"
	}
	q := func(s string) string { return mustJSON(s) }
	var coms, accs []string
	for _, c := range l.coms {
		coms = append(coms, c.Id, obj("id", q(c.Id), "name", q(c.Note), "decimals", fmt.Sprint(c.Dec), "location", q("commodities.coin:1")))
	}
	for _, a := range l.accs {
		kv := []string{"name", q(a.name[strings.LastIndex(a.name, ":")+1:]), "fullName", q(a.name), "commodity", q(a.com)}
		if p := parentOf(a.name); p != "" {
			kv = append(kv, "parent", q(p))
		}
		if a.closed != "" {
			kv = append(kv, "closed", q(a.closed))
		}
		accs = append(accs, a.name, obj(kv...))
	}
	pris, txs := []string{}, []string{}
	for _, p := range l.pris {
		c := l.com(p.Cur)
		v := fmtDec(parseDec(p.Val, c.Dec), c.Dec) + " " + c.Id
		pris = append(pris, obj("commodity", q(p.Com), "currency", q(p.Cur), "time", q(p.Date), "value", q(v)))
	}
	for _, t := range l.txs {
		var ps []string
		for _, p := range t.ps {
			c := l.accCom(p.acc)
			ps = append(ps, obj("account", q(p.acc), "balance", q(vPlain(p.bal, c)), "balance_asserted", "false", "quantity", q(vPlain(p.q, c))))
		}
		kv := []string{"posted", q(t.date), "description", q(t.desc), "postings", "[" + strings.Join(ps, ",") + "]"}
		if t.loc != "" {
			kv = append(kv, "location", q(t.loc))
		}
		if t.notes != nil {
			kv = append(kv, "notes", mustJSON(t.notes))
		}
		txs = append(txs, obj(kv...))
	}
	return map[string]string{"commodities": obj(coms...), "accounts": obj(accs...), "prices": "[" + strings.Join(pris, ",") + "]", "transactions": "[" + strings.Join(txs, ",") + "]"}
}

// conv converts along the shortest chain of prices (the spaces have one price to a pair, exact both ways).
func (l *vLed) conv(q int64, from, to string) (int64, bool) {
	if from == to || q == 0 {
		return q, true
	}
	type node struct {
		com string
		r   *big.Rat
	}
	rate := func(p Pri) *big.Rat { r, _ := new(big.Rat).SetString(p.Val); return r }
	seen := map[string]bool{from: true}
	for queue := []node{{from, big.NewRat(1, 1)}}; len(queue) > 0; queue = queue[1:] {
		n := queue[0]
		if n.com == to {
			r := new(big.Rat).Mul(n.r, new(big.Rat).SetFrac(big.NewInt(q), pow10i(l.com(from).Dec)))
			r.Mul(r, new(big.Rat).SetInt(pow10i(l.com(to).Dec)))
			if !r.IsInt() {
				panic("inexact conversion in a case: " + r.String())
			}
			return r.Num().Int64(), true
		}
		for _, p := range l.pris {
			next, r := "", new(big.Rat)
			if p.Com == n.com {
				next, r = p.Cur, rate(p)
			} else if p.Cur == n.com {
				next, r = p.Com, new(big.Rat).Inv(rate(p))
			}
			if next != "" && !seen[next] {
				seen[next] = true
				queue = append(queue, node{next, new(big.Rat).Mul(n.r, r)})
			}
		}
	}
	return 0, false
}

func vUnder(a, root string) bool { return a == root || strings.HasPrefix(a, root+":") }

// below lists the account and what is below it, without closed and left out ones and what is below those.
func (l *vLed) below(acc, to string, closed bool, excl []string) []string {
	var out []string
	var rec func(a string)
	rec = func(a string) {
		out = append(out, a)
		for _, b := range l.accs {
			if parentOf(b.name) != a || slices.Contains(excl, b.name) || !closed && b.closed != "" && b.closed <= to {
				continue
			}
			rec(b.name)
		}
	}
	rec(acc)
	return out
}

func (l *vLed) balanceAt(acc, to string) int64 {
	var b int64
	for _, t := range l.txs {
		for _, p := range t.ps {
			if t.date <= to && p.acc == acc {
				b += p.q
			}
		}
	}
	return b
}

func vShorten(name string, size int) string {
	if len(name) <= size {
		return name
	}
	parts := strings.Split(name, ":")
	over := len(name) - size
	for i := range parts {
		if n := len(parts[i]); n > 0 && over > 0 {
			d := min(over, n-1)
			parts[i] = parts[i][:n-d]
			over -= d
		}
	}
	return strings.Join(parts, ":")
}

// ---- periods ----

func vFloor(period, date string) string {
	t := pdate(date)
	switch period {
	case "Weekly":
		t = t.AddDate(0, 0, -int(t.Weekday()))
	case "Monthly":
		t = ymdDate(t.Year(), int(t.Month()), 1)
	case "Quarterly":
		t = ymdDate(t.Year(), (int(t.Month())-1)/3*3+1, 1)
	case "Yearly":
		t = ymdDate(t.Year(), 1, 1)
	default:
		panic(period)
	}
	return dateStr(t)
}

func vNext(period, start string) string {
	t := pdate(start)
	switch period {
	case "Weekly":
		t = t.AddDate(0, 0, 7)
	case "Monthly":
		t = ymdDate(t.Year(), int(t.Month())+1, 1)
	case "Quarterly":
		t = ymdDate(t.Year(), int(t.Month())+3, 1)
	case "Yearly":
		t = ymdDate(t.Year()+1, 1, 1)
	}
	return dateStr(t)
}

func vDay(d string) string { return strings.ReplaceAll(d, "/", "-") }

// vPeriods lists the starts of the periods with a day between from and to.
func vPeriods(period, from, to string) (out []string) {
	if from > to {
		return nil
	}
	for s := vFloor(period, from); s <= to; s = vNext(period, s) {
		out = append(out, s)
	}
	return
}

// ---- what a page should show ----

type vState struct {
	l        *vLed
	pg       *vPage
	acc      string
	com      Com
	from, to string
	closed   bool
	excl     []string
	fail     func(what, f string, args ...any)
}

func (t vTable) col(name string) int { return slices.Index(t.Head, name) }

// vCheck compares a page with the ledger.
func (l *vLed) check(pg *vPage, fail func(what, f string, args ...any)) {
	if len(pg.Errors) > 0 {
		fail("error", "errors on the page: %v", pg.Errors)
		return
	}
	s := &vState{l: l, pg: pg, fail: fail}
	s.acc = strings.Join(pg.Account, ":")
	if l.acc(s.acc) == nil {
		fail("heading", "the account shown is %q", s.acc)
		return
	}
	s.com = l.accCom(s.acc)
	if got := strings.TrimSpace(pg.Commodity); got != "("+s.com.Id+")" {
		fail("heading", "commodity of %s shown as %s", s.acc, got)
		return
	}
	day := func(id string) string { return strings.ReplaceAll(pg.Controls[id], "-", "/") }
	s.from, s.to = day("start"), day("end")
	s.closed = pg.Controls["closedAccounts"] == "true"
	s.lists()
	for _, x := range pg.Excluded {
		n := s.acc + strings.TrimSpace(x)
		if l.acc(n) == nil {
			fail("exclude", "excluded account %q of %s", x, s.acc)
			return
		}
		s.excl = append(s.excl, n)
	}
	for n := s.acc; n != ""; n = parentOf(n) {
		if c := l.acc(n).closed; c != "" && c <= s.to && !s.closed {
			return // looking into an account that is hidden: not specified
		}
	}
	one := func() (vTable, bool) {
		if len(pg.Tables) != 1 {
			fail("table", "%d tables", len(pg.Tables))
			return vTable{}, false
		}
		return pg.Tables[0], true
	}
	view := pg.Controls["view"]
	switch view {
	case "Balances":
		if t, ok := one(); ok {
			s.balances(t)
		}
	case "Register":
		t, ok := one()
		if !ok {
			return
		}
		sub := pg.Controls["includeSubAccounts"] == "true"
		if a := pg.Controls["aggregate"]; a != "None" {
			s.aggregated(t, a, sub)
		} else {
			s.register(t, sub, pg.Controls["includeNotes"] == "true", pg.Controls["showLocation"] == "true")
		}
	case "Balances - Chart":
		s.chart()
	case "Aggregated Register - Chart":
		s.layers(pg.Controls["aggregate"])
	default:
		fail("view", "unknown view %q", view)
	}
}

// total of an account and all shown below it, converted on the way up
func (s *vState) total(acc string, shown []string) int64 {
	c := s.l.accCom(acc).Id
	sum := s.l.balanceAt(acc, s.to)
	for _, a := range shown {
		if parentOf(a) == acc {
			v, ok := s.l.conv(s.total(a, shown), s.l.accCom(a).Id, c)
			if !ok {
				panic("no conversion in a case")
			}
			sum += v
		}
	}
	return sum
}

// lists checks what there is to choose: the roots, the views and the list of accounts, which holds all below
// the account shown or one above it (closed ones left out as of the day it was made).
func (s *vState) lists() {
	var roots []string
	for _, a := range s.l.accs {
		if parentOf(a.name) == "" {
			roots = append(roots, a.name)
		}
	}
	if got := slices.Clone(s.pg.Roots); !slices.Equal(sorted(got), sorted(roots)) {
		s.fail("roots", "roots %q, should be %q", got, roots)
	}
	root, _, _ := strings.Cut(s.acc, ":")
	views := []string{"Balances", "Register", "Balances - Chart", "Aggregated Register - Chart"}
	if root == "Equity" || root == "Unbalanced" {
		views = views[:2]
	}
	if !slices.Equal(s.pg.Views, views) || !slices.Contains(views, s.pg.Controls["view"]) {
		s.fail("views", "views of %s %q with %q shown, should be %q", s.acc, s.pg.Views, s.pg.Controls["view"], views)
	}
	days := []string{s.to, "0000/00/00"}
	for _, a := range s.l.accs {
		if a.closed != "" && !s.closed {
			days = append(days, a.closed)
		}
	}
	for r := s.acc; r != ""; r = parentOf(r) {
		for _, d := range days {
			var names []string
			for _, a := range s.l.below(r, d, s.closed, nil)[1:] {
				names = append(names, vShorten(strings.TrimPrefix(a, r), 40))
			}
			if slices.Equal(names, s.pg.Accounts) {
				return
			}
		}
	}
	s.fail("accounts", "accounts %q listed on the left of %s (closed shown: %v)", s.pg.Accounts, s.acc, s.closed)
}

func sorted(s []string) []string {
	s = slices.Clone(s)
	slices.Sort(s)
	return s
}

func (s *vState) depth(a string) int { return strings.Count(a, ":") - strings.Count(s.acc, ":") }

func (s *vState) balances(t vTable) {
	b, tot, name := t.col("Balance"), t.col("Total"), t.col("Account")
	if b < 0 || tot < 0 || name < 0 {
		s.fail("head", "headings %q", t.Head)
		return
	}
	max, err := strconv.Atoi(s.pg.Controls["balanceDepth"])
	if err != nil {
		s.fail("depth", "depth %q", s.pg.Controls["balanceDepth"])
		return
	}
	shown := s.l.below(s.acc, s.to, s.closed, nil)
	i := 0
	for _, a := range shown {
		if s.depth(a) > max {
			continue
		}
		if i >= len(t.Rows) {
			s.fail("rows", "%s is not listed", a)
			return
		}
		r, c := t.Rows[i], s.l.accCom(a)
		i++
		if r[name] != strings.TrimPrefix(a, s.acc) {
			s.fail("rows", "row %d is %q, should be %s", i, r, a)
			return
		}
		if q := s.l.balanceAt(a, s.to); !vSame(r[b], q, c) {
			s.fail("balance", "balance of %s at %s: %s, should be %s", a, s.to, r[b], vAmount(q, c))
		}
		if q := s.total(a, shown); !vSame(r[tot], q, c) {
			s.fail("total", "total of %s at %s: %s, should be %s", a, s.to, r[tot], vAmount(q, c))
		}
	}
	if i < len(t.Rows) {
		s.fail("rows", "listed without reason: %q", t.Rows[i:])
	}
}

type vEntry struct {
	tx     *vTx
	p      *vPost
	used   bool
	amount int64 // in the shown account's commodity
}

// entries are the postings of the accounts between the dates (inclusive)
func (s *vState) entries(accs []string, from, to string) (out []*vEntry) {
	for i := range s.l.txs {
		t := &s.l.txs[i]
		if t.date < from || t.date > to {
			continue
		}
		for j := range t.ps {
			p := &t.ps[j]
			if slices.Contains(accs, p.acc) {
				v, ok := s.l.conv(p.q, s.l.accCom(p.acc).Id, s.com.Id)
				if !ok {
					panic("no conversion in a case")
				}
				out = append(out, &vEntry{tx: t, p: p, amount: v})
			}
		}
	}
	return
}

// other tells whether acc is the other side of the posting
func (x *vEntry) other(acc string) bool {
	for j := range x.tx.ps {
		p := &x.tx.ps[j]
		if p != x.p && p.acc == acc && (x.p.q == 0 || p.q > 0 != (x.p.q > 0) || p.q == 0) {
			return true
		}
	}
	return false
}

func (s *vState) register(t vTable, sub, notes, location bool) {
	accs := []string{s.acc}
	if sub {
		accs = s.l.below(s.acc, s.to, s.closed, nil)
	}
	rows := t.Rows
	if notes {
		rows = nil
		for i := 0; i < len(t.Rows); i++ {
			if i%2 == 0 {
				rows = append(rows, t.Rows[i])
			} else if len(t.Rows[i]) != 1 {
				s.fail("notes", "row %d should be a note: %q", i, t.Rows[i])
				return
			}
		}
		if len(t.Rows)%2 != 0 {
			s.fail("notes", "%d rows with notes", len(t.Rows))
			return
		}
	}
	ents := s.entries(accs, s.from, s.to)
	s.listed(vTable{t.Head, rows}, ents, sub, location, true, func(i int, x *vEntry) {
		if notes && t.Rows[2*i+1][0] != strings.Join(x.tx.notes, "; ") {
			s.fail("notes", "note of %s is %q, should be %q", x.tx.desc, t.Rows[2*i+1][0], x.tx.notes)
		}
	})
}

// listed compares the rows of a register with the postings it should have; ordered: by date
func (s *vState) listed(t vTable, ents []*vEntry, sub, location, ordered bool, each func(i int, x *vEntry)) {
	date, desc, other, amount, cum := t.col("Date"), t.col("Description"), t.col("Account"), t.col("Amount"), t.col("Cum.Total")
	loc, bal, subacc := t.col("Location"), t.col("Balance"), t.col("SubAccount")
	if date < 0 || desc < 0 || other < 0 || amount < 0 || cum < 0 || (loc < 0) == location || (bal < 0) != sub || (subacc < 0) == sub {
		s.fail("head", "headings %q", t.Head)
		return
	}
	var run int64
	last := ""
	for i, r := range t.Rows {
		if len(r) != len(t.Head) {
			s.fail("rows", "row %q under %q", r, t.Head)
			return
		}
		var x *vEntry
		for _, y := range ents {
			c := s.l.accCom(y.p.acc)
			if y.used || vDay(y.tx.date) != r[date] || y.tx.desc != r[desc] || !vSame(r[amount], y.p.q, c) || !y.other(r[other]) {
				continue
			}
			if sub && vShorten(strings.TrimPrefix(y.p.acc, s.acc), 30) != r[subacc] || !sub && !vSame(r[bal], y.p.bal, c) || location && y.tx.loc != r[loc] {
				continue
			}
			x = y
			break
		}
		if x == nil {
			s.fail("rows", "row %q is no posting of %s between %s and %s", r, s.acc, s.from, s.to)
			return
		}
		x.used = true
		if ordered && (r[date] < last) {
			s.fail("order", "%s after %s", r[date], last)
			return
		}
		last = r[date]
		run += x.amount
		if !vSame(r[cum], run, s.com) {
			s.fail("cum", "running total %s at row %d (%s), should be %s", r[cum], i+1, r[desc], vAmount(run, s.com))
			return
		}
		if each != nil {
			each(i, x)
		}
	}
	for _, y := range ents {
		if ordered && !y.used {
			s.fail("missing", "not listed: %s %s %s %s (%s to %s)", y.tx.date, y.tx.desc, y.p.acc, vPlain(y.p.q, s.l.accCom(y.p.acc)), s.from, s.to)
			return
		}
	}
}

// column is one account (or the rest) over all periods
type vColumn struct {
	accs []string
	flow []int64
	bal  []int64
	sum  int64
	com  Com
}

func (s *vState) column(accs []string, periods []string, period string, com Com) *vColumn {
	c := &vColumn{accs: accs, com: com}
	for _, p := range periods {
		end := dateStr(pdate(vNext(period, p)).AddDate(0, 0, -1))
		from, to := max(p, s.from), min(end, s.to)
		var f, b int64
		for _, a := range accs {
			var q int64
			for _, t := range s.l.txs {
				for _, x := range t.ps {
					if x.acc == a && t.date >= from && t.date <= to {
						q += x.q
					}
				}
			}
			id := s.l.accCom(a).Id
			v, ok := s.l.conv(q, id, com.Id)
			w, ok2 := s.l.conv(s.l.balanceAt(a, to), id, com.Id)
			if !ok || !ok2 {
				panic("no conversion in a case")
			}
			f += v
			b += w
		}
		c.flow = append(c.flow, f)
		c.bal = append(c.bal, b)
		c.sum += f
	}
	return c
}

func (c *vColumn) val(i int, flows bool) int64 {
	if flows {
		return c.flow[i]
	}
	return c.bal[i]
}

func (s *vState) negated() bool {
	r, _, _ := strings.Cut(s.acc, ":")
	return r == "Income" || r == "Liabilities"
}

// columns works out which accounts are shown by themselves from the labels on the page.
func (s *vState) columns(labels []string, period string, per int) ([]*vColumn, []string) {
	periods := vPeriods(period, s.from, s.to)
	max, err := strconv.Atoi(s.pg.Controls["subAccountMax"])
	if err != nil || max < 1 {
		s.fail("max", "number of accounts %q", s.pg.Controls["subAccountMax"])
		return nil, nil
	}
	var cands []string
	for _, a := range s.l.below(s.acc, s.to, s.closed, s.excl) {
		for _, t := range s.l.txs {
			if slices.ContainsFunc(t.ps, func(p vPost) bool { return p.acc == a }) {
				cands = append(cands, a)
				break
			}
		}
	}
	size := int(math.Floor(float64(per)/float64(max) + 0.5))
	label := map[string]string{}
	for _, a := range cands {
		n := vShorten(strings.TrimPrefix(a, s.acc), size)
		if _, dup := label[n]; dup {
			panic("ambiguous labels in a case")
		}
		label[n] = a
	}
	named := len(cands)
	if named > max {
		named = max - 1
	}
	rest := slices.Clone(cands)
	if len(labels) != named && !(len(cands) > max && len(labels) == named+1) {
		s.fail("columns", "columns %q for accounts %q, at most %d", labels, cands, max)
		return nil, nil
	}
	var cols []*vColumn
	value := func(a string) int64 { return s.column([]string{a}, periods, period, s.com).sum }
	sign := int64(1)
	if s.negated() {
		sign = -1
	}
	for i, n := range labels {
		if len(cands) > max && i == max-1 {
			if n != "Other" {
				s.fail("columns", "column %q instead of Other", n)
				return nil, nil
			}
			break
		}
		a, ok := label[n]
		if !ok || !slices.Contains(rest, a) {
			s.fail("columns", "column %q of %q for accounts %q", n, labels, cands)
			return nil, nil
		}
		rest = slices.DeleteFunc(rest, func(x string) bool { return x == a })
		for _, x := range rest {
			if sign*value(x) > sign*value(a) {
				s.fail("top", "%s comes before %s, which has more (%d, %d)", a, x, value(a), value(x))
				return nil, nil
			}
		}
		cols = append(cols, s.column([]string{a}, periods, period, s.l.accCom(a)))
	}
	if len(rest) > 0 {
		if len(cands) <= max || len(labels) != max {
			s.fail("columns", "columns %q for accounts %q", labels, cands)
			return nil, nil
		}
		cols = append(cols, s.column(rest, periods, period, s.com))
	}
	return cols, periods
}

func (s *vState) aggregated(t vTable, period string, sub bool) {
	if s.from > s.to {
		return
	}
	flows := s.pg.Controls["aggregationStyle"] == "Flows"
	if t.col("Date") != 0 {
		s.fail("head", "headings %q", t.Head)
		return
	}
	labels := t.Head[1:]
	cum := len(labels) > 0 && labels[len(labels)-1] == "Cum.Total"
	if cum {
		labels = labels[:len(labels)-1]
	}
	var cols []*vColumn
	periods := vPeriods(period, s.from, s.to)
	if sub {
		if len(labels) == 0 || labels[len(labels)-1] != "Total" {
			s.fail("head", "headings %q", t.Head)
			return
		}
		labels = labels[:len(labels)-1]
		if cols, periods = s.columns(labels, period, 150); periods == nil {
			return
		}
	} else {
		if len(labels) != 1 || labels[0] != "Amount" {
			s.fail("head", "headings %q", t.Head)
			return
		}
		cols = []*vColumn{s.column([]string{s.acc}, periods, period, s.com)}
	}
	if len(t.Rows) != len(periods) {
		var got []string
		for _, r := range t.Rows {
			got = append(got, r[0])
		}
		s.fail("periods", "%s rows %q, should be %q (%s to %s)", period, got, periods, s.from, s.to)
		return
	}
	var run int64
	for i, r := range t.Rows {
		if r[0] != vDay(periods[i]) || len(r) != len(t.Head) {
			s.fail("periods", "row %q for the period of %s", r, periods[i])
			return
		}
		var tot, totFlow int64
		for j, c := range cols {
			if v := c.val(i, flows); !vSame(r[1+j], v, c.com) {
				s.fail("value", "%s of %v in period %s is %s, should be %s (%s to %s)", s.pg.Controls["aggregationStyle"], c.accs, periods[i], r[1+j], vAmount(v, c.com), s.from, s.to)
				return
			}
			v, _ := s.l.conv(c.val(i, flows), c.com.Id, s.com.Id)
			w, _ := s.l.conv(c.flow[i], c.com.Id, s.com.Id)
			tot += v
			totFlow += w
		}
		run += totFlow
		if sub && !vSame(r[1+len(cols)], tot, s.com) {
			s.fail("rowtotal", "total of period %s is %s, should be %s", periods[i], r[1+len(cols)], vAmount(tot, s.com))
			return
		}
		if cum && flows && !vSame(r[len(r)-1], run, s.com) {
			s.fail("cumulative", "running total at %s is %s, should be %s", periods[i], r[len(r)-1], vAmount(run, s.com))
			return
		}
	}
}

// details compares the list shown after a click on a cell of an aggregated register.
func (s *vState) details(accs []string, period, start string, sub bool) {
	if len(s.pg.Details) != 1 {
		s.fail("details", "%d tables of details", len(s.pg.Details))
		return
	}
	t := s.pg.Details[0]
	end := dateStr(pdate(vNext(period, start)).AddDate(0, 0, -1))
	ents := s.entries(accs, max(start, s.from), min(end, s.to))
	mag := func(x *vEntry) int64 {
		if x.amount < 0 {
			return -x.amount
		}
		return x.amount
	}
	sort.SliceStable(ents, func(i, j int) bool { return mag(ents[i]) > mag(ents[j]) })
	n := min(20, len(ents))
	if len(t.Rows) != n {
		s.fail("details", "%d details of %d postings", len(t.Rows), len(ents))
		return
	}
	// those as big as the last one listed may stand for each other
	lastMag := int64(-1)
	s.listed(t, ents, sub, true, false, func(i int, x *vEntry) {
		if lastMag >= 0 && mag(x) > lastMag {
			s.fail("details", "%s after smaller ones", vPlain(x.p.q, s.com))
		}
		lastMag = mag(x)
	})
	for _, x := range ents {
		if !x.used && mag(x) > lastMag && n == 20 {
			s.fail("details", "bigger ones left out: %s", vPlain(x.p.q, s.com))
			return
		}
	}
}

func (s *vState) chart() {
	max, err := strconv.Atoi(s.pg.Controls["balanceDepth"])
	if err != nil {
		s.fail("depth", "depth %q", s.pg.Controls["balanceDepth"])
		return
	}
	shown := s.l.below(s.acc, s.to, s.closed, nil)
	want := map[string]string{}
	must := map[string]bool{}
	for _, a := range shown {
		if s.depth(a) > max {
			continue
		}
		c := s.l.accCom(a)
		text := a + " " + vAmount(s.total(a, shown), c)
		kids := slices.ContainsFunc(s.l.accs, func(b vAcc) bool { return parentOf(b.name) == a })
		if b := s.l.balanceAt(a, s.to); kids && b != 0 {
			text += " [ " + vAmount(b, c) + " ]"
		}
		want[text] = a
		must[text] = s.depth(a) < max
	}
	for _, t := range s.pg.Titles {
		if _, ok := want[t]; !ok {
			s.fail("chart", "box %q, should be of %q", t, sortedKeys(want))
			return
		}
		delete(want, t)
		delete(must, t)
	}
	for t, m := range must {
		if m {
			s.fail("chart", "no box %q in %q", t, s.pg.Titles)
			return
		}
	}
}

func (s *vState) layers(period string) {
	if s.from > s.to {
		return
	}
	flows := s.pg.Controls["aggregationStyle"] == "Flows"
	cols, periods := s.columns(s.pg.Legend, period, 180)
	if periods == nil {
		return
	}
	if len(s.pg.Titles) != len(cols)*len(periods) {
		s.fail("layers", "%d bars for %d accounts in %d periods", len(s.pg.Titles), len(cols), len(periods))
		return
	}
	for j, c := range cols {
		for i := range periods {
			name := "Other"
			if len(s.pg.Legend) > j && s.pg.Legend[j] != "Other" {
				name = c.accs[0]
			}
			got := s.pg.Titles[j*len(periods)+i]
			if v := c.val(i, flows); !strings.HasPrefix(got, name+" ") || !vSame(strings.TrimPrefix(got, name+" "), v, c.com) {
				s.fail("value", "bar %q, should be %s %s (period %s, %s to %s)", got, name, vAmount(v, c.com), periods[i], s.from, s.to)
				return
			}
		}
	}
	if len(s.pg.Bars) != len(s.pg.Titles) {
		s.fail("bars", "%d bars for %d amounts", len(s.pg.Bars), len(s.pg.Titles))
		return
	}
	// the bars of a period follow each other and are as long as the amounts, whole units of the account's commodity;
	// negative ones are left out
	unit := pow10i(s.com.Dec).Int64()
	length := func(j, i int) int64 {
		v, ok := s.l.conv(cols[j].val(i, flows), cols[j].com.Id, s.com.Id)
		if !ok {
			panic("no conversion in a case")
		}
		if s.negated() {
			v = -v
		}
		return max(v/unit, 0)
	}
	best, scale := int64(0), 0.0
	for j := range cols {
		for i := range periods {
			if u := length(j, i); u > best {
				best, scale = u, s.pg.Bars[j*len(periods)+i][1]/float64(u)
			}
		}
	}
	if best == 0 {
		return
	}
	for i := range periods {
		x := 0.0
		for j := range cols {
			b, u := s.pg.Bars[j*len(periods)+i], float64(length(j, i))*scale
			if scale <= 0 || math.Abs(b[1]-u) > scale || u == 0 && b[1] != 0 || math.Abs(b[0]-x) > scale/2 {
				s.fail("bar", "bar of %q from %g, %g long, should be from %g, %g long (period %s)", s.pg.Titles[j*len(periods)+i], b[0], b[1], x, u, periods[i])
				return
			}
			x += b[1]
		}
	}
}

// ---- driving ----

type vEv = []any

// vRun opens a page in a time zone and goes through the steps, checking after each.
func vRun(e *Env, l *vLed, tz, sig string, steps [][]vEv) (last *vPage) {
	data := l.data()
	e.State(mustJSON(data))
	return vRunData(e, l, data, tz, sig, steps)
}

func vRunData(e *Env, l *vLed, data map[string]string, tz, sig string, steps [][]vEv) (last *vPage) {
	sig = fmt.Sprint(" ", hash64(sig+tz+mustJSON(data)))
	show := func() string {
		s := ""
		for _, k := range sortedKeys(data) {
			s += k + ": " + data[k] + "\n"
		}
		return s
	}
	failed := false
	req := map[string]any{"load": data}
	for i := -1; i < len(steps); i++ {
		if i >= 0 {
			req = map[string]any{"do": steps[i]}
		}
		pg, err := e.viewer(tz, req)
		fail := func(what, f string, args ...any) {
			failed = true
			e.Fail(what+sig, "viewer (TZ=%s) after %s: %s\n%s", tz, mustJSON(steps[:i+1]), fmt.Sprintf(f, args...), clipped(show(), 3000))
		}
		if err != "" {
			fail("answer", "%s", err)
			return nil
		}
		if e.Verbose {
			fmt.Println(mustJSON(steps[:i+1]), mustJSON(pg))
		}
		if i < 0 && len(l.txs) > 0 {
			// opened on all of the years with transactions
			from, to := l.txs[0].date[:4]+"-01-01", l.txs[len(l.txs)-1].date[:4]+"-12-31"
			if pg.Controls["start"] != from || pg.Controls["end"] != to {
				fail("open", "opened on %s to %s, should be %s to %s", pg.Controls["start"], pg.Controls["end"], from, to)
				return nil
			}
			if pg.Min > from || pg.Max < to {
				fail("open", "dates can be chosen from %s to %s only", pg.Min, pg.Max)
				return nil
			}
		}
		if i >= 0 {
			// what was entered is what the control shows
			for j, ev := range steps[i] {
				what, id := ev[0].(string), ""
				if what == "set" || what == "check" || what == "choose" {
					id = ev[1].(string)
				} else {
					continue
				}
				later := slices.ContainsFunc(steps[i][j+1:], func(x vEv) bool {
					return x[0] != "set" && x[0] != "check" && x[0] != "choose" || x[1] == id || id == "aggregate" || x[1] == "root" || x[1] == "view"
				})
				if got, ok := pg.Controls[id]; ok && !later && got != fmt.Sprint(ev[2]) {
					fail("control", "%s shows %q after %v", id, got, ev)
					return nil
				}
			}
		}
		l.check(pg, fail)
		if failed {
			return nil
		}
		last = pg
	}
	e.Outcome(mustJSON(last.Tables) + mustJSON(last.Titles))
	return last
}

var vZones = []string{"UTC", "America/Toronto", "Asia/Tokyo", "America/Sao_Paulo", "Pacific/Apia"}

// path of clicks that selects an account from its root
func (l *vLed) selectAcc(name string) []vEv {
	root, _, _ := strings.Cut(name, ":")
	evs := []vEv{{"choose", "root", root}}
	if name != root {
		i := slices.Index(l.below(root, "9999/12/31", true, nil), name)
		evs = append([]vEv{{"check", "closedAccounts", true}}, append(evs, vEv{"account", i - 1})...)
	}
	return evs
}
