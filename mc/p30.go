package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P30: generated samples are valid ledgers in the asked period.

type p30req struct {
	weekly          bool
	count, interval int
	days            []int
	begin, end      time.Time
}

func (q p30req) String() string {
	k := map[bool]string{true: "w", false: "m"}[q.weekly]
	ds := "-"
	if len(q.days) > 0 {
		ds = strings.ReplaceAll(strings.Trim(fmt.Sprint(q.days), "[]"), " ", ",")
	}
	return fmt.Sprintf("%s %d %d %s %s %s", k, q.count, q.interval, ds, q.begin.Format("2006/01/02T15"), q.end.Format("2006/01/02T15"))
}

// periods lists for every period asked the dates allowed in it (all of the period and those in the range).
func (q p30req) periods() (out []struct{ all, in map[string]bool }) {
	iv := max(q.interval, 1)
	start := q.begin.AddDate(0, 0, -int(q.begin.Weekday()))
	if !q.weekly {
		start = q.begin.AddDate(0, 0, 1-q.begin.Day())
	}
	for !start.After(q.end) {
		next := start.AddDate(0, 0, 7)
		if !q.weekly {
			next = start.AddDate(0, 1, 0)
		}
		n := int(next.Sub(start).Hours()/24 + 0.5)
		p := struct{ all, in map[string]bool }{map[string]bool{}, map[string]bool{}}
		for i := 0; i < n; i++ {
			d := start.AddDate(0, 0, i)
			ok := len(q.days) == 0
			for _, x := range q.days {
				if q.weekly {
					ok = ok || x == i
				} else {
					ok = ok || x == i+1 || x == i-n
				}
			}
			if ok {
				p.all[dateStr(d)] = true
				if !d.Before(q.begin) && !d.After(q.end) {
					p.in[dateStr(d)] = true
				}
			}
		}
		out = append(out, p)
		if q.weekly {
			start = start.AddDate(0, 0, 7*iv)
		} else {
			start = start.AddDate(0, iv, 0)
		}
	}
	return
}

// p30dates checks one generated sequence.
func (q p30req) check(line string) string {
	var ds []string
	for _, f := range strings.Fields(line) {
		ds = append(ds, f[:10])
	}
	for i := range ds {
		if i > 0 && ds[i] == ds[i-1] {
			return ds[i] + " occurs twice"
		}
		if i > 0 && ds[i] < ds[i-1] {
			return ds[i] + " comes after " + ds[i-1]
		}
	}
	left := map[string]bool{}
	for _, d := range ds {
		left[d] = true
	}
	for _, p := range q.periods() {
		n := 0
		for d := range p.in {
			if left[d] {
				n++
				delete(left, d)
			}
		}
		asked := len(q.days)
		if asked == 0 {
			asked = len(p.all)
		}
		switch {
		case q.count >= asked && n != len(p.in):
			return fmt.Sprintf("%d of %v", n, sortedKeys(p.in))
		case n > max(q.count, 0):
			return fmt.Sprintf("%d dates in one period", n)
		case len(p.all) == asked && len(p.in) == asked && n != min(max(q.count, 0), asked):
			return fmt.Sprintf("%d dates of %v", n, sortedKeys(p.in))
		}
	}
	for d := range left {
		return d + " is not asked for"
	}
	return ""
}

func p30batch(e *Env, reqs []p30req) {
	var in strings.Builder
	for _, q := range reqs {
		fmt.Fprintln(&in, q)
		e.State(q.String())
	}
	r := e.RunEnv("gen2coin+rand", e.Dir, []string{"VERIF_GEN=all"}, in.String())
	i := -1
	for _, l := range strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n") {
		if strings.HasPrefix(l, "? ") {
			i++
			if i >= len(reqs) || l != "? "+reqs[i].String() {
				e.Fail("driver", "the driver is out of step: %s", l)
				return
			}
			continue
		}
		if i < 0 {
			continue
		}
		e.traces++
		if msg := reqs[i].check(l); msg != "" {
			e.Fail("dates "+reqs[i].String(), "weekly/monthly count interval days begin end = %v gives\n%s\n%s", reqs[i], l, msg)
			return
		}
		e.Outcome(fmt.Sprint(len(strings.Fields(l))))
	}
	if r.Code != 0 || i != len(reqs)-1 {
		e.Fail("driver", "exit %d after %d of %d requests: %s", r.Code, i+1, len(reqs), r.Err)
	}
}

type p30tx struct {
	date, desc string
	ps         []string
}

func (t p30tx) String() string { return t.date + " " + t.desc + "\n  " + strings.Join(t.ps, "\n  ") }

var p30head = regexp.MustCompile(`^(\d{4}/\d\d/\d\d) (.*)$`)
var p30post = regexp.MustCompile(`^  (\S+) +(-?\d+\.\d\d) CAD$`)

// p30parse reads the transactions of a text.
func p30parse(s string) (ts []p30tx, err string) {
	for _, l := range nonEmptyLines(s) {
		if m := p30head.FindStringSubmatch(l); m != nil {
			ts = append(ts, p30tx{date: m[1], desc: m[2]})
		} else if m := p30post.FindStringSubmatch(l); m != nil && len(ts) > 0 {
			t := &ts[len(ts)-1]
			t.ps = append(t.ps, m[1]+" "+m[2])
		} else {
			return ts, "line " + l
		}
	}
	return ts, ""
}

// p30valid checks order, range and balance of transactions.
func p30valid(ts []p30tx, begin, end string) string {
	last := ""
	for _, t := range ts {
		if t.date < last {
			return t.String() + "\ncomes after " + last
		}
		last = t.date
		if t.date < begin || t.date > end {
			return t.String() + "\nis not in the range"
		}
		sum := new(big.Int)
		for _, p := range t.ps {
			_, a, _ := strings.Cut(p, " ")
			sum.Add(sum, parseDec(a, 2))
		}
		if sum.Sign() != 0 || len(t.ps) < 2 {
			return t.String() + "\nis not balanced"
		}
	}
	return ""
}

func p30join(ts []p30tx) string {
	var s strings.Builder
	for _, t := range ts {
		s.WriteString(t.String() + "\n")
	}
	return s.String()
}

type p30mode struct {
	year, month, wb bool
}

// p30run generates one ledger to standard output, as JSON and in the given modes to a directory.
// It returns the numbers of alternatives of the random choices.
func p30run(e *Env, begin, end, rnd string, js bool, modes []p30mode) (ns []string) {
	e.State(begin + " " + end + " " + rnd)
	sig := fmt.Sprint(begin, " ", end, " ", rnd)
	log := filepath.Join(e.Dir, "choices")
	base := []string{"-b", begin, "-e", end}
	env := []string{"VERIF_RAND=" + rnd, "VERIF_RANDLOG=" + log}
	r := e.RunEnv("gen2coin+rand", e.Dir, env, "", base...)
	fail := func(what, f string, args ...any) {
		e.Fail(what+" "+sig, "gen2coin -b %s -e %s with choices %s (%s): exit %d %s\n%s\n%s", begin, end, rnd, what, r.Code, r.Err, fmt.Sprintf(f, args...), clipped(r.Out, 3000))
	}
	ts, msg := p30parse(r.Out)
	if r.Code != 0 || r.Err != "" || msg != "" {
		fail("stdout", "%s", msg)
		return
	}
	if msg := p30valid(ts, begin, end); msg != "" {
		fail("stdout", "%s", msg)
		return
	}
	ns = strings.Fields(string(mustRead(log)))
	e.Outcome(fmt.Sprint(len(ts)))
	want := p30join(ts)
	if js {
		for _, wb := range []bool{false, true} {
			args := append([]string{"-j"}, base...)
			if wb {
				args = append(args, "-wb")
			}
			r = e.RunEnv("gen2coin+rand", e.Dir, env[:1], "", args...)
			var js []struct {
				Posted, Description string
				Postings            []struct {
					Account, Quantity, Balance string
					Balance_asserted           bool
				}
			}
			if err := json.Unmarshal([]byte(r.Out), &js); err != nil {
				fail("json", "%v", err)
				return
			}
			var got []p30tx
			run := map[string]*big.Int{}
			for _, j := range js {
				t := p30tx{date: j.Posted, desc: j.Description}
				for _, p := range j.Postings {
					q, ok := strings.CutSuffix(p.Quantity, " CAD")
					if !ok {
						fail("json", "quantity %s", p.Quantity)
						return
					}
					t.ps = append(t.ps, p.Account+" "+q)
					if run[p.Account] == nil {
						run[p.Account] = new(big.Int)
					}
					run[p.Account].Add(run[p.Account], parseDec(q, 2))
					b := ""
					if wb {
						b = fmtDec(run[p.Account], 2) + " CAD"
					}
					if p.Balance != b {
						fail("balance", "balance of %s after %s is %q, not %q", p.Account, t, p.Balance, b)
						return
					}
				}
				got = append(got, t)
			}
			if g := p30join(got); g != want {
				fail("json", "differs from the text: %s", firstDiff(g, want))
				return
			}
		}
	}
	for _, m := range modes {
		args := append([]string{}, base...)
		label := func(d string) string { return "transactions.coin" }
		if m.year {
			args = append(args, "-y")
			label = func(d string) string { return d[:4] + ".coin" }
		}
		if m.month {
			args = append(args, "-m")
			label = func(d string) string { return d[:4] + "-" + d[5:7] + ".coin" }
		}
		if m.wb {
			args = append(args, "-wb")
		}
		db := e.Sub("gen", nil)
		r = e.RunEnv("gen2coin+rand", e.Dir, env[:1], "", append(args, db)...)
		if r.Code != 0 || r.Err != "" || r.Out != "" {
			fail("directory", "%v", args)
			return
		}
		es, _ := os.ReadDir(db)
		var all []p30tx
		for _, x := range es { // in order of names, which is date order
			n := x.Name()
			if n == "accounts.coin" || n == "commodities.coin" {
				continue
			}
			fs, msg := p30parse(string(mustRead(filepath.Join(db, n))))
			if msg != "" {
				fail("file", "%v %s: %s", args, n, msg)
				return
			}
			for _, t := range fs {
				if label(t.date) != n {
					fail("file", "%v: %s\nis in %s", args, t, n)
					return
				}
			}
			all = append(all, fs...)
		}
		if g := p30join(all); g != want {
			fail("split", "%v: files and text differ: %s", args, firstDiff(g, want))
			return
		}
		var got []string
		sums := map[string]*big.Int{}
		wrong := ""
		stderr, msg, failed := e.lib(func() {
			coin.DB = db
			coin.AccountsFile, coin.CommoditiesFile = filepath.Join(db, "accounts.coin"), filepath.Join(db, "commodities.coin")
			coin.PricesFile, coin.TransactionsFile = filepath.Join(db, "prices.coin"), filepath.Join(db, "transactions.coin")
			coin.LoadAll()
			for _, t := range coin.Transactions {
				x := p30tx{date: dateStr(t.Posted), desc: t.Description}
				for _, p := range t.Postings {
					x.ps = append(x.ps, fmt.Sprintf("%s %v", p.Account.FullName, p.Quantity))
					n := p.Account.FullName
					if sums[n] == nil {
						sums[n] = new(big.Int)
					}
					sums[n].Add(sums[n], p.Quantity.Int)
				}
				got = append(got, x.String())
			}
			coin.AccountsDo(func(a *coin.Account) {
				s := sums[a.FullName]
				if s == nil {
					s = new(big.Int)
				}
				if a.Balance().Int.Cmp(s) != 0 {
					wrong = fmt.Sprintf("balance of %s %v, sum of postings %v", a.FullName, a.Balance(), s)
				}
			})
		})
		if failed || strings.TrimSpace(stderr) != "" {
			fail("load", "%v: %s %s", args, msg, stderr)
			return
		}
		if wrong != "" {
			fail("load", "%v: %s", args, wrong)
			return
		}
		w := strings.TrimSuffix(want, "\n")
		if g := strings.Join(got, "\n"); g != w {
			fail("load", "%v: loaded and written differ: %s", args, firstDiff(g, w))
			return
		}
	}
	return ns
}

func init() {
	modes := []p30mode{{}, {year: true}, {month: true}, {year: true, month: true, wb: true}}
	register(&Prop{
		ID: "P30", Level: "model_checking", Bins: []string{"gen2coin+rand"},
		Rule:        "a case is a batch of date requests (every sequence of choices of each) or the generations of one range; states are distinct requests and (range, choices) pairs",
		Assumptions: []string{"the choices made through Intn and Int63 of math/rand are the explorer's; the first 8 of a request and up to 3000 sequences are enumerated", "all dates are UTC"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			at := func(y, m, d int) time.Time { return ymdDate(y, m, d) }
			var wsets [][]int
			for m := 1; m < 128; m++ {
				var ds []int
				for d := 0; d < 7; d++ {
					if m>>d&1 == 1 {
						ds = append(ds, d)
					}
				}
				wsets = append(wsets, ds)
			}
			wsets = append(wsets, []int{}, []int{5, 2}, []int{6, 0}, []int{3, 1, 2}, []int{4, 4}, []int{6, 5, 4, 3, 2, 1, 0}, []int{1, 5, 1})
			weeks := func(c *Chooser) *Case {
				set, iv := c.N(len(wsets)), c.N(5)
				return &Case{Key: fmt.Sprint("weeks ", set, iv), Run: func(e *Env) {
					var reqs []p30req
					days := wsets[set]
					n := len(days)
					if n == 0 {
						n = 7
					}
					for b := 0; b < 7; b++ {
						begin := at(2019, 12, 22+b)
						for _, l := range []int{-1, 0, 1, 5, 6, 7, 8, 13, 14, 15, 21, 29, 36, 60} {
							q := p30req{true, n, iv, days, begin, begin.AddDate(0, 0, l)}
							reqs = append(reqs, q)
							q.count = n + 1
							reqs = append(reqs, q)
							if n > 1 && l < 15 {
								q.count = 1
								reqs = append(reqs, q)
								if l < 8 || thorough && l < 14 {
									for q.count = 2; q.count < n && (q.count < 3 || l < 2 || thorough); q.count++ {
										reqs = append(reqs, q)
									}
								}
							}
							if l == 8 {
								q.count = 0
								reqs = append(reqs, q)
							}
						}
						// time of day of the ends
						for _, l := range []int{0, 3, 14} {
							reqs = append(reqs, p30req{true, n, iv, days, begin, begin.AddDate(0, 0, l).Add(9 * time.Hour)})
						}
					}
					p30batch(e, reqs)
				}}
			}
			md := []int{1, 2, 15, 28, 29, 30, 31, -1, -2, -28, -29, -30, -31, 0, 32, -32, -15}
			var msets [][]int
			msets = append(msets, nil)
			for _, a := range md {
				msets = append(msets, []int{a})
				for _, b := range md {
					msets = append(msets, []int{a, b})
				}
			}
			msets = append(msets, []int{10, 20, 30}, []int{30, 10, 20}, []int{-1, -2, -3}, []int{31, 30, 29, 28}, []int{-1, 1, 16, 15}, []int{-30, 2, 1}, []int{5, 10, 15, 20, 25}, []int{366, 7}, []int{367, 397, 732}, []int{-366, -365, -335, 3})
			months := func(c *Chooser) *Case {
				set := c.N(len(msets))
				return &Case{Key: fmt.Sprint("months ", set), Run: func(e *Env) {
					var reqs []p30req
					days := msets[set]
					for _, iv := range []int{0, 1, 2, 3, 7, 12} {
						for _, begin := range []time.Time{at(2019, 12, 31), at(2020, 1, 1), at(2020, 1, 29), at(2020, 1, 31), at(2020, 2, 1), at(2020, 2, 28), at(2020, 2, 29), at(2020, 3, 1), at(2019, 2, 28), at(2019, 11, 15), at(2000, 1, 30), at(2100, 2, 1)} {
							for _, l := range []int{-1, 0, 1, 14, 28, 29, 30, 31, 32, 59, 60, 61, 92, 400} {
								q := p30req{false, 31, iv, days, begin, begin.AddDate(0, 0, l)}
								if l < 100 || iv > 2 || iv == 1 && thorough {
									reqs = append(reqs, q)
								}
								if len(days) == 0 {
									if l < 32 {
										q.count = 1
										reqs = append(reqs, q)
									}
									continue
								}
								if l <= 32 {
									for q.count = 0; q.count <= len(days); q.count++ {
										reqs = append(reqs, q)
									}
								}
							}
						}
					}
					p30batch(e, reqs)
				}}
			}
			starts := 75
			maxlen := 34
			if thorough {
				starts, maxlen = 130, 70
			}
			ranges := func(c *Chooser) *Case {
				s := c.N(starts)
				leap := (c.N(2) == 1)
				return &Case{Key: fmt.Sprint("ranges ", s, leap), Run: func(e *Env) {
					y := 2018
					if leap {
						y = 2019
					}
					begin := at(y, 12, 20).AddDate(0, 0, s)
					for l := 0; l <= maxlen; l++ {
						if !thorough && l > 3 && (l+s)%4 != 0 {
							continue
						}
						end := begin.AddDate(0, 0, l)
						p := []string{"zero", "max", "mid", fmt.Sprint("lcg", s*100+l)}[(s+l)%4]
						p30run(e, dateStr(begin), dateStr(end), p, l%5 == 0, modes[(s+l)%4:(s+l)%4+1])
					}
				}}
			}
			long := func(c *Chooser) *Case {
				i, m, p := c.N(6), c.N(4), c.N(7)
				return &Case{Key: fmt.Sprint("long ", i, m, p), Run: func(e *Env) {
					r := [][2]string{{"2018/11/15", "2021/02/03"}, {"2020/02/29", "2020/03/31"}, {"2019/01/01", "2019/12/31"}, {"1999/12/31", "2000/03/01"}, {"2020/01/31", "2020/01/30"}, {"1968/06/01", "1972/06/30"}}[i]
					p30run(e, r[0], r[1], []string{"zero", "max", "mid", "lcg1", "lcg2", "lcg3", "lcg4"}[p], true, modes[m:m+1])
				}}
			}
			// every deviation from a policy at one or two choices
			devRanges := [][2]string{{"2020/01/30", "2020/02/01"}, {"2020/02/24", "2020/03/01"}, {"2019/12/29", "2020/01/12"}}
			devs := func(c *Chooser) *Case {
				i, p := c.N(len(devRanges)), c.N(2)
				first := c.N(80)
				return &Case{Key: fmt.Sprint("devs ", i, p, first), Run: func(e *Env) {
					r := devRanges[i]
					pol := []string{"zero", "max"}[p]
					ns := p30run(e, r[0], r[1], pol, false, nil)
					if first >= len(ns) {
						return
					}
					values := func(n string) []string {
						var k int
						fmt.Sscan(n, &k)
						if k < 8 {
							var out []string
							for v := 0; v < k; v++ {
								out = append(out, fmt.Sprint(v))
							}
							return out
						}
						return []string{"0", "1", fmt.Sprint(k / 2), fmt.Sprint(k - 1)}
					}
					for _, v := range values(ns[first]) {
						d := fmt.Sprintf("%s %d=%s", pol, first, v)
						ms := p30run(e, r[0], r[1], d, false, modes[1:2])
						for second := first + 1; second < len(ms) && (thorough || i == 0); second++ {
							for _, w := range values(ms[second]) {
								p30run(e, r[0], r[1], fmt.Sprintf("%s %d=%s", d, second, w), false, nil)
							}
						}
					}
				}}
			}
			// the last days of a month or year and the first of the next: files with a few transactions
			ends := func(c *Chooser) *Case {
				mo, back, fwd := c.N(12), c.N(2), 1+c.N(2)
				return &Case{Key: fmt.Sprint("ends ", mo, back, fwd), Run: func(e *Env) {
					eom := at(2019, 9+mo, 0)
					for _, pol := range []string{"zero", "max", "mid", "lcg1", "lcg2"} {
						p30run(e, dateStr(eom.AddDate(0, 0, -back)), dateStr(eom.AddDate(0, 0, fwd)), pol, false, modes[1:])
					}
				}}
			}
			// without dates: the three months up to today or up to the given end
			defaults := func(c *Chooser) *Case {
				k := c.N(40)
				return &Case{Key: fmt.Sprint("defaults ", k), Run: func(e *Env) {
					if k > 1 {
						end := at(2018, k, 1+k*7%28)
						pol := "VERIF_RAND=" + []string{"zero", "max", "lcg3"}[k%3]
						e.State(pol + dateStr(end))
						a := e.RunEnv("gen2coin+rand", e.Dir, []string{pol}, "", "-e", dateStr(end))
						b := e.RunEnv("gen2coin+rand", e.Dir, []string{pol}, "", "-b", dateStr(end.AddDate(0, -3, 0)), "-e", dateStr(end))
						if a.Code != 0 || a.Out == "" || a.Out != b.Out {
							e.Fail(fmt.Sprint("defaults ", k), "gen2coin -e %s with %s differs from that with a begin three months earlier: %s", dateStr(end), pol, firstDiff(a.Out, b.Out))
						}
						return
					}
					before := time.Now()
					r := e.RunEnv("gen2coin+rand", e.Dir, []string{"VERIF_RAND=lcg5", "TZ=UTC"}, "")
					after := time.Now()
					ts, msg := p30parse(r.Out)
					if msg == "" {
						msg = p30valid(ts, dateStr(before.UTC().AddDate(0, -3, 0)), dateStr(after.UTC()))
					}
					if msg != "" || len(ts) == 0 {
						e.Fail("defaults", "gen2coin: %s\n%s", msg, clipped(r.Out, 3000))
					}
					e.State("defaults")
				}}
			}
			return []Space{
				{Name: "weeks", Rule: "every set of weekdays x counts x intervals 0-4 x 7 begins x 14 lengths, under every sequence of choices", Gen: weeks},
				{Name: "months", Rule: "every list of up to 2 of 17 days of month x counts x 6 intervals x 12 begins x 14 lengths, under every sequence of choices", Gen: months},
				{Name: "ranges", Rule: "every begin of 75 (thorough 130) days around a year end and February, leap and not, x lengths", Gen: ranges},
				{Name: "long", Rule: "6 long ranges x 4 file modes x 7 policies of choice", Gen: long},
				{Name: "devs", Rule: "every single (and for short ranges every pair of) deviation of a random choice from two policies", Gen: devs},
				{Name: "ends", Rule: "the last 1-2 days of 12 months with the first 1-2 of the next, 3 file modes x 5 policies", Gen: ends},
				{Name: "defaults", Rule: "no dates given, or only one of 38 ends", Gen: defaults},
			}
		},
	})
	_ = sort.Strings
}
