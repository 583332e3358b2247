package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P07: date entry.

func daysIn(y, m int) int { return time.Date(y, time.Month(m)+1, 0, 12, 0, 0, 0, time.UTC).Day() }

func absDur(d time.Duration) time.Duration {
	if d < 0 {
		return -d
	}
	return d
}

// p07closest: the dates m/d closest to today.
func p07closest(today time.Time, m, d int) (out []time.Time) {
	best := time.Duration(1 << 62)
	for y := today.Year() - 8; y <= today.Year()+8; y++ {
		if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
			continue
		}
		t := ymdDate(y, m, d)
		dist := absDur(t.Sub(today))
		if dist < best {
			best, out = dist, nil
		}
		if dist == best {
			out = append(out, t)
		}
	}
	return
}

// p07year: the years with the two last digits yy closest to the year of today.
func p07year(today time.Time, yy int) (out []int) {
	best := 1000
	for y := today.Year() - 120; y <= today.Year()+120; y++ {
		if y%100 != yy {
			continue
		}
		dist := y - today.Year()
		if dist < 0 {
			dist = -dist
		}
		if dist < best {
			best, out = dist, nil
		}
		if dist == best {
			out = append(out, y)
		}
	}
	return
}

// p07offset: the date moved; a day past the end of a month may spill over or stop at its end.
func p07offset(t time.Time, n int, unit byte) []time.Time {
	switch unit {
	case 'd':
		return []time.Time{time.Unix(t.Unix()+int64(n)*86400, 0).UTC()}
	case 'w':
		return []time.Time{time.Unix(t.Unix()+int64(n)*7*86400, 0).UTC()}
	case 'y':
		n *= 12
	}
	mm := t.Year()*12 + int(t.Month()) - 1 + n
	if mm < 0 {
		return nil // before year 0
	}
	y, m := mm/12, mm%12+1
	last := daysIn(y, m)
	if t.Day() <= last {
		return []time.Time{ymdDate(y, m, t.Day())}
	}
	return []time.Time{ymdDate(y, m, last), ymdDate(y, m, last).AddDate(0, 0, t.Day()-last)}
}

// p07read says what a text denotes: nothing when it is not a date.
func p07read(today time.Time, s string) (out []time.Time) {
	var moved []time.Time
	number := func(s string, widths ...int) (n int, ok bool) {
		for _, w := range widths {
			ok = ok || len(s) == w
		}
		for i := 0; i < len(s); i++ {
			ok = ok && s[i] >= '0' && s[i] <= '9'
			n = n*10 + int(s[i]-'0')
		}
		return n, ok
	}
	base, off := s, ""
	if i := strings.IndexAny(s, "+-"); i >= 0 {
		base, off = s[:i], s[i:]
	}
	day := func(y, m, d int) {
		if m >= 1 && m <= 12 && d >= 1 && d <= daysIn(y, m) {
			out = append(out, ymdDate(y, m, d))
		}
	}
	parts := strings.Split(base, "/")
	switch {
	case base == "" && off == "":
		return nil
	case base == "":
		out = []time.Time{today}
	case len(parts) == 1:
		if y, ok := number(base, 4); ok {
			day(y, 1, 1)
		}
	case len(parts) == 2:
		b, ok := number(parts[1], 1, 2)
		if !ok {
			return nil
		}
		if m, ok := number(parts[0], 1, 2); ok {
			out = p07closest(today, m, b)
		} else if y, ok := number(parts[0], 4); ok {
			day(y, b, 1)
		}
	case len(parts) == 3:
		m, okm := number(parts[1], 1, 2)
		d, okd := number(parts[2], 1, 2)
		if !okm || !okd {
			return nil
		}
		if y, ok := number(parts[0], 4); ok {
			day(y, m, d)
		} else if yy, ok := number(parts[0], 2); ok {
			for _, y := range p07year(today, yy) {
				day(y, m, d)
			}
		}
	}
	if off == "" || len(out) == 0 {
		return out
	}
	if len(off) < 3 || !strings.Contains("dwmy", off[len(off)-1:]) {
		return nil
	}
	n, ok := number(off[1:len(off)-1], len(off)-2)
	if !ok || len(off) > 9 || n > 9999999 { // no calendar goes that far
		return nil
	}
	if off[0] == '-' {
		n = -n
	}
	for _, t := range out {
		for _, t := range p07offset(t, n, off[len(off)-1]) {
			if t.Year() >= 0 && t.Year() <= 9999 {
				moved = append(moved, t)
			}
		}
	}
	return moved
}

// p07text compares one text, right or wrong, by the option and the entry route.
func p07text(e *Env, today time.Time, s string) {
	want := p07read(today, s)
	var opt coin.Date
	err := opt.Set(s)
	e.traces++
	key := fmt.Sprintf("%q on %s", s, dateStr(today))
	if len(want) > 0 {
		e.State(key)
	}
	if (err == nil) != (len(want) > 0) || err == nil && !oneOf(opt.Time, want) {
		e.Fail("text "+key, "date option %s is read as %s %v, should be %s", key, dateStr(opt.Time), err, dateStrs(want))
		return
	}
	failed := false
	var got time.Time
	func() {
		defer func() { failed = recover() != nil }()
		got = coin.MustParseDate(s)
	}()
	if failed != (len(want) == 0) || !failed && !oneOf(got, want) {
		e.Fail("text "+key, "date %s is read as %s, should be %s", key, dateStr(got), dateStrs(want))
	}
}

func oneOf(t time.Time, l []time.Time) bool {
	for _, x := range l {
		if x.Equal(t) {
			return true
		}
	}
	return false
}

func dateStrs(l []time.Time) string {
	var out []string
	for _, t := range l {
		out = append(out, dateStr(t))
	}
	return strings.Join(out, " or ")
}

// p07check reads one text under one today by the entry and the option route.
func p07check(e *Env, today time.Time, text string, want []time.Time) {
	withToday(today.Year(), today.Month(), today.Day(), func() {
		var got time.Time
		out, failed := e.Guarded(func() { got = coin.MustParseDate(text) })
		e.traces++
		key := fmt.Sprintf("%s on %s", text, dateStr(today))
		if failed || !oneOf(got, want) {
			e.Fail("entry "+key, "date %s is read as %s %s, should be %s", key, dateStr(got), out, dateStrs(want))
			return
		}
		var opt coin.Date
		var err error
		out, failed = e.Guarded(func() { err = opt.Set(text) })
		if failed || err != nil || !oneOf(opt.Time, want) {
			e.Fail("option "+key, "date option %s is read as %s %s %v, should be %s", key, dateStr(opt.Time), out, err, dateStrs(want))
		}
	})
}

// p07ledger puts the text into a transaction, a price and a closing date.
func p07ledger(e *Env, today time.Time, text string, want []time.Time) {
	withToday(today.Year(), today.Month(), today.Day(), func() {
		key := fmt.Sprintf("%s on %s", text, dateStr(today))
		led := "commodity CAD\n  format 1.00 CAD\n  default\n\ncommodity USD\n  format 1.00 USD\n\naccount A\n  closed " + text + "\n\naccount B\n\nP " + text + " USD 1.30 CAD\n\n" + text + " (code) desc ; note\n  A  1.00 CAD\n  B\n"
		_, out, failed := e.lib(func() { loadText(led) })
		if failed || len(coin.Transactions) != 1 || len(coin.Prices) != 1 {
			e.Fail("ledger "+key, "date %s refused in a ledger: %s", key, out)
			return
		}
		t := coin.Transactions[0]
		if !oneOf(t.Posted, want) || t.Code != "code" || t.Description != "desc" || len(t.Postings) != 2 {
			e.Fail("transaction "+key, "transaction dated %s is read as %s (%s) %q, should be %s", key, dateStr(t.Posted), t.Code, t.Description, dateStrs(want))
		}
		if !oneOf(coin.Prices[0].Time, want) {
			e.Fail("price "+key, "price dated %s is read as %s, should be %s", key, dateStr(coin.Prices[0].Time), dateStrs(want))
		}
		if !oneOf(coin.AccountsByName["A"].Closed, want) {
			e.Fail("closed "+key, "closing date %s is read as %s, should be %s", key, dateStr(coin.AccountsByName["A"].Closed), dateStrs(want))
		}
	})
}

var p07offs = []int{0, 1, -1, 2, 7, -10, 12, -13, 29, 31, -45, 60, 100, -366, 400}

func init() {
	register(&Prop{
		ID: "P07", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one today (or month of todays) with a family of texts; states are distinct (today, text) pairs",
		Assumptions: []string{"todays lie in 2020-2096", "a day past the end of a month reached by an offset may spill over or stop at the end of the month"},
		Spaces: func(tier string) []Space {
			years := []int{2023, 2024}
			if tier == "thorough" {
				years = []int{2019, 2020, 2021, 2022, 2023, 2024, 2025, 2032, 2050, 2096}
			}
			todays := func(c *Chooser) time.Time {
				y := years[c.N(len(years))]
				return ymdDate(y, 1, 1).AddDate(0, 0, c.N(365+b2i(y%4 == 0)))
			}
			md := func(c *Chooser) *Case {
				today := todays(c)
				return &Case{Key: "month/day on " + dateStr(today), Run: func(e *Env) {
					for m := 1; m <= 12; m++ {
						for d := 1; d <= daysIn(2024, m); d++ {
							want := p07closest(today, m, d)
							e.State(dateStr(today) + dateStrs(want))
							forms := []string{fmt.Sprintf("%d/%d", m, d)}
							if d == m || d%7 == 0 {
								forms = append(forms, fmt.Sprintf("%02d/%02d", m, d))
							}
							for _, f := range forms {
								p07check(e, today, f, want)
							}
						}
					}
				}}
			}
			yy := func(c *Chooser) *Case {
				today := []time.Time{ymdDate(2020, 3, 5), ymdDate(2023, 12, 31), ymdDate(2024, 2, 29), ymdDate(2049, 7, 1), ymdDate(2050, 1, 1), ymdDate(2051, 6, 30), ymdDate(2075, 1, 1), ymdDate(2096, 10, 10)}[c.N(8)]
				return &Case{Key: "two-digit years on " + dateStr(today), Run: func(e *Env) {
					for y := 0; y < 100; y++ {
						for _, mdd := range [][2]int{{1, 1}, {2, 28}, {3, 5}, {6, 30}, {7, 31}, {12, 31}, {10, 10}} {
							var want []time.Time
							for _, full := range p07year(today, y) {
								want = append(want, ymdDate(full, mdd[0], mdd[1]))
							}
							e.State(dateStr(today) + dateStrs(want))
							p07check(e, today, fmt.Sprintf("%02d/%d/%d", y, mdd[0], mdd[1]), want)
							p07check(e, today, fmt.Sprintf("%02d/%02d/%02d", y, mdd[0], mdd[1]), want)
						}
					}
				}}
			}
			full := func(c *Chooser) *Case {
				m := 1 + c.N(12)
				y := []int{1970, 1999, 2000, 2019, 2020, 2021, 2024, 2099, 2100, 1900, 0, 1, 4, 99, 100, 9999}[c.N(16)]
				return &Case{Key: fmt.Sprint("full ", y, "/", m), Run: func(e *Env) {
					for _, today := range []time.Time{ymdDate(2020, 3, 31), ymdDate(2024, 2, 29)} {
						for d := 1; d <= daysIn(y, m); d++ {
							p07check(e, today, fmt.Sprintf("%04d/%d/%d", y, m, d), []time.Time{ymdDate(y, m, d)})
							p07check(e, today, fmt.Sprintf("%04d/%02d/%02d", y, m, d), []time.Time{ymdDate(y, m, d)})
							e.State(fmt.Sprint(y, m, d))
						}
						p07check(e, today, fmt.Sprintf("%04d/%d", y, m), []time.Time{ymdDate(y, m, 1)})
						p07check(e, today, fmt.Sprintf("%04d/%02d", y, m), []time.Time{ymdDate(y, m, 1)})
						p07check(e, today, fmt.Sprintf("%04d", y), []time.Time{ymdDate(y, 1, 1)})
					}
				}}
			}
			offsets := func(c *Chooser) *Case {
				today := []time.Time{ymdDate(2020, 3, 5), ymdDate(2023, 12, 31), ymdDate(2024, 2, 29), ymdDate(2023, 1, 1), ymdDate(2024, 7, 31), ymdDate(2023, 8, 30)}[c.N(6)]
				unit := "dwmy"[c.N(4)]
				return &Case{Key: fmt.Sprintf("offsets %c on %s", unit, dateStr(today)), Run: func(e *Env) {
					type base struct {
						text string
						at   []time.Time
					}
					bases := []base{{"", []time.Time{today}}, {"2019", []time.Time{ymdDate(2019, 1, 1)}}, {"2020/2", []time.Time{ymdDate(2020, 2, 1)}}, {"2021/12", []time.Time{ymdDate(2021, 12, 1)}},
						{"2020/02/29", []time.Time{ymdDate(2020, 2, 29)}}, {"2021/1/31", []time.Time{ymdDate(2021, 1, 31)}}, {"19/12/31", []time.Time{ymdDate(2019, 12, 31)}}, {"5/31", p07closest(today, 5, 31)}, {"12/1", p07closest(today, 12, 1)}, {"1/1", p07closest(today, 1, 1)}}
					for _, b := range bases {
						for _, o := range p07offs {
							var want []time.Time
							for _, t := range b.at {
								want = append(want, p07offset(t, o, unit)...)
							}
							e.State(b.text + dateStrs(want))
							p07check(e, today, fmt.Sprintf("%s%+d%c", b.text, o, unit), want)
						}
					}
				}}
			}
			alone := func(c *Chooser) *Case {
				today := todays(c)
				return &Case{Key: "offset alone on " + dateStr(today), Run: func(e *Env) {
					for _, u := range []byte("dwmy") {
						for _, o := range p07offs {
							want := p07offset(today, o, u)
							e.State(dateStr(today) + dateStrs(want))
							p07check(e, today, fmt.Sprintf("%+d%c", o, u), want)
						}
					}
				}}
			}
			ledgers := func(c *Chooser) *Case {
				today := []time.Time{ymdDate(2020, 3, 5), ymdDate(2023, 12, 31), ymdDate(2024, 7, 2)}[c.N(3)]
				return &Case{Key: "ledger on " + dateStr(today), Run: func(e *Env) {
					for _, mdd := range [][2]int{{1, 1}, {2, 28}, {6, 22}, {10, 22}, {12, 31}, {9, 4}, {9, 5}} {
						m, d := mdd[0], mdd[1]
						w := p07closest(today, m, d)
						p07ledger(e, today, fmt.Sprintf("%d/%d", m, d), w)
						p07ledger(e, today, fmt.Sprintf("%02d/%02d", m, d), w)
						p07ledger(e, today, fmt.Sprintf("05/%02d/%d", m, d), []time.Time{ymdDate(2005, m, d)})
						p07ledger(e, today, fmt.Sprintf("%d/%d-3d", m, d), append(p07offset(w[0], -3, 'd'), p07offset(w[len(w)-1], -3, 'd')...))
						p07ledger(e, today, fmt.Sprintf("2015/%d/%d", m, d), []time.Time{ymdDate(2015, m, d)})
						p07ledger(e, today, fmt.Sprintf("15/%02d/%02d", m, d), []time.Time{ymdDate(2015, m, d)})
						p07ledger(e, today, fmt.Sprintf("2015/%d", m), []time.Time{ymdDate(2015, m, 1)})
						p07ledger(e, today, fmt.Sprintf("2015/%d+1y", m), []time.Time{ymdDate(2016, m, 1)})
						e.State(fmt.Sprint(today, mdd))
					}
					p07ledger(e, today, "2015", []time.Time{ymdDate(2015, 1, 1)})
				}}
			}
			cli := func(c *Chooser) *Case {
				k := c.N(5)
				opt := []string{"-b", "-e"}[c.N(2)]
				return &Case{Key: fmt.Sprint("commands ", k, opt), Run: func(e *Env) {
					now := time.Now().UTC()
					today := ymdDate(now.Year(), int(now.Month()), now.Day())
					led := ""
					ds := []int{-400, -31, -8, -7, -6, -1, 0, 1, 2, 6, 7, 8, 30}
					for i, d := range ds {
						led += Tx{Date: dateStr(today.AddDate(0, 0, d)), Desc: fmt.Sprint("n", i), Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "B"}}}.text()
					}
					db := e.Sub("db", Files{"commodities.coin": p06com, "accounts.coin": accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}), "t.coin": led})
					at := []time.Time{today, today.AddDate(0, 0, -7), today.AddDate(0, 0, 1), today.AddDate(0, 0, -1), today.AddDate(0, 0, 7)}[k]
					texts := []string{fmt.Sprintf("%+dd", []int{0, -7, 1, -1, 7}[k]), dateStr(at), fmt.Sprintf("%d/%d", at.Month(), at.Day()), at.Format("06/1/2")}
					for _, text := range texts {
						arg := []string{opt, text}
						if strings.HasPrefix(text, "-") {
							arg = []string{opt + "=" + text}
						}
						r := e.Run("coin", db, append(append([]string{"register"}, arg...), "A")...)
						n2 := time.Now().UTC()
						if n2.Day() != now.Day() {
							return // midnight passed
						}
						for i, d := range ds {
							t := today.AddDate(0, 0, d)
							want := (opt == "-b" && !t.Before(at)) || (opt == "-e" && t.Before(at))
							if hasToken(r.Out, fmt.Sprint("n", i)) != want {
								e.Fail("option "+text, "coin register %v on %s: transaction of %s shown: %v\n%s%s", arg, dateStr(today), dateStr(t), !want, r.Out, r.Err)
							}
						}
						e.State(text)
					}
				}}
			}
			const letters = "01239/+-dmwy |"
			strs := func(c *Chooser) *Case {
				today := []time.Time{ymdDate(2024, 2, 29), ymdDate(2023, 12, 31)}[c.N(2)]
				prefix := []string{"", "2020/", "2020/1", "2020/02/2", "2020/02/29", "2020/12/31", "20/2/2", "21/2/29", "2/2", "1", "12/3", "+1", "2020+1", "2020-0", "2/29-", "9999", "0000", "2020/4/3", "100/1/1", "99999", "-99999999999999999999"}[c.N(21)]
				first := letters[c.N(len(letters))]
				n := 2
				if prefix == "" {
					n = 4
				}
				if tier == "thorough" {
					n++
				}
				return &Case{Key: fmt.Sprintf("texts %s%c on %s", prefix, first, dateStr(today)), Run: func(e *Env) {
					withToday(today.Year(), today.Month(), today.Day(), func() {
						var rec func(s string, left int)
						rec = func(s string, left int) {
							p07text(e, today, s)
							if left == 0 || len(e.fails) > 19 {
								return
							}
							for i := range letters {
								rec(s+letters[i:i+1], left-1)
							}
						}
						p07text(e, today, prefix)
						rec(prefix+string(first), n)
					})
				}}
			}
			return []Space{
				{Name: "texts", Rule: "every text of up to 5 (6) characters, and up to 3 (4) characters after the beginnings of dates, right or wrong", Gen: strs},
				{Name: "month-day", Rule: "every day of a leap and a non-leap year as today, every month/day", Gen: md},
				{Name: "two-digit", Rule: "all 100 two-digit years around half-century boundaries", Gen: yy},
				{Name: "full", Rule: "YYYY/M/D, YYYY/M, YYYY with and without leading zeros, every day", Gen: full},
				{Name: "offsets", Rule: "offsets of every unit on every form of date", Gen: offsets},
				{Name: "today-offsets", Rule: "offsets alone on every day as today", Gen: alone},
				{Name: "ledger", Rule: "dates in transactions, prices and closing dates", Gen: ledgers},
				{Name: "commands", Rule: "date options of the register relative to the real today", Gen: cli},
			}
		},
	})
}
