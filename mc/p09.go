package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/mkobetic/coin"
)

// P09: tags.

func p09keyByte(b byte) bool {
	return b == '-' || b == '/' || b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// p09tags is the model: the tags of one note line.
func p09tags(note string, tags map[string]string) {
	for i := 0; i < len(note); i++ {
		if note[i] != '#' {
			continue
		}
		j := i + 1
		for j < len(note) && p09keyByte(note[j]) {
			j++
		}
		if j == i+1 {
			continue
		}
		key := note[i+1 : j]
		tags[key] = ""
		i = j - 1
		if j < len(note) && note[j] == ':' {
			end := strings.IndexByte(note[j:], ',')
			if end < 0 {
				end = len(note)
			} else {
				end += j
			}
			if v := strings.TrimSpace(note[j+1 : end]); v != "" {
				tags[key] = v
				i = end
			}
		}
	}
}

func p09of(notes ...string) map[string]string {
	m := map[string]string{}
	for _, n := range notes {
		p09tags(n, m)
	}
	return m
}

func sameTags(t coin.Tags, m map[string]string) bool {
	if len(t) != len(m) {
		return false
	}
	for k, v := range m {
		if w, ok := t[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// p09entry: notes at four places of a transaction.
type p09entry struct {
	txShort, poShort string
	txLong, poLong   []string
}

func (x p09entry) tx() Tx {
	return Tx{Date: "2020/01/02", Desc: "payee", Note: x.txShort, Notes: x.txLong, Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD", Note: x.poShort, Notes: x.poLong}, {Acc: "B", Amt: "-1.00", Com: "CAD"}}}
}

func p09load(e *Env, x p09entry) {
	text := x.tx().text()
	_, out, failed := e.lib(func() { loadText(p06com + "account A\n\naccount B\n\n" + text) })
	if failed || len(coin.Transactions) != 1 || len(coin.Transactions[0].Postings) != 2 {
		e.Fail("load "+text, "refused (%s): %s", out, text)
		return
	}
	t := coin.Transactions[0]
	wantT := p09of(append([]string{x.txShort}, x.txLong...)...)
	wantP := p09of(append([]string{x.poShort}, x.poLong...)...)
	e.State(fmt.Sprint(wantT, wantP))
	if !sameTags(t.Tags, wantT) {
		e.Fail("tx "+text, "transaction tags are %q, should be %q:\n%s", t.Tags, wantT, text)
	}
	if !sameTags(t.Postings[0].Tags, wantP) {
		e.Fail("posting "+text, "posting tags are %q, should be %q:\n%s", t.Postings[0].Tags, wantP, text)
	}
	if len(t.Postings[1].Tags) != 0 {
		e.Fail("leak "+text, "tags %q leak to the other posting:\n%s", t.Postings[1].Tags, text)
	}
	for k, v := range wantT {
		if !t.Tags.Includes(k) || t.Tags.Value(k) != v {
			e.Fail("lookup "+text, "lookup of %s fails:\n%s", k, text)
		}
	}
	if t.Tags.Includes("none") || t.Tags.Value("none") != "" {
		e.Fail("lookup "+text, "lookup of a missing tag succeeds:\n%s", text)
	}
}

var p09frags = []string{"#a", "#b-1/x", "#c: v", "#d:val two", "#e: x  y z", "#f:", "#Gg_9: 1", "text", "word:", ",", "#h: #i", "é#k: ü", "#l:m:n", "# no", "#o,", "#p: q,r", "#z-", "#/"}

// p09notes joins fragments.
func p09dup(note string) bool {
	// a key written twice: which value counts is not said
	seen := map[string]bool{}
	for i := 0; i < len(note); i++ {
		if note[i] == '#' {
			j := i + 1
			for j < len(note) && p09keyByte(note[j]) {
				j++
			}
			if seen[note[i:j]] {
				return true
			}
			seen[note[i:j]] = true
		}
	}
	return false
}

// p09match: the model of a filter.
var rexCache = map[string]*regexp.Regexp{}

func cachedRex(s string) *regexp.Regexp {
	r := rexCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		rexCache[s] = r
	}
	return r
}

func p09match(tags map[string]string, key, val string, hasVal bool) bool {
	kr, vr := cachedRex("(?i)"+key), cachedRex("(?i)"+val)
	for k, v := range tags {
		if kr.MatchString(k) && (!hasVal || vr.MatchString(v)) {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID: "P09", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is a family of notes sharing their first fragment, or one ledger with filters; states are distinct tag sets",
		Assumptions: []string{"a key is not written twice in one entry", "tag keys are made of letters, digits, - / and _"},
		Spaces: func(tier string) []Space {
			maxF := 4
			if tier == "thorough" {
				maxF = 5
			}
			seps := []string{" ", ", ", "", " ,  "}
			build := func(first, sep int, n int, f func(string)) {
				var rec func(s string, k int)
				rec = func(s string, k int) {
					f(s)
					if k == n {
						return
					}
					for _, fr := range p09frags {
						rec(s+seps[sep]+fr, k+1)
					}
				}
				rec(p09frags[first], 1)
			}
			parse := func(c *Chooser) *Case {
				first, sep := c.N(len(p09frags)), c.N(len(seps))
				return &Case{Key: fmt.Sprint("parse ", p09frags[first], sep), Run: func(e *Env) {
					build(first, sep, maxF, func(s string) {
						if p09dup(s) {
							return
						}
						want := p09of(s)
						e.State(fmt.Sprint(want))
						e.traces++
						if got := coin.ParseTags(s); !sameTags(got, want) {
							e.Fail("parse "+s, "note %q gives tags %q, should be %q", s, got, want)
						}
					})
				}}
			}
			places := func(c *Chooser) *Case {
				first, sep := c.N(len(p09frags)), c.N(len(seps))
				return &Case{Key: fmt.Sprint("places ", p09frags[first], sep), Run: func(e *Env) {
					build(first, sep, 2, func(s string) {
						if p09dup(s) {
							return
						}
						for _, x := range []p09entry{{txShort: s}, {poShort: s}, {txLong: []string{s}}, {poLong: []string{s}}, {txShort: "#tx: y", txLong: []string{s, "plain"}}, {txShort: s, txLong: []string{"more", "#two: words here"}, poLong: []string{"#po"}}, {poShort: s, poLong: []string{"#second: s, #third", "#last: l"}}, {poShort: "#x1:y", poLong: []string{"note", s}, txShort: "#x1: other"}} {
							p09load(e, x)
						}
					})
				}}
			}
			// many tags in one note and in many notes
			many := func(c *Chooser) *Case {
				n := 1 + c.N(30)
				return &Case{Key: fmt.Sprint("many ", n), Run: func(e *Env) {
					note := ""
					var notes []string
					for i := 0; i < n; i++ {
						s := fmt.Sprintf("#k%d", i)
						if i%3 == 1 {
							s += fmt.Sprintf(": v %d,", i)
						}
						note += s + " "
						notes = append(notes, s)
					}
					p09load(e, p09entry{txLong: []string{note}, poLong: notes})
					p09load(e, p09entry{txLong: notes, poShort: note})
				}}
			}
			type filt struct {
				text, key, val string
				has            bool
			}
			var filts []filt
			for _, k := range []string{"a", "A", "^a$", "trip|home", "ip", "z"} {
				filts = append(filts, filt{k, k, "", false})
				for _, v := range []string{"x", "X y", "^x$", "12:30", ".", "q|x"} {
					filts = append(filts, filt{k + ":" + v, k, v, true})
				}
			}
			tagsets := []string{"", "#a", "#a: x", "#A: X y", "#trip: 12:30", "#ab: x, #a: q", "#home, #trip: X", "#TRIP", "#za: xx"}
			matcher := func(c *Chooser) *Case {
				f := filts[c.N(len(filts))]
				return &Case{Key: "matcher " + f.text, Run: func(e *Env) {
					for _, s := range tagsets {
						m := p09of(s)
						want := p09match(m, f.key, f.val, f.has)
						e.State(fmt.Sprint(f, m))
						var t coin.Tags
						if len(m) > 0 {
							t = coin.Tags(m)
						}
						var got bool
						out, failed := e.Guarded(func() { got = coin.NewTagMatcher(f.text).Match(t) })
						e.traces++
						if failed || got != want {
							e.Fail("match "+f.text+" "+s, "filter %q on tags %q gives %v %s, should be %v", f.text, m, got, out, want)
						}
					}
				}}
			}
			cli := func(c *Chooser) *Case {
				f := filts[c.N(len(filts))]
				return &Case{Key: "commands " + f.text, Run: func(e *Env) {
					led := ""
					type px struct {
						id   string
						want bool
					}
					var exp []px
					n := 0
					for i, tt := range tagsets {
						for j, pt := range tagsets {
							if (i*3+j)%4 != 0 && i*j != 0 {
								continue
							}
							id := fmt.Sprint("n", n)
							n++
							t := Tx{Date: dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, n)), Desc: id, Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD"}, {Acc: "B", Amt: "-1.00", Com: "CAD"}}}
							if n%2 == 0 {
								t.Note, t.Ps[0].Note = tt, pt
							} else {
								if tt != "" {
									t.Notes = []string{"long", tt}
								}
								if pt != "" {
									t.Ps[0].Notes = []string{pt}
								}
							}
							led += t.text()
							exp = append(exp, px{id, p09match(p09of(tt), f.key, f.val, f.has) || p09match(p09of(pt), f.key, f.val, f.has)})
						}
					}
					db := e.Sub("db", Files{"commodities.coin": p06com, "accounts.coin": accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}), "t.coin": led})
					r := e.Run("coin", db, "register", "-t", f.text, "A")
					b := e.Run("coin", db, "balance", "-z", "-t", f.text, "A")
					count := 0
					for _, x := range exp {
						if x.want {
							count++
						}
						if hasToken(r.Out, x.id) != x.want {
							e.Fail("register "+f.text+" "+x.id, "register -t %q shows %s: %v, should be %v\n%s\n%s%s", f.text, x.id, !x.want, x.want, led, r.Out, r.Err)
							break
						}
					}
					e.State(fmt.Sprint(f, count))
					ok := false
					for _, row := range balanceRows(b.Out) {
						ok = ok || row.acc == "A" && row.own == cents(int64(count*100))
					}
					if !ok {
						e.Fail("balance "+f.text, "balance -t %q should count %d postings\n%s%s", f.text, count, b.Out, b.Err)
					}
				}}
			}
			return []Space{
				{Name: "parse", Rule: "every note of up to n of 16 fragments with 4 separators", Gen: parse},
				{Name: "places", Rule: "every note of up to 2 fragments at 8 arrangements of short and long notes of a transaction and posting", Gen: places},
				{Name: "many", Rule: "1-30 tags in one and in many notes", Gen: many},
				{Name: "filters", Rule: "42 filters on 9 tag sets", Gen: matcher},
				{Name: "commands", Rule: "register and balance with each filter over combinations of transaction and posting tags", Gen: cli},
			}
		},
	})
}
