package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/mkobetic/coin"
)

var p25long = "In:" + strings.Repeat("Very", 20) + ":Deep"

// P25: import rules pick the first matching account.

type p25rule struct {
	ref   string // group name
	acc   string // "" drops
	expr  string
	notes []string
	form  int // spacing
}

type p25group struct {
	name, acc string // acc "" for a named group
	rules     []p25rule
}

func (r p25rule) text() string {
	in := []string{"  ", "\t", " "}[r.form%3]
	if r.ref != "" {
		return in + "@" + r.ref + "\n"
	}
	acc := r.acc
	if acc == "" {
		acc = "--"
	}
	s := in + acc
	if r.expr != "" {
		s += []string{"  ", " ", "\t\t"}[r.form%3] + r.expr
	}
	s += []string{"", " ", ""}[r.form%3] + "\n"
	for _, n := range r.notes {
		s += in + []string{"; ", ";", "  ;  "}[r.form%3] + n + "\n"
	}
	return s
}

func p25text(gs []p25group, blank bool) (s string) {
	for _, g := range gs {
		s += g.name
		if g.acc != "" {
			s += " " + g.acc
		}
		s += "\n"
		for _, r := range g.rules {
			s += r.text()
		}
		if blank {
			s += "\n"
		}
	}
	return
}

// decide is the model: the account, "--" for dropping or "Unbalanced", and the notes.
func p25decide(gs []p25group, id, payee string) string {
	byName := map[string][]p25rule{}
	for _, g := range gs {
		byName[g.name] = g.rules
	}
	var rec func(rs []p25rule) string
	rec = func(rs []p25rule) string {
		for _, r := range rs {
			if r.ref != "" {
				if d := rec(byName[r.ref]); d != "" {
					return d
				}
			} else if cachedRex(r.expr).MatchString(payee) {
				if r.acc == "" {
					return "--"
				}
				return fmt.Sprintf("%s %q", r.acc, r.notes)
			}
		}
		return ""
	}
	if d := rec(byName[id]); d != "" {
		return d
	}
	return "Unbalanced []"
}

var p25accs = comsText(Com{Id: "CAD", Dec: 2, Default: true}) + accsText(Acc{Name: "Bank", Com: "CAD"}, Acc{Name: "Card", Com: "CAD"}, Acc{Name: "Ex:Food", Com: "CAD"}, Acc{Name: "Ex:Food:Out", Com: "CAD"}, Acc{Name: p25long, Com: "CAD"})

func p25got(ri *coin.RuleIndex, id, payee string) string {
	r := ri.AccountRulesFor(id).RuleFor(payee)
	switch {
	case r == nil:
		return "Unbalanced []"
	case r.Account == nil:
		return "--"
	}
	return fmt.Sprintf("%s %q", r.Account.FullName, r.Notes)
}

// p25check compares the decisions of loaded rules, and of their dump loaded again.
func p25check(e *Env, gs []p25group, payees []string, blank, again bool) {
	text := p25text(gs, blank)
	e.State(text)
	load := func(text string) (ri *coin.RuleIndex, msg string) {
		out, failed := e.Guarded(func() {
			var err error
			ri, err = coin.ReadRules(strings.NewReader(text))
			must(err)
		})
		if failed {
			return nil, out
		}
		return ri, ""
	}
	ri, msg := load(text)
	if ri == nil {
		e.Fail("refused "+text, "rules are refused: %s\n%s", msg, text)
		return
	}
	compare := func(ri *coin.RuleIndex, what, dump string) bool {
		for _, g := range gs {
			if g.acc == "" {
				continue
			}
			for _, p := range payees {
				want := p25decide(gs, g.name, p)
				got := ""
				if out, failed := e.Guarded(func() { got = p25got(ri, g.name, p) }); failed {
					got = "refused: " + out
				}
				e.traces++
				e.Outcome(want)
				if got != want {
					e.Fail(what+text, "%s: %q on account %s gives %s, should be %s\n--- rules\n%s%s", what, p, g.name, got, want, text, dump)
					return false
				}
			}
		}
		return true
	}
	if !compare(ri, "loaded rules", "") || !again {
		return
	}
	var b strings.Builder
	if err := ri.Write(&b); err != nil {
		e.Fail("dump "+text, "dumping fails: %v", err)
		return
	}
	ri2, msg := load(b.String())
	if ri2 == nil {
		e.Fail("dump refused "+text, "the dump is refused: %s\n%s--- of\n%s", msg, b.String(), text)
		return
	}
	compare(ri2, "dumped and loaded rules", "--- dump\n"+b.String())
}

func p25words(al string, n int) (out []string) {
	level := []string{""}
	for i := 0; i <= n; i++ {
		out = append(out, level...)
		var next []string
		for _, w := range level {
			for _, c := range al {
				next = append(next, w+string(c))
			}
		}
		level = next
	}
	return
}

func p25setup() {
	coin.Load(strings.NewReader(p25accs), "t.coin")
	coin.ResolveAccounts()
}

// p25ofx is a minimal statement with a line per payee.
func p25ofx(id string, payees []string) string {
	s := ofxStatement{id: id, bal: "0.00"}
	for i, p := range payees {
		s.lines = append(s.lines, ofxLine{date: fmt.Sprintf("202001%02d", i%28+1), amt: fmt.Sprintf("-%d.00", i+1), name: p})
	}
	return ofxText([]ofxStatement{s})
}

func init() {
	register(&Prop{
		ID: "P25", Level: "model_checking", Bins: []string{"ofx2coin", "csv2coin"},
		Rule:        "a case is a batch of rule files over one set of groups, or one rule file through the import commands; states are distinct rule files",
		Assumptions: []string{"groups are defined once and before they are referenced", "rule groups have no blank lines inside", "notes follow a rule, not a reference"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			accs := []string{"Ex:Food", p25long, ""}
			exprs := []string{"x", "^y", "x|y", "z$", ""}
			payees := p25words("xyz", 2)
			var plain []p25rule
			for i, a := range accs {
				for j, x := range exprs {
					r := p25rule{acc: a, expr: x, form: i + j}
					if a != "" && (i+j)%2 == 0 {
						r.notes = []string{"n" + x, "#t: v"}[:1+j%2]
					}
					plain = append(plain, r)
				}
			}
			groups := [][]p25rule{nil, {plain[0]}, {plain[11]}, {plain[6], plain[0]}, {plain[14]}, {plain[3], plain[10]}}
			batch := func(c *Chooser) *Case {
				g1 := c.N(len(groups))
				g2 := c.N(8)
				first := c.N(len(plain) + 2)
				return &Case{Key: fmt.Sprint("rules ", g1, g2, first), Run: func(e *Env) {
					resetLib()
					p25setup()
					head := []p25group{{name: "g1", rules: groups[g1]}}
					switch g2 {
					case 6:
						head = append(head, p25group{name: "g2", rules: []p25rule{{ref: "g1"}}})
					case 7:
						head = append(head, p25group{name: "g2", rules: []p25rule{plain[1], {ref: "g1"}, plain[7]}})
					default:
						head = append(head, p25group{name: "g2", rules: groups[g2]})
					}
					all := append(append([]p25rule{}, plain...), p25rule{ref: "g1"}, p25rule{ref: "g2", form: 1})
					run := func(rs ...p25rule) {
						gs := append(append([]p25group{}, head...), p25group{"12345", "Bank", rs}, p25group{"9", "Card", []p25rule{{ref: "g2"}, plain[2]}})
						p25check(e, gs, payees, len(rs)%2 == 0, thorough || len(rs) < 3 || rs[2].ref != "")
					}
					if first == 0 {
						run()
					}
					run(all[first])
					for _, r := range all {
						run(all[first], r)
						for k, q := range all {
							if !thorough && k%3 != (first+g1)%3 && q.ref == "" {
								continue
							}
							run(all[first], r, q)
						}
					}
				}}
			}
			// expressions exactly as written
			special := []string{"x", ".", "é", ";x", "@x", "x ; y", "a  b", "--", `\d+`, "(?i)X", "[xy] z", "x.y", `"x"`, "x$", "^$", ".*", "a\tb", `\.`, `a\|b`, "x{2}", "%s", "%d x", "$", "^", "#t", "()", "x; y", ";", "@", "@g1", "A:B", "x  -- y", strings.Repeat("ab", 60), strings.Repeat("x|", 80) + "y"}
			subjects := append(p25words("xyab.|;@#%\"$ é1-X", 1), "xx", "x y", "x ; y", "x; y", "a  b", "a b", "a\tb", "--", "A:B", "x.y", "y z", "@g1", ";x", "@x", "a|b", "%s", "5 x", "#t", strings.Repeat("ab", 60), strings.Repeat("ab", 61), "x  -- y")
			exact := func(c *Chooser) *Case {
				i, form := c.N(len(special)), c.N(3)
				return &Case{Key: fmt.Sprintf("expression %q %d", special[i], form), Run: func(e *Env) {
					resetLib()
					p25setup()
					for j := range special {
						gs := []p25group{{"g1", "", []p25rule{{acc: p25long, expr: "never", notes: []string{"a ; b", "c: d"}}}}, {"7", "Bank", []p25rule{
							{acc: "Ex:Food", expr: special[i], form: form, notes: []string{"note " + special[j]}},
							{acc: "Ex:Food:Out", expr: special[j], form: form + 1},
							{acc: "", expr: special[(i+j)%len(special)], form: form + 2}}}}
						p25check(e, gs, subjects, j%2 == 0, true)
					}
				}}
			}
			many := func(c *Chooser) *Case {
				n := []int{1, 5, 9, 13, 40}[c.N(5)]
				mode := c.N(3)
				return &Case{Key: fmt.Sprint("many ", n, mode), Run: func(e *Env) {
					resetLib()
					p25setup()
					var gs []p25group
					var ps []string
					for i := 0; i < n; i++ {
						ps = append(ps, fmt.Sprint("payee ", i), fmt.Sprint("p", i*3))
						rs := []p25rule{{acc: accs[i%3], expr: fmt.Sprintf("payee %d", i), form: i}, {acc: accs[(i+1)%3], expr: fmt.Sprintf("p%d", i)}}
						if i > 0 && mode > 0 {
							rs = append([]p25rule{{ref: fmt.Sprint("g", i/2)}}, rs...)
						}
						gs = append(gs, p25group{name: fmt.Sprint("g", i), rules: rs})
					}
					for i := 0; i < n; i++ {
						rs := []p25rule{{ref: fmt.Sprint("g", i)}}
						if mode == 2 {
							rs = []p25rule{{acc: p25long, expr: fmt.Sprint(i)}, {ref: fmt.Sprint("g", n-1-i)}, {ref: "g0"}, {acc: "Ex:Food"}}
						}
						gs = append(gs, p25group{fmt.Sprint(i*7%n, "id"), []string{"Bank", "Card", p25long}[i%3], rs})
					}
					p25check(e, gs, ps, mode == 1, true)
				}}
			}
			// ids of accounts and groups that are nearly the same
			alike := func(c *Chooser) *Case {
				ids := []string{"123", "0123", "1234", "12", "23", "A12", "a12", "a_12", "_a12", "1230"}
				i, j, k := c.N(len(ids)), c.N(len(ids)), c.N(len(ids))
				if i == j {
					return nil
				}
				return &Case{Key: fmt.Sprint("alike ", i, j, k), Run: func(e *Env) {
					text := p25text([]p25group{{ids[i], "Bank", []p25rule{{acc: "Ex:Food", expr: "x"}}}, {ids[j], "Card", []p25rule{{acc: p25long, expr: "x"}}}}, false)
					own := Acc{Name: "Own", Com: "CAD"}
					accs := p25accs + accsText(own)
					if strings.Trim(ids[k], "0123456789") == "" {
						accs = p25accs + "account Own\n  commodity CAD\n  ofx_acctid " + ids[k] + "\n\n"
					}
					e.State(text + ids[k])
					for _, q := range ids {
						want := "refused"
						switch {
						case q == ids[i]:
							want = "Bank " + `Ex:Food []`
						case q == ids[j]:
							want = "Card " + p25long + " []"
						case q == ids[k] && strings.Contains(accs, "ofx_acctid"):
							want = "Own Unbalanced []"
						}
						got := ""
						_, _, failed := e.lib(func() {
							loadText(accs)
							ri, err := coin.ReadRules(strings.NewReader(text))
							must(err)
							got = ri.AccountRulesFor(q).Account.FullName + " " + p25got(ri, q, "x")
						})
						if failed {
							got = "refused"
						}
						if got != want {
							e.Fail(text+accs+q, "account id %s: %s, should be %s\n--- rules\n%s--- accounts\n%s", q, got, want, text, accs)
						}
					}
					// the same names for groups
					if k == i || k == j {
						return
					}
					gs := []p25group{{ids[i], "", []p25rule{{acc: "Ex:Food", expr: "x"}}}, {ids[j], "", []p25rule{{acc: p25long, expr: "x"}}}, {ids[k], "", []p25rule{{acc: "Ex:Food:Out", expr: "x"}}}}
					for n, q := range []string{ids[i], ids[j], ids[k]} {
						resetLib()
						p25setup()
						p25check(e, append(append([]p25group{}, gs...), p25group{"9", "Bank", []p25rule{{ref: q}, {acc: "", form: n}}}), []string{"x", "y"}, n == 1, true)
					}
				}}
			}
			// through the import commands and their rule dumps
			cli := func(c *Chooser) *Case {
				k := c.N(36)
				prog := c.N(2)
				return &Case{Key: fmt.Sprint("commands ", k, prog), Run: func(e *Env) {
					g := func(i int) p25rule { return plain[i%len(plain)] }
					gs := []p25group{{"g1", "", []p25rule{g(k), g(k * 3)}}, {"g2", "", []p25rule{{ref: "g1"}, g(k + 5)}}, {"123", "Bank", []p25rule{g(k + 1), {ref: []string{"g1", "g2"}[k%2]}, g(k + 2)}}, {"45", "Card", []p25rule{{ref: "g2"}, {acc: "Ex:Food:Out", expr: special[k%len(special)], notes: []string{"#x: y"}}}}}
					ps := []string{"x", "y", "z", "xz", "yx", "zy", "aa", "abab", "1", "A:B", "x.y"}
					text := p25text(gs, k%3 == 0)
					for round := 0; round < 2; round++ {
						for _, id := range []string{"123", "45"} {
							f := Files{"commodities.coin": "", "accounts.coin": p25accs}
							var r Result
							if prog == 0 {
								f["ofx.rules"] = text
								db := e.Sub("db", f)
								must(os.WriteFile(db+"/in.ofx", []byte(p25ofx(id, ps)), 0o644))
								r = e.Run("ofx2coin", db, "in.ofx")
							} else {
								f["csv.rules"] = "src 0\n  account 0\n  description 1\n  date 2\n  amount 3\n\n---\n" + text
								db := e.Sub("db", f)
								s := ""
								for i, p := range ps {
									s += fmt.Sprintf("%s,%s,2020/01/%02d,-%d.00\n", id, strings.ReplaceAll(p, "\"", ""), i+1, i+1)
								}
								must(os.WriteFile(db+"/in.csv", []byte(s), 0o644))
								r = e.Run("csv2coin", db, "-source", "src", "in.csv")
							}
							want := map[string]string{}
							for i, p := range ps {
								w := p25decide(gs, id, p)
								if prog == 1 { // sub-accounts of the same commodity come first
									w = strings.Replace(w, "Ex:Food [", "Ex:Food:Out [", 1)
								}
								want[fmt.Sprint(i+1, ".00")] = w
							}
							got := map[string]string{}
							_, msg, failed := e.lib(func() {
								loadText(p25accs + r.Out)
								for _, t := range coin.Transactions {
									for i, p := range t.Postings {
										if n := p.Account.FullName; n == "Bank" || n == "Card" {
											v := strings.TrimPrefix(fmt.Sprint(p.Quantity), "-")
											if o := t.Postings[1-i].Account.FullName; got[v] == "" {
												got[v] = fmt.Sprintf("%s %q", o, t.Notes)
											}
										}
									}
								}
							})
							sig := fmt.Sprint(prog, round, id, text)
							if r.Code != 0 || failed {
								e.Fail(sig, "import: exit %d %s %s\n%s\n--- rules\n%s", r.Code, r.Err, msg, r.Out, text)
								return
							}
							for v, w := range want {
								g := got[v]
								if w == "--" {
									w = ""
								}
								if g != w {
									e.Fail(sig, "import (round %d): amount %s goes to %q, should go to %q\n--- rules\n%s--- output\n%s", round, v, g, w, text, r.Out)
									return
								}
							}
							if round == 0 && id == "45" {
								// again with what the rules are dumped as
								d := e.Run([]string{"ofx2coin", "csv2coin"}[prog], e.Dir+"/db", "-rules")
								text = d.Out
								if prog == 1 {
									i := strings.Index(text, "---\n")
									if i < 0 {
										e.Fail(sig, "no separator in the dump\n%s", text)
										return
									}
									text = text[i+4:]
								}
								if d.Code != 0 {
									e.Fail(sig, "dump exits with %d: %s", d.Code, d.Err)
								}
							}
						}
					}
				}}
			}
			return []Space{
				{Name: "rules", Rule: "every list of up to 3 rules (15 plain ones, two references; quick: a third of the last) per account over 48 pairs of groups, one referencing the other, against all payees of up to 2 letters, loaded, and dumped and loaded again", Gen: batch},
				{Name: "expressions", Rule: "all pairs of 34 special expressions in three spacings", Gen: exact},
				{Name: "alike", Rule: "three of 10 nearly the same account ids and group names, all asked for", Gen: alike},
				{Name: "many", Rule: "1-40 groups and accounts with chains of references", Gen: many},
				{Name: "commands", Rule: "36 rule files through ofx2coin and csv2coin and their dumps", Gen: cli},
			}
		},
	})
}
