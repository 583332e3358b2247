package main

import (
	"fmt"
	"strings"

	"github.com/mkobetic/coin"
)

// P06: account selection by name or abbreviation.

type p06expr struct {
	parts []string
	skip  []bool // skip[i]: parts i and i+1 are joined by ::
}

func (x p06expr) String() string {
	s := x.parts[0]
	for i, p := range x.parts[1:] {
		if x.skip[i] {
			s += ":"
		}
		s += ":" + p
	}
	return s
}

// match decides whether an account path contains the parts in order.
func (x p06expr) match(full string) bool {
	els := strings.Split(strings.ToLower(full), ":")
	var rec func(i, el, off int) bool
	// part i may start in element el at offset off or later there
	rec = func(i, el, off int) bool {
		if i == len(x.parts) {
			return true
		}
		p := strings.ToLower(x.parts[i])
		for s := off; s+len(p) <= len(els[el]); s++ {
			if els[el][s:s+len(p)] != p {
				continue
			}
			if i == len(x.parts)-1 {
				return true
			}
			if x.skip[i] {
				if rec(i+1, el, s+len(p)) {
					return true
				}
				for k := el + 1; k < len(els); k++ {
					if rec(i+1, k, 0) {
						return true
					}
				}
			} else if el+1 < len(els) && rec(i+1, el+1, 0) {
				return true
			}
		}
		return false
	}
	for el := range els {
		if rec(0, el, 0) {
			return true
		}
	}
	return false
}

// p06select is the model: "" when refused.
func p06select(names []string, x p06expr) string {
	for _, n := range names {
		if n == x.String() {
			return n
		}
	}
	var ms []string
	for _, n := range names {
		if x.match(n) {
			ms = append(ms, n)
		}
	}
	for _, m := range ms {
		all := true
		for _, o := range ms {
			all = all && (o == m || strings.HasPrefix(o, m+":"))
		}
		if all {
			return m
		}
	}
	return ""
}

func p06exprs(parts []string, max int) (out []p06expr) {
	var rec func(x p06expr)
	rec = func(x p06expr) {
		if len(x.parts) > 0 {
			out = append(out, p06expr{append([]string{}, x.parts...), append([]bool{}, x.skip...)})
		}
		if len(x.parts) == max {
			return
		}
		for _, p := range parts {
			if len(x.parts) == 0 {
				rec(p06expr{[]string{p}, nil})
				continue
			}
			for _, s := range []bool{false, true} {
				rec(p06expr{append(append([]string{}, x.parts...), p), append(append([]bool{}, x.skip...), s)})
			}
		}
	}
	rec(p06expr{})
	return
}

func p06paths(names []string, depth int) (out []string) {
	level := []string{""}
	for d := 0; d < depth; d++ {
		var next []string
		for _, p := range level {
			for _, n := range names {
				q := n
				if p != "" {
					q = p + ":" + n
				}
				next = append(next, q)
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

const p06com = "commodity CAD\n  format 1.00 CAD\n  default\n\n"

func p06setup(e *Env, decl []string) (names []string, ok bool) {
	text := p06com
	for _, d := range decl {
		text += Acc{Name: d, Com: "CAD"}.text()
	}
	_, out, failed := e.lib(func() {
		coin.Load(strings.NewReader(text), "t.coin")
		coin.ResolveAccounts()
	})
	if failed {
		e.Fail("setup "+fmt.Sprint(decl), "accounts %v refused: %s", decl, out)
		return nil, false
	}
	return closure(decl), true
}

func p06find(e *Env, decl, names []string, x p06expr) {
	want := p06select(names, x)
	got := ""
	_, failed := e.Guarded(func() { got = coin.MustFindAccount(x.String()).FullName })
	e.traces++
	if failed {
		got = ""
	}
	if got != want {
		e.Fail(fmt.Sprintf("find %s in %v", x, decl), "account expression %q among %v selects %q, should be %q (empty: refused)", x.String(), names, got, want)
	}
	e.outcomes[hash64(want)] = true
}

func init() {
	register(&Prop{
		ID: "P06", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one batch of account trees (library) or one ledger (commands); states are distinct account sets",
		Assumptions: []string{"expressions are made of account-name characters, without leading or trailing colons, and do not match Root or Unbalanced"},
		Spaces: func(tier string) []Space {
			alpha := []string{"X", "K", "Xk"}
			parts := []string{"x", "K", "XK"}
			exprs := p06exprs(parts, 3)
			paths4 := p06paths(alpha, 4)
			paths3 := p06paths(alpha, 3)
			paths2 := p06paths(alpha, 2)
			sets := func(paths []string, size int) func(c *Chooser) *Case {
				return func(c *Chooser) *Case {
					first := c.N(len(paths))
					return &Case{Key: fmt.Sprint(size, paths[first], len(paths)), Run: func(e *Env) {
						run := func(decl []string) {
							names, ok := p06setup(e, decl)
							if !ok {
								return
							}
							e.State(fmt.Sprint(names))
							for _, x := range exprs {
								p06find(e, decl, names, x)
							}
							for _, n := range names {
								p06find(e, decl, names, p06expr{parts: strings.Split(n, ":"), skip: make([]bool, strings.Count(n, ":"))})
							}
						}
						if size == 1 {
							run([]string{paths[first]})
							return
						}
						for j := first + 1; j < len(paths); j++ {
							if size == 2 {
								run([]string{paths[first], paths[j]})
								continue
							}
							for k := j + 1; k < len(paths); k++ {
								run([]string{paths[first], paths[j], paths[k]})
							}
						}
					}}
				}
			}
			special := func(c *Chooser) *Case {
				al := []string{"X-1", "X_k", "x/K", "X9", "K9", "X", "q-K", "q_X", "Q/k", "q9x", "xq-"}
				ps := p06paths(al, 2)
				i := c.N(len(ps))
				return &Case{Key: "special " + ps[i], Run: func(e *Env) {
					xs := p06exprs([]string{"x-1", "X_", "/k", "9", "k", "-", "x", "q"}, 2)
					for j := i + 1; j < len(ps); j++ {
						decl := []string{ps[i], ps[j]}
						names, ok := p06setup(e, decl)
						if !ok {
							return
						}
						e.State(fmt.Sprint(names))
						for _, x := range xs {
							p06find(e, decl, names, x)
						}
					}
				}}
			}
			deep := func(c *Chooser) *Case {
				// 6-level chains with siblings, four-part expressions
				base := strings.Split([]string{"X:K:X:K:X:K", "X:X:X:X:X:X", "Xk:X:Kx:K:Xx:Kk", "K:Xk:Xk:K:X:X"}[c.N(4)], ":")
				extra := c.N(5)
				return &Case{Key: fmt.Sprint("deep ", base, extra), Run: func(e *Env) {
					decl := []string{strings.Join(base, ":")}
					if extra < 4 {
						decl = append(decl, strings.Join(base[:extra+1], ":")+":Kk")
					}
					names, ok := p06setup(e, decl)
					if !ok {
						return
					}
					e.State(fmt.Sprint(names))
					for _, x := range p06exprs([]string{"x", "k"}, 4) {
						p06find(e, decl, names, x)
					}
				}}
			}
			many := func(c *Chooser) *Case {
				// many accounts: ties and order of names around the separators
				mode := c.N(3)
				return &Case{Key: fmt.Sprint("many ", mode), Run: func(e *Env) {
					var decl []string
					switch mode {
					case 0:
						decl = p06paths([]string{"X", "K"}, 4)
					case 1:
						decl = p06paths([]string{"X", "X-k", "Xk"}, 3)
					case 2:
						decl = p06paths([]string{"K", "K/x", "K_x", "K9"}, 2)
					}
					names, ok := p06setup(e, decl)
					if !ok {
						return
					}
					for _, x := range p06exprs([]string{"x", "k", "xk", "x-", "k/", "9"}, 3) {
						p06find(e, decl, names, x)
					}
				}}
			}
			// postings and report arguments
			cli := func(c *Chooser) *Case {
				decl := [][]string{{"X:K", "K:X"}, {"X", "X:K", "Xk"}, {"X:K:Xk", "X:Xk"}, {"Xk", "Xk:K", "Xk:K:X", "K:Xk"}, {"X:X:X"}}[c.N(5)]
				first := c.N(3)
				return &Case{Key: fmt.Sprint("commands ", decl, first), Run: func(e *Env) {
					names := closure(append(append([]string{}, decl...), "Other"))
					accs := Acc{Name: "Other", Com: "CAD"}.text()
					for _, d := range decl {
						accs += Acc{Name: d, Com: "CAD"}.text()
					}
					for _, x := range exprs {
						if !strings.EqualFold(x.parts[0], parts[first]) || len(x.parts) > 2 {
							continue
						}
						want := p06select(names, x)
						posting := true
						target := "Other"
						if posting {
							target = x.String()
						}
						db := e.Sub("db", Files{"commodities.coin": p06com, "accounts.coin": accs, "t.coin": Tx{Date: "2020/01/01", Desc: "n", Ps: []Post{{Acc: target, Amt: "5.00", Com: "CAD"}, {Acc: "Other", Amt: "-5.00", Com: "CAD"}}}.text()})
						key := fmt.Sprintf("%s in %v", x, decl)
						r := e.Run("coin", db, "balance", "-z")
						if posting && want == "" {
							if r.Code == 0 {
								e.Fail("posting "+key, "posting to %s should be refused; balance prints\n%s", key, r.Out)
							}
							continue
						}
						if r.Code != 0 {
							e.Fail("posting "+key, "posting to %s should go to %s but is refused: %s", key, want, r.Err)
							continue
						}
						if posting {
							for _, row := range balanceRows(r.Out) {
								w := "0.00"
								if row.acc == want {
									w = "5.00"
								} else if row.acc == "Other" {
									w = "-5.00"
								}
								if row.own != w {
									e.Fail("posting "+key, "posting to %s: account %s shows %s, should be %s\n%s", key, row.acc, row.own, w, r.Out)
								}
							}
						}
						for _, cmd := range [][]string{{"balance", "-z", x.String()}, {"register", x.String()}, {"register", "-y", x.String()}} {
							r := e.Run("coin", db, cmd...)
							if (r.Code == 0) != (want != "") {
								e.Fail("arg "+key, "coin %v exits with %d, should select %q: %s", cmd, r.Code, want, r.Err)
								continue
							}
							if cmd[0] == "balance" && want != "" {
								if rows := balanceRows(r.Out); len(rows) == 0 || rows[0].acc != want {
									e.Fail("arg "+key, "coin %v should start with %s:\n%s", cmd, want, r.Out)
								}
							}
							if len(cmd) == 2 && want != "" {
								n := 0
								if posting || want == "Other" {
									n = 1
								}
								if len(nonEmptyLines(r.Out)) < n {
									e.Fail("arg "+key, "coin %v should show the posting of %s:\n%s", cmd, want, r.Out)
								}
							}
						}
					}
				}}
			}
			sp := []Space{
				{Name: "one", Rule: "every account path to depth 4 over {X,K,Xk}, all expressions of up to 3 parts over {x,K,XK} with : and ::", Gen: sets(paths4, 1)},
				{Name: "three", Rule: "every three of the paths to depth 2, all expressions", Gen: sets(paths2, 3)},
				{Name: "special", Rule: "pairs of names with digits and -_/ characters", Gen: special},
				{Name: "deep", Rule: "six-level trees, expressions of up to 4 parts", Gen: deep},
				{Name: "many", Rule: "full trees of many accounts", Gen: many},
				{Name: "commands", Rule: "postings and command arguments by expression", Gen: cli},
			}
			if tier == "thorough" {
				sp = append(sp, Space{Name: "two", Rule: "every pair of the paths to depth 4", Gen: sets(paths4, 2)},
					Space{Name: "three-deep", Rule: "every three of the paths to depth 3", Gen: sets(paths3, 3)})
			} else {
				sp = append(sp, Space{Name: "two", Rule: "every pair of the paths to depth 4", Gen: sets(paths4, 2)})
			}
			return sp
		},
	})
}
