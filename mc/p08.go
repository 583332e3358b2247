package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mkobetic/coin"
)

// P08: account hierarchy and listing.

func p08hierarchy(e *Env, decl []Acc) {
	key := fmt.Sprint(decl)
	text := p08head
	var names []string
	for _, d := range decl {
		text += d.text()
		names = append(names, d.Name)
	}
	want := closure(names)
	e.State(fmt.Sprint(want))
	_, out, failed := e.lib(func() {
		coin.Load(strings.NewReader(text), "t.coin")
		coin.ResolveAccounts()
	})
	if failed {
		e.Fail("load "+key, "accounts refused (%s): %s", out, key)
		return
	}
	if got := sortedKeys(coin.AccountsByName); fmt.Sprint(got) != fmt.Sprint(want) {
		e.Fail("set "+key, "accounts %v should be %v", got, want)
		return
	}
	declared := map[string]Acc{}
	for _, d := range decl {
		declared[d.Name] = d
	}
	for _, n := range want {
		a := coin.AccountsByName[n]
		parts := strings.Split(n, ":")
		if a.FullName != n || a.Name != parts[len(parts)-1] {
			e.Fail("name "+key, "account %s is called %s, %s", n, a.FullName, a.Name)
		}
		if n == "Root" {
			if a != coin.Root || a.Parent != nil {
				e.Fail("root "+key, "Root is not the root in %s", key)
			}
		} else {
			p := parentOf(n)
			if p == "" {
				p = "Root"
			}
			if a.Parent == nil || a.Parent.FullName != p {
				e.Fail("parent "+key, "parent of %s should be %s in %s", n, p, key)
			}
			if a.Depth() != len(parts) {
				e.Fail("depth "+key, "depth of %s is %d", n, a.Depth())
			}
		}
		var kids, wantKids []string
		for _, c := range a.Children {
			kids = append(kids, c.FullName)
		}
		for _, m := range want {
			if m != "Root" && (parentOf(m) == n || n == "Root" && parentOf(m) == "") {
				wantKids = append(wantKids, m)
			}
		}
		sort.Strings(kids)
		if fmt.Sprint(kids) != fmt.Sprint(wantKids) {
			e.Fail("children "+key, "children of %s are %v, should be %v", n, kids, wantKids)
		}
		com, note := "CAD", ""
		closed := false
		if d, ok := declared[n]; ok {
			note = d.Note
			if d.Com != "" {
				com = d.Com
			}
		}
		for p := n; p != ""; p = parentOf(p) {
			closed = closed || declared[p].Closed != ""
		}
		if declared["Root"].Closed != "" {
			closed = true
		}
		if a.Commodity == nil || a.Commodity.Id != com || a.Description != note || a.IsClosed() != closed {
			e.Fail("entry "+key, "account %s has commodity %v, description %q, closed %v; should be %s, %q, %v in %s", n, a.Commodity, a.Description, a.IsClosed(), com, note, closed, key)
		}
	}
	// visited once each, parents first or last
	for _, mode := range []string{"down", "up"} {
		var seen []string
		at := map[string]int{}
		f := func(a *coin.Account) { at[a.FullName] = len(seen); seen = append(seen, a.FullName) }
		if mode == "down" {
			coin.Root.WithChildrenDo(f)
		} else {
			coin.Root.FirstWithChildrenDo(f)
		}
		if s := append([]string{}, seen...); true {
			sort.Strings(s)
			if fmt.Sprint(s) != fmt.Sprint(want) {
				e.Fail("visit "+key, "walking (%s) visits %v, should visit %v", mode, seen, want)
				continue
			}
		}
		for _, n := range want {
			if p := parentOf(n); p != "" && (at[p] < at[n]) != (mode == "down") {
				e.Fail("visit order "+key, "walking (%s) visits %v", mode, seen)
			}
		}
	}
}

var p08head = comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "USD", Dec: 2})

// p08listing checks the accounts command.
func p08listing(decl []Acc, include bool) *Case {
	key := fmt.Sprint(decl)
	return &Case{Key: "listing " + key, Run: func(e *Env) {
		var names []string
		declared := map[string]Acc{}
		content := ""
		for i, d := range decl {
			names = append(names, d.Name)
			declared[d.Name] = d
			_ = i
			content += d.text()
		}
		db := e.Sub("db", Files{"commodities.coin": p08head, "accounts.coin": content})
		all := closure(names)
		type row struct{ name, com, note string }
		for _, args := range [][]string{{}, {"-c"}, {"x"}, {"-c", "X:K"}, {"k"}, {"-c", "x::k"}, {"-c", "zzz"}} {
			closedToo := len(args) > 0 && args[0] == "-c"
			var x *p06expr
			if len(args) > 0 && args[len(args)-1] != "-c" {
				a := args[len(args)-1]
				x = &p06expr{}
				if strings.Contains(a, "::") {
					x.parts, x.skip = strings.Split(a, "::"), []bool{true}
				} else {
					x.parts = strings.Split(a, ":")
					x.skip = make([]bool, len(x.parts))
				}
			}
			var want []row
			for _, n := range all {
				closed := declared["Root"].Closed != ""
				for p := n; p != ""; p = parentOf(p) {
					closed = closed || declared[p].Closed != ""
				}
				if closed && !closedToo || x != nil && !x.match(n) {
					continue
				}
				r := row{n, "CAD", declared[n].Note}
				if c := declared[n].Com; c != "" {
					r.com = c
				}
				want = append(want, r)
			}
			r := e.Run("coin", db, append([]string{"accounts"}, args...)...)
			if r.Code != 0 {
				e.Fail("exit "+key, "coin accounts %v exits with %d: %s", args, r.Code, r.Err)
				continue
			}
			var got []row
			for _, l := range nonEmptyLines(r.Out) {
				cs := strings.SplitN(l, "|", 3)
				if len(cs) < 3 {
					got = append(got, row{name: "unreadable " + l})
					continue
				}
				got = append(got, row{strings.TrimSpace(cs[0]), strings.TrimSpace(cs[1]), strings.TrimSpace(cs[2])})
			}
			e.State(fmt.Sprint(want))
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
				e.Fail(fmt.Sprint("listing ", args, key), "coin accounts %v lists\n%q\nshould be\n%q", args, got, want)
			}
		}
	}}
}

func init() {
	register(&Prop{
		ID: "P08", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one set of account declarations (all orders, all closed subsets); states are distinct account sets and listings",
		Assumptions: []string{"every account is declared once"},
		Spaces: func(tier string) []Space {
			paths := p06paths([]string{"X", "K"}, 4) // 30 paths
			acc := func(i int) Acc {
				a := Acc{Name: paths[i]}
				if i%2 == 0 {
					a.Com = []string{"CAD", "USD"}[i/2%2]
				}
				if i%3 == 0 {
					a.Note = fmt.Sprintf("note %d | more", i)
				}
				return a
			}
			max := 3
			if tier == "thorough" {
				max = 4
			}
			sets := func(c *Chooser) *Case {
				i := c.N(len(paths))
				j := -1 + c.N(len(paths)+1)
				if j >= 0 && j <= i {
					return nil
				}
				return &Case{Key: fmt.Sprint("sets ", i, j), Run: func(e *Env) {
					// the set {i, j, k...}: every order, every subset closed
					run := func(ids []int) {
						permute(len(ids), func(p []int) {
							for closed := 0; closed < 1<<len(ids); closed++ {
								var decl []Acc
								for _, q := range p {
									a := acc(ids[q])
									if closed>>q&1 == 1 {
										a.Closed = "2020/02/03"
									}
									decl = append(decl, a)
								}
								p08hierarchy(e, decl)
							}
						})
					}
					if j < 0 {
						run([]int{i})
						return
					}
					run([]int{i, j})
					for k := j + 1; k < len(paths); k++ {
						run([]int{i, j, k})
						if max == 4 {
							for l := k + 1; l < len(paths); l++ {
								ids := []int{i, j, k, l}
								for rot := 0; rot < 4; rot++ { // four of the orders
									var decl []Acc
									for q := range ids {
										a := acc(ids[(q+rot)%4])
										if (i+j+k+l+q)%3 == 0 {
											a.Closed = "2020/02/03"
										}
										decl = append(decl, a)
									}
									p08hierarchy(e, decl)
								}
							}
						}
					}
				}}
			}
			special := func(c *Chooser) *Case {
				// names that sort around the separator, declared Root and Unbalanced, deep chains, many accounts
				k := c.N(6)
				closed := c.N(3)
				var decl []Acc
				switch k {
				case 0:
					for _, n := range []string{"X", "X-1:A", "X:A", "X_:A", "X/1", "Xa:B", "X0"} {
						decl = append(decl, Acc{Name: n})
					}
				case 1:
					decl = []Acc{{Name: "Root", Note: "the root"}, {Name: "X:K"}, {Name: "Unbalanced", Note: "to be sorted", Com: "USD"}}
				case 2:
					decl = []Acc{{Name: "A:B:C:D:E:F:G:H", Note: "deep"}, {Name: "A:B:C", Com: "USD"}, {Name: "A:B:C:D:E", Note: "x"}}
				case 3:
					for i := range paths {
						decl = append(decl, acc(i))
					}
				case 4:
					for i := range paths {
						decl = append(decl, acc(len(paths)-1-i))
					}
				case 5:
					for i := 0; i < 20; i++ {
						decl = append(decl, Acc{Name: fmt.Sprintf("P:Q%c:R", 'A'+(i*7)%20)})
					}
				}
				if closed > 0 {
					decl[(closed-1)*(len(decl)-1)].Closed = "2019/12/31"
				}
				return &Case{Key: fmt.Sprint("special ", k, closed), Run: func(e *Env) {
					p08hierarchy(e, decl)
					p08listing(decl, false).Run(e)
				}}
			}
			listing := func(c *Chooser) *Case {
				lp := []string{"X", "X:K", "X:K:X", "K", "X:Xk", "Q:X", "X:K:X:Q"}
				var decl []Acc
				mask := c.N(1 << len(lp))
				n := 0
				for i := range lp {
					if mask>>i&1 == 1 {
						n++
					}
				}
				if n == 0 || n > max {
					return nil
				}
				cl := c.N(1 << n)
				rev := c.N(2) == 1
				k := 0
				for i, p := range lp {
					if mask>>i&1 == 0 {
						continue
					}
					a := Acc{Name: p, Com: []string{"", "USD", "CAD"}[i%3], Note: []string{"", "a note", "second  note", "n"}[i%4]}
					if cl>>k&1 == 1 {
						a.Closed = []string{"2020/02/03", "2999/01/01"}[k%2]
					}
					k++
					decl = append(decl, a)
				}
				if rev {
					if len(decl) < 2 {
						return nil
					}
					for i, j := 0, len(decl)-1; i < j; i, j = i+1, j-1 {
						decl[i], decl[j] = decl[j], decl[i]
					}
				}
				return p08listing(decl, false)
			}
			return []Space{
				{Name: "sets", Rule: "every set of up to 3 of the 30 paths to depth 4 (thorough: also 4), every order, every closed subset", Gen: sets},
				{Name: "special", Rule: "names around separators, declared Root and Unbalanced, 8-level chains, 30 accounts", Gen: special},
				{Name: "listing", Rule: "account listings over sets of up to n of 7 paths, every closed subset, two orders, seven argument lists", Gen: listing},
			}
		},
	})
}
