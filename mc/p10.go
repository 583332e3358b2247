package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P10: account posting lists under histories of edits.

type p10op struct {
	kind     byte // 'p' post, 'm' move, 'd' drop, 'c' post with conversion, 'e' post two equal postings, 'z' post zero
	a, b     int  // accounts
	date     int
	posting  int // index of the posting in order of creation
	negative bool
}

func (o p10op) String() string {
	switch o.kind {
	case 'd':
		return "drop"
	case 'm':
		return fmt.Sprintf("move #%d to %d", o.posting, o.b)
	}
	return fmt.Sprintf("%c day%d %d->%d neg=%v", o.kind, o.date, o.a, o.b, o.negative)
}

// p10world runs operations on the real library and on the model side by side.
type p10world struct {
	accs  []*coin.Account
	posts []*coin.Posting // live, in order of creation
	where []int           // model: account of each posting
	date  []int
	lists [][]int // model: lists of posting numbers
	txs   [][]int
}

func newP10(n int) *p10world {
	w := &p10world{}
	resetLib()
	c := &coin.Commodity{Id: "CAD", Decimals: 2}
	coin.Commodities["CAD"] = c
	for i := 0; i < n; i++ {
		name := string(rune('A' + i))
		a := &coin.Account{Name: name, FullName: name, Commodity: c, CommodityId: "CAD"}
		coin.AccountsByName[name] = a
		w.accs = append(w.accs, a)
	}
	w.lists = make([][]int, n)
	return w
}

var p10days = func() []time.Time {
	var out []time.Time
	for i := 0; i < 64; i++ {
		out = append(out, ymdDate(2020, 1, 1).AddDate(0, 0, i))
	}
	return out
}()

func (w *p10world) arrive(acc, p int) {
	l := w.lists[acc]
	i := len(l)
	for i > 0 && w.date[l[i-1]] > w.date[p] {
		i--
	}
	w.lists[acc] = append(l[:i:i], append([]int{p}, l[i:]...)...)
	w.where[p] = acc
}

func (w *p10world) leave(p int) {
	var out []int
	for _, q := range w.lists[w.where[p]] {
		if q != p {
			out = append(out, q)
		}
	}
	w.lists[w.where[p]] = out
}

func (w *p10world) do(o p10op) {
	switch o.kind {
	case 'p', 'c', 'e', 'z':
		t := &coin.Transaction{Posted: p10days[o.date], Description: "x"}
		coin.Transactions = append(coin.Transactions, t)
		v := int64(100 + len(w.posts))
		if o.negative {
			v = -v
		}
		if o.kind == 'e' {
			v = 7
		}
		if o.kind == 'z' {
			v = 0
		}
		amt := coin.NewAmount(big.NewInt(v), w.accs[o.a].Commodity)
		if o.kind == 'p' || o.kind == 'z' {
			t.Post(w.accs[o.a], w.accs[o.b], amt, nil)
		} else {
			t.PostConversion(w.accs[o.a], amt, nil, w.accs[o.b], coin.NewAmount(big.NewInt(7), w.accs[o.b].Commodity), nil)
		}
		// the posting of account a is created first
		first, second := t.Postings[0], t.Postings[1]
		if o.negative {
			first, second = second, first
		}
		for k, p := range []*coin.Posting{first, second} {
			w.posts = append(w.posts, p)
			w.where = append(w.where, 0)
			w.date = append(w.date, o.date)
			w.arrive([]int{o.a, o.b}[k], len(w.posts)-1)
		}
		w.txs = append(w.txs, []int{len(w.posts) - 2, len(w.posts) - 1})
	case 'm':
		w.posts[o.posting].MoveTo(w.accs[o.b])
		if w.where[o.posting] != o.b {
			w.leave(o.posting)
			w.arrive(o.b, o.posting)
		}
	case 'd':
		coin.DropTransactions()
		w.posts, w.where, w.date, w.txs = nil, nil, nil, nil
		w.lists = make([][]int, len(w.accs))
	}
}

// diff compares the real lists with the model.
func (w *p10world) diff() string {
	num := map[*coin.Posting]int{}
	for i, p := range w.posts {
		num[p] = i
		if p.Account != w.accs[w.where[i]] {
			return fmt.Sprintf("posting #%d says it is on %s, should be on %s", i, p.Account.FullName, w.accs[w.where[i]].FullName)
		}
		if !p.Transaction.Posted.Equal(p10days[w.date[i]]) {
			return fmt.Sprintf("posting #%d changed date", i)
		}
	}
	for a, acc := range w.accs {
		var got []string
		for _, p := range acc.Postings {
			if i, ok := num[p]; ok {
				got = append(got, fmt.Sprintf("#%d(day%d)", i, w.date[i]))
			} else {
				got = append(got, "stranger")
			}
		}
		var want []string
		for _, i := range w.lists[a] {
			want = append(want, fmt.Sprintf("#%d(day%d)", i, w.date[i]))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("account %s lists %v, should list %v", acc.FullName, got, want)
		}
	}
	if len(coin.Transactions) != len(w.txs) {
		return fmt.Sprintf("%d transactions, should be %d", len(coin.Transactions), len(w.txs))
	}
	for i, t := range coin.Transactions {
		if len(t.Postings) != len(w.txs[i]) {
			return fmt.Sprintf("transaction %d has %d postings", i, len(t.Postings))
		}
	}
	return ""
}

// key: model state with the hidden capacities of the lists.
func (w *p10world) key() string {
	var b strings.Builder
	for a, l := range w.lists {
		fmt.Fprint(&b, l, cap(w.accs[a].Postings)-len(l), ";")
	}
	fmt.Fprint(&b, w.date)
	return b.String()
}

func p10replay(e *Env, ops []p10op) (*p10world, bool) {
	w := newP10(3)
	var bad string
	out, failed := e.Guarded(func() {
		for _, o := range ops {
			w.do(o)
		}
	})
	e.traces++
	if failed {
		bad = out
	} else {
		bad = w.diff()
	}
	if bad != "" {
		e.Fail(fmt.Sprint(ops), "after %v: %s", ops, bad)
		return nil, false
	}
	return w, true
}

func (w *p10world) moves(maxTx int) (ops []p10op) {
	if len(w.txs) < maxTx {
		for d := 0; d < 3; d++ {
			ops = append(ops, p10op{kind: 'p', a: 0, b: 1, date: d}, p10op{kind: 'p', a: 1, b: 2, date: d, negative: true}, p10op{kind: 'c', a: 2, b: 0, date: d}, p10op{kind: 'p', a: 0, b: 0, date: d}, p10op{kind: 'e', a: 1, b: 1, date: d})
		}
	}
	for i := range w.posts {
		for b := 0; b < 3; b++ {
			ops = append(ops, p10op{kind: 'm', posting: i, b: b})
		}
	}
	if len(w.txs) > 0 {
		ops = append(ops, p10op{kind: 'd'})
	}
	return
}

func init() {
	register(&Prop{
		ID: "P10", Level: "model_checking", Bins: nil,
		Rule: "a case is a breadth-first search below two first operations, or one long list; states are model states together with the slack of the lists",
		Spaces: func(tier string) []Space {
			depth, maxTx := 5, 3
			if tier == "thorough" {
				depth = 6
				maxTx = 3
			}
			bfs := func(c *Chooser) *Case {
				i, d := c.N(15), c.N(15)
				return &Case{Key: fmt.Sprint("bfs ", i, d), Run: func(e *Env) {
					w := newP10(3)
					ops := []p10op{w.moves(maxTx)[i]}
					w, ok := p10replay(e, ops)
					if !ok {
						return
					}
					second := w.moves(maxTx)
					// 15 posts + 6 moves + drop: the 15 groups cover them
					for k := range second {
						if k%15 != d {
							continue
						}
						seen := map[string]bool{}
						level := [][]p10op{append(append([]p10op{}, ops...), second[k])}
						if _, ok := p10replay(e, level[0]); !ok {
							return
						}
						for n := 2; n < depth && len(level) > 0; n++ {
							var next [][]p10op
							for _, h := range level {
								w, ok := p10replay(e, h)
								if !ok {
									return
								}
								ms := w.moves(maxTx)
								for _, o := range ms {
									h2 := append(append([]p10op{}, h...), o)
									w2, ok := p10replay(e, h2)
									if !ok {
										return
									}
									k := w2.key()
									if seen[k] {
										continue
									}
									seen[k] = true
									e.State(k)
									next = append(next, h2)
								}
							}
							level = next
						}
					}
				}}
			}
			long := func(c *Chooser) *Case {
				n := 1 + c.N(36)
				pat := c.N(6)
				other := 1
				if pat == 5 {
					other = 0 // both postings of a transaction on one account
				}
				return &Case{Key: fmt.Sprint("long ", n, pat), Run: func(e *Env) {
					mk := func(i int) int {
						switch pat {
						case 0:
							return i
						case 1:
							return n - i
						case 2:
							return 5
						case 3:
							return i % 3
						}
						return (i * 7) % 11
					}
					for at := 0; at < n; at++ {
						for day := 0; day < 3; day++ {
							var ops []p10op
							for i := 0; i < n; i++ {
								ops = append(ops, p10op{kind: 'p', a: 0, b: other, date: mk(i)})
							}
							ops = append(ops, p10op{kind: 'm', posting: 2 * at, b: 2})
							d := []int{0, mk(at), 60}[day]
							ops = append(ops, p10op{kind: 'p', a: 0, b: other, date: d}, p10op{kind: 'm', posting: 2 * ((at + 1) % n), b: 2}, p10op{kind: 'm', posting: 2 * at, b: 0}, p10op{kind: 'p', a: 0, b: 2, date: d})
							if at%4 == 0 {
								ops = append(ops, p10op{kind: 'd'}, p10op{kind: 'p', a: 0, b: 1, date: 3}, p10op{kind: 'p', a: 0, b: 1, date: 1}, p10op{kind: 'p', a: 2, b: 1, date: 3})
							}
							// check after every step past the build-up, and along the build-up once
							from := n
							if at == 0 && day == 0 {
								from = 1
							}
							w := newP10(3)
							for i, o := range ops {
								out, failed := e.Guarded(func() { w.do(o) })
								if failed {
									e.Fail(fmt.Sprint("long", n, pat, at, day), "after %v: %s", ops[:i+1], out)
									return
								}
								if i+1 >= from {
									e.traces++
									if bad := w.diff(); bad != "" {
										e.Fail(fmt.Sprint("long", n, pat, at, day), "after %v: %s", ops[:i+1], bad)
										return
									}
									e.State(w.key())
								}
							}
						}
					}
				}}
			}
			sweep := func(c *Chooser) *Case {
				// move all postings of a long list, one after the other, in every rotation, and back
				n := 2 + c.N(17)
				rot := c.N(n)
				pat := c.N(3)
				return &Case{Key: fmt.Sprint("sweep ", n, rot, pat), Run: func(e *Env) {
					w := newP10(3)
					var ops []p10op
					for i := 0; i < n; i++ {
						ops = append(ops, p10op{kind: 'p', a: 0, b: 1, date: []int{i, 4, i % 2}[pat]})
					}
					for k := 0; k < n; k++ {
						ops = append(ops, p10op{kind: 'm', posting: 2 * ((k + rot) % n), b: 2})
					}
					for k := 0; k < n; k++ {
						ops = append(ops, p10op{kind: 'm', posting: 2 * ((k*5 + rot) % n), b: k % 2})
					}
					ops = append(ops, p10op{kind: 'd'}, p10op{kind: 'p', a: 1, b: 2, date: 1}, p10op{kind: 'p', a: 1, b: 2, date: 0})
					for i, o := range ops {
						out, failed := e.Guarded(func() { w.do(o) })
						bad := out
						if !failed {
							bad = w.diff()
						}
						e.traces++
						if bad != "" {
							e.Fail(fmt.Sprint("sweep", n, rot, pat), "after %v: %s", ops[:i+1], bad)
							return
						}
						e.State(w.key())
					}
				}}
			}
			// ledgers read from text, with equal postings and equal transactions, then edited
			loaded := func(c *Chooser) *Case {
				type pst struct {
					acc int
					v   int64
				}
				al := [][]pst{
					{{0, 100}, {0, 100}, {1, -200}},
					{{0, 100}, {1, -200}, {0, 100}},
					{{0, 100}, {1, -100}},
					{{0, 0}, {0, 0}},
					{{1, 50}, {1, 50}, {1, 50}, {1, -150}},
					{{2, -100}, {0, 100}, {2, -100}, {0, 100}},
				}
				k := 1 + c.N(3)
				var kinds, days []int
				for i := 0; i < k; i++ {
					kinds = append(kinds, c.N(len(al)))
					days = append(days, c.N(2))
				}
				left := 0 // the last posting of every transaction without amount, or the first one
				if k <= 2 || tier == "thorough" {
					left = c.N(3)
				}
				return &Case{Key: fmt.Sprint("loaded ", kinds, days, left), Run: func(e *Env) {
					text := comsText(Com{Id: "CAD", Dec: 2, Default: true}) + accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "B", Com: "CAD"}, Acc{Name: "C", Com: "CAD"})
					w0 := &p10world{}
					w0.lists = make([][]int, 3)
					perTx := make([][]int, k)
					for i := range kinds {
						t := Tx{Date: dateStr(p10days[days[i]]), Desc: "x"}
						for j, p := range al[kinds[i]] {
							po := Post{Acc: string(rune('A' + p.acc)), Amt: cents(p.v), Com: "CAD"}
							if left == 1 && j == len(al[kinds[i]])-1 || left == 2 && j == 0 {
								po.Amt = ""
							}
							t.Ps = append(t.Ps, po)
							w0.where = append(w0.where, 0)
							w0.date = append(w0.date, days[i])
							n := len(w0.where) - 1
							w0.arrive(p.acc, n)
							perTx[i] = append(perTx[i], n)
						}
						text += t.text()
					}
					// transactions are listed by date
					var order []int
					for d := 0; d < 2; d++ {
						for i := range kinds {
							if days[i] == d {
								order = append(order, i)
							}
						}
					}
					np := len(w0.where)
					run := func(ops []p10op) bool {
						w := &p10world{where: append([]int{}, w0.where...), date: append([]int{}, w0.date...), posts: make([]*coin.Posting, np)}
						for _, l := range w0.lists {
							w.lists = append(w.lists, append([]int{}, l...))
						}
						_, out, failed := e.lib(func() { loadText(text) })
						bad := out
						if !failed && len(coin.Transactions) != k {
							failed, bad = true, "transactions are lost"
						}
						if !failed {
							for j, i := range order {
								w.txs = append(w.txs, perTx[i])
								for m, n := range perTx[i] {
									w.posts[n] = coin.Transactions[j].Postings[m]
								}
							}
							for i := 0; i < 3; i++ {
								w.accs = append(w.accs, coin.AccountsByName[string(rune('A'+i))])
							}
							bad = w.diff()
							for _, o := range ops {
								if bad != "" {
									break
								}
								if out, failed := e.Guarded(func() { w.do(o) }); failed {
									bad = out
								} else {
									bad = w.diff()
								}
							}
						}
						e.traces++
						if bad != "" {
							e.Fail(fmt.Sprint("loaded", kinds, days, ops), "after loading and %v: %s\n%s", ops, bad, text)
							return false
						}
						e.State(text + w.key())
						return true
					}
					if !run(nil) {
						return
					}
					for p := 0; p < np; p++ {
						for b := 0; b < 3; b++ {
							o := p10op{kind: 'm', posting: p, b: b}
							for q := 0; q < np; q++ {
								for b2 := 0; b2 < 3; b2++ {
									if !run([]p10op{o, {kind: 'm', posting: q, b: b2}, {kind: 'd'}, {kind: 'e', a: 0, b: 0, date: 1}, {kind: 'p', a: 0, b: 2, date: 0}}) {
										return
									}
								}
							}
						}
					}
				}}
			}
			return []Space{
				{Name: "loaded", Rule: "ledgers of up to 3 transactions of 6 kinds with equal postings over 2 days read from text, then every pair of moves, dropping and posting again", Gen: loaded},
				{Name: "bfs", Rule: "breadth-first search over post / post with conversion / move / drop to the depth bound, 3 accounts, 3 days", Gen: bfs},
				{Name: "long", Rule: "lists of 1-36 postings in 5 date patterns, taking out and inserting at every place", Gen: long},
				{Name: "sweep", Rule: "emptying and refilling lists of 2-18 postings from every starting point", Gen: sweep},
			}
		},
	})
}
