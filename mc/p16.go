package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"

	"github.com/mkobetic/coin"
)

// P16: modify changes exactly what was selected.

var p16head = comsText(Com{Id: "CAD", Dec: 2, Default: true}) + accsText(Acc{Name: "Ax", Com: "CAD"}, Acc{Name: "Ax:Sub", Com: "CAD"}, Acc{Name: "Bo", Com: "CAD"}, Acc{Name: "Cy", Com: "CAD", Closed: "2019/06/30"})

type p16opt struct {
	payee, tt, pt, acc   string
	setAcc, setTT, setPT string // as given on the command line
	toAcc                string // full name of setAcc
	newTT, newPT         map[string]string
}

func (o p16opt) args() (a []string) {
	add := func(f, v string) {
		if v != "" {
			a = append(a, f, v)
		}
	}
	add("-p", o.payee)
	add("-tt", o.tt)
	add("-pt", o.pt)
	add("-a", o.acc)
	add("-a:", o.setAcc)
	add("-tt:", o.setTT)
	add("-pt:", o.setPT)
	return
}

// p16match is a tag condition over the tags of notes.
func p16match(cond string, notes ...string) bool {
	key, val, has := strings.Cut(cond, ":")
	return p09match(p09of(notes...), key, val, has)
}

func p16notes(short string, long []string) (out []string) {
	for _, n := range append([]string{short}, long...) {
		if n != "" {
			out = append(out, n)
		}
	}
	return
}

// p16change is what modify should do to a transaction: which postings move, which get tags, and whether it is tagged itself.
func p16change(o p16opt, from string, t Tx) (move, tag []bool, tagTx bool) {
	move, tag = make([]bool, len(t.Ps)), make([]bool, len(t.Ps))
	if o.payee != "" && !cachedRex("(?i)"+o.payee).MatchString(t.Desc) {
		return
	}
	if o.tt != "" && !p16match(o.tt, p16notes(t.Note, t.Notes)...) {
		return
	}
	onAcc := false
	for i, p := range t.Ps {
		sel := o.pt != "" && p16match(o.pt, p16notes(p.Note, p.Notes)...)
		if o.acc != "" && p.Acc == from {
			sel, onAcc = true, true
		}
		move[i] = sel && o.setAcc != ""
		tag[i] = sel && o.setPT != ""
	}
	tagTx = o.setTT != "" && (o.acc == "" || onAcc)
	return
}

// p16tagged compares notes after modification: the original notes plus, if asked, the new tags in one place.
func p16tagged(was, now []string, added bool, tags map[string]string) string {
	if !added {
		if fmt.Sprintf("%q", trimAll(was)) != fmt.Sprintf("%q", trimAll(now)) {
			return fmt.Sprintf("notes %q became %q", was, now)
		}
		return ""
	}
	want := p09of(was...)
	for k, v := range tags {
		want[k] = v
	}
	if got := coin.ParseTags(now...); !sameTags(got, want) {
		return fmt.Sprintf("tags of notes %q are %v, should be %v", now, got, want)
	}
	if got := p09of(now...); fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("tags of notes %q are %v, should be %v", now, got, want)
	}
	// taking the tag out again leaves the original notes
	at := -1
	for i, n := range now {
		if strings.Contains(n, "#new") {
			if at >= 0 {
				return fmt.Sprintf("tag added twice: %q", now)
			}
			at = i
		}
	}
	if at < 0 {
		return fmt.Sprintf("tag not added: %q", now)
	}
	if strings.Count(now[at], "#new") != len(tags) {
		return fmt.Sprintf("tag added more than once: %q", now)
	}
	rest := append([]string{}, now...)
	rest[at] = strings.TrimRight(now[at][:strings.Index(now[at], "#new")], " ,\t")
	if rest[at] == "" {
		rest = append(rest[:at], rest[at+1:]...)
	}
	strip := func(l []string) string {
		s := ""
		for _, n := range l {
			s += strings.TrimRight(n, " ,\t") + "\n"
		}
		return s
	}
	if strip(was) != strip(rest) {
		return fmt.Sprintf("notes %q became %q", was, now)
	}
	return ""
}

// p16check runs modify over files and compares every transaction with the model.
// Each transaction has a code of its own.
func p16check(e *Env, o p16opt, from string, files ...[]Tx) {
	fs := Files{"commodities.coin": comsText(Com{Id: "CAD", Dec: 2, Default: true}), "accounts.coin": strings.TrimPrefix(p16head, comsText(Com{Id: "CAD", Dec: 2, Default: true}))}
	db := e.Sub("db", fs)
	args := append([]string{"modify"}, o.args()...)
	for i, f := range files {
		fn := fmt.Sprintf("%s/m%d.coin", db, i)
		must(os.WriteFile(fn, []byte(txsText(f...)), 0o644))
		args = append(args, fn)
	}
	r := e.Run("coin", db, args...)
	sig := fmt.Sprint(o.args(), " ")
	if r.Code != 0 {
		e.Fail("refused "+sig, "coin %v: exit %d %s", args, r.Code, r.Err)
		return
	}
	for fi, f := range files {
		b, err := os.ReadFile(fmt.Sprintf("%s/m%d.coin", db, fi))
		must(err)
		e.State(string(b))
		type post struct {
			acc, amt, bal string
			notes         []string
		}
		type tx struct {
			date, code, desc string
			notes            []string
			ps               []post
		}
		var got []tx
		_, out, failed := e.lib(func() {
			loadText(p16head + string(b))
			for _, t := range coin.Transactions {
				x := tx{dateStr(t.Posted), t.Code, t.Description, t.Notes, nil}
				for _, p := range t.Postings {
					bal := ""
					if p.BalanceAsserted {
						bal = fmt.Sprint(p.Balance)
					}
					x.ps = append(x.ps, post{p.Account.FullName, fmt.Sprint(p.Quantity), bal, p.Notes})
				}
				got = append(got, x)
			}
		})
		if failed {
			e.Fail("unreadable "+sig, "coin %v: the modified file is refused: %s\n%s", args, out, clip(string(b), 3000))
			return
		}
		want := p13order(f)
		if len(got) != len(want) {
			e.Fail("count "+sig, "coin %v: file of %d transactions has %d afterwards", args, len(want), len(got))
			return
		}
		for i, t := range want {
			g := got[i]
			bad := func(format string, a ...any) {
				e.Fail(sig+t.text(), "coin %v: %s\n--- transaction\n%s--- became\n%v", args, fmt.Sprintf(format, a...), t.text(), g)
			}
			if g.date != t.Date || g.code != t.Code || g.desc != t.Desc {
				bad("date, code or description or the order changed")
				return
			}
			move, tag, tagTx := p16change(o, from, t)
			if d := p16tagged(p16notes(t.Note, t.Notes), g.notes, tagTx, o.newTT); d != "" {
				bad("transaction: %s", d)
				return
			}
			if len(g.ps) != len(t.Ps) {
				bad("number of postings changed")
				return
			}
			amounts := p13want(t, false)
			for k, p := range t.Ps {
				acc := p.Acc
				if move[k] {
					acc = o.toAcc
				}
				if g.ps[k].acc != acc {
					bad("posting %d is on %s, should be on %s", k, g.ps[k].acc, acc)
					return
				}
				if !strings.Contains(strings.Split(amounts, "\n")[k+1], " "+g.ps[k].amt+" CAD =") || g.ps[k].bal != p.Bal {
					bad("amount or assertion of posting %d changed: %s = %s", k, g.ps[k].amt, g.ps[k].bal)
					return
				}
				if d := p16tagged(p16notes(p.Note, p.Notes), g.ps[k].notes, tag[k], o.newPT); d != "" {
					bad("posting %d: %s", k, d)
					return
				}
			}
		}
	}
}

// p16ledger is every combination of payee, transaction tag, posting accounts and posting tags.
func p16ledger(n int, full bool) (ts []Tx) {
	accs := []string{"Ax", "Bo", "Cy", "Ax:Sub"}
	ttags := []string{"", "#x", "text #x: v1, more", "#y: v"}
	ptags := []string{"", "#p", "#p: one", "note #q: p"}
	descs := []string{"Alpha", "beta Al", ""}
	if n == 2 {
		if !full {
			descs = descs[:2]
		}
		for _, d := range descs {
			for _, tt := range ttags {
				for i := range accs {
					for j := range accs {
						if !full && (i > j && (i+j)%2 == 0 || i == j && i > 1) {
							continue
						}
						for _, p := range ptags {
							for _, q := range ptags {
								t := Tx{Date: dateStr(ymdDate(2020, 1, 1).AddDate(0, 0, len(ts)%40)), Code: fmt.Sprint([]string{"c", "al", "alpha"}[len(ts)%7%3], len(ts)), Desc: d, Note: tt}
								t.Ps = []Post{{Acc: accs[i], Amt: "2.00", Com: "CAD", Note: p}, {Acc: accs[j], Note: q}}
								if len(ts)%3 == 0 {
									t.Ps[0].Bal, t.Ps[0].BalCom = "7.00", "CAD"
								}
								if len(ts)%2 == 0 {
									t.Ps[0].Note, t.Ps[1].Note = "", ""
									if p != "" {
										t.Ps[0].Notes = []string{p}
									}
									if q != "" {
										t.Ps[1].Notes = []string{"first", q}
									}
								}
								ts = append(ts, t)
							}
						}
					}
				}
			}
		}
		return
	}
	// n postings over all accounts, tagged in two patterns
	var rec func(ps []Post)
	rec = func(ps []Post) {
		if len(ps) == n {
			for k := 0; k < 2; k++ {
				t := Tx{Date: "2020/03/01", Code: fmt.Sprint("c", len(ts)), Desc: descs[len(ts)%3], Note: ttags[len(ts)%4], Ps: append([]Post{}, ps...)}
				for i := range t.Ps {
					t.Ps[i].Note = ptags[(i+k*(len(ts)%4))%4]
				}
				ts = append(ts, t)
			}
			return
		}
		for _, a := range accs {
			amt := fmt.Sprintf("%d.25", len(ps)+1)
			if len(ps) == n-1 {
				rec(append(ps, Post{Acc: a}))
			} else {
				rec(append(ps, Post{Acc: a, Amt: amt, Com: "CAD"}))
			}
		}
	}
	rec(nil)
	return
}

func p16options(c *Chooser, few bool) (o p16opt, from string) {
	o.payee = []string{"", "alpha", "Al"}[c.N(3)]
	o.tt = []string{"", "x", "x:v", "Y:.*"}[c.N(4)]
	o.pt = []string{"", "p", "p:o", "Q"}[c.N(4)]
	k := c.N(4)
	o.acc = []string{"", "Ax", "Bo", "Ax:Sub"}[k]
	from = o.acc
	s := c.N(4)
	o.setAcc = []string{"", "Cy", "Ax", "ax:s"}[s]
	o.toAcc = []string{"", "Cy", "Ax", "Ax:Sub"}[s]
	tts, pts := 2, 2
	if !few {
		tts, pts = 4, 4
	}
	sets := []string{"", "#new: val ue", "#new", "#newa: 1, #newb"}
	maps := []map[string]string{nil, {"new": "val ue"}, {"new": ""}, {"newa": "1", "newb": ""}}
	a, b := c.N(tts), c.N(pts)
	o.setTT, o.newTT = sets[a], maps[a]
	o.setPT, o.newPT = sets[b], maps[b]
	return
}

var p18decs = map[string]int{"CAD": 2, "BND": 5, "YEN": 0}

func init() {
	register(&Prop{
		ID: "P16", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one set of options applied to a ledger of up to about 800 transactions (all combinations of payee, tags and accounts); states are distinct resulting files",
		Assumptions: []string{"a tag key that is already present is not added again", "the file may come out sorted (as format sorts it)"},
		Spaces: func(tier string) []Space {
			led := map[int][]Tx{}
			for n := 2; n <= 4; n++ {
				led[n] = p16ledger(n, false)
			}
			two := func(c *Chooser) *Case {
				o, from := p16options(c, tier != "thorough")
				if o.payee == "Al" && tier != "thorough" {
					return nil
				}
				return &Case{Key: fmt.Sprint("two ", o.args()), Run: func(e *Env) { p16check(e, o, from, led[2]) }}
			}
			more := func(c *Chooser) *Case {
				n := 3 + c.N(2)
				o, from := p16options(c, true)
				if tier != "thorough" && (o.payee == "Al" || o.tt == "Y:.*" || o.pt == "Q" || n == 4 && (o.payee != "" || o.tt != "")) {
					return nil
				}
				return &Case{Key: fmt.Sprint("more ", n, o.args()), Run: func(e *Env) { p16check(e, o, from, led[n]) }}
			}
			files := func(c *Chooser) *Case {
				// several files, all treated alike
				nf := 1 + c.N(3)
				o, from := p16options(c, true)
				if o.payee != "" || o.tt == "x:v" || o.tt == "Y:.*" {
					return nil
				}
				var fs [][]Tx
				for f := 0; f < nf; f++ {
					var ts []Tx
					for i := 0; i < 12; i++ {
						ts = append(ts, led[2][(f*131+i*53+i*i)%len(led[2])])
					}
					if f == 1 {
						ts = ts[:1]
					}
					fs = append(fs, ts)
				}
				return &Case{Key: fmt.Sprint("files ", nf, o.args()), Run: func(e *Env) { p16check(e, o, from, fs...) }}
			}
			lengths := func(c *Chooser) *Case {
				// notes of all lengths, with and without tags at their end
				kind := c.N(6)
				set := c.N(3)
				o := p16opt{acc: "Ax"}
				sets := []string{"#new: val ue", "#new", "#newa: 1, #newb"}
				maps := []map[string]string{{"new": "val ue"}, {"new": ""}, {"newa": "1", "newb": ""}}
				o.setTT, o.newTT, o.setPT, o.newPT = sets[set], maps[set], sets[set], maps[set]
				var ts []Tx
				for n := 0; n <= 100; n++ {
					note := ""
					if n > 0 {
						note = p13text(n)
						tail := []string{"", "#k", "#k: v", "#k: v,", "#k,", " #k: v, w"}[kind]
						if len(tail) < n {
							note = strings.ReplaceAll(note[:n-len(tail)], "#", "-") + tail
							if note[0] == ' ' {
								note = "x" + note[1:]
							}
						}
					}
					note = strings.TrimSpace(note)
					t := Tx{Date: dateStr(ymdDate(2020, 1, 1).Add(time.Duration(n) * 24 * time.Hour)), Code: fmt.Sprint("c", n), Desc: "d", Note: note}
					t.Ps = []Post{{Acc: "Ax", Amt: "1.00", Com: "CAD", Note: note}, {Acc: "Bo"}}
					ts = append(ts, t)
					u := t
					u.Code, u.Note, u.Notes = fmt.Sprint("d", n), "", []string{"first", "#sec: ond"}
					u.Ps = []Post{{Acc: "Bo", Amt: "1.00", Com: "CAD"}, {Acc: "Ax", Notes: []string{"#a: 1, #b", "rest"}}}
					if note != "" {
						u.Notes = append(u.Notes, note)
						u.Ps[1].Notes = append([]string{note}, u.Ps[1].Notes...)
					}
					ts = append(ts, u)
				}
				return &Case{Key: fmt.Sprint("lengths ", kind, set), Run: func(e *Env) { p16check(e, o, "Ax", ts) }}
			}
			refused := func(c *Chooser) *Case {
				i := c.N(8)
				args := [][]string{{"-a", "Nope", "-a:", "Bo"}, {"-a", "Ax", "-a:", "Nope"}, {"-a", "Ax", "-pt:", "no tag"}, {"-a", "Ax", "-tt:", ""}, {"-a", "y", "-a:", "Bo"}, {"-p", "(", "-tt:", "#x"}, {"-tt", "(", "-tt:", "#x"}, {"-tt:", "#"}}[i]
				return &Case{Key: fmt.Sprint("refused ", args), Run: func(e *Env) {
					db := e.Sub("db", Files{"commodities.coin": "", "accounts.coin": p16head})
					fn := db + "/m.coin"
					text := txsText(p16ledger(2, false)[:30]...)
					must(os.WriteFile(fn, []byte(text), 0o644))
					r := e.Run("coin", db, append(append([]string{"modify"}, args...), fn)...)
					b, _ := os.ReadFile(fn)
					switch {
					case args[0] == "-a" && (args[1] == "y" || args[3] == ""):
						// either way nothing is to change in meaning: y selects Cy, an empty tag sets nothing
						if r.Code != 0 {
							e.Fail("refused "+fmt.Sprint(args), "coin modify %v: exit %d %s", args, r.Code, r.Err)
						}
					case r.Code == 0:
						e.Fail("accepted "+fmt.Sprint(args), "coin modify %v succeeds", args)
					case string(b) != text:
						e.Fail("damaged "+fmt.Sprint(args), "coin modify %v is refused but changes the file", args)
					}
				}}
			}
			commodities := func(c *Chooser) *Case {
				// accounts of three commodities; a file comes out the same whatever files are modified before it
				com := map[string]string{"Ax": "CAD", "Bo": "CAD", "Fu": "BND", "Ye": "YEN"}
				names := []string{"Ax", "Bo", "Fu", "Ye"}
				from, to := names[c.N(4)], names[c.N(4)]
				n := 2 + c.N(2)
				val := map[string]string{"CAD": "1.25", "BND": "2.00005", "YEN": "77"}
				head := comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "BND", Dec: 5}, Com{Id: "YEN"})
				for _, a := range names {
					head += accsText(Acc{Name: a, Com: com[a]})
				}
				var txs []Tx
				for i := 0; i < 1<<(2*n); i++ {
					t := Tx{Date: "2020/01/02", Code: fmt.Sprint("c", i), Desc: "d"}
					same := true
					for k := 0; k < n; k++ {
						a := names[i>>(2*k)&3]
						same = same && com[a] == com[names[i&3]]
						t.Ps = append(t.Ps, Post{Acc: a, Amt: val[com[a]], Com: com[a], Note: []string{"", "#x"}[k%2]})
					}
					if same {
						t.Ps[n-1].Amt = ""
					}
					txs = append(txs, t)
				}
				o := p16opt{acc: from, setAcc: to}
				return &Case{Key: fmt.Sprint("commodities ", from, to, n), Run: func(e *Env) {
					db := e.Sub("db", Files{"commodities.coin": head, "accounts.coin": ""})
					want := func(ts []Tx) (s string) {
						for _, t := range ts {
							for k, p := range t.Ps {
								am, c := p.Amt, com[p.Acc]
								if am == "" {
									am = fmtDec(new(big.Int).Mul(parseDec(val[c], p18decs[c]), big.NewInt(int64(-k))), p18decs[c])
								}
								acc := p.Acc
								if acc == from {
									acc = to
								}
								s += fmt.Sprintln(t.Code, acc, am, c)
							}
						}
						return
					}
					got := func(fn string) (s string) {
						b, _ := os.ReadFile(fn)
						code := ""
						for _, l := range nonEmptyLines(string(b)) {
							f := strings.Fields(strings.Split(l, ";")[0])
							if l[0] != ' ' && len(f) > 1 {
								code = strings.Trim(f[1], "()")
							} else if len(f) == 3 {
								s += fmt.Sprintln(code, f[0], f[1], f[2])
							} else {
								s += l + "\n"
							}
						}
						return
					}
					size := (len(txs) + 2) / 3
					var fns []string
					var parts [][]Tx
					for k := 0; k*size < len(txs); k++ {
						ts := txs[k*size : min((k+1)*size, len(txs))]
						fn := fmt.Sprint(db, "/m", k, ".coin")
						must(os.WriteFile(fn, []byte(txsText(ts...)), 0o644))
						fns, parts = append(fns, fn), append(parts, ts)
					}
					r := e.Run("coin", db, append(append([]string{"modify"}, o.args()...), fns...)...)
					if r.Code != 0 {
						e.Fail("refused "+from+to, "coin modify %v: exit %d: %s", o.args(), r.Code, r.Err)
						return
					}
					for k, fn := range fns {
						w, g := want(parts[k]), got(fn)
						e.State(fmt.Sprint(from, to, n, k))
						if w != g {
							e.Fail(fmt.Sprint("commodities ", from, to, n, k), "coin modify %v: file %d: %s", o.args(), k, firstDiff(w, g))
							return
						}
					}
				}}
			}
			return []Space{
				{Name: "commodities", Rule: "postings moved between accounts of any commodities in three files of all transactions of 2-3 postings", Gen: commodities},
				{Name: "two-postings", Rule: "option combinations over all transactions of two postings", Gen: two},
				{Name: "more-postings", Rule: "option combinations over transactions of 3 and 4 postings on all account sequences", Gen: more},
				{Name: "files", Rule: "option combinations over 1-3 files", Gen: files},
				{Name: "note-lengths", Rule: "tags added to notes of 0-100 characters with six kinds of endings", Gen: lengths},
				{Name: "refused", Rule: "options that name nothing leave the file alone", Gen: refused},
			}
		},
	})
}
