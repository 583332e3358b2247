package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// P22: output is a function of the ledger alone.

type p22scene struct {
	name string
	fs   Files
	bin  string
	args []string // @ is the directory
	env  []string
	keep bool // writes nothing: the directory need not be made again
	big  bool
}

// p22run runs the scene once with a schedule of table iterations.
func (s p22scene) run(e *Env, db, sched, log string) string {
	if !s.keep {
		db = e.Sub("db", s.fs)
	}
	args := append([]string{}, s.args...)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "@", db)
	}
	env := append([]string{"VERIF_SCHED=" + sched, "VERIF_SCHEDLOG=" + log, "VERIF_RAND=lcg7"}, s.env...)
	r := e.RunEnv(s.bin, db, env, "", args...)
	out := fmt.Sprintf("exit %d\n--- stdout\n%s--- stderr\n%s", r.Code, r.Out, r.Err)
	// the trace of a panic shows addresses
	if i := strings.Index(out, "\ngoroutine "); i >= 0 {
		out = out[:i+1]
	}
	if r.Hang {
		out = "does not end\n" + out
	}
	if s.keep {
		return out
	}
	es, _ := os.ReadDir(db)
	for _, x := range es {
		if x.IsDir() {
			continue
		}
		t := string(mustRead(filepath.Join(db, x.Name())))
		if was, ok := s.fs[x.Name()]; !ok || was != t {
			out += "--- " + x.Name() + "\n" + t
		}
	}
	return out
}

// p22check runs the scene under the policies and, for the given part of the iterations, every single other choice.
func p22check(e *Env, s p22scene, policies []string, part, parts int, deep bool) {
	db := e.Sub("db", s.fs)
	log := filepath.Join(e.Dir, "tables")
	base := s.run(e, db, "0", log)
	ns := strings.Fields(string(mustRead(log)))
	e.State(s.name + fmt.Sprint(hash64(base)))
	e.Outcome(fmt.Sprint(len(ns), hash64(base)))
	try := func(sched, log string) bool {
		e.State(s.name + sched)
		got := s.run(e, db, sched, log)
		if got == base {
			return true
		}
		text := ""
		for _, n := range sortedKeys(s.fs) {
			text += "--- " + n + "\n" + s.fs[n]
		}
		e.Fail(s.name+" "+sched, "%s %v with table iterations starting at %s differs: %s\n%s\n--- with all at 0\n%s\n%s", s.bin, s.args, sched, firstDiff(got, base), clipped(got, 3000), clipped(base, 3000), clipped(text, 4000))
		return false
	}
	if part == 0 {
		for _, p := range policies {
			if !try(p, "") {
				return
			}
		}
	}
	offsets := func(n string) (out []int) {
		var used int
		fmt.Sscan(n, &used)
		top := used
		if used > 8 {
			top = 16
			for top*7/8 < used {
				top *= 2
			}
		} else if deep {
			top = 8
		}
		step := 1
		if !deep {
			step = max(1, top/16)
		}
		for i := 1; i < top; i += step {
			out = append(out, i)
		}
		if !deep && len(out) > 3 && len(ns) > 60 {
			out = []int{out[0], out[len(out)/2], out[len(out)-1]}
		}
		return
	}
	for i, n := range ns {
		if i%parts != part {
			continue
		}
		for _, o := range offsets(n) {
			first := fmt.Sprintf("0 %d=%d", i, o)
			pairs := deep && len(ns) <= 60
			l := ""
			if pairs {
				l = log
			}
			if !try(first, l) {
				return
			}
			if !pairs {
				continue
			}
			for j, m := range strings.Fields(string(mustRead(log))) {
				if j <= i {
					continue
				}
				for _, p := range offsets(m) {
					if p == 1 || p == 4 {
						if !try(fmt.Sprintf("%s %d=%d", first, j, p), "") {
							return
						}
					}
				}
			}
		}
	}
}

// p22rich is a ledger full of ties: equal totals, equal prices, one day, many of everything.
func p22rich() Files {
	coms := []string{"CAD", "USD", "EUR", "YEN", "GBP", "CHF", "AUD", "NZD", "BND", "K1", "K2"}
	c, p := "", ""
	for i, x := range coms {
		c += Com{Id: x, Dec: []int{2, 2, 2, 0, 2, 2, 5, 3, 5, 0, 2}[i], Default: i == 0, Note: "note " + x, Symbol: map[int]string{4: "PND", 5: "FR"}[i]}.text()
		if i > 0 {
			for _, d := range []string{"2020/01/01", "2020/03/01", "2020/03/01"} {
				p += Pri{d, x, coms[(i*3)%i], fmt.Sprintf("1.%02d", i)}.text()
				p += Pri{d, x, coms[i/2], fmt.Sprintf("1.%02d", i)}.text()
			}
		}
	}
	for _, x := range []string{"EUR", "GBP", "CHF"} {
		for _, y := range []string{"USD", "CAD", "YEN"} {
			p += Pri{"2020/02/02", x, y, "1.5"}.text()
		}
	}
	a := ""
	var accs []string
	for i, n := range []string{"Assets:Bank:Checking", "Assets:Bank:Savings", "Assets:Cash", "Assets:Invest:A", "Assets:Invest:B", "Income:Job", "Income:Gift", "Expenses:Food", "Expenses:Food:Out", "Expenses:Home", "Expenses:Car", "Expenses:Fun", "Expenses:Misc", "Expenses:Tax", "Income:Food"} {
		com := ""
		if i == 3 || i == 4 {
			com = coms[i+4]
		}
		a += Acc{Name: n, Com: com, Note: "n", Closed: map[int]string{12: "2020/12/31"}[i]}.text()
		accs = append(accs, n)
	}
	t := ""
	k := 0
	for _, d := range []string{"2020/01/15", "2020/02/15", "2020/02/15", "2021/02/15"} {
		for i := 7; i < len(accs); i++ {
			t += Tx{Date: d, Desc: fmt.Sprint("Payee ", i%4), Code: fmt.Sprint(k % 3), Note: fmt.Sprintf("#t%d: v%d, #T%d: x, #t%db, #u%d", i, k%3, i, i, k%11), Ps: []Post{
				{Acc: accs[i], Amt: "10", Com: "CAD", Note: fmt.Sprintf("#p%d:x%d", k%10, i)}, {Acc: accs[k%3], Amt: "-10.00", Com: "CAD"}}}.text()
			k++
		}
		t += Tx{Date: d, Desc: "buy", Note: "#buy", Ps: []Post{{Acc: accs[3], Amt: "3", Com: "NZD"}, {Acc: accs[4], Amt: "3", Com: "BND"}, {Acc: accs[0], Amt: "-10", Com: "CAD"}}}.text()
	}
	return Files{"commodities.coin": c, "prices.coin": p, "accounts.coin": a, "2020.coin": t}
}

func with(f Files, more Files) Files {
	g := Files{}
	for n, t := range f {
		g[n] = t
	}
	for n, t := range more {
		g[n] = t
	}
	return g
}

func p22scenes() (out []p22scene) {
	rich := p22rich()
	add := func(name string, fs Files, bin string, keep bool, cmds ...string) {
		for _, c := range cmds {
			out = append(out, p22scene{name: name + ": " + bin + " " + c, fs: fs, bin: bin, args: strings.Fields(c), keep: keep})
		}
	}
	add("rich", rich, "coin+sched", true,
		"balance", "balance -z -l 2", "balance -t u Expenses", "balance -p Payee", "",
		"register Assets:Bank", "register -r -f -n Assets", "register -r -m Expenses", "register -r -y -g 3 Expenses", "register -r -y -g 1 -o json Expenses", "register -r -q -c -o csv Expenses",
		"register -r -w Assets", "register -bp -r -m Expenses", "register -bt -r -m Expenses", "register -bt -r Expenses", "register -bp -r -o json Expenses", "register -bt -r -y -o csv Expenses", "register -bt Food",
		"register -r -m -g 2 -o json Assets",
		"accounts", "accounts -c", "accounts Ex", "commodities", "commodities -p", "commodities EUR", "commodities -f USD",
		"tags", "tags -v", "tags -a", "tags -v -a", "tags u", "stats", "stats -d", "stats -u -c", "-h", "nonsense", "balance -h", "register Nonsense", "register Expenses:F", "register E")
	add("rich", rich, "coin2html+sched", true, "")
	add("format", rich, "coin+sched", false, "format @/2020.coin", "format -i @/2020.coin", "format -ledger @/2020.coin", "modify -tt u1 -tt: new @/2020.coin", "modify -a Food -pt: p1:q @/2020.coin")
	tests := "include commodities.coin\ninclude prices.coin\ninclude accounts.coin\ninclude 2020.coin\ninclude b.inc\n\ntest balance -z\nend test\n\ntest register -r -y Expenses\nend test\n\ntest tags\nwrong\nend test\n\ntest nonsense\nend test\n"
	add("test", with(rich, Files{"a.test": tests, "b.inc": "test tags -v\nno\nend test\n\ntest stats\nend test\ninclude c.inc\n", "c.inc": "test register -r -m -g 2 Assets\nend test\n"}), "coin+sched", false, "test @/a.test", "test -v @/a.test")
	add("gen", Files{}, "gen2coin+sched+rand", false, "-b 2019/11/01 -e 2020/03/01", "-b 2019/11/01 -e 2020/01/20 -j -wb", "-b 2019/11/01 -e 2020/02/01 -m @", "-b 2019/11/01 -e 2020/02/01 -y @")
	// ledgers with several things wrong
	bad := func(name, file, text string, cmds ...string) {
		add(name, with(rich, Files{file: rich[file] + text}), "coin+sched", true, cmds...)
	}
	bad("failed assertions", "2020.coin", txsText(Tx{Date: "2020/12/01", Desc: "x", Ps: []Post{{Acc: "Expenses:Fun", Amt: "1", Com: "CAD", Bal: "2", BalCom: "CAD"}, {Acc: "Assets:Cash", Amt: "-1", Com: "CAD", Bal: "7", BalCom: "CAD"}}}, Tx{Date: "2020/12/02", Desc: "x", Ps: []Post{{Acc: "Expenses:Car", Amt: "1", Com: "CAD", Bal: "2", BalCom: "CAD"}, {Acc: "Income:Gift", Amt: "-1", Com: "CAD", Bal: "7", BalCom: "CAD"}}}), "balance", "register Expenses:Fun", "stats")
	bad("unknown accounts", "2020.coin", "2020/12/01 x\n  Nowhere  1 CAD\n  Elsewhere  -1 CAD\n", "balance")
	bad("ambiguous account", "2020.coin", "2020/12/01 x\n  Bank  1 CAD\n  Food  -1 CAD\n", "balance")
	bad("unbalanced", "2020.coin", "2020/12/01 x\n  Expenses:Fun  1 CAD\n  Expenses:Car  -2 CAD\n\n2020/12/02 y\n  Expenses:Tax  1 CAD\n  Expenses:Misc  -3 CAD\n", "balance")
	bad("unconvertible", "accounts.coin", accsText(Acc{Name: "Assets:Odd:X", Com: "Q1"}, Acc{Name: "Assets:Odder:Y", Com: "Q2"}), "balance")
	bad("prices of the unknown", "prices.coin", "P 2020/01/01 Q1 1.00 CAD\nP 2020/01/01 Q2 1.00 Q3\n", "balance", "commodities -p")
	bad("accounts twice", "accounts.coin", accsText(Acc{Name: "Expenses:Fun", Note: "other"}, Acc{Name: "Expenses:Car:Gas"}), "accounts", "balance")
	// no conversion: which of several is reported
	var coms []Com
	var accs []Acc
	var ts []Tx
	for i := 0; i < 5; i++ {
		coms = append(coms, Com{Id: fmt.Sprint("C", i), Dec: 2, Default: i == 0})
		accs = append(accs, Acc{Name: fmt.Sprintf("A:B%d:C", i), Com: fmt.Sprint("C", i)}, Acc{Name: fmt.Sprintf("A:B%d", i), Com: fmt.Sprint("C", (i+1)%5)})
		ts = append(ts, Tx{Date: "2020/01/01", Desc: "d", Ps: []Post{{Acc: fmt.Sprintf("A:B%d:C", i), Amt: "1", Com: fmt.Sprint("C", i)}, {Acc: fmt.Sprintf("A:B%d", i), Amt: "1", Com: fmt.Sprint("C", (i+1)%5)}}})
	}
	odd := Files{"commodities.coin": comsText(coms...), "accounts.coin": accsText(accs...), "prices.coin": "", "2020.coin": txsText(ts...)}
	add("no conversions", odd, "coin+sched", true, "balance", "register -r -y A", "register -r A", "register -r -bp A", "stats -c")
	// imports
	imp := p22imports()
	add("import", imp, "ofx2coin+sched", true, "in.ofx", "-rules", "-ids", "-keep-dupes in.ofx in2.ofx")
	add("import", imp, "csv2coin+sched", true, "-source src in.csv", "-rules", "-fields 0,1,2,3,4 in.csv", "-source none in.csv")
	gc := p22gnucash()
	for _, mode := range [][]string{{"-gnucashdb", "@/book.gnucash"}, {"-y", "-gnucashdb", "@/book.gnucash"}, {"-l", "-gnucashdb", "@/book.gnucash"}} {
		for _, env := range [][]string{nil, {"COINDB="}} {
			if env != nil && mode[0] == "-y" {
				continue
			}
			out = append(out, p22scene{name: fmt.Sprint("gnucash ", mode, env), fs: gc, bin: "gc2coin+sched", args: mode, env: env})
		}
	}
	return
}

func p22gnucash() Files {
	b := gcBook{template: true}
	n := 12
	for i := 0; i < n; i++ {
		b.coms = append(b.coms, gcCom{fmt.Sprint("C", (i*5)%n), "", 100})
		stamp := func(y int) string {
			return fmt.Sprint(y, []string{"-12-31 23:59:00 -0500", "-12-31 10:59:00 +0000", "-01-01 00:00:00 +0200"}[i%3])
		}
		b.accs = append(b.accs, gcAcc{fmt.Sprint("Acc ", (i*7)%n), i/3 - 1, fmt.Sprint("C", (i*5)%n), "", ""})
		if i > 0 {
			b.prices = append(b.prices, gcPrice{stamp(2019), fmt.Sprint("C", (i*5)%n), "C0", "5", "4"}, gcPrice{stamp(2020), "C0", fmt.Sprint("C", (i*5)%n), "3", "4"})
		}
		b.txs = append(b.txs, gcTx{stamp(2019), "", fmt.Sprint("t", i%2), []gcSplit{{i, "5", "1", ""}, {(i + 1) % n, "-5", "1", ""}}})
	}
	return Files{"book.gnucash": gzipped(b.xml())}
}

func p22imports() Files {
	accs := ""
	gs := []p25group{{name: "common", rules: []p25rule{{acc: "Expenses:Food", expr: "KFC|FOOD"}, {acc: "Expenses:Fun", expr: "CINEMA"}, {acc: "Expenses:Misc"}}}}
	for i := 0; i < 10; i++ {
		n := fmt.Sprintf("Assets:Bank:A%d", i)
		accs += Acc{Name: n, Com: "CAD"}.text()
		gs = append(gs, p25group{name: fmt.Sprintf("%d", 1000+i), acc: n, rules: []p25rule{{acc: "Expenses:Car", expr: "GAS"}, {ref: "common"}}})
	}
	for _, n := range []string{"Food", "Fun", "Misc", "Car"} {
		accs += Acc{Name: "Expenses:" + n, Com: "CAD"}.text()
	}
	rules := p25text(gs, true)
	var b strings.Builder
	b.WriteString("account,date,payee,amount,other\n")
	for i := 0; i < 10; i++ {
		fmt.Fprintf(&b, "%d,2020/01/%02d,%s %d,%d.50,x\n", 1000+i, i+1, []string{"KFC", "GAS", "CINEMA"}[i%3], i, 10-i)
	}
	src := "src 1\n  account 0\n  date 1\n  description 2\n  amount 3\n  n 4\n  note \"${n}\"\n" +
		"none 1\n  account 0\n  date 1\n  description 2\n  amount 4\n"
	f := Files{"commodities.coin": Com{Id: "CAD", Dec: 2, Default: true}.text(), "prices.coin": "", "accounts.coin": accs, "ofx.rules": rules, "csv.rules": src + "---\n" + rules, "in.csv": b.String(),
		"2020.coin": txsText(Tx{Date: "2020/01/01", Desc: "KFC 0", Ps: []Post{{Acc: "Expenses:Food", Amt: "10.50", Com: "CAD"}, {Acc: "Assets:Bank:A0", Amt: "-10.50", Com: "CAD"}}})}
	for _, n := range []string{"in.ofx", "in2.ofx"} {
		f[n] = p22ofx()
	}
	return f
}

func init() {
	scenes := p22scenes()
	sort.SliceStable(scenes, func(i, j int) bool { return scenes[i].name < scenes[j].name })
	register(&Prop{
		ID: "P22", Level: "model_checking", Bins: []string{"coin+sched", "ofx2coin+sched", "csv2coin+sched", "gc2coin+sched", "gen2coin+sched+rand", "coin2html+sched"},
		Rule:        "a case is one command line on one ledger and an eighth of its table iterations; states are distinct (command, choice of iteration starts) pairs",
		Assumptions: []string{"the starting points of table iterations are the only thing the runtime chooses: the commands have no goroutines", "the hash seed of tables takes 8 values besides the basic one", "the random choices of gen2coin are fixed"},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			policies := []string{"1", "2", "3", "4", "5", "6", "7", "0 seed=1", "0 seed=7", "3 seed=12345"}
			for i := 0; i < 10; i++ {
				policies = append(policies, fmt.Sprintf("lcg%d seed=%d", i, i*77+5))
			}
			all := func(c *Chooser) *Case {
				s, part := scenes[c.N(len(scenes))], c.N(8)
				return &Case{Key: fmt.Sprint(s.name, " ", part), Run: func(e *Env) { p22check(e, s, policies, part, 8, thorough) }}
			}
			// every price graph: whatever conversion is found, it is the same one
			graphs := func(c *Chooser) *Case {
				g := c.N(64)
				return &Case{Key: fmt.Sprint("graphs ", g), Run: func(e *Env) {
					ids := []string{"C0", "C1", "C2", "C3"}
					for h := g << 6; h < (g+1)<<6; h++ {
						if !thorough && (h^h>>6)%4 != 0 {
							continue
						}
						var cs []Com
						var as []Acc
						p, k := "", 0
						for i, x := range ids {
							cs = append(cs, Com{Id: x, Dec: 2, Default: i == 0})
							as = append(as, Acc{Name: fmt.Sprint("A:B", i), Com: x})
							for j, y := range ids {
								if i != j {
									if h>>k&1 == 1 {
										p += Pri{"2020/01/01", x, y, fmt.Sprintf("%d.%d", 1+k, h%7)}.text()
									}
									k++
								}
							}
						}
						var ts []Tx
						for i, x := range ids {
							ts = append(ts, Tx{Date: "2020/01/01", Desc: "d", Ps: []Post{{Acc: fmt.Sprint("A:B", i), Amt: "100", Com: x}, {Acc: fmt.Sprint("A:B", (i+1)%4), Amt: "3", Com: ids[(i+1)%4]}}})
						}
						s := p22scene{name: fmt.Sprint("graph ", h), fs: Files{"commodities.coin": comsText(cs...), "prices.coin": p, "accounts.coin": accsText(as...), "2020.coin": txsText(ts...)}, bin: "coin+sched", args: []string{"balance"}, keep: true}
						p22check(e, s, []string{"1", "2", "3", "lcg1"}, 0, 1<<30, false)
						s.args = []string{"register", "-r", "-y", "A"}
						s.name += " register"
						p22check(e, s, []string{"1", "2", "lcg1"}, 0, 1<<30, false)
					}
				}}
			}
			// nothing around the run matters either
			envs := [][]string{
				{"TZ=Pacific/Kiritimati"}, {"TZ=Pacific/Pago_Pago"}, {"TZ=America/St_Johns"}, {"TZ=Asia/Kathmandu"}, {"TZ=nowhere"}, {"TZ="},
				{"LANG=de_DE.UTF-8", "LC_ALL=de_DE.UTF-8"}, {"LC_ALL=tr_TR.UTF-8"}, {"HOME=/nonexistent", "USER=x", "TMPDIR=/nonexistent", "PWD=/"},
				{"COLUMNS=20", "LINES=5", "TERM=dumb", "NO_COLOR=1"}, {"GOMAXPROCS=8", "GOGC=1"}, {"CAD=1", "USD=x", "EDITOR=vi", "PAGER=less"},
			}
			around := func(c *Chooser) *Case {
				s := scenes[c.N(len(scenes))]
				return &Case{Key: "around " + s.name, Run: func(e *Env) {
					db := e.Sub("db", s.fs)
					base := s.run(e, db, "0", "")
					for _, env := range envs {
						t := s
						t.env = append(append([]string{}, s.env...), env...)
						if strings.HasPrefix(env[0], "HOME") && !s.keep {
							t.env = t.env[:len(t.env)-2] // rewriting needs no more than it did
						}
						e.State(s.name + fmt.Sprint(env))
						got := t.run(e, db, "0", "")
						e.Outcome(fmt.Sprint(hash64(got)))
						if got != base {
							e.Fail(fmt.Sprint("around ", s.name, env), "%s %v with %v differs: %s\n%s\n--- without\n%s", s.bin, s.args, env, firstDiff(got, base), clipped(got, 3000), clipped(base, 3000))
							return
						}
					}
				}}
			}
			return []Space{
				{Name: "around", Rule: fmt.Sprintf("every command line in %d other environments: time zones, languages, homes, terminals, numbers of processors", len(envs)), Gen: around},
				{Name: "commands", Rule: fmt.Sprintf("%d command lines on ledgers full of ties and of mistakes: 20 policies and every single other choice of start of every table iteration (quick: 3 of the starts where there are more than 60 iterations; thorough: and pairs where there are not)", len(scenes)), Gen: all},
				{Name: "graphs", Rule: "every price graph over 4 commodities (quick: a quarter), 4 policies", Gen: graphs},
			}
		},
	})
}

func gzipped(s string) string {
	var b bytes.Buffer
	z, _ := gzip.NewWriterLevel(&b, gzip.BestSpeed)
	_, err := z.Write([]byte(s))
	must(err)
	must(z.Close())
	return b.String()
}

func p22ofx() string {
	var ss []ofxStatement
	for i := 0; i < 10; i++ {
		s := ofxStatement{id: fmt.Sprint(1000 + i), card: i%3 == 2, bal: "100.00"}
		for j := 0; j < 4; j++ {
			s.lines = append(s.lines, ofxLine{fmt.Sprintf("202001%02d", 10+j) + []string{"", "235959.000[-5:EST]", "000000[+9:JST]", "120000"}[(i+j)%4], fmt.Sprintf("-%d.50", 10+j), []string{"KFC", "GAS", "CINEMA", "X"}[(i+j)%4], "memo"})
		}
		ss = append(ss, s)
	}
	return ofxText(ss)
}
