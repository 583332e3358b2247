package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// P36: only what is asked for is ever written.

// p36entry is all there is to see of a file or directory.
type p36entry struct {
	mode  fs.FileMode
	inode uint64
	mod   time.Time
	text  uint64
}

func p36snap(root string) map[string]p36entry {
	out := map[string]p36entry{}
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		must(err)
		fi, err := d.Info()
		must(err)
		x := p36entry{mode: fi.Mode(), inode: fi.Sys().(*syscall.Stat_t).Ino, mod: fi.ModTime()}
		if fi.Mode().IsRegular() {
			x.text = hash64(string(mustRead(p)))
		}
		out[strings.TrimPrefix(p, root)] = x
		return nil
	}))
	return out
}

type p36cmd struct {
	bin  string
	args []string // @ is the root
	env  []string
	cwd  string // below the root
	// what may be written (below the root), and what may come into being; a path ending in * stands for all that begin so
	may, make []string
	must      []string // has to be there in the end, if the command succeeds
}

var p36dirs = []string{"db", "cwd", "home", "tmp", "out"}

// p36root makes a directory with all a command may come across, of an age that any change is seen.
func (e *Env) p36root(fs Files) string {
	root := e.Sub("p36", fs)
	for _, d := range p36dirs {
		must(os.MkdirAll(filepath.Join(root, d), 0o755))
	}
	old := time.Date(2020, 2, 3, 4, 5, 6, 0, time.UTC)
	var all []string
	must(filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error { all = append(all, p); return err }))
	for i, p := range all {
		if fi, _ := os.Stat(p); fi.Mode().IsRegular() {
			must(os.Chmod(p, []os.FileMode{0o644, 0o640, 0o664, 0o600}[i%4]))
		}
		must(os.Chtimes(p, old, old))
	}
	return root
}

func p36match(list []string, p string) bool {
	for _, x := range list {
		if x == p || strings.HasSuffix(x, "*") && strings.HasPrefix(p, x[:len(x)-1]) {
			return true
		}
	}
	return false
}

// p36check runs the command in the root, which has to be as before afterwards but for what it may do; whether it was is reported.
func p36check(e *Env, sig, root string, was map[string]p36entry, c p36cmd, fs Files) bool {
	var args []string
	for _, a := range c.args {
		args = append(args, strings.ReplaceAll(a, "@", root))
	}
	env := []string{"COINDB=" + root + "/db", "HOME=" + root + "/home", "TMPDIR=" + root + "/tmp"}
	for _, x := range c.env {
		env = append(env, strings.ReplaceAll(x, "@", root))
	}
	cwd := c.cwd
	if cwd == "" {
		cwd = "cwd"
	}
	r := e.RunEnv(c.bin, filepath.Join(root, cwd), env, "", args...)
	now := p36snap(root)
	var bad []string
	dirs := map[string]bool{} // directories something was to be done in
	for _, x := range append(append([]string{}, c.may...), c.make...) {
		dirs[filepath.Dir(x)] = true
	}
	for p, x := range was {
		y, ok := now[p]
		switch {
		case !ok:
			bad = append(bad, p+" is gone")
		case x == y:
		case x.mode != y.mode:
			bad = append(bad, fmt.Sprintf("%s has mode %v, had %v", p, y.mode, x.mode))
		case x.mode.IsDir():
			if !dirs[p] {
				bad = append(bad, "something was written to directory "+p)
			}
		case !p36match(c.may, p):
			bad = append(bad, p+" was written")
		}
	}
	for p := range now {
		if _, ok := was[p]; !ok && !p36match(c.make, p) {
			bad = append(bad, p+" came into being")
		}
	}
	if r.Code == 0 {
		for _, p := range c.must {
			if _, ok := now[p]; !ok {
				bad = append(bad, p+" was not written")
			}
		}
	}
	e.State(sig)
	e.Outcome(fmt.Sprint(c.bin, r.Code, len(bad), hash64(r.Out)))
	if r.Hang || len(bad) > 0 {
		sort.Strings(bad)
		text := ""
		for _, n := range sortedKeys(fs) {
			text += "--- " + n + "\n" + clip(fs[n], 300) + "\n"
		}
		e.Fail(sig, "%s %v (exit %d): %s\n--- stdout\n%s--- stderr\n%s\n%s", c.bin, c.args, r.Code, strings.Join(bad, "; "), clipped(r.Out, 1500), clipped(r.Err, 1500), clipped(text, 1500))
		return false
	}
	return true
}

func p36under(dir string, f Files) Files {
	g := Files{}
	for n, t := range f {
		g[dir+"/"+n] = t
	}
	return g
}

type p36reader struct {
	bin  string
	cmd  []string
	opts [][]string
	args [][]string // after the options
}

// p36readers are the commands which have nothing to write.
func p36readers() []p36reader {
	o := func(s string) (out [][]string) {
		for _, x := range strings.Split(s, "|") {
			out = append(out, strings.Fields(x))
		}
		return
	}
	return []p36reader{
		{"coin", []string{"balance"}, o("-b 2020/02/01|-e 2020/03/01|-p Payee|-p [|-t u|-z|-l 2|-h|-x"), o("|Assets|Food|None")},
		{"coin", nil, nil, o("|-h|nonsense")},
		{"coin", []string{"register"}, o("-v|-r|-b 2020/02/01|-e 2020/03/01|-p Payee|-t u|-w|-m|-q|-y|-bp|-bt|-g 2|-c|-l 5|-f|-o json|-o csv|-o @/cwd/x|-n|-h"), o("|Assets|Expenses:Food|None")},
		{"coin", []string{"accounts"}, o("-c|-h|-x"), o("|Ex|[")},
		{"coin", []string{"commodities"}, o("-p|-f|-h"), o("|EUR|XXX")},
		{"coin", []string{"stats"}, o("-d|-u|-c|-b 2020/02/01|-e 2020/03/01|-h"), o("|x")},
		{"coin", []string{"tags"}, o("-v|-a|-h"), o("|u|[")},
		{"coin", []string{"format"}, o("-ledger|-t|-h|-x"), o("|@/db/2020.coin|@/cwd/a.coin @/db/2020.coin|a.coin|a.coin none.coin|bad.coin a.coin")},
		{"coin2html", nil, o("-h"), o("|x")},
		{"ofx2coin", nil, o("-rules|-ids|-keep-dupes|-bmo|-h|-x"), o("|@/db/in.ofx|@/db/in.ofx @/db/in2.ofx|@/cwd/none.ofx|@/db/in.csv")},
		{"csv2coin", nil, o("-source src|-source none|-source nix|-fields 0,1,2,3,4|-rules|-h"), o("|@/db/in.csv|@/cwd/none.csv|@/db/in.ofx")},
		{"gen2coin", nil, o("-b 2019/11/01|-e 2019/12/15|-y|-m|-j|-wb|-h|-x"), o("|@/none|@/db/2020.coin")},
		{"gc2coin", nil, o("-l|-y|-h|-x"), o("|-gnucashdb @/none.gnucash|-gnucashdb @/db/2020.coin")},
	}
}

func init() {
	messy := func(i int) string {
		return fmt.Sprintf("2020/05/%02d   late   payee ; #t%d\n Expenses:Food    1.5 CAD\n Assets:Cash\n2020/04/%02d early\n  Expenses:Food  2 CAD\n  Assets:Cash  -2.00 CAD\n", 1+i, i, 1+i)
	}
	broken := []string{
		"2020/05/01 x\n  Expenses:Food  1 CAD\n  Nowhere  -1 CAD\n",
		messy(9) + "2020/05/01 x\n  Expenses:Food  1 CAD\n  Assets:Cash  -2 CAD\n",
		"2020/05/01 x\n  Expenses:Food  1 CAD what\n",
		"nonsense\n",
		messy(8) + "include worse.inc\n",
		messy(7) + "2020/05/01 " + strings.Repeat("long ", 20000) + "\n  Expenses:Food  1 CAD\n  Assets:Cash\n",
	}
	huge := "2020/05/01 x\n  Expenses:Food  " + strings.Repeat("1234567890", 6) + " CAD\n  Assets:Cash\n"
	work := Files{"cwd/worse.inc": "2020/05/01 x\n  Nowhere\n", "cwd/a.coin": messy(1), "cwd/b.coin": messy(2) + huge, "cwd/c.coin": messy(3), "cwd/bad.coin": broken[0], "cwd/other.txt": "other", "out/2020.coin": messy(4), "home/.coinrc": "x"}
	// what others would take for a temporary file or a copy
	for _, n := range []string{"cwd/a.coin", "cwd/a.test", "cwd/b.test", "out/commodities.coin", "out/transactions.coin"} {
		for _, x := range []string{".tmp", ".temp", "~", ".bak", ".new", ".orig", ".old", ".swp", "1", ".1"} {
			work[n+x] = "of the user"
		}
		work[filepath.Dir(n)+"/."+filepath.Base(n)+".tmp"] = "of the user"
	}
	rich := with(p22rich(), p22imports())
	delete(rich, "accounts.coin")
	r, i := p22rich(), p22imports()
	for _, n := range []string{"commodities.coin", "accounts.coin", "2020.coin"} {
		rich[n] = r[n]
	}
	rich["accounts.coin"] += i["accounts.coin"]
	ledgers := []struct {
		name string
		fs   Files
	}{
		{"rich", rich},
		{"empty", Files{"commodities.coin": "", "accounts.coin": "", "prices.coin": "", "2020.coin": ""}},
		{"none", Files{}},
		{"syntax", with(rich, Files{"2020.coin": rich["2020.coin"] + "nonsense\n"})},
		{"unbalanced", with(rich, Files{"2020.coin": rich["2020.coin"] + "2020/12/01 x\n  Expenses:Fun  1 CAD\n  Expenses:Car  -2 CAD\n"})},
		{"accounts", with(rich, Files{"accounts.coin": rich["accounts.coin"] + "account\n"})},
		{"prices", with(rich, Files{"prices.coin": rich["prices.coin"] + "P 2020/01/01 Q1 1.00 CAD\n"})},
		{"rules", with(rich, Files{"ofx.rules": "[\nx", "csv.rules": "---\nx\n"})},
	}
	readers := p36readers()
	register(&Prop{
		ID: "P36", Level: "model_checking", Bins: []string{"coin", "coin2html", "ofx2coin", "csv2coin", "gc2coin", "gen2coin"},
		Rule: "a case is a command with its options; states are distinct (command line, directory) pairs",
		Assumptions: []string{
			"the commands are given a directory tree holding their ledger, working directory, home and place of temporary files: writing elsewhere is not seen",
			"coin commodities -q is not run: there is no network",
			"the system does not fail: what a failed write leaves behind is not judged here (P15, P32)",
		},
		Spaces: func(tier string) []Space {
			thorough := tier == "thorough"
			depth := 2
			if thorough {
				depth = 4
			}
			reading := func(c *Chooser) *Case {
				rd := readers[c.N(len(readers))]
				// a set of up to depth options, in any order
				var opts []string
				name := ""
				var set []int
				for len(set) < depth {
					k := c.N(len(rd.opts) + 1)
					if k == 0 {
						break
					}
					for _, x := range set {
						if x >= k-1 {
							return nil
						}
					}
					set = append(set, k-1)
					opts = append(opts, rd.opts[k-1]...)
				}
				args := append(append([]string{}, rd.cmd...), opts...)
				name = rd.bin + " " + strings.Join(args, " ")
				return &Case{Key: name, Run: func(e *Env) {
					for li, l := range ledgers {
						if li > 2 && len(set) > depth-1 {
							continue
						}
						fs := with(p36under("db", l.fs), work)
						root := e.p36root(fs)
						was := p36snap(root)
						for _, rest := range rd.args {
							for _, env := range [][]string{nil, {"COINDB="}} {
								if env != nil && (li > 0 || rd.bin != "gc2coin") {
									continue
								}
								if rd.bin == "gc2coin" && env == nil && len(rest) > 1 && strings.HasSuffix(rest[1], ".coin") {
									continue
								}
								if !p36check(e, fmt.Sprint(l.name, ": ", name, " ", rest, env), root, was, p36cmd{bin: rd.bin, args: append(append([]string{}, args...), rest...), env: env}, fs) {
									return
								}
							}
						}
					}
				}}
			}
			// files rewritten in place: sequences of files named, of which some cannot be read
			names := []string{"a.coin", "b.coin", "bad.coin", "none.coin", "@/db/2021.coin"}
			inplace := func(c *Chooser) *Case {
				verbs := [][]string{{"format", "-i"}, {"format", "-i", "-t"}, {"fmt", "-ledger", "-i"}, {"modify"}, {"modify", "-p", "late", "-tt:", "new"}, {"modify", "-a", "Cash", "-a:", "Fun"}, {"modify", "-a", "Cash", "-a:", "Nowhere"}, {"modify", "-p", "["}}
				verb := verbs[c.N(len(verbs))]
				kind := c.N(len(broken))
				var seq []string
				for n := 1 + c.N(depth+1); len(seq) < n; {
					seq = append(seq, names[c.N(len(names))])
				}
				if kind > 0 && !strings.Contains(strings.Join(seq, " "), "bad") {
					return nil
				}
				return &Case{Key: fmt.Sprint(verb, seq, kind), Run: func(e *Env) {
					fs := with(p36under("db", rich), work)
					fs["cwd/bad.coin"] = broken[kind]
					fs["db/2021.coin"] = messy(5)
					root := e.p36root(fs)
					var may []string
					for _, n := range seq {
						if n == "none.coin" || n == "bad.coin" {
							break
						}
						p := "/cwd/" + n
						if n[0] == '@' {
							p = n[1:]
						}
						may = append(may, p)
					}
					p36check(e, fmt.Sprint(verb, seq, kind), root, p36snap(root), p36cmd{bin: "coin", args: append(append([]string{}, verb...), seq...), may: may}, fs)
				}}
			}
			// test files: every set of up to two clauses in each of two files
			clauses := []string{"test commodities -x1\nend test\n", "test accounts Assets:Cash\nend test\n", "test accounts Assets:Cash\n%s\nend test\n", "test accounts Assets:Cash\nwrong\nend test\n", "test nonsense\nend test\n", "test\nend test\n", "2020/01/01 x\n  Nowhere  1 CAD\n  Assets:Cash\n", "test accounts None\nx\nend test\n"}
			right := "Assets:Cash"
			testing := func(c *Chooser) *Case {
				verb := [][]string{{"test"}, {"test", "-v"}, {"t"}}[c.N(3)]
				var t [2]string
				for i := range t {
					for n := c.N(3); n > 0; n-- {
						t[i] += clauses[1+c.N(len(clauses)-1)] + "\n"
					}
				}
				return &Case{Key: fmt.Sprint(verb, t), Run: func(e *Env) {
					fs := with(p36under("db", rich), work)
					head := "include ../db/commodities.coin\ninclude ../db/accounts.coin\ninclude ../db/2020.coin\n\n"
					t := t
					for i := range t {
						t[i] = strings.ReplaceAll(t[i], "%s", right)
					}
					fs["cwd/a.test"] = head + t[0] + "include b.test\n"
					fs["cwd/b.test"] = t[1] + "; end\n"
					fs["cwd/c.test"] = head + clauses[1]
					root := e.p36root(fs)
					var may []string
					for i, n := range []string{"/cwd/a.test", "/cwd/b.test"} {
						if strings.Contains(t[i], "Assets:Cash\nend test") {
							may = append(may, n)
						}
					}
					if strings.Contains(t[0]+t[1], "Nowhere") {
						may = nil
					}
					p36check(e, fmt.Sprint(verb, t), root, p36snap(root), p36cmd{bin: "coin", args: append(append([]string{}, verb...), "a.test"), may: may}, fs)
				}}
			}
			// generated and converted ledgers: the files documented, where they are asked for, and no other
			making := func(c *Chooser) *Case {
				kind := c.N(2)
				begin, end := []string{"2019/11/01", "2020/01/01", "2019/12/31"}[c.N(3)], []string{"2020/01/20", "2020/01/01", "2019/10/01", "2021/02/02"}[c.N(4)]
				flags := []string{"", "-y", "-m", "-wb", "-y -wb", "-l", "-l -y"}[c.N(7)]
				to := []string{"@/out", "@/db", ".", "@/none"}[c.N(4)]
				if kind == 1 && (end != "2020/01/20" || flags == "-m" || strings.Contains(flags, "-wb")) || kind == 0 && strings.Contains(flags, "-l") {
					return nil
				}
				return &Case{Key: fmt.Sprint(kind, begin, end, flags, to), Run: func(e *Env) {
					fs := with(p36under("db", rich), work)
					b := gcBook{coms: []gcCom{{"CAD", "", 100}, {"USD", "", 100}}, accs: []gcAcc{{"A", -1, "CAD", "", ""}, {"B", -1, "USD", "", ""}}}
					var years []string
					for y := 2018; y < 2023; y++ {
						if fmt.Sprint(y) < begin[:4] {
							continue
						}
						years = append(years, fmt.Sprint(y))
						d := fmt.Sprintf("%d-06-30 10:59:00 +0000", y)
						b.prices = append(b.prices, gcPrice{d, "USD", "CAD", "5", "4"})
						b.txs = append(b.txs, gcTx{d, "", "t", []gcSplit{{0, "5", "1", ""}, {1, "-5", "1", ""}}})
					}
					fs["home/book.gnucash"] = gzipped(b.xml())
					root := e.p36root(fs)
					dir := map[string]string{"@/out": "/out/", "@/db": "/db/", ".": "/cwd/"}[to]
					x := p36cmd{bin: "gen2coin", args: append(append([]string{"-b", begin, "-e", end}, strings.Fields(flags)...), to)}
					var files []string
					if dir != "" {
						files = []string{"commodities.coin", "accounts.coin"}
						x.must = []string{dir + files[0], dir + files[1]}
					}
					if kind == 0 && dir != "" {
						switch {
						case strings.Contains(flags, "-y"):
							for y := begin[:4]; y <= end[:4]; y = fmt.Sprint(num(y) + 1) {
								files = append(files, y+".coin")
							}
						case strings.Contains(flags, "-m"):
							for y, m := num(begin[:4]), num(begin[5:7]); fmt.Sprintf("%d/%02d", y, m) <= end[:7]; {
								files = append(files, fmt.Sprintf("%d-%02d.coin", y, m))
								if m++; m > 12 {
									y, m = y+1, 1
								}
							}
						default:
							files = append(files, "transactions.coin")
						}
					}
					if kind == 1 {
						x = p36cmd{bin: "gc2coin", args: append(strings.Fields(flags), "-gnucashdb", "@/home/book.gnucash"), env: []string{"COINDB=" + to}, must: x.must}
						if dir != "" && strings.Contains(flags, "-y") {
							for _, y := range years {
								files = append(files, y+".coin", y+".prices")
							}
						} else if dir != "" {
							files = append(files, "prices.coin", "transactions.coin")
						}
						for _, f := range files[min(2, len(files)):] {
							x.must = append(x.must, dir+f)
						}
					}
					for _, f := range files {
						x.may = append(x.may, dir+f)
						x.make = append(x.make, dir+f)
					}
					p36check(e, fmt.Sprint(kind, begin, end, flags, to), root, p36snap(root), x, fs)
				}}
			}
			return []Space{
				{Name: "reading", Rule: fmt.Sprintf("%d commands with every set of up to %d options, every kind of argument, on %d ledgers (those with faults with one option less): nothing is written", len(readers), depth, len(ledgers)), Gen: reading},
				{Name: "inplace", Rule: fmt.Sprintf("8 ways to rewrite, every sequence of up to %d of 5 files, one of them broken in 6 ways, one missing: only files named before the first that cannot be read are written", depth+1), Gen: inplace},
				{Name: "testing", Rule: "coin test on every pair of files with up to 2 clauses of 7 kinds each: only files with an empty clause are written", Gen: testing},
				{Name: "making", Rule: "gen2coin and gc2coin into 4 directories with every combination of split and 12 periods: only the files documented are written", Gen: making},
			}
		},
	})
}

func num(s string) (n int) {
	fmt.Sscan(s, &n)
	return
}
