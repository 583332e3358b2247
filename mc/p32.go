package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// P32: failed reads and writes are not passed off as results.

func (s p22scene) faulty(e *Env, faults string) (string, []fop, Result) {
	db := e.Sub("db", s.fs)
	log := filepath.Join(e.Dir, "ops")
	os.Remove(log)
	args := append([]string{}, s.args...)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "@", db)
	}
	env := append([]string{"VERIF_FAULT=" + faults, "VERIF_FAULT_LOG=" + log, "VERIF_FAULT_STDOUT=1", "VERIF_RAND=lcg7"}, s.env...)
	r := e.RunEnv(s.bin, db, env, "", args...)
	out := fmt.Sprintf("exit %d\n--- stdout\n%s", r.Code, r.Out)
	es, _ := os.ReadDir(db)
	for _, x := range es {
		if !x.IsDir() {
			if t := string(mustRead(filepath.Join(db, x.Name()))); t != s.fs[x.Name()] || s.fs[x.Name()] == "" {
				out += "--- " + x.Name() + "\n" + t
			}
		}
	}
	return out, readOps(log), r
}

// p32big are command lines on files that take several reads each.
func p32big() (out []p22scene) {
	add := func(name string, fs Files, bin string, cmds ...string) {
		for _, c := range cmds {
			out = append(out, p22scene{name: name + ": " + bin + " " + c, fs: fs, bin: bin, args: strings.Fields(c)})
		}
	}
	rich := p22rich()
	// every file in several parts of 4096 bytes and more
	long := func(s string) string {
		for len(s) < 13000 {
			s += s
		}
		return s
	}
	com, acc := rich["commodities.coin"], rich["accounts.coin"]
	for i := 0; len(com) < 13000; i++ {
		com += Com{Id: "ZZ" + strings.Repeat(string(rune('A'+i/26%26)), 1+i/676) + string(rune('A'+i%26)), Dec: 2, Note: "a commodity"}.text()
	}
	for i := 0; len(acc) < 13000; i++ {
		acc += Acc{Name: fmt.Sprintf("Liabilities:Card:Number%d", i), Com: "CAD", Note: "an account"}.text()
	}
	fs := Files{"commodities.coin": com, "accounts.coin": acc, "prices.coin": long(rich["prices.coin"]), "2020.coin": long(rich["2020.coin"])}
	add("big", fs, "coin+fault", "balance", "register -r -m Expenses", "accounts", "commodities -p", "stats", "tags -v", "format @/2020.coin", "modify -a Food -pt: p1:q @/2020.coin")
	add("big", fs, "coin2html+fault", "")
	t := "include commodities.coin\ninclude prices.coin\ninclude accounts.coin\ninclude 2020.coin\n\n"
	for len(t) < 13000 {
		t += "test balance\nend test\n\n"
	}
	add("big test", with(fs, Files{"a.test": t}), "coin+fault", "test @/a.test")
	imp := p22imports()
	var gs []p25group
	accs := imp["accounts.coin"]
	var csv strings.Builder
	csv.WriteString("account,date,payee,amount,other\n")
	var ss []ofxStatement
	for i := 0; i < 120; i++ {
		a := fmt.Sprintf("Assets:Bank:B%d", i)
		accs += Acc{Name: a, Com: "CAD"}.text()
		gs = append(gs, p25group{name: fmt.Sprint(2000 + i), acc: a, rules: []p25rule{{acc: "Expenses:Car", expr: "GAS STATION"}, {acc: "Expenses:Food", expr: "KFC|FOOD"}, {acc: "Expenses:Misc"}}})
		fmt.Fprintf(&csv, "%d,2020/01/%02d,%s %d the payee with a long name,%d.50,x\n", 2000+i, i%28+1, []string{"KFC", "GAS STATION", "CINEMA"}[i%3], i, 10+i)
		fmt.Fprintf(&csv, "%d,2020/02/%02d,%s %d the payee with a long name,%d.50,x\n", 2000+i, i%28+1, []string{"KFC", "GAS STATION", "CINEMA"}[i%3], i, 10+i)
		ss = append(ss, ofxStatement{id: fmt.Sprint(2000 + i), bal: "100.00", lines: []ofxLine{{fmt.Sprintf("202001%02d", 1+i%28), fmt.Sprintf("-%d.50", 10+i), []string{"KFC", "GAS STATION", "CINEMA"}[i%3], "memo"}}})
	}
	rules := p25text(gs, true)
	src := ""
	for i := 0; len(src) < 9000; i++ {
		src += fmt.Sprintf("s%d 1\n  account 0\n  date 1\n  description 2\n  amount 3\n  n 4\n  note \"${n}\"\n", i)
	}
	src += "src 1\n  account 0\n  date 1\n  description 2\n  amount 3\n"
	f := with(imp, Files{"accounts.coin": accs, "ofx.rules": rules, "csv.rules": src + "---\n" + rules, "in.csv": csv.String(), "in.ofx": ofxText(ss)})
	add("big import", f, "ofx2coin+fault", "in.ofx", "-rules")
	add("big import", f, "csv2coin+fault", "-source src in.csv", "-rules")
	b := gcBook{template: true}
	m := 60
	for i := 0; i < m; i++ {
		b.coms = append(b.coms, gcCom{fmt.Sprint("C", i), "", 100})
		b.accs = append(b.accs, gcAcc{fmt.Sprint("Acc ", i), i/3 - 1, fmt.Sprint("C", i), "", ""})
		if i > 0 {
			b.prices = append(b.prices, gcPrice{"2019-12-31 10:59:00 +0000", fmt.Sprint("C", i), "C0", fmt.Sprint(i*7919%1000 + 1), "4"})
		}
		b.txs = append(b.txs, gcTx{"2019-12-31 10:59:00 +0000", "", fmt.Sprint("t", i*7907%1000), []gcSplit{{i, fmt.Sprint(5 + i), "1", ""}, {(i + 1) % m, fmt.Sprint(-5 - i), "1", ""}}})
	}
	gc := Files{"book.gnucash": gzipped(b.xml())}
	for _, mode := range [][]string{{"-gnucashdb", "@/book.gnucash"}, {"-y", "-gnucashdb", "@/book.gnucash"}} {
		out = append(out, p22scene{name: fmt.Sprint("big gnucash ", mode), fs: gc, bin: "gc2coin+fault", args: mode})
	}
	return
}

// p32lines are command lines on small files, each line of which is made longer than any buffer.
func p32lines() (out []p22scene) {
	add := func(fs Files, bin string, cmds ...string) {
		for _, c := range cmds {
			out = append(out, p22scene{name: bin + " " + c, fs: fs, bin: bin, args: strings.Fields(c)})
		}
	}
	led := Files{
		"commodities.coin": comsText(Com{Id: "CAD", Dec: 2, Default: true, Note: "n"}, Com{Id: "USD", Dec: 2, Symbol: "US"}),
		"accounts.coin":    accsText(Acc{Name: "A", Com: "CAD", Note: "n"}, Acc{Name: "B", Com: "USD", Closed: "2021/01/01"}, Acc{Name: "C", Com: "CAD"}),
		"prices.coin":      "P 2020/01/01 USD 1.30 CAD\n; comment\nP 2020/02/01 USD 1.40 CAD\n",
		"2020.coin": "; comment\n" + txsText(Tx{Date: "2020/01/02", Code: "7", Desc: "one two", Note: "#n", Notes: []string{"long note", "#t: v"}, Ps: []Post{{Acc: "A", Amt: "1.00", Com: "CAD", Notes: []string{"posting"}}, {Acc: "C"}}},
			Tx{Date: "2020/01/03", Desc: "three", Ps: []Post{{Acc: "A", Amt: "2.00", Com: "CAD"}, {Acc: "B", Amt: "-2.00", Com: "USD"}}}) + "* comment\n",
	}
	add(led, "coin", "balance", "register -r -v A", "accounts", "commodities", "commodities -p", "stats", "tags -v -a", "format @/2020.coin", "format -t @/2020.coin", "format -i @/2020.coin", "modify -a A -pt: x @/2020.coin")
	add(led, "coin2html", "")
	add(with(led, Files{"a.test": "include commodities.coin\ninclude prices.coin\ninclude accounts.coin\ninclude 2020.coin\n; comment\ntest balance\nend test\n\ntest register A\nwrong\nend test\n; comment\n"}), "coin", "test @/a.test")
	gs := []p25group{{name: "common", rules: []p25rule{{acc: "Expenses:Food", expr: "KFC|FOOD", notes: []string{"note"}}, {acc: "Expenses:Fun", expr: "CINEMA"}}},
		{name: "1000", acc: "Assets:Bank", rules: []p25rule{{acc: "Expenses:Car", expr: "GAS"}, {ref: "common"}}}}
	rules := p25text(gs, true)
	src := "src 1\n  account 0\n  date 1\n  description 2\n  amount 3\n  n 4\n  note \"${n}\"\n\nnone 1\n  account 0\n  date 1\n  description 2\n  amount 4\n"
	imp := with(led, Files{"accounts.coin": accsText(Acc{Name: "A", Com: "CAD"}, Acc{Name: "B", Com: "USD"}, Acc{Name: "C", Com: "CAD"}, Acc{Name: "Assets:Bank", Com: "CAD"}, Acc{Name: "Expenses:Food", Com: "CAD"}, Acc{Name: "Expenses:Fun", Com: "CAD"}, Acc{Name: "Expenses:Car", Com: "CAD"}),
		"ofx.rules": rules, "csv.rules": src + "---\n" + rules,
		"in.csv": "account,date,payee,amount,other\n1000,2020/01/05,KFC 1,5.50,x\n1000,2020/01/06,GAS 2,6.50,y\n1000,2020/01/06,CINEMA 2,7.50,\n",
		"in.ofx": strings.ReplaceAll(ofxText([]ofxStatement{{id: "1000", bal: "100.00", lines: []ofxLine{{"20200105", "-5.50", "KFC 1", "m"}, {"20200106", "-6.50", "GAS 2", "memo"}}}}), "><", ">\n<")})
	add(imp, "ofx2coin", "in.ofx", "-rules")
	add(imp, "csv2coin", "-source src in.csv", "-rules", "-source none in.csv")
	return
}

var p32xs = regexp.MustCompile(`x{20,}`)
var p32blanks = regexp.MustCompile(`[ \t\r-]+`)
var p32words = regexp.MustCompile(`X( X)+`)

// p32long runs the scene with a run of x put at the end of a line of a file, or in front of its last field.
func (s p22scene) p32long(e *Env, fn string, line, how, n int) (string, Result) {
	ls := strings.SplitAfter(s.fs[fn], "\n")
	l := strings.TrimSuffix(ls[line], "\n")
	xs := strings.Repeat("x", n)
	switch how {
	case 0:
		l += xs
	case 1:
		l += " ; " + xs
	case 2:
		l = strings.Replace(l, " ", " "+xs+" ", 1)
	case 3: // many short words
		l += strings.Repeat(" "+strings.Repeat("x", 30), n/30)
	}
	ls[line] = l + "\n"
	s.fs = with(s.fs, Files{fn: strings.Join(ls, "")})
	db := e.Sub("db", s.fs)
	args := append([]string{}, s.args...)
	for i := range args {
		args[i] = strings.ReplaceAll(args[i], "@", db)
	}
	r := e.RunEnv(s.bin, db, nil, "", args...)
	out := fmt.Sprintf("exit %d\n--- stdout\n%s", r.Code, r.Out)
	es, _ := os.ReadDir(db)
	for _, x := range es {
		out += "--- " + x.Name() + "\n" + string(mustRead(filepath.Join(db, x.Name())))
	}
	return p32words.ReplaceAllString(p32blanks.ReplaceAllString(p32xs.ReplaceAllString(out, "X"), " "), "X"), r
}

func init() {
	lscenes := p32lines()
	scenes := p22scenes()
	for i := range scenes {
		scenes[i].bin = strings.Replace(scenes[i].bin, "+sched", "+fault", 1)
	}
	for _, s := range p32big() {
		s.big = true
		scenes = append(scenes, s)
	}
	register(&Prop{ID: "P32", Level: "fault_enumeration", Bins: []string{"coin", "coin2html", "ofx2coin", "csv2coin", "coin+fault", "ofx2coin+fault", "csv2coin+fault", "gc2coin+fault", "gen2coin+fault+rand", "coin2html+fault"},
		Assumptions: []string{
			"file operations go through the system calls that tools/fault.go.txt knows; all of Go's library does",
			"asking whether a file exists and listing a directory are not made to fail: a pattern that cannot be resolved matches nothing, as filepath.Glob documents",
		},
		Rule: "all operations of each command line on files of the ledger and on the standard output are numbered; each of them in turn fails with an error, finds the disk full or falls short",
		Spaces: func(tier string) []Space {
			parts := 4
			deep := tier != "quick"
			if deep {
				parts = 16
			}
			long := func(c *Chooser) *Case {
				s := lscenes[c.N(len(lscenes))]
				names := sortedKeys(s.fs)
				fn := names[c.N(len(names))]
				return &Case{Key: s.name + " " + fn, Run: func(e *Env) {
					for line := 0; line < strings.Count(s.fs[fn], "\n"); line++ {
						for how := 0; how < 4; how++ {
							short, _ := s.p32long(e, fn, line, how, 990)
							for _, n := range []int{4080, 65520, 70020, 200010} {
								got, r := s.p32long(e, fn, line, how, n)
								e.State(fmt.Sprint(s.name, fn, line, how, n))
								e.Outcome(fmt.Sprint(s.name, r.Code, hash64(got)))
								if r.Hang || r.Code == -1 || r.Code == 0 && got != short {
									e.Fail(fmt.Sprint(s.name, " ", fn, " ", line, " ", how), "%s %v: with %d bytes more in line %d of %s [%d] it ends with exit %d and %s\n%s\n--- with 990 bytes\n%s", s.bin, s.args, n, line+1, fn, how, r.Code, firstDiff(got, short), clipped(got, 2000), clipped(short, 2000))
									return
								}
							}
						}
					}
				}}
			}
			return []Space{{Name: "long lines", Rule: fmt.Sprintf("%d command lines, every line of every file made longer in four ways by 4080 to 200010 bytes: all the same work as with 990, or failure", len(lscenes)), Gen: long}, {Name: "faults", Rule: "every command line with every operation failing in every way (of the writes of large outputs, in quick only the first six and the last few)" + map[bool]string{true: "; each of the next four reads and writes failing after one fell short"}[deep], Gen: func(c *Chooser) *Case {
				s, part := scenes[c.N(len(scenes))], c.N(parts)
				return &Case{Key: fmt.Sprint(s.name, " ", part), Run: func(e *Env) {
					base, ops, r := s.faulty(e, "")
					if len(ops) == 0 {
						return
					}
					if r.Hang {
						e.Fail(s.name, "%s %v: %d operations", s.bin, s.args, len(ops))
						return
					}
					writes := 0
					for i, o := range ops {
						if o.kind == "write" {
							// the writes of large outputs are much the same
							if writes++; !deep && writes > 6 && i < len(ops)-6 && s.big {
								continue
							}
						}
						if i%parts != part {
							continue
						}
						if o.kind == "open" && filepath.Clean(o.path) == filepath.Join(e.Dir, "db") {
							continue // filepath.Glob takes failure for an empty directory, as documented
						}
						try := func(faults string, short bool) ([]fop, bool) {
							got, ops, r := s.faulty(e, faults)
							e.State(s.name + faults)
							e.Outcome(fmt.Sprint(s.name, hash64(got)))
							if r.Code == 0 && got != base || short && got != base || r.Hang || r.Code == -1 {
								what := "an error"
								if short {
									what = "less done than asked for"
								}
								e.Fail(fmt.Sprint(s.name, " ", faults), "%s %v: with %s at operation %d (%s %s) [%s] it ends with exit %d and %s\n%s\n--- without\n%s", s.bin, s.args, what, i, o.kind, o.path, faults, r.Code, firstDiff(got, base), clipped(got, 2000), clipped(base, 2000))
								return ops, false
							}
							return ops, true
						}
						for _, m := range faultModes(o, false) {
							ops, ok := try(fmt.Sprintf("%d:%c", i, m), m == 's')
							if !ok {
								return
							}
							if !deep || m != 's' {
								continue
							}
							for j := i + 1; j < len(ops) && j <= i+4; j++ {
								if k := ops[j].kind; k == "read" || k == "write" {
									if _, ok := try(fmt.Sprintf("%d:s,%d:e", i, j), false); !ok {
										return
									}
								}
							}
						}
					}
				}}
			}}}
		}})
}
