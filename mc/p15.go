package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// P15: in-place rewriting never loses the file.

type fop struct{ kind, path string }

func readOps(log string) (ops []fop) {
	for _, l := range strings.Split(strings.TrimSuffix(string(mustRead(log)), "\n"), "\n") {
		if f := strings.Split(l, "\t"); len(f) == 4 {
			ops = append(ops, fop{f[1], f[2]})
		}
	}
	return
}

// faultModes lists what can go wrong at an operation (see tools/fault.go.txt).
func faultModes(o fop, kills bool) string {
	m := ""
	if kills {
		m = "kK"
	}
	switch o.kind {
	case "write":
		if kills {
			m += "h"
		}
		return m + "ensf"
	case "read":
		return m + "es"
	case "writev", "copy", "allocate":
		return m + "enf"
	case "close":
		return m + "el"
	case "sync", "truncate", "rename", "link", "mkdir":
		return m + "en"
	case "open":
		return m + "ena"
	case "stat", "list": // whether a file is there: filepath.Glob takes failure for its absence, as documented
		return m
	}
	return m + "e"
}

type p15scene struct {
	name    string
	fs      Files
	args    []string
	targets []string // files rewritten
}

// p15complete: the new content of a file has everything of the old content in it.
func (s p15scene) complete(n, now string) bool {
	old := strings.Fields(s.fs[n])
	got := strings.Fields(now)
	switch s.args[0] {
	case "test": // results come in between, lines stay in order
		for _, w := range got {
			if len(old) > 0 && old[0] == w {
				old = old[1:]
			}
		}
		return len(old) == 0
	case "format": // sorted by date
		sort.Strings(old)
		sort.Strings(got)
		return strings.Join(old, " ") == strings.Join(got, " ")
	}
	return len(old) == len(got) // modify puts other account names in place of some
}

// p15run runs the scene with faults and returns the files of the directory, the operations and how it ended.
func p15run(e *Env, s p15scene, faults string) (map[string]string, []fop, Result) {
	db := e.Sub("db", s.fs)
	log := filepath.Join(e.Dir, "ops")
	os.Remove(log)
	r := e.RunEnv("coin+fault", db, []string{"VERIF_FAULT=" + faults, "VERIF_FAULT_LOG=" + log}, "", s.args...)
	files := map[string]string{}
	filepath.Walk(db, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			n, _ := filepath.Rel(db, p)
			files[n] = string(mustRead(p))
		}
		return nil
	})
	return files, readOps(log), r
}

func (s p15scene) target(n string) bool {
	for _, t := range s.targets {
		if t == n {
			return true
		}
	}
	return false
}

// p15judge compares the outcome of a run with faults with the old and the new content of the files.
func p15judge(e *Env, s p15scene, after map[string]string, faults string, got map[string]string, ops []fop, r Result) bool {
	var last int
	fmt.Sscanf(faults[strings.LastIndex(faults, ",")+1:], "%d", &last)
	var log strings.Builder
	for i, o := range ops {
		fmt.Fprintf(&log, "%d %s %s\n", i, o.kind, o.path)
	}
	context := func() string {
		var ns []string
		for n := range got {
			ns = append(ns, fmt.Sprintf("%s (%d bytes)", n, len(got[n])))
		}
		sort.Strings(ns)
		return fmt.Sprintf("exit %d %s\noperations:\n%sfiles: %s", r.Code, oneLine(clip(r.Err, 300)), clip(log.String(), 3000), strings.Join(ns, ", "))
	}
	bad := func(what string) bool {
		e.Fail(s.name+" "+faults, "coin %v with %s: %s\n%s", s.args, faults, what, context())
		return false
	}
	if r.Hang {
		return bad("does not end")
	}
	killed := r.Code == -1
	for n, old := range s.fs {
		now, there := got[n]
		if !there {
			return bad(n + " is gone")
		}
		if !s.target(n) {
			if now != old {
				return bad(n + " was not to be changed and was")
			}
			continue
		}
		is := map[bool]string{true: "old"}[now == old]
		if now == after[n] {
			is += "new"
		}
		if is == "" {
			return bad(fmt.Sprintf("%s has neither its complete old nor its complete new content (%d bytes, was %d, to be %d):\n%s", n, len(now), len(old), len(after[n]), clip(now, 1500)))
		}
		if !killed && r.Code == 0 && !strings.HasSuffix(is, "new") {
			return bad(n + " was not rewritten and success was reported")
		}
		if !killed && r.Code != 0 && !strings.HasPrefix(is, "old") {
			// only what was already in place when the fault came is new
			placed := false
			for i := 0; i < last && i < len(ops); i++ {
				if ops[i].kind == "rename" && filepath.Base(ops[i].path) == filepath.Base(n) {
					placed = true
				}
			}
			if !placed {
				return bad(n + " was replaced although the run failed before")
			}
		}
	}
	for n := range got {
		if _, was := s.fs[n]; !was && (strings.HasSuffix(n, ".coin") || strings.HasSuffix(n, ".prices")) {
			return bad("a file is left that the ledger is read from: " + n)
		}
	}
	return true
}

func p15scenes() []p15scene {
	coms := comsText(Com{Id: "CAD", Dec: 2, Default: true}, Com{Id: "USD", Dec: 2})
	accs := accsText(Acc{Name: "Assets:Bank"}, Acc{Name: "Assets:Cash"}, Acc{Name: "Expenses:Food"})
	prices := Pri{"2020/01/01", "USD", "CAD", "1.5"}.text()
	txs := func(n, from int) string {
		t := ""
		for i := n; i > 0; i-- {
			t += Tx{Date: fmt.Sprintf("2020/%02d/%02d", from+i%3, i%28+1), Desc: fmt.Sprint("shop  number ", i), Ps: []Post{{Acc: "Expenses:Food", Amt: fmt.Sprint(i, ".50"), Com: "CAD"}, {Acc: "Assets:Bank", Amt: fmt.Sprint(-i, ".50"), Com: "CAD"}}}.text()
		}
		return t
	}
	base := Files{"commodities.coin": coms, "accounts.coin": accs, "prices.coin": prices}
	var out []p15scene
	sizes := []int{0, 1, 3, 60, 200} // 200: several buffers
	for _, n := range sizes {
		for _, m := range []int{-1, 0, 2, 100} {
			if m >= 0 && (n == 0 || n == 200) {
				continue
			}
			fs := with(base, Files{"transactions.coin": txs(n, 1)})
			files := []string{"transactions.coin"}
			if m >= 0 {
				fs = with(base, Files{"one.coin": txs(n, 1), "two.coin": txs(m, 4)})
				files = []string{"one.coin", "two.coin"}
			}
			name := fmt.Sprint(n, " ", m)
			out = append(out, p15scene{"format -i " + name, fs, append([]string{"format", "-i"}, files...), files},
				p15scene{"modify " + name, fs, append([]string{"modify", "-a", "Assets:Bank", "-a:", "Assets:Cash", "-p", "1$"}, files...), files})
		}
	}
	// elsewhere than the current directory, without anything to change, with descriptions trimmed
	out = append(out, p15scene{"format -i sub", with(base, Files{"transactions.coin": "", "sub/x": txs(3, 1)}), []string{"format", "-i", "-t", "sub/x"}, []string{"sub/x"}},
		p15scene{"modify none", with(base, Files{"transactions.coin": txs(3, 1)}), []string{"modify", "-a", "Assets:Cash", "-a:", "Expenses:Food", "transactions.coin"}, []string{"transactions.coin"}})
	// results of test clauses
	clause := func(cmd string) string { return "test " + cmd + "\nend test\n\n" }
	for _, n := range []int{1, 3, 60} {
		fs := with(base, Files{"transactions.coin": txs(n, 1)})
		for i, t := range []string{
			clause("balance"),
			"; a comment\n\n" + clause("register Expenses") + clause("balance -t Assets"),
			strings.Repeat("; comment of the file\n", 300) + clause("register Expenses") + clause("register -v Assets") + "; the end\n",
		} {
			out = append(out, p15scene{fmt.Sprint("test ", n, " ", i), with(fs, Files{"a.test": "include commodities.coin\ninclude accounts.coin\ninclude transactions.coin\n\n" + t}), []string{"test", "a.test"}, []string{"a.test"}})
		}
		out = append(out, p15scene{fmt.Sprint("test two ", n), with(fs, Files{"a.test": "include commodities.coin\ninclude accounts.coin\ninclude transactions.coin\ninclude b.test\n\n" + clause("balance"), "b.test": clause("register Assets") + "; end\n"}),
			[]string{"test", "a.test"}, []string{"a.test", "b.test"}})
	}
	return out
}

func init() {
	register(&Prop{ID: "P15", Level: "fault_enumeration", Bins: []string{"coin+fault"},
		Assumptions: []string{
			"a kill leaves in the file system what the system calls before it did: losing power, and with it what the system still held in memory, is not part of the property",
			"file operations go through the system calls that tools/fault.go.txt knows; all of Go's library does",
		},
		Rule: "all operations of each rewriting run on files of the ledger are numbered; each of them in turn is the last one done or not done, a write also done by half, fails with an error, falls short or finds the disk full; in pairs, every operation after a failed one fails too",
		Spaces: func(tier string) []Space {
			scenes := p15scenes()
			var small []p15scene
			for _, s := range scenes {
				total := 0
				for _, t := range s.fs {
					total += len(t)
				}
				if total < 1500 || tier != "quick" && total < 9000 {
					small = append(small, s)
				}
			}
			each := func(name, rule string, scenes []p15scene, parts int, f func(e *Env, s p15scene, part int, after map[string]string, ops []fop)) Space {
				return Space{Name: name, Rule: rule, Gen: func(c *Chooser) *Case {
					s := scenes[c.N(len(scenes))]
					part := c.N(parts)
					return &Case{Key: fmt.Sprint(s.name, " part ", part), Run: func(e *Env) {
						after, ops, r := p15run(e, s, "")
						if r.Code != 0 || len(ops) == 0 {
							e.Fail(s.name, "coin %v without faults: exit %d, %d operations\n%s%s", s.args, r.Code, len(ops), r.Out, r.Err)
							return
						}
						for _, n := range s.targets {
							if !s.complete(n, after[n]) {
								e.Fail(s.name, "coin %v loses some of %s:\n%s", s.args, n, clip(after[n], 3000))
								return
							}
						}
						if again, ops2, _ := p15run(e, s, ""); fmt.Sprint(again) != fmt.Sprint(after) || len(ops2) != len(ops) {
							e.Fail(s.name, "coin %v gives different files or operations from run to run: %d and %d operations", s.args, len(ops), len(ops2))
							return
						}
						f(e, s, part, after, ops)
					}}
				}}
			}
			const parts = 4
			return []Space{
				each("one fault", "every scene, every operation, every way it can go wrong, and every way of being killed at it", scenes, parts, func(e *Env, s p15scene, part int, after map[string]string, ops []fop) {
					for i, o := range ops {
						if i%parts != part {
							continue
						}
						for _, m := range faultModes(o, true) {
							faults := fmt.Sprintf("%d:%c", i, m)
							got, log, r := p15run(e, s, faults)
							e.State(s.name + faults)
							e.Outcome(fmt.Sprint(s.name, r.Code, hash64(fmt.Sprint(got))))
							if !p15judge(e, s, after, faults, got, log, r) {
								return
							}
						}
					}
				}),
				each("two faults", "small scenes, every operation that fails, and every later one that fails too or is the last one", small, parts, func(e *Env, s p15scene, part int, after map[string]string, ops []fop) {
					for i, o := range ops {
						if i%parts != part {
							continue
						}
						for _, m := range faultModes(o, false) {
							one := fmt.Sprintf("%d:%c", i, m)
							_, log1, _ := p15run(e, s, one)
							for j := i + 1; j < len(log1); j++ {
								for _, m2 := range faultModes(log1[j], true) {
									faults := fmt.Sprintf("%s,%d:%c", one, j, m2)
									got, log, r := p15run(e, s, faults)
									e.State(s.name + faults)
									e.Outcome(fmt.Sprint(s.name, r.Code, hash64(fmt.Sprint(got))))
									if !p15judge(e, s, after, faults, got, log, r) {
										return
									}
								}
							}
						}
					}
				}),
			}
		}})
}
