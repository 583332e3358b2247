package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// P17: test clauses are judged and filled in faithfully.

var p17entries = []string{
	comsText(Com{Id: "CAD", Dec: 2, Default: true, Note: "Dollar"}, Com{Id: "BND", Dec: 3}),
	accsText(Acc{Name: "As:Bank", Com: "CAD", Note: "bank"}, Acc{Name: "Ex:Food", Com: "CAD"}, Acc{Name: "As:Fund", Com: "BND"}),
	"P 2020/01/02 BND 2.00 CAD\n\n",
	"2020/01/05 Payee One ; #tag: v\n  As:Bank  -5.00 CAD\n  Ex:Food\n\n",
	"2020/02/06 Other\n  As:Fund  1.500 BND ; n\n  As:Bank  -3.00 CAD\n\n",
}

var p17cmds = []string{"balance", "register As:Bank", "register -r -v  Root", "accounts -c", "tags -v", "commodities -p", "balance -b 2020/02/01 -z", "stats", "register -m -o json Ex:Food", "register -b 2030 As:Bank", "format", "register -y -bt -r As"}

const (
	p17right   = iota
	p17missing // no result
	p17changed // a character differs
	p17extra   // a line too many
	p17short   // a line too few
	p17blanks  // white space differs
	p17swapped // lines in another order
	p17ending  // a line that only begins like the end of the clause
	p17kinds
)

// p17result makes the recorded result of a clause; judged tells how it is to be judged, ok that the kind applies.
func p17result(actual string, kind int) (res string, fails, ok bool) {
	ls := strings.SplitAfter(actual, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	switch kind {
	case p17right:
		return actual, false, actual != ""
	case p17missing:
		return "", false, true
	case p17changed:
		i := strings.IndexAny(actual, "0123456789")
		if i < 0 {
			return "", false, false
		}
		c := byte('1')
		if actual[i] == '1' {
			c = '2'
		}
		return actual[:i] + string(c) + actual[i+1:], true, true
	case p17extra:
		return actual + "another line\n", true, true
	case p17ending:
		if len(ls) == 0 {
			return "", false, false
		}
		return ls[0] + "end tests\n" + strings.Join(ls[1:], ""), true, true
	case p17short:
		if len(ls) < 2 {
			return "", false, false
		}
		return strings.Join(ls[:len(ls)-1], ""), true, true
	case p17blanks:
		i := strings.IndexAny(actual, " |:")
		if i < 0 {
			return "", false, false
		}
		return actual[:i] + " " + actual[i:], true, true
	case p17swapped:
		if len(ls) < 2 || ls[0] == ls[len(ls)-1] {
			return "", false, false
		}
		ls[0], ls[len(ls)-1] = ls[len(ls)-1], ls[0]
		return strings.Join(ls, ""), true, true
	}
	panic(kind)
}

// p17part is a piece of a test file: text, a clause, or an include.
type p17part struct {
	text    string
	cmd     string
	kind    int
	include string
}

func p17clause(cmd, kind int) p17part { return p17part{cmd: p17cmds[cmd], kind: kind} }

// p17check runs a test over files (the first one is given to the command).
func p17check(e *Env, names []string, files map[string][]p17part, unterminated bool) {
	// the ledger without its clauses, for what the commands print
	var flat func(fn string) string
	flat = func(fn string) string {
		s := ""
		for _, p := range files[fn] {
			switch {
			case p.include != "":
				for _, n := range names {
					if ok, _ := filepath.Match(p.include, n); ok && n != fn {
						s += flat(n)
					}
				}
			case p.cmd == "":
				s += p.text
			}
		}
		return s
	}
	led := e.Sub("plain", Files{"commodities.coin": p17entries[0], "accounts.coin": p17entries[1], "prices.coin": p17entries[2], "t.coin": strings.NewReplacer(p17entries[0], "", p17entries[1], "", p17entries[2], "").Replace(flat(names[0]))})
	cache := map[string]string{}
	actual := func(cmd string) string {
		if out, ok := cache[cmd]; ok {
			return out
		}
		args := strings.Fields(cmd)
		if args[0] == "format" {
			args = append(args, led+"/t.coin")
		}
		r := e.Run("coin", led, args...)
		if r.Code != 0 {
			panic(fmt.Sprintf("oracle: coin %v: %s %s", args, r.Out, r.Err))
		}
		cache[cmd] = r.Out
		return r.Out
	}
	type clause struct {
		file        string
		line        int
		cmd         string
		fails, fill bool
	}
	content, after := Files{}, map[string]string{}
	var clauses []clause
	for _, fn := range names {
		s, a := "", ""
		for i, p := range files[fn] {
			switch {
			case p.include != "":
				s += "include " + p.include + "\n\n"
				a += "include " + p.include + "\n\n"
			case p.cmd == "":
				s += p.text
				a += p.text
			default:
				out := actual(p.cmd)
				res, fails, ok := p17result(out, p.kind)
				if !ok {
					return // not a case
				}
				clauses = append(clauses, clause{fn, lines(s) + 1, p.cmd, fails, p.kind == p17missing})
				end := "end test\n\n"
				if unterminated && i == len(files[fn])-1 {
					end = "end test"
				}
				s += "test " + p.cmd + "\n" + res + end
				if p.kind == p17missing {
					res = out
				}
				a += "test " + p.cmd + "\n" + res + end
			}
		}
		content[fn], after[fn] = s, a
	}
	sub := "db"
	if unterminated {
		sub = "d:1b" // a path with the separator of locations
	}
	db := e.Sub(sub, content)
	key := mustJSON(content)
	e.State(key)
	bad := func(format string, a ...any) {
		e.Fail(key, "%s\n--- files\n%s", fmt.Sprintf(format, a...), clip(fmt.Sprint(content), 4000))
	}
	norm := func(s string) string { return strings.TrimRight(s, "\n") }
	check := func(round string, args []string) bool {
		r := e.Run("coin", db, append(append([]string{"test"}, args...), db+"/"+names[0])...)
		if r.Code != 0 {
			bad("%s: exit %d\n%s%s", round, r.Code, r.Out, r.Err)
			return false
		}
		ok := true
		failedFile := map[string]bool{}
		for _, c := range clauses {
			loc := fmt.Sprintf("%s/%s:%d", db, c.file, c.line)
			if round != "first" {
				// lines moved by what was filled in
				loc = fmt.Sprintf("%s/%s:%d", db, c.file, p17line(after[c.file], content[c.file], c.line))
			}
			var said []string
			for _, l := range nonEmptyLines(r.Out) {
				if hasToken(l, loc) && (strings.HasPrefix(l, "FAIL") || strings.HasPrefix(l, "OK")) {
					said = append(said, strings.Fields(l)[0])
				}
			}
			got := strings.Join(said, " ")
			want := ""
			if c.fails {
				want = "FAIL"
				failedFile[c.file] = true
			} else if len(args) > 0 && !(c.fill && round == "first") && !(c.fill && cache[c.cmd] == "") {
				want = "OK"
			}
			if got != want {
				bad("%s %v: clause %q at %s is reported as %q, should be %q\n%s", round, args, c.cmd, loc, got, want, r.Out)
				ok = false
			}
		}
		for _, fn := range names {
			for _, l := range nonEmptyLines(r.Out) {
				f := strings.Fields(l)
				if len(f) == 2 && f[1] == db+"/"+fn && (f[0] == "FAIL") != failedFile[fn] {
					bad("%s %v: file %s is reported as %s\n%s", round, args, fn, f[0], r.Out)
					ok = false
				}
			}
		}
		last := nonEmptyLines(r.Out)
		if len(args) == 0 && len(clauses) > 0 {
			seen := 0
			for _, l := range last {
				if f := strings.Fields(l); len(f) == 2 && f[1] == db+"/"+clauses[0].file {
					seen++
				}
			}
			if seen != 1 {
				bad("%s: file %s is reported %d times\n%s", round, clauses[0].file, seen, r.Out)
				ok = false
			}
		}
		for _, fn := range names {
			if got := string(mustRead(db + "/" + fn)); norm(got) != norm(after[fn]) {
				bad("%s: file %s is now\n%s\n--- should be\n%s", round, fn, got, after[fn])
				ok = false
			}
		}
		if ds, _ := os.ReadDir(db); len(ds) != len(names) {
			bad("%s: other files are left behind: %v", round, ds)
			ok = false
		}
		return ok
	}
	if check("first", nil) {
		_ = check("second", nil) && check("third", []string{"-v"})
	}
	// verbose from the start
	for fn, s := range content {
		must(os.WriteFile(db+"/"+fn, []byte(s), 0o644))
	}
	check("first", []string{"-v"})
}

// p17line finds where a line of the old content is in the new one, which has lines added.
func p17line(now, was string, line int) int {
	n, w := strings.Split(now, "\n"), strings.Split(was, "\n")
	j := 0
	for i := 0; i < line; i++ {
		for n[j] != w[i] {
			j++
		}
		j++
	}
	return j
}

func mustRead(fn string) []byte {
	b, err := os.ReadFile(fn)
	must(err)
	return b
}

func init() {
	register(&Prop{
		ID: "P17", Level: "model_checking", Bins: []string{"coin"},
		Rule:        "a case is one or more test files; states are distinct contents",
		Assumptions: []string{"what a command prints is taken from the command itself run on the same entries", "commands that change the ledger in memory (modify, format -t) are not among the clauses", "line ends are plain"},
		Spaces: func(tier string) []Space {
			text := func(s string) p17part { return p17part{text: s} }
			all := func(i, j int) p17part { return text(strings.Join(p17entries[i:j], "")) }
			fillers := []p17part{{}, text("; a comment\n\n"), text("# test balance\n; end test\n\n"), text("\n\n"), text("2020/03/07 Late\n  As:Bank  -1.00 CAD\n  Ex:Food\n\n")}
			each := func(c *Chooser) *Case {
				cmd, kind := c.N(len(p17cmds)), c.N(p17kinds)
				pos := c.N(3)
				un := c.N(2) == 1
				parts := []p17part{all(0, 5), p17clause(cmd, kind)}
				switch pos {
				case 1: // the clause comes before the transactions
					parts = []p17part{all(0, 3), p17clause(cmd, kind), all(3, 5)}
				case 2:
					parts = []p17part{all(0, 4), text("; c\n"), p17clause(cmd, kind), text("; d\n"), all(4, 5)}
				}
				if un && pos > 0 {
					return nil
				}
				return &Case{Key: fmt.Sprint("each ", p17cmds[cmd], kind, pos, un), Run: func(e *Env) { p17check(e, []string{"a.test"}, map[string][]p17part{"a.test": parts}, un) }}
			}
			var some func(c *Chooser, n int) *Case
			several := func(c *Chooser) *Case { return some(c, 2+c.N(2)) }
			four := func(c *Chooser) *Case { return some(c, 4) }
			some = func(c *Chooser, n int) *Case {
				first := c.N(3)
				parts := []p17part{all(0, 5)}
				key := ""
				for i := 0; i < n; i++ {
					k := c.N(4)
					cmd := (i + first*3 + c.Dev(2)) % len(p17cmds)
					if f := c.Dev(len(fillers)); f > 0 {
						parts = append(parts, fillers[f])
						key += fmt.Sprint("f", f)
					}
					parts = append(parts, p17clause(cmd, k))
					key += fmt.Sprint(" ", cmd, "/", k)
				}
				un := c.Flag()
				return &Case{Key: fmt.Sprint("several ", key, un), Run: func(e *Env) { p17check(e, []string{"a.test"}, map[string][]p17part{"a.test": parts}, un) }}
			}
			includes := func(c *Chooser) *Case {
				// clauses in the file itself before and after an include, and in the included files
				kinds := []int{p17right, p17missing, p17changed, -1}
				shape := c.N(3)
				names := []string{"a.test", "b.inc", "c.inc"}
				files := map[string][]p17part{}
				key := fmt.Sprint(shape)
				put := func(fn string, cmd int) {
					k := kinds[c.N(4)]
					key += fmt.Sprint(" ", fn, cmd, k)
					if k >= 0 {
						files[fn] = append(files[fn], p17clause(cmd, k))
					}
				}
				files["a.test"] = []p17part{all(0, 4)}
				put("a.test", 0)
				switch shape {
				case 0:
					names = names[:2]
					files["a.test"] = append(files["a.test"], p17part{include: "b.inc"})
				case 1:
					files["a.test"] = append(files["a.test"], p17part{include: "*.inc"})
				case 2: // nested
					files["a.test"] = append(files["a.test"], p17part{include: "b.inc"})
				}
				put("a.test", 1)
				put("b.inc", 6)
				if shape == 2 {
					files["b.inc"] = append(files["b.inc"], p17part{include: "c.inc"})
					put("b.inc", 4)
				}
				files["b.inc"] = append(files["b.inc"], fillers[4])
				if shape > 0 {
					files["c.inc"] = []p17part{all(4, 5)}
					put("c.inc", 3)
				}
				return &Case{Key: "includes " + key, Run: func(e *Env) { p17check(e, names, files, false) }}
			}
			unknown := func(c *Chooser) *Case {
				// a clause that names no command fails, the others are still judged
				pos := c.N(3)
				bad := []string{"nonsense -x", "", "Balance"}[c.N(3)]
				kind := c.N(3)
				return &Case{Key: fmt.Sprint("unknown ", bad, pos, kind), Run: func(e *Env) {
					good := "test accounts\n" + []string{"bogus\n", "", "As\n"}[kind] + "end test\n\n"
					badt := "test " + bad + "\nx\nend test\n\n"
					cl := []string{good, good, good}
					cl[pos] = badt
					s := strings.Join(p17entries, "")
					var locs []int
					at := lines(s)
					for _, x := range cl {
						locs = append(locs, at+1)
						at += lines(x)
					}
					fn := e.Sub("db", Files{"a.test": s + strings.Join(cl, "")}) + "/a.test"
					r := e.Run("coin", filepath.Dir(fn), "test", fn)
					for i := range cl {
						failed := false
						for _, l := range nonEmptyLines(r.Out + "\n" + r.Err) {
							if strings.HasPrefix(l, "FAIL") && hasToken(l, fmt.Sprintf("%s:%d", fn, locs[i])) {
								failed = true
							}
						}
						if failed != (i == pos || kind != 1) {
							e.Fail(fmt.Sprint("unknown ", bad, pos, kind), "clause at line %d: failure reported: %v\n%s%s\n%s", locs[i], failed, r.Out, r.Err, s+strings.Join(cl, ""))
						}
					}
					if got := string(mustRead(fn)); kind == 1 && strings.Count(got, "Ex:Food ") < 2 {
						e.Fail(fmt.Sprint("unfilled ", bad, pos, kind), "clauses without result are not filled in\n%s", got)
					}
				}}
			}
			b := 1
			if tier == "thorough" {
				b = 2
			}
			spaces := []Space{
				{Name: "clauses", Rule: "every command x kind of recorded result x position", Gen: each},
				{Name: "several", Rule: "2-3 clauses with right, missing, changed and long results, up to b other things between", Bound: b, Gen: several},
				{Name: "includes", Rule: "clauses around an include and in plain, wildcard and nested included files", Gen: includes},
				{Name: "unknown", Rule: "clauses naming no command among others", Gen: unknown},
			}
			if tier == "thorough" {
				spaces = append(spaces, Space{Name: "four", Rule: "four clauses, one other thing between", Bound: 1, Gen: four})
			}
			return spaces
		},
	})
}
