package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
)

// P38: a command line means the same however and wherever it is given.

// p38names are the names of the commands, as their usage gives them.
var p38names = [][]string{{"accounts", "acc", "a"}, {"balance", "bal", "b"}, {"commodities", "com", "c"}, {"format", "fmt", "f"}, {"modify", "mod", "m"}, {"register", "reg", "r"}, {"stats", "s"}, {"tags"}, {"test", "t"}, {"version", "ver", "v"}}

// p38flags are the documented options of the commands, those that take a value with its kind.
var p38flags = map[string]string{
	"accounts":    "c",
	"balance":     "b:date e:date p:rex t:rex z l:int",
	"commodities": "q p f",
	"format":      "ledger i t",
	"modify":      "p:rex tt:rex pt:rex a:text a::text pt::text tt::text",
	"register":    "v r b:date e:date p:rex t:rex w m q y bp bt g:int c l:int f o:text n",
	"stats":       "d u c b:date e:date",
	"tags":        "v a",
	"test":        "v",
	"version":     "",
}

type p38opt struct{ name, value string }

// spellings of the option; the first one is the plain one
func (o p38opt) spellings() (out [][]string) {
	if o.value == "" {
		return [][]string{{"-" + o.name}, {"--" + o.name}, {"-" + o.name + "=true"}, {"--" + o.name + "=1"}}
	}
	return [][]string{{"-" + o.name, o.value}, {"-" + o.name + "=" + o.value}, {"--" + o.name, o.value}, {"--" + o.name + "=" + o.value}}
}

type p38cmd struct {
	bin  string
	cmd  []string
	opts []p38opt
	args [][]string
}

func p38cmds() (out []p38cmd) {
	for _, r := range p36readers() {
		if r.bin == "gen2coin" || r.bin == "gc2coin" || r.bin == "coin2html" || len(r.cmd) == 0 && r.bin == "coin" {
			continue
		}
		c := p38cmd{bin: r.bin, cmd: r.cmd, args: r.args}
		for _, o := range r.opts {
			if len(o) == 0 || o[0] == "-h" || o[0] == "-x" || len(o) > 1 && strings.HasPrefix(o[1], "@") || o[0][0] != '-' {
				continue
			}
			x := p38opt{name: o[0][1:]}
			if len(o) > 1 {
				x.value = o[1]
			}
			c.opts = append(c.opts, x)
		}
		out = append(out, c)
	}
	return
}

// p38orders gives every order of the numbers below n.
func p38orders(n int) (out [][]int) {
	if n == 0 {
		return [][]int{nil}
	}
	for _, p := range p38orders(n - 1) {
		for i := 0; i <= len(p); i++ {
			out = append(out, append(append(append([]int{}, p[:i]...), n-1), p[i:]...))
		}
	}
	return
}

func init() {
	rich := with(p22rich(), p22imports())
	r, i := p22rich(), p22imports()
	for _, n := range []string{"commodities.coin", "accounts.coin", "2020.coin"} {
		rich[n] = r[n]
	}
	rich["accounts.coin"] += i["accounts.coin"]
	for _, x := range []string{"USD", "EUR", "YEN", "GBP", "CHF", "AUD", "NZD", "BND", "K1", "K2"} {
		rich["prices.coin"] += Pri{"2020/01/01", x, "CAD", "1.5"}.text() + Pri{"2020/01/01", "CAD", x, "2"}.text()
	}
	cmds := p38cmds()
	at := func(db string, args ...[]string) (out []string) {
		for _, a := range args {
			for _, x := range a {
				out = append(out, strings.ReplaceAll(x, "@", filepath.Dir(db)))
			}
		}
		return
	}
	show := func(r Result) string {
		return fmt.Sprintf("(exit %d)\n%s--- stderr\n%s", r.Code, clipped(r.Out, 600), clipped(r.Err, 600))
	}
	register(&Prop{
		ID: "P38", Level: "model_checking", Bins: []string{"coin", "ofx2coin", "csv2coin"},
		Rule: "a case is a command with a set of its options; states are distinct command lines",
		Assumptions: []string{
			"commands are run on one ledger that has something to show for every option",
			"options follow the rules of Go's flag package: they come before the arguments",
			"coin commodities -q is not run: there is no network",
		},
		Spaces: func(tier string) []Space {
			depth := 2
			if tier == "thorough" {
				depth = 3
			}
			// choose picks a set of at most max options of the command
			choose := func(c *Chooser, cm p38cmd, max int) (set []p38opt, ok bool) {
				last := 0
				for len(set) < max {
					k := c.N(len(cm.opts) + 1)
					if k == 0 {
						break
					}
					if k <= last {
						return nil, false
					}
					last = k
					for _, o := range set {
						if o.name == cm.opts[k-1].name {
							return nil, false
						}
					}
					set = append(set, cm.opts[k-1])
				}
				return set, true
			}
			same := func(e *Env, a, b Result, sig string, one, other []string) bool {
				e.State(sig)
				e.Outcome(fmt.Sprint(a.Code, hash64(a.Out), b.Code, hash64(b.Out)))
				if a.Code != b.Code || a.Out != b.Out || a.Code == 0 && a.Err != b.Err {
					e.Fail(sig, "%q and %q do not say the same:\n%s\n--- and\n%s", one, other, show(a), show(b))
					return false
				}
				return true
			}
			spelling := func(c *Chooser) *Case {
				cm := cmds[c.N(len(cmds))]
				set, ok := choose(c, cm, depth)
				if !ok {
					return nil
				}
				return &Case{Key: fmt.Sprint(cm.bin, cm.cmd, set), Run: func(e *Env) {
					db := e.Sub("db", rich)
					orders := p38orders(len(set))
					for _, args := range cm.args {
						plain := at(db, cm.cmd)
						for _, o := range set {
							plain = append(plain, at(db, o.spellings()[0])...)
						}
						plain = append(plain, at(db, args)...)
						want := e.Run(cm.bin, db, plain...)
						try := func(opts ...[]string) bool {
							line := append(at(db, cm.cmd), at(db, opts...)...)
							return same(e, want, e.Run(cm.bin, db, line...), fmt.Sprint(cm.bin, line), plain, line)
						}
						// every order and spelling of the options
						n := 1
						for range set {
							n *= 4
						}
						for oi, order := range orders {
							for m := 0; m < n; m++ {
								if oi == 0 && m == 0 || len(set) > 2 && m%21 != 0 {
									continue
								}
								var opts [][]string
								for _, k := range order {
									opts = append(opts, set[k].spellings()[m>>(2*k)&3])
								}
								if !try(append(opts, args)...) {
									return
								}
							}
						}
						var opts [][]string
						for _, o := range set {
							opts = append(opts, o.spellings()[0])
						}
						// the end of the options marked, an option repeated, options switched off
						if !try(append(append([][]string{}, opts...), []string{"--"}, args)...) {
							return
						}
						for k := range set {
							if !try(append(append(append([][]string{}, opts[k]), opts...), args)...) {
								return
							}
						}
						for _, o := range cm.opts {
							if o.value != "" || strings.Contains(fmt.Sprint(set), fmt.Sprint(o)) {
								continue
							}
							if len(set) < depth && !try(append(append(append([][]string{}, opts...), []string{"-" + o.name + "=false"}), args)...) {
								return
							}
						}
						// of an option given twice the last one counts
						for _, o := range set {
							other := map[string]string{"b": "2020/03/03", "e": "2020/01/31", "p": "Other", "t": "v", "l": "3", "g": "1", "o": "text"}[o.name]
							if cm.bin != "coin" || other == "" || o.value == "" {
								continue
							}
							if !try(append(append([][]string{{"-" + o.name, other}}, opts...), args)...) {
								return
							}
						}
					}
				}}
			}
			names := func(c *Chooser) *Case {
				ni := c.N(len(p38names))
				var cm p38cmd
				for _, x := range cmds {
					if x.bin == "coin" && x.cmd[0] == p38names[ni][0] {
						cm = x
					}
				}
				if cm.bin == "" { // the rest
					cm = p38cmd{bin: "coin", cmd: p38names[ni][:1], args: [][]string{nil, {"@/db/2020.coin"}, {"@/db/none"}}}
				}
				if p38names[ni][0] == "modify" {
					cm.opts = []p38opt{{"p", "Payee 1"}, {"a", "Cash"}, {"tt:", "new"}, {"a:", "Fun"}}
				}
				if p38names[ni][0] == "test" {
					cm.opts = []p38opt{{"v", ""}}
					cm.args = append(cm.args, []string{"@/db/a.test"})
				}
				set, ok := choose(c, cm, depth)
				if !ok {
					return nil
				}
				return &Case{Key: fmt.Sprint(p38names[ni], set), Run: func(e *Env) {
					fs := with(rich, Files{"a.test": "include commodities.coin\ninclude accounts.coin\ninclude 2020.coin\ntest stats\nx\nend test\ntest tags u1\n#u1\nend test\n"})
					for _, args := range cm.args {
						var first Result
						var left string
						var opts [][]string
						for _, o := range set {
							opts = append(opts, o.spellings()[0])
						}
						for k, n := range p38names[ni] {
							db := e.Sub("db", fs)
							r := e.Run("coin", db, at(db, append(append([][]string{{n}}, opts...), args)...)...)
							now := string(mustRead(db + "/2020.coin"))
							if k == 0 {
								first, left = r, now
								continue
							}
							if !same(e, first, r, fmt.Sprint(n, set, args), []string{p38names[ni][0]}, []string{n, fmt.Sprint(opts), fmt.Sprint(args)}) {
								return
							}
							if now != left {
								e.Fail(fmt.Sprint(n, set, args), "%s %v %v leaves the file otherwise than %s does", n, opts, args, p38names[ni][0])
								return
							}
						}
						if ni == 1 && len(set) == 0 && len(args) == 0 {
							db := e.Sub("db", fs)
							if !same(e, first, e.Run("coin", db), "default", []string{"balance"}, nil) {
								return
							}
						}
					}
				}}
			}
			// what is not understood: the command, an option, its value
			refused := func(c *Chooser) *Case {
				ni := c.N(len(p38names))
				name := p38names[ni][0]
				flags := strings.Fields(p38flags[name])
				fi := c.N(len(flags) + 2)
				good := [][]string{nil}
				for _, x := range cmds {
					if x.bin == "coin" && x.cmd[0] == name {
						for _, o := range x.opts {
							good = append(good, o.spellings()[0])
						}
					}
				}
				gi := c.N(len(good))
				return &Case{Key: fmt.Sprint("refused ", name, fi, gi), Run: func(e *Env) {
					db := e.Sub("db", rich)
					var lines [][]string
					word := ""
					switch {
					case fi == 0: // options there are not
						for _, x := range []string{"-nix", "--nix", "-nix=1", "-zz", "-B", "-ledge", "-vv", "-xx"} {
							lines = append(lines, []string{name, x}, append(append([]string{name}, good[gi]...), x), append(append([]string{name}, append([]string{x}, good[gi]...)...), "Assets"))
						}
						word = "nix zz B ledge vv xx"
					case fi == 1: // commands there are not
						for _, x := range []string{name + "x", strings.ToUpper(name), name[:len(name)-1] + "_", name[1:], " " + name, "-" + name, "help", ""} {
							known := false
							for _, ns := range p38names {
								for _, n := range ns {
									known = known || n == x
								}
							}
							if !known {
								lines = append(lines, append([]string{x}, good[gi]...))
							}
						}
					default:
						f, kind, _ := strings.Cut(strings.TrimSuffix(flags[fi-2], ":"), ":")
						if x := flags[fi-2]; strings.Count(x, ":") == 2 {
							f, kind = x[:strings.Index(x, ":")+1], "text"
						}
						var bad []string
						switch kind {
						case "":
							bad = []string{"maybe", "2", "yes", "", "x"}
						case "int":
							bad = []string{"x", "1.5", "", "1x", "99999999999999999999", "one"}
						case "date":
							bad = []string{"x", "2020/13/01", "2020/00/10", "2020/01/32", "2020-01-01", "", "2020/01/01x", " 2020/01/01", "2020/01/01 ", "1/2/3/4", "20200101", "Jan"}
						}
						for _, b := range bad {
							lines = append(lines, append(append([]string{name}, good[gi]...), "-"+f+"="+b), append([]string{name, "-" + f + "=" + b}, good[gi]...))
							if kind != "" {
								lines = append(lines, append(append([]string{name}, good[gi]...), "-"+f, b))
							}
						}
						if kind != "" { // a value that is missing
							lines = append(lines, []string{name, "-" + f}, append(append([]string{name}, good[gi]...), "-"+f))
						}
						word = f
					}
					for _, l := range lines {
						sig := fmt.Sprintf("%q", l)
						r := e.Run("coin", db, l...)
						e.State(sig)
						e.Outcome(fmt.Sprint(r.Code, hash64(r.Err)))
						named := false
						for _, w := range strings.Fields(word) {
							named = named || strings.Contains(r.Err, w)
						}
						switch {
						case r.Code == 0 || r.Hang || r.Code < 0 || strings.Contains(r.Err, "goroutine "):
							e.Fail(sig, "coin %q is not refused %s", l, show(r))
							return
						case r.Out != "":
							e.Fail(sig, "coin %q prints something although it is refused %s", l, show(r))
							return
						case r.Err == "" || word != "" && !named:
							e.Fail(sig, "coin %q: what is refused is not told %s", l, show(r))
							return
						}
					}
				}}
			}
			help := func(c *Chooser) *Case {
				ni := c.N(len(p38names))
				alias := c.N(len(p38names[ni]))
				word := []string{"-h", "-help", "--help", "--h"}[c.N(4)]
				return &Case{Key: fmt.Sprint("help ", ni, alias, word), Run: func(e *Env) {
					db := e.Sub("db", rich)
					n := p38names[ni][alias]
					r := e.Run("coin", db, n, word)
					sig := n + " " + word
					e.State(sig)
					e.Outcome(fmt.Sprint(r.Code, hash64(r.Err)))
					text := r.Out + r.Err
					listed := map[string]bool{}
					for _, l := range strings.Split(text, "\n") {
						if w := strings.Fields(l); strings.HasPrefix(l, "  -") {
							listed[w[0][1:]] = true
						}
					}
					for _, f := range strings.Fields(p38flags[p38names[ni][0]]) {
						name, _, _ := strings.Cut(f, ":")
						if strings.Count(f, ":") == 2 {
							name += ":"
						}
						if !listed[name] {
							e.Fail(sig, "help of %s does not tell of -%s\n%s", n, name, text)
							return
						}
					}
					for _, other := range p38names[ni] {
						if !hasWord(text, other) {
							e.Fail(sig, "help of %s does not tell its name %s\n%s", n, other, text)
							return
						}
					}
				}}
			}
			// what commands say in test clauses, also after others
			var lines [][]string
			for _, cm := range cmds {
				if cm.bin != "coin" || cm.cmd[0] == "format" || cm.cmd[0] == "commodities" {
					continue
				}
				for _, args := range cm.args {
					lines = append(lines, append(append([]string{}, cm.cmd...), args...))
					for _, o := range cm.opts {
						if o.name == "f" || strings.Contains(strings.Join(args, ""), "[") {
							continue
						}
						if len(args) > 0 && len(args[0]) > 0 && args[0] == "None" {
							continue
						}
						lines = append(lines, append(append(append([]string{}, cm.cmd...), o.spellings()[0]...), args...))
					}
				}
			}
			for _, x := range []string{"reg -r Root", "reg -r -m Expenses", "reg -r -y -c Expenses", "reg -r -bp Expenses", "reg -r -bt Expenses", "reg -m -o json -r Expenses", "bal -l 1 -z", "a -c", "bal -t t", "reg -r -t !u Expenses", "reg -n -r Assets", "reg -r -q -g 2 Expenses"} {
				lines = append(lines, strings.Fields(x))
			}
			var mu sync.Mutex
			results := map[string]Result{}
			said := func(e *Env, db string, l []string) Result {
				mu.Lock()
				defer mu.Unlock()
				r, ok := results[fmt.Sprint(l)]
				if !ok {
					r = e.Run("coin", db, l...)
					results[fmt.Sprint(l)] = r
				}
				return r
			}
			clauses := func(c *Chooser) *Case {
				n := 1
				if tier == "thorough" {
					n = 1 + c.N(2)
				}
				var pre [][]string
				for k := 0; k < n; k++ {
					pre = append(pre, lines[c.N(len(lines))])
				}
				return &Case{Key: fmt.Sprint("clauses ", pre), Run: func(e *Env) {
					db := e.Sub("db", rich)
					head := "include commodities.coin\ninclude accounts.coin\ninclude prices.coin\ninclude 2020.coin\n\n"
					for _, p := range pre {
						if said(e, db, p).Code != 0 {
							return // such a clause would end the test
						}
					}
					// every other one after these
					var after [][]string
					step := 1
					if n > 1 {
						step = 5
					}
					for k := int(hash64(fmt.Sprint(pre)) % uint64(step)); k < len(lines); k += step {
						after = append(after, lines[k])
					}
					for _, l := range after {
						want := said(e, db, l)
						if want.Code != 0 || want.Out == "" {
							continue
						}
						text := head
						for _, p := range pre {
							text += "test " + strings.Join(p, " ") + "\nx\nend test\n\n"
						}
						at := strings.Count(text, "\n") + 1
						text += "test " + strings.Join(l, " ") + "\n" + want.Out + "end test\n"
						e.Sub("db", with(rich, Files{"a.test": text}))
						r := e.Run("coin", db, "test", "-v", db+"/a.test")
						sig := fmt.Sprint("clause ", pre, l)
						e.State(sig)
						e.Outcome(fmt.Sprint(r.Code, hash64(r.Out)))
						ok := false
						for _, o := range strings.Split(r.Out, "\n") {
							if strings.HasPrefix(o, "OK ") && strings.Contains(o, fmt.Sprintf("a.test:%d", at)) {
								ok = true
							}
						}
						if !ok || r.Code != 0 {
							e.Fail(sig, "clause %q after %q does not say what the command says\n%s\n--- command\n%s", l, pre, show(r), show(want))
							return
						}
					}
				}}
			}
			return []Space{
				{Name: "spelling", Rule: fmt.Sprintf("%d commands with every set of up to %d options, every kind of argument: every order and spelling of the options (of sets of three all alike), repeated, followed by --, others switched off", len(cmds), depth), Gen: spelling},
				{Name: "names", Rule: fmt.Sprintf("every name of every command with every set of up to %d options and every kind of argument", depth), Gen: names},
				{Name: "refused", Rule: "every command with an option, a command name or an option's value that there is not, alone, before and after every other option", Gen: refused},
				{Name: "help", Rule: "every name of every command asked for help in 4 ways", Gen: help},
				{Name: "clauses", Rule: "every two commands with at most one option as test clauses one after the other (thorough: also a fifth of all threes)", Gen: clauses},
			}
		},
	})
}

func hasWord(text, w string) bool {
	for _, x := range strings.FieldsFunc(text, func(r rune) bool { return !(r >= 'a' && r <= 'z') }) {
		if x == w {
			return true
		}
	}
	return false
}
