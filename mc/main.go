// Command mc is a bounded model checker for the coin ledger tools: it enumerates bounded spaces of
// ledgers, command lines, histories, faults and schedules exhaustively, runs the real code on every
// one of them and compares what it does with reference models.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type workerOut struct {
	Spaces   []spaceOut
	Fails    []Fail
	Known    []string
	Traces   int
	Samples  []string
	Complete bool
	Err      string
}

type spaceOut struct {
	Name     string
	Edges    int
	Leaves   int // leaves walked (all shards see all)
	Ran      int // cases run by this shard
	Complete bool
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, strings.Join(props[id].Bins, ","))
		}
	case "bins":
		fmt.Println(strings.Join(props[os.Args[2]].Bins, " "))
	case "run":
		os.Exit(supervise(os.Args[2], os.Args[3], os.Args[4]))
	case "worker":
		runtime.GOMAXPROCS(2)
		debug.SetGCPercent(400)
		if f := os.Getenv("MC_PROFILE"); f != "" {
			out, _ := os.Create(fmt.Sprint(f, os.Getpid()))
			pprof.StartCPUProfile(out)
			defer pprof.StopCPUProfile()
		}
		worker(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2], os.Args[3], os.Args[4] == "-v"))
	case "count":
		p := props[os.Args[2]]
		for _, s := range p.Spaces(os.Args[3]) {
			t := time.Now()
			e, l, _ := walk(&s, func(int, *Chooser, *Case) bool { return true })
			fmt.Printf("%-30s edges=%d cases=%d gen=%v\n", s.Name, e, l, time.Since(t))
		}
	default:
		os.Exit(2)
	}
}

func loadKnown(verif string) []Known {
	var all struct {
		Known []Known `json:"known"`
	}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	must(json.Unmarshal(b, &all))
	return all.Known
}

func budget(tier string) time.Duration {
	if s := os.Getenv("MC_BUDGET"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if tier == "thorough" {
		return 40 * time.Minute
	}
	return 300 * time.Second
}

func scratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if t, err := os.MkdirTemp(d, "coinmc"); err == nil {
			var st syscall.Statfs_t
			if syscall.Statfs(t, &st) == nil && st.Bavail*uint64(st.Bsize) > 256<<20 {
				return t
			}
			os.RemoveAll(t)
		}
	}
	panic("no scratch space")
}

// supervise runs the check of one property and returns the exit status.
func supervise(id, tier, bin string) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	scratch := scratchRoot()
	defer os.RemoveAll(scratch)
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if s := os.Getenv("MC_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	deadline := start.Add(budget(tier))
	outs := make([]*workerOut, n)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var crashes []Fail
	harnessErr := ""
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o, crash, err := runWorker(id, tier, i, n, bin, scratch, deadline)
			mu.Lock()
			defer mu.Unlock()
			outs[i] = o
			if crash != nil {
				crashes = append(crashes, *crash)
			}
			if err != "" {
				harnessErr = err
			}
		}(i)
	}
	wg.Wait()
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "harness error:", harnessErr)
		return 2
	}
	// merge
	var fails []Fail
	known := map[string]bool{}
	fails = append(fails, crashes...)
	evals, traces, edges := 0, 0, 0
	complete := true
	var samples []string
	var spaces []map[string]any
	for i, o := range outs {
		if o == nil {
			complete = false
			continue
		}
		if o.Err != "" {
			fmt.Fprintln(os.Stderr, "harness error:", o.Err)
			return 2
		}
		fails = append(fails, o.Fails...)
		for _, k := range o.Known {
			known[k] = true
		}
		traces += o.Traces
		complete = complete && o.Complete
		if i == 0 {
			samples = o.Samples
		}
		for j, s := range o.Spaces {
			evals += s.Ran
			if i == 0 {
				spaces = append(spaces, map[string]any{"space": s.Name, "cases": s.Leaves, "choice_edges": s.Edges, "run": s.Ran, "complete": s.Complete})
				edges += s.Edges
			} else if j < len(spaces) {
				spaces[j]["run"] = spaces[j]["run"].(int) + s.Ran
				spaces[j]["complete"] = spaces[j]["complete"].(bool) && s.Complete
			}
		}
	}
	distinct := countHashes(scratch, "keys")
	states := countHashes(scratch, "states")
	outcomes := countHashes(scratch, "outcomes")
	ps := p.Spaces(tier)
	for j := range spaces {
		spaces[j]["rule"] = ps[j].Rule
		spaces[j]["deviation_bound"] = ps[j].Bound
	}
	// confirm
	var confirmed []Fail
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Key) < len(fails[j].Key) })
	seenSig := map[string]bool{}
	for _, f := range fails {
		if seenSig[f.Sig] || len(confirmed) >= 3 {
			continue
		}
		seenSig[f.Sig] = true
		ok := true
		rounds := 5
		if strings.Contains(f.Msg, "did not terminate") {
			rounds = 1
		}
		rf := filepath.Join(scratch, "confirm.json")
		writeReplay(rf, id, tier, f)
		for r := 0; r < rounds; r++ {
			c := exec.Command(os.Args[0], "replay", rf, bin, "-q")
			c.Env = append(os.Environ(), "MC_SCRATCH="+filepath.Join(scratch, "replay"))
			err := c.Run()
			code := 0
			if err != nil {
				code = -1
				if ee, k := err.(*exec.ExitError); k {
					code = ee.ExitCode()
				}
			}
			if code == 0 {
				ok = false
				break
			}
		}
		if ok {
			confirmed = append(confirmed, f)
		} else {
			fmt.Printf("NOTE not reproduced on replay, not reported: %s %s\n", f.Sig, oneLine(clip(f.Msg, 500)))
			complete = false
		}
	}
	evDir := filepath.Join(verif, "evidence")
	must(os.MkdirAll(evDir, 0o755))
	if old, err := filepath.Glob(filepath.Join(evDir, "replay-"+id+"-*.json")); err == nil {
		for _, o := range old {
			os.Remove(o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) > 6 {
		samples = samples[:6]
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   edges,
		"traces_validated_against_impl": traces,
		"evaluations":                   evals,
		"distinct_nontrivial":           distinct,
		"distinct_outcomes":             outcomes,
		"rule":                          p.Rule,
		"samples":                       samples,
		"spaces":                        spaces,
		"exhaustive":                    complete,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(confirmed),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(evDir, id+".json"), b, 0o644))
	fmt.Printf("%s %s: cases=%d distinct=%d states=%d edges=%d executions=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n",
		id, tier, evals, distinct, states, edges, traces, outcomes, complete, len(confirmed), time.Since(start).Seconds())
	for _, s := range spaces {
		fmt.Printf("  %-32v cases=%v run=%v complete=%v\n", s["space"], s["cases"], s["run"], s["complete"])
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, oneLine(k))
	}
	if len(confirmed) > 0 {
		for i, f := range confirmed {
			rf := filepath.Join(evDir, fmt.Sprintf("replay-%s-%d.json", id, i+1))
			writeReplay(rf, id, tier, f)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rf)
			fmt.Printf("  %s: %s\n", f.Sig, clip(f.Msg, 1500))
		}
		return 1
	}
	if evals == 0 {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	return 0
}

type replayFile struct {
	Property, Tier, Space string
	Choices               []int
	Sig, Msg, Case        string
	How                   string
}

func writeReplay(fn, id, tier string, f Fail) {
	b, _ := json.MarshalIndent(replayFile{id, tier, f.Space, f.Choices, f.Sig, f.Msg, f.Key,
		"bash /verif/check.sh replay " + "<this file>"}, "", " ")
	must(os.WriteFile(fn, b, 0o644))
}

func countHashes(scratch, kind string) int {
	seen := map[uint64]struct{}{}
	files, _ := filepath.Glob(filepath.Join(scratch, "w*."+kind))
	for _, fn := range files {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			seen[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	return len(seen)
}

func writeHashes(fn string, m map[uint64]bool) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(fn, b, 0o644)
}

// runWorker starts one shard and watches it.
func runWorker(id, tier string, i, n int, bin, scratch string, deadline time.Time) (*workerOut, *Fail, string) {
	base := filepath.Join(scratch, fmt.Sprintf("w%d", i))
	os.MkdirAll(base, 0o755)
	c := exec.Command(os.Args[0], "worker", id, tier, strconv.Itoa(i), strconv.Itoa(n), bin, base, strconv.FormatInt(deadline.Unix(), 10))
	var errb strings.Builder
	c.Stderr = &errb
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		return nil, nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	progress := base + ".progress"
	last, lastChange := "", time.Now()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	hang := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(progress)
			if s := string(b); s != last {
				last, lastChange = s, time.Now()
			} else if time.Since(lastChange) > 2*hangAfter+60*time.Second && last != "" {
				hang = true
				c.Process.Kill()
			}
		}
	}
	if err != nil {
		b, _ := os.ReadFile(progress)
		var f Fail
		if json.Unmarshal(b, &f) == nil && f.Space != "" {
			f.Sig = "crash"
			f.Msg = "the code under test brought the process down: " + clip(errb.String(), 3000)
			if hang {
				f.Sig, f.Msg = "hang", "the code under test did not terminate"
			}
			if !hang && !strings.Contains(errb.String(), "fatal error:") {
				// an ordinary panic outside of guarded code is the harness's own
				return nil, nil, errb.String()
			}
			return nil, &f, ""
		}
		return nil, nil, fmt.Sprintf("worker failed: %v\n%s", err, errb.String())
	}
	b, rerr := os.ReadFile(base + ".json")
	if rerr != nil {
		return nil, nil, rerr.Error() + errb.String()
	}
	var o workerOut
	if jerr := json.Unmarshal(b, &o); jerr != nil {
		return nil, nil, jerr.Error()
	}
	return &o, nil, ""
}

func newEnv(id, bin, dir string) *Env {
	e := &Env{Bin: bin, Dir: dir, states: map[uint64]bool{}, outcomes: map[uint64]bool{}, knownHit: map[string]bool{}, prop: id}
	e.known = loadKnown(os.Getenv("VERIF_DIR"))
	setupInProcess(e)
	return e
}

func worker(args []string) {
	id, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	bin, base := args[4], args[5]
	dl, _ := strconv.ParseInt(args[6], 10, 64)
	deadline := time.Unix(dl, 0)
	e := newEnv(id, bin, base)
	var o workerOut
	o.Complete = true
	keys := map[uint64]bool{}
	pf, err := os.Create(base + ".progress")
	must(err)
	started := time.Now()
	lastNote := time.Time{}
	for _, s := range props[id].Spaces(tier) {
		so := spaceOut{Name: s.Name}
		count := 0
		stop := false
		sampled := 0
		fails0 := 0
		so.Edges, so.Leaves, so.Complete = walk(&s, func(idx int, c *Chooser, k *Case) bool {
			if idx&0x3ff == 0 && time.Now().After(deadline) {
				stop = true
				return false
			}
			if idx%n != shard {
				return true
			}
			if time.Now().After(deadline) {
				stop = true
				return false
			}
			keys[hash64(s.Name+"\x00"+k.Key)] = true
			note := false
			if time.Since(lastNote) > 500*time.Millisecond || count < 50 || len(props[id].Bins) > 0 {
				note = true
				lastNote = time.Now()
			}
			f := Fail{Space: s.Name, Choices: c.choices(), Key: k.Key}
			if note || crashProne {
				b, _ := json.Marshal(f)
				pf.Truncate(0)
				pf.WriteAt(b, 0)
			}
			e.fails = e.fails[:0]
			k.Run(e)
			count++
			if sampled < 2 && (idx == shard || idx > 100) {
				sampled++
				o.Samples = append(o.Samples, s.Name+": "+clip(k.Key, 700))
			}
			for _, x := range e.fails {
				x.Space, x.Choices, x.Key = f.Space, f.Choices, f.Key
				o.Fails = append(o.Fails, x)
				fails0++
			}
			return fails0 < 8
		})
		so.Ran = count
		if stop || fails0 >= 8 {
			so.Complete = false
			o.Complete = false
		}
		o.Spaces = append(o.Spaces, so)
		if len(o.Fails) >= 16 {
			o.Complete = false
			break
		}
	}
	_ = started
	for k := range e.knownHit {
		o.Known = append(o.Known, k)
	}
	o.Traces = e.traces
	writeHashes(base+".keys", keys)
	writeHashes(base+".states", e.states)
	writeHashes(base+".outcomes", e.outcomes)
	b, err := json.Marshal(o)
	must(err)
	must(os.WriteFile(base+".json", b, 0o644))
	os.RemoveAll(base)
}

// crashProne: note every case before running it (in-process code under test may die fatally).
var crashProne = true

func replayMain(fn, bin string, verbose bool) int {
	var r replayFile
	b, err := os.ReadFile(fn)
	must(err)
	must(json.Unmarshal(b, &r))
	dir := os.Getenv("MC_SCRATCH")
	if dir == "" {
		dir = scratchRoot()
	}
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	e := newEnv(r.Property, bin, dir)
	e.Verbose = verbose
	for _, s := range props[r.Property].Spaces(r.Tier) {
		if s.Name != r.Space {
			continue
		}
		c := &Chooser{prefix: r.Choices, bound: 1 << 20}
		k := s.Gen(c)
		if len(c.trace) != len(r.Choices) {
			fmt.Fprintln(os.Stderr, "replay diverged")
			return 2
		}
		if verbose {
			fmt.Println(k.Key)
		}
		k.Run(e)
		if len(e.fails) > 0 {
			for _, f := range e.fails {
				if verbose {
					fmt.Println("FAILS:", f.Sig, f.Msg)
				}
			}
			return 1
		}
		if verbose {
			fmt.Println("holds")
		}
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such space", r.Space)
	return 2
}
