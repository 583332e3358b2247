package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// Env is what a running case sees: scratch space, binaries, and where to report.
type Env struct {
	Bin     string // directory of built binaries
	Dir     string // scratch directory of this worker
	Verbose bool

	fails    []Fail
	states   map[uint64]bool
	traces   int // executions of the real code compared with the model
	outcomes map[uint64]bool
	known    []Known
	knownHit map[string]bool
	prop     string
}

// Fail is one disagreement.
type Fail struct {
	Sig     string // identifies what fails (used for known findings)
	Msg     string
	Space   string
	Choices []int
	Key     string
}

// Known is an entry of known_findings.json.
type Known struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
}

// Fail reports a violation. sig identifies the failing input/history.
func (e *Env) Fail(sig, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	for _, k := range e.known {
		if k.Property == e.prop && k.Sig == sig {
			e.knownHit[k.Sig+": "+k.What] = true
			return
		}
	}
	if len(e.fails) < 20 {
		e.fails = append(e.fails, Fail{Sig: sig, Msg: msg})
	}
}

// State notes a distinct model state (canonical form).
func (e *Env) State(s string) { e.states[hash64(s)] = true }

// Outcome notes an observed outcome of the implementation.
func (e *Env) Outcome(s string) { e.outcomes[hash64(s)] = true; e.traces++ }

// Result of running a command.
type Result struct {
	Out, Err string
	Code     int // exit code, -1 killed by signal or timeout
	Hang     bool
}

// Files of a scratch directory.
type Files map[string]string

// Sub makes a fresh scratch directory with the given files.
func (e *Env) Sub(name string, files Files) string {
	d := filepath.Join(e.Dir, name)
	os.RemoveAll(d)
	must(os.MkdirAll(d, 0o755))
	for fn, content := range files {
		p := filepath.Join(d, fn)
		if strings.Contains(fn, "/") {
			must(os.MkdirAll(filepath.Dir(p), 0o755))
		}
		must(os.WriteFile(p, []byte(content), 0o644))
	}
	return d
}

const hangAfter = 60 * time.Second

// Run executes a built binary with COINDB=db.
func (e *Env) Run(bin, db string, args ...string) Result {
	return e.RunEnv(bin, db, nil, "", args...)
}

func (e *Env) RunEnv(bin, db string, env []string, stdin string, args ...string) Result {
	cmd := exec.Command(filepath.Join(e.Bin, bin), args...)
	cmd.Dir = db
	cmd.Env = append([]string{"COINDB=" + db, "TZ=UTC", "HOME=" + e.Dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GOGC=off"}, env...)
	var out, errb strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdin != "" {
		cmd.Stdin = strings.NewReader(stdin)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start %s: %v", bin, err))
	}
	timer := time.AfterFunc(hangAfter, func() { cmd.Process.Kill() })
	start := time.Now()
	err := cmd.Wait()
	timer.Stop()
	r := Result{Out: out.String(), Err: errb.String()}
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		}
		if r.Code == -1 && time.Since(start) >= hangAfter {
			r.Hang = true
		}
	}
	e.traces++
	return r
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// exitPanic is thrown by the os.Exit hook while guarded code runs.
type exitPanic struct{ code int }

var guarding bool

// Guarded runs f, catching panics and exits of the code under test.
func (e *Env) Guarded(f func()) (outcome string, failed bool) {
	guarding = true
	defer func() {
		guarding = false
		if r := recover(); r != nil {
			failed = true
			if x, ok := r.(exitPanic); ok {
				outcome = fmt.Sprintf("exit %d", x.code)
				return
			}
			outcome = "panic: " + fmt.Sprint(r)
			if strings.Contains(outcome, "runtime error") {
				outcome += "\n" + clip(string(debug.Stack()), 3000)
			}
		}
	}()
	f()
	return "", false
}

func mustJSON(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}
