package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/sim"
)

// These mirror the worker's protocol (harness/worker_test.go).
type Job struct {
	Prop    string
	Mode    string
	Base    uint64
	Index   int
	Stride  int
	Seconds float64
	MaxRuns int
	Classes []string
	Seed    uint64
	Tape    sim.Tape
	Verbose bool
	Record  string
	Out     string
}

type Line struct {
	K     string
	I     int
	Seed  uint64
	Scen  string
	Viol  []sim.Violation
	Tape  sim.Tape
	Log   []string
	Hash  uint64
	Steps int
	Sum   *Summary
	Other map[string]int
}

type Summary struct {
	Runs, Steps, YSteps, Contended int
	SimNs                          int64
	Stats                          map[string]int
	Scen                           map[string]int
	Hashes                         []uint64
	Pairs                          []string
	Mismatch                       int
	Samples                        []Sample
	Leaked                         bool
}

type Sample struct {
	Seed     uint64
	Scenario string
	Steps    int
	SimMs    float64
	Stats    map[string]int
}

var jobN atomic.Int64

// maxRSS is the most memory any worker took, in kB.
var maxRSS atomic.Int64

type procs struct {
	mu   sync.Mutex
	live map[*exec.Cmd]bool
	dead bool
}

var running = procs{live: map[*exec.Cmd]bool{}}

func (p *procs) killAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.dead = true
	for c := range p.live {
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	}
}

type jobResult struct {
	lines  []Line
	stderr string
	code   int
	killed bool // by signal
}

func runJob(bin string, j Job, limit time.Duration) jobResult {
	n := jobN.Add(1)
	base := filepath.Join(scratch, fmt.Sprintf("j%d", n))
	j.Out = base + ".out"
	b, err := json.Marshal(j)
	must(err)
	must(os.WriteFile(base+".job", b, 0666))
	c := exec.Command("/bin/sh", "-c", `ulimit -v 16000000; exec "$0" -test.run '^TestWorker$' -test.timeout 0 -test.count 1`, bin)
	c.Dir = scratch
	c.Env = []string{"VERIF_JOB=" + base + ".job", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=200", "GOMEMLIMIT=1500MiB", "PATH=/usr/bin:/bin", "HOME=" + scratch, "GOTRACEBACK=single"}
	if p := os.Getenv("VERIF_PROF"); p != "" {
		c.Env = append(c.Env, fmt.Sprintf("VERIF_PROF=%s.%d", p, n))
	}
	var errb bytes.Buffer
	c.Stderr = &errb
	c.Stdout = &errb
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	running.mu.Lock()
	if running.dead {
		running.mu.Unlock()
		return jobResult{code: -1, killed: true}
	}
	if err := c.Start(); err != nil {
		running.mu.Unlock()
		fatal("starting worker: %v", err)
	}
	running.live[c] = true
	running.mu.Unlock()
	var timedOut atomic.Bool
	t := time.AfterFunc(limit, func() {
		timedOut.Store(true)
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	c.Wait()
	t.Stop()
	running.mu.Lock()
	delete(running.live, c)
	running.mu.Unlock()
	r := jobResult{stderr: errb.String(), code: c.ProcessState.ExitCode()}
	if u, ok := c.ProcessState.SysUsage().(*syscall.Rusage); ok {
		for m := maxRSS.Load(); u.Maxrss > m && !maxRSS.CompareAndSwap(m, u.Maxrss); m = maxRSS.Load() {
		}
	}
	if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.killed = true
	}
	if timedOut.Load() {
		r.stderr += "\nVERIF-STUCK: killed by the driver after " + limit.String()
	}
	if f, err := os.Open(j.Out); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<30)
		for sc.Scan() {
			var l Line
			if json.Unmarshal(sc.Bytes(), &l) == nil {
				r.lines = append(r.lines, l)
			}
		}
		f.Close()
	}
	os.Remove(j.Out)
	os.Remove(base + ".job")
	return r
}

var frameRE = regexp.MustCompile(`(?m)^([^\s(][^\n]*)\(.*\)\n\t(\S+):(\d+)`)

// crashClass decides whose fault the death of a worker was: the topmost
// frame of the dying goroutine that is not the Go runtime or library.
func crashClass(r jobResult) (class, detail string, ours bool) {
	e := r.stderr
	if strings.Contains(e, "VERIF-STUCK") {
		return "stuck", trim(e, 2000), true
	}
	if strings.Contains(e, "out of memory") || strings.Contains(e, "cannot allocate memory") || strings.Contains(e, "makeslice: len out of range") && false || r.killed {
		return "crash-oom", trim(e, 3000), false
	}
	i := strings.Index(e, "panic:")
	if j := strings.Index(e, "fatal error:"); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i < 0 {
		return "error", trim(e, 3000), true
	}
	e = e[i:]
	if strings.HasPrefix(e, "fatal error: stack overflow") || strings.Contains(e, "stack exceeds") {
		return "crash", trim(e, 3000), false
	}
	g := strings.Index(e, "\ngoroutine ")
	if g < 0 {
		return "error", trim(e, 3000), true
	}
	for _, m := range frameRE.FindAllStringSubmatch(e[g:], -1) {
		fn := m[1]
		switch {
		case strings.HasPrefix(fn, "github.com/zeldovich/go-rpcgen") || strings.HasPrefix(fn, "verif/gensut"):
			return "crash", trim(e, 3000), false
		case strings.HasPrefix(fn, "verif/ssync"):
			return "crash", trim(e, 3000), false // misuse of a lock, as the real one would panic
		case strings.HasPrefix(fn, "verif/"):
			return "error", trim(e, 3000), true
		}
	}
	return "error", trim(e, 3000), true
}
