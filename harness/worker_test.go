package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"verif/sim"
)

// Job is what the driver asks of a worker process.
type Job struct {
	Prop    string
	Mode    string // "explore", "replay", "twice"
	Base    uint64
	Index   int // runs Index, Index+Stride, ...
	Stride  int
	Seconds float64
	MaxRuns int
	Classes []string // stop at the first violation of one of these
	Seed    uint64
	Tape    sim.Tape
	Verbose bool
	Record  string // file to which every draw is written at once
	Out     string
}

// Line is one line of a worker's output.
type Line struct {
	K     string // "b": run begins, "v": violation, "o": violation of some other property, "r": replay result, "e": end
	I     int
	Seed  uint64
	Scen  string          `json:",omitempty"`
	Viol  []sim.Violation `json:",omitempty"`
	Tape  sim.Tape        `json:",omitempty"`
	Log   []string        `json:",omitempty"`
	Hash  uint64          `json:",omitempty"`
	Steps int             `json:",omitempty"`
	Sum   *Summary        `json:",omitempty"`
	Other map[string]int  `json:",omitempty"`
}

type Summary struct {
	Runs, Steps, YSteps, Contended int
	SimNs                          int64
	Stats                          map[string]int
	Scen                           map[string]int
	Hashes                         []uint64
	Pairs                          []string
	Mismatch                       int
	Samples                        []Sample
	Leaked                         bool
}

type Sample struct {
	Seed     uint64
	Scenario string
	Steps    int
	SimMs    float64
	Stats    map[string]int
}

// stderr stays referenced: its finalizer would close fd 2.
var stderr = os.Stderr

func TestWorker(t *testing.T) {
	jf := os.Getenv("VERIF_JOB")
	if jf == "" {
		t.Skip("only run by the driver")
	}
	b, err := os.ReadFile(jf)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	out, err := os.OpenFile(job.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
	if err != nil {
		t.Fatal(err)
	}
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = n // what the code under test prints; panics go to fd 2
	}
	emit := func(l Line) {
		b, err := json.Marshal(l)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
	start := time.Now()
	stop := make(chan struct{})
	go func() {
		// A run that makes no progress in real time has escaped the
		// simulator; say so instead of hanging.
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				if l := lastBegin.Load(); l > 0 && time.Now().UnixNano()-l > 120e9 {
					fmt.Fprintln(stderr, "VERIF-STUCK: a run made no progress for 120 s of real time")
					os.Exit(3)
				}
			}
		}
	}()
	if f := os.Getenv("VERIF_PROF"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
	}
	mono := monoNow()
	synctest.Test(t, func(t *testing.T) {
		switch job.Mode {
		case "replay":
			lastBegin.Store(realNow(start, mono))
			emit(Line{K: "b", Seed: job.Seed})
			// Without a tape the run is generated from its seed.
			if job.Record != "" {
				rf, err := os.Create(job.Record)
				if err != nil {
					panic(err)
				}
				sim.Record = func(n string, v uint32) { fmt.Fprintf(rf, "%s %d\n", n, v) }
			}
			r := RunOne(job.Prop, job.Seed, job.Tape, job.Verbose)
			emit(Line{K: "r", Seed: job.Seed, Scen: r.Scenario, Viol: r.Viol, Log: r.Log, Hash: r.Hash, Steps: r.Steps, Tape: r.Tape})
		case "explore", "twice":
			explore(job, emit, start, mono)
		}
		pprof.StopCPUProfile()
		os.Exit(0)
	})
}

func explore(job Job, emit func(Line), start time.Time, mono int64) {
	sum := &Summary{Stats: map[string]int{}, Scen: map[string]int{}}
	stopOn := map[string]bool{}
	for _, c := range job.Classes {
		stopOn[c] = true
	}
	hashes := map[uint64]struct{}{}
	pairs := map[string]struct{}{}
	other := map[string]int{}
	i := job.Index
	for {
		el := float64(monoNow()-mono) / 1e9
		if el > job.Seconds || job.MaxRuns > 0 && sum.Runs >= job.MaxRuns {
			break
		}
		seed := seedOf(job.Base, i)
		lastBegin.Store(realNow(start, mono))
		emit(Line{K: "b", I: i, Seed: seed})
		r := RunOne(job.Prop, seed, nil, false)
		sum.Runs++
		sum.Steps += r.Steps
		sum.YSteps += r.YSteps
		sum.SimNs += r.SimNs
		sum.Scen[r.Scenario]++
		for k, v := range r.Stats {
			sum.Stats[k] += v
		}
		if len(hashes) < 2000000 {
			hashes[r.Hash] = struct{}{}
		}
		if len(pairs) < 200000 {
			for p := range r.Pairs {
				pairs[p] = struct{}{}
			}
		}
		if len(sum.Samples) < 2 && len(r.Viol) == 0 && r.Steps > 50 {
			sum.Samples = append(sum.Samples, Sample{seed, r.Scenario, r.Steps, float64(r.SimNs) / 1e6, r.Stats})
		}
		hit := false
		for _, v := range r.Viol {
			if stopOn[v.Class] {
				hit = true
			} else {
				if other[v.Class] == 0 {
					emit(Line{K: "o", I: i, Seed: seed, Scen: r.Scenario, Viol: []sim.Violation{v}})
				}
				other[v.Class]++
			}
		}
		if hit {
			emit(Line{K: "v", I: i, Seed: seed, Scen: r.Scenario, Viol: r.Viol, Tape: r.Tape, Hash: r.Hash, Steps: r.Steps})
			break
		}
		if job.Mode == "twice" {
			a := RunOne(job.Prop, seed, nil, false)
			b := RunOne(job.Prop, seed, r.Tape, false)
			if a.Hash != r.Hash || b.Hash != r.Hash || a.Steps != r.Steps || b.Steps != r.Steps {
				sum.Mismatch++
			}
		}
		i += job.Stride
		if r.Leaked {
			sum.Leaked = true
			break
		}
	}
	for h := range hashes {
		sum.Hashes = append(sum.Hashes, h)
	}
	for p := range pairs {
		sum.Pairs = append(sum.Pairs, p)
	}
	sort.Strings(sum.Pairs)
	emit(Line{K: "e", I: i, Sum: sum, Other: other})
}
