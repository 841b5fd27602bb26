// vrun builds and drives the simulations: see DESIGN.md.
//
//	vrun check PROP      decide one property (VERIF_SEED, VERIF_TIER)
//	vrun replay FILE     reproduce a reported violation
//	vrun selftest [N]    determinism: N seeds per property, each run three times
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/sim"
)

// ReplayFile is everything needed to reproduce a violation.
type ReplayFile struct {
	Property  string            `json:"property"`
	Class     string            `json:"class"`
	Detail    string            `json:"detail"`
	Scenario  string            `json:"scenario,omitempty"`
	CheckSeed uint64            `json:"check_seed"`
	RunSeed   uint64            `json:"run_seed"`
	Exact     string            `json:"reproduces"` // how replaying was confirmed
	Minimised bool              `json:"minimised"`
	Hash      uint64            `json:"schedule_hash,omitempty"`
	Tape      sim.Tape          `json:"tape,omitempty"`
	Prefix    *Job              `json:"prefix,omitempty"` // runs that must precede it in the same process
	Specs     map[string]string `json:"specs,omitempty"`  // C14: generated specifications
	Gen       *genCase          `json:"generator_run,omitempty"`
	Log       []string          `json:"log,omitempty"`

	file string
}

type checkCtx struct {
	prop     string
	tier     string
	seed     uint64
	seconds  float64
	shrink   time.Duration
	start    time.Time
	workers  int
	evidence map[string]any
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check PROP | replay FILE | selftest [N]")
		os.Exit(2)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sig
		running.killAll()
		cleanup()
		os.Exit(2)
	}()
	var err error
	scratch, err = os.MkdirTemp("", "vrun.")
	must(err)
	code := 2
	func() {
		defer cleanup()
		switch os.Args[1] {
		case "check":
			code = check(os.Args[2])
		case "replay":
			code = replay(os.Args[2])
		case "hunt":
			code = hunt(os.Args[2])
		case "survey":
			code = survey(os.Args[2])
		case "show":
			seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
			w := buildWorker(nil, nil)
			v, l, why := tryTape(w, os.Args[2], seed, nil, true, "")
			if l != nil {
				for _, s := range l.Log {
					fmt.Println(s)
				}
			}
			fmt.Println(v, why)
			code = 0
		case "selftest":
			n := 300
			if len(os.Args) > 2 {
				n, _ = strconv.Atoi(os.Args[2])
			}
			code = selftest(n)
		default:
			fmt.Fprintln(os.Stderr, "vrun: unknown command", os.Args[1])
		}
	}()
	os.Exit(code)
}

func check(prop string) int {
	c := &checkCtx{prop: prop, tier: os.Getenv("VERIF_TIER"), start: time.Now(), workers: 8}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = uint64(s)
	}
	c.seconds, c.shrink = 40, 25*time.Second
	if c.tier == "thorough" {
		c.seconds, c.shrink = 600, 120*time.Second
	}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		c.seconds = s
	}
	switch prop {
	case "C15", "C16", "C19":
		return checkGenerator(c)
	case "C14":
		return checkSpecs(c)
	}
	w := buildWorker(nil, nil)
	return explore(c, w, nil)
}

func (c *checkCtx) level() string {
	switch c.prop {
	case "C15", "C16":
		return "fault_enumeration"
	}
	return "exploration"
}

func (c *checkCtx) writeEvidence(cov map[string]any, assumptions []string, violations int) {
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": c.level(),
		"coverage": cov, "assumptions": assumptions, "wall_s": time.Since(c.start).Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(verif, "evidence"), 0777))
	p := filepath.Join(verif, "evidence", c.prop+".json")
	must(os.WriteFile(p+".tmp", append(b, '\n'), 0666))
	must(os.Rename(p+".tmp", p))
}

func (c *checkCtx) report(rf *ReplayFile) int {
	dir := filepath.Join(verif, "replays")
	must(os.MkdirAll(dir, 0777))
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", c.prop, rf.Class, c.seed, rf.RunSeed))
	b, err := json.MarshalIndent(rf, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0666))
	fmt.Printf("violated: %s: %s\n", rf.Class, trim(rf.Detail, 1500))
	fmt.Printf("check seed %d, run seed %d, scenario %s, minimised %v, %s\n", c.seed, rf.RunSeed, rf.Scenario, rf.Minimised, rf.Exact)
	fmt.Printf("reproduce: /verif/check.sh replay %s\n", p)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	return 1
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var rf ReplayFile
	must(json.Unmarshal(b, &rf))
	rf.file = file
	if rf.Gen != nil {
		return replayGenerator(&rf)
	}
	var w builtWorker
	if rf.Specs != nil {
		ok, viol := buildSpecs(&rf)
		if viol != nil {
			fmt.Printf("reproduced: %s: %s\n", viol.Class, viol.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
			return 1
		}
		w = ok
	} else {
		w = buildWorker(nil, nil)
	}
	if rf.Prefix != nil {
		j := *rf.Prefix
		r := runJob(w.bin, j, 10*time.Minute)
		for _, l := range r.lines {
			if l.K == "v" && l.Seed == rf.RunSeed {
				fmt.Printf("reproduced: %s: %s\n", l.Viol[0].Class, l.Viol[0].Detail)
				fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
				return 1
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	v, l, _ := tryTape(w, rf.Property, rf.RunSeed, rf.Tape, true, "")
	if l != nil {
		for _, s := range l.Log {
			fmt.Println(s)
		}
	}
	if v == nil {
		fmt.Println("not reproduced: this tree does not break the property in this run")
		return 0
	}
	same := l == nil || l.Hash == rf.Hash
	fmt.Printf("reproduced: %s: %s (identical schedule: %v)\n", v.Class, trim(v.Detail, 2000), same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

// hunt lists everything that goes wrong in a property's runs.
func hunt(prop string) int {
	c := &checkCtx{prop: "none", start: time.Now(), workers: 8, seconds: 10, seed: 1}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		c.seconds = s
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = uint64(s)
	}
	w := buildWorker(nil, nil)
	huntProp = prop
	m := search(c, w, c.seconds)
	fmt.Printf("%s: %d runs, %d steps, error: %s\n", prop, m.sum.Runs, m.sum.Steps, m.err)
	for k, v := range m.other {
		fmt.Printf("%6d %s: %s\n", v, k, trim(huntSeen[k], 600))
	}
	if os.Getenv("VERIF_STATS") != "" {
		var ks []string
		for k := range m.sum.Stats {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("   %8d %s\n", m.sum.Stats[k], k)
		}
	}
	return 0
}

// survey tells whether any of some properties is found broken, each given a
// few seconds; it is how planted changes are sifted.
func survey(list string) int {
	c := &checkCtx{start: time.Now(), workers: 2, seconds: 6, seed: 1}
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SECONDS"), 64); err == nil {
		c.seconds = s
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil {
		c.workers = n
	}
	w := buildWorker(nil, nil)
	for _, p := range strings.Split(list, ",") {
		c.prop = p
		m := search(c, w, c.seconds)
		switch {
		case m.found != nil:
			fmt.Printf("FOUND %s %s %s\n", p, m.found.class, trim(m.found.det, 200))
			return 1
		case m.err != "":
			fmt.Printf("ERROR %s %s\n", p, trim(m.err, 600))
			return 2
		}
	}
	fmt.Println("NOTHING")
	return 0
}

var huntProp string
var huntMu sync.Mutex
var huntSeen = map[string]string{}

func selftest(n int) int {
	w := buildWorker(nil, nil)
	bad := 0
	seed := uint64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(s)
	}
	for _, p := range simProps {
		runs, mism := 0, 0
		type res struct{ runs, mism int }
		ch := make(chan res, 8)
		for k := 0; k < 8; k++ {
			go func() {
				var t res
				at := k
				for t.runs < n/8 {
					r := runJob(w.bin, Job{Prop: p, Mode: "twice", Base: seed, Index: at, Stride: 8, Seconds: 1000, MaxRuns: n/8 - t.runs}, 20*time.Minute)
					ok := false
					for _, l := range r.lines {
						if l.K == "e" {
							t.runs += l.Sum.Runs
							t.mism += l.Sum.Mismatch
							at = l.I
							ok = l.Sum.Runs > 0
						}
						if l.K == "o" {
							fmt.Printf("  %s seed %d: %s: %s\n", p, l.Seed, l.Viol[0].Class, trim(l.Viol[0].Detail, 300))
						}
					}
					if !ok {
						cl, d, _ := crashClass(r)
						fmt.Printf("  %s: worker ended: %s %s\n", p, cl, trim(d, 800))
						t.mism++
						break
					}
				}
				ch <- t
			}()
		}
		for k := 0; k < 8; k++ {
			t := <-ch
			runs += t.runs
			mism += t.mism
		}
		fmt.Printf("%s: %d seeds run three times each, %d differed\n", p, runs, mism)
		bad += mism
	}
	if bad > 0 {
		return 2
	}
	return 0
}

var simProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C17", "C18"}
