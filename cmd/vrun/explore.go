package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/props"
	"verif/sim"
)

type merged struct {
	mu     sync.Mutex
	sum    Summary
	hashes map[uint64]struct{}
	pairs  map[string]struct{}
	other  map[string]int
	found  *finding
	err    string
	skips  int
}

type finding struct {
	line  Line
	class string
	det   string
	job   Job // the exploring job that hit it
	crash bool
}

func newMerged() *merged {
	return &merged{sum: Summary{Stats: map[string]int{}, Scen: map[string]int{}}, hashes: map[uint64]struct{}{}, pairs: map[string]struct{}{}, other: map[string]int{}}
}

func (m *merged) add(s *Summary, other map[string]int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.sum.Runs += s.Runs
	m.sum.Steps += s.Steps
	m.sum.YSteps += s.YSteps
	m.sum.SimNs += s.SimNs
	for k, v := range s.Stats {
		m.sum.Stats[k] += v
	}
	for k, v := range s.Scen {
		m.sum.Scen[k] += v
	}
	for _, h := range s.Hashes {
		m.hashes[h] = struct{}{}
	}
	for _, p := range s.Pairs {
		m.pairs[p] = struct{}{}
	}
	if len(m.sum.Samples) < 4 {
		m.sum.Samples = append(m.sum.Samples, s.Samples...)
	}
	for k, v := range other {
		m.other[k] += v
	}
}

// absorb adds another search.
func (m *merged) absorb(o *merged) {
	m.add(&o.sum, o.other)
	for h := range o.hashes {
		m.hashes[h] = struct{}{}
	}
	for p := range o.pairs {
		m.pairs[p] = struct{}{}
	}
	m.found, m.err = o.found, o.err
	m.skips += o.skips
}

func (m *merged) stopped() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.found != nil || m.err != ""
}

// huge does the runs with calls and results beyond what a record can hold.
// They take gigabytes each: there are two per check, one at a time.
func huge(c *checkCtx, w builtWorker, m *merged) {
	if c.prop != "C03" && c.prop != "C18" || huntProp != "" {
		return
	}
	for mode := uint32(1); mode <= 2; mode++ {
		if mode == 1 && c.prop == "C03" {
			continue
		}
		t := sim.Tape{"huge": {mode, uint32(c.seed) % 3, uint32(c.seed>>2) % 200}}
		forced(c, w, m, t, "fault.over_31bit_record")
		if m.stopped() {
			return
		}
	}
}

// forced does a run that is not drawn but ordered.
func forced(c *checkCtx, w builtWorker, m *merged, t sim.Tape, stat string) {
	t0 := time.Now()
	defer func() {
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintln(os.Stderr, "forced run:", t, time.Since(t0))
		}
	}()
	v, l, e := tryTape(w, c.prop, c.seed, t, false, "")
	switch {
	case v != nil && v.Class == "crash-oom" || l == nil && v == nil:
		m.mu.Lock()
		m.other["forced-run-lost"]++ // not enough memory here
		m.mu.Unlock()
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintln(os.Stderr, "forced:", v, e)
		}
	case v != nil:
		m.mu.Lock()
		if m.found == nil {
			f := &finding{line: Line{Seed: c.seed, Tape: t}, class: v.Class, det: v.Detail}
			if l != nil {
				f.line.Scen, f.line.Hash, f.line.Steps = l.Scen, l.Hash, l.Steps
			}
			m.found = f
			running.killAll()
		}
		m.mu.Unlock()
	default:
		m.add(&Summary{Runs: 1, Steps: l.Steps, Stats: map[string]int{stat: 1}, Scen: map[string]int{l.Scen: 1}, Hashes: []uint64{l.Hash}}, nil)
	}
}

// life does the runs with more calls and connections than 16 bits can count.
func life(c *checkCtx, w builtWorker, m *merged) {
	modes := map[string]string{"C02": "012", "C05": "02", "C06": "1", "C07": "1", "C10": "2", "C18": "1"}[c.prop]
	if huntProp != "" {
		return
	}
	for _, mode := range modes {
		t := sim.Tape{"life": {uint32(mode - '0'), uint32(c.seed) % 3}}
		forced(c, w, m, t, "server.long_life")
		if m.stopped() {
			return
		}
	}
}

// search runs seeds until time is up or the property is broken.
func search(c *checkCtx, w builtWorker, seconds float64) *merged {
	m := newMerged()
	end := time.Now().Add(time.Duration(seconds * float64(time.Second)))
	cl := props.Classes(c.prop)
	var wg sync.WaitGroup
	for k := 0; k < c.workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			at := k
			if k == 0 {
				huge(c, w, m)
			}
			if k == 1 {
				life(c, w, m)
			}
			for !m.stopped() {
				left := time.Until(end).Seconds()
				if left <= 0 {
					return
				}
				// Processes are renewed now and then: it bounds their memory.
				if left > 60 {
					left = 60
				}
				j := Job{Prop: c.prop, Mode: "explore", Base: c.seed, Index: at, Stride: c.workers, Seconds: left, Classes: cl}
				if huntProp != "" {
					j.Prop = huntProp
				}
				r := runJob(w.bin, j, time.Duration(left)*time.Second+200*time.Second)
				var last Line
				done := false
				for _, l := range r.lines {
					switch l.K {
					case "b":
						last = l
					case "o":
						if huntProp != "" {
							huntMu.Lock()
							if huntSeen[l.Viol[0].Class] == "" {
								huntSeen[l.Viol[0].Class] = fmt.Sprintf("[seed %d, %s] %s", l.Seed, l.Scen, l.Viol[0].Detail)
							}
							huntMu.Unlock()
						}
					case "v":
						m.mu.Lock()
						if m.found == nil {
							f := finding{line: l, job: j}
							for _, v := range l.Viol {
								if props.Breaks(v.Class, c.prop) {
									f.class, f.det = v.Class, v.Detail
									break
								}
							}
							m.found = &f
							running.killAll()
						}
						m.mu.Unlock()
					case "e":
						m.add(l.Sum, l.Other)
						at = l.I
						done = true
					}
				}
				if m.stopped() {
					return
				}
				if !done {
					class, det, ours := crashClass(r)
					if m.stopped() {
						return
					}
					// Does the run do that when it is alone? If not, the process was
					// ended by something outside.
					if last.K == "b" && class != "stuck" {
						if v, l, e := tryTape(w, j.Prop, last.Seed, nil, false, ""); v == nil && (l != nil || !strings.HasPrefix(e, class)) {
							class, det, ours = "lost-worker", "", false
						}
					}
					m.mu.Lock()
					switch {
					case ours:
						if m.err == "" && m.found == nil {
							m.err = fmt.Sprintf("worker died (%s, exit %d, killed %v), run seed %d: %s", class, r.code, r.killed, last.Seed, det)
						}
					case props.Breaks(class, c.prop):
						if m.found == nil {
							m.found = &finding{line: last, class: class, det: det, job: j, crash: true}
							running.killAll()
						}
					default:
						if huntProp != "" {
							huntMu.Lock()
							huntSeen[class] = fmt.Sprintf("[seed %d] %s", last.Seed, det)
							huntMu.Unlock()
						}
						m.other[class]++
						m.skips++
						if m.skips > 2000 {
							m.err = "too many runs died of " + class
						}
					}
					m.mu.Unlock()
					at = last.I + c.workers
				}
			}
		}()
	}
	wg.Wait()
	return m
}

// tryTape replays a tape (or, if nil, a seed) in a fresh process.
func tryTape(w builtWorker, prop string, seed uint64, t sim.Tape, verbose bool, record string) (*sim.Violation, *Line, string) {
	r := runJob(w.bin, Job{Prop: prop, Mode: "replay", Seed: seed, Tape: t, Verbose: verbose, Record: record}, 250*time.Second)
	for i := range r.lines {
		l := r.lines[i]
		if l.K == "r" {
			for _, v := range l.Viol {
				if props.Breaks(v.Class, prop) {
					return &v, &r.lines[i], ""
				}
			}
			return nil, &r.lines[i], ""
		}
	}
	class, det, ours := crashClass(r)
	if !ours && props.Breaks(class, prop) {
		return &sim.Violation{Class: class, Detail: det}, nil, ""
	}
	return nil, nil, class + ": " + det
}

func readTape(f string) sim.Tape {
	t := sim.Tape{}
	b, _ := os.ReadFile(f)
	for _, l := range strings.Split(string(b), "\n") {
		var n string
		var v uint32
		if k, _ := fmt.Sscanf(l, "%s %d", &n, &v); k == 2 {
			t[n] = append(t[n], v)
		}
	}
	return t
}

func explore(c *checkCtx, w builtWorker, specs map[string]string) int {
	buildS := time.Since(c.start).Seconds()
	t0 := time.Now()
	m := search(c, w, c.seconds)
	return conclude(c, w, m, specs, time.Since(t0).Seconds(), buildS)
}

func conclude(c *checkCtx, w builtWorker, m *merged, specs map[string]string, el, buildS float64) int {
	cov := coverage(c, w, m, el, buildS)
	assume := []string{
		"schedules and faults are sampled, not enumerated: a clean run is evidence, not proof",
		"goroutine switches happen between statements and at synchronisation points of the repository's code, not inside single statements; memory is sequentially consistent",
		"the reference XDR/RPC codec in /verif/ref is right; it is written from RFC 4506, 1057 and 1813 and parses pristine copies of their specifications",
	}
	if m.found == nil {
		if m.err != "" {
			fmt.Fprintln(os.Stderr, "vrun: "+m.err)
			return 2
		}
		if m.sum.Runs == 0 {
			fmt.Fprintln(os.Stderr, "vrun: no run completed")
			return 2
		}
		c.writeEvidence(cov, assume, 0)
		fmt.Printf("%s: held in %d simulated runs (%d distinct schedules, %.0f s simulated, %.0f s real)\n", c.prop, m.sum.Runs, len(m.hashes), float64(m.sum.SimNs)/1e9, el)
		return 0
	}
	running.mu.Lock()
	running.dead = false
	running.mu.Unlock()
	rf := confirm(c, w, m.found)
	rf.Specs = specs
	c.writeEvidence(cov, assume, 1)
	return c.report(rf)
}

// confirm replays, minimises and describes what was found.
func confirm(c *checkCtx, w builtWorker, f *finding) *ReplayFile {
	rf := &ReplayFile{Property: c.prop, Class: f.class, Detail: f.det, Scenario: f.line.Scen, CheckSeed: c.seed, RunSeed: f.line.Seed, Tape: f.line.Tape}
	if f.crash {
		rec := scratch + "/record"
		tryTape(w, c.prop, f.line.Seed, nil, false, rec)
		rf.Tape = readTape(rec)
	}
	if rf.Tape == nil {
		rf.Tape = sim.Tape{}
	}
	v, l, why := tryTape(w, c.prop, f.line.Seed, rf.Tape, false, "")
	if v == nil {
		// Does it need the runs before it in the same process?
		j := f.job
		if j.Stride == 0 {
			rf.Exact = "observed once, but a replay of its tape did not show it (" + trim(why, 200) + ")"
			return rf
		}
		j.MaxRuns = (f.line.I-j.Index)/j.Stride + 1
		j.Seconds = 1e6
		r := runJob(w.bin, j, 5*time.Minute)
		for _, x := range r.lines {
			if x.K == "v" && x.Seed == f.line.Seed {
				rf.Prefix = &j
				rf.Exact = fmt.Sprintf("only after the %d runs before it in one process (state survives in the code under test)", j.MaxRuns-1)
				return rf
			}
		}
		rf.Exact = "observed once, but a replay of its tape did not show it (" + trim(why, 200) + "): the code under test has a source of nondeterminism of its own"
		return rf
	}
	rf.Class, rf.Detail = v.Class, v.Detail
	best := rf.Tape
	if l != nil {
		best = l.Tape
		rf.Scenario = l.Scen
	}
	before := best.Size()
	best = shrink(c, w, f.line.Seed, best)
	v, l, _ = tryTape(w, c.prop, f.line.Seed, best, true, "")
	if v != nil {
		rf.Class, rf.Detail, rf.Tape = v.Class, v.Detail, best
		if l != nil {
			rf.Hash, rf.Log, rf.Scenario = l.Hash, l.Log, l.Scen
			if len(rf.Log) > 4000 {
				rf.Log = append(rf.Log[:2000:2000], rf.Log[len(rf.Log)-2000:]...)
			}
		}
	}
	rf.Minimised = true
	rf.Exact = fmt.Sprintf("replays exactly; %d choices minimised to %d", before, best.Size())
	return rf
}

type measure struct{ nz, n, sum int }

func measureOf(t sim.Tape) measure {
	var m measure
	for _, s := range t {
		m.n += len(s)
		for _, v := range s {
			if v != 0 {
				m.nz++
			}
			m.sum += int(v)
		}
	}
	return m
}

func (a measure) less(b measure) bool {
	if a.nz != b.nz {
		return a.nz < b.nz
	}
	if a.n != b.n {
		return a.n < b.n
	}
	return a.sum < b.sum
}

// shrink looks for a smaller tape that still breaks the property.
func shrink(c *checkCtx, w builtWorker, seed uint64, best sim.Tape) sim.Tape {
	end := time.Now().Add(c.shrink)
	bm := measureOf(best)
	// try evaluates candidates in parallel and adopts the first that works.
	try := func(cands []sim.Tape) bool {
		for len(cands) > 0 && time.Now().Before(end) {
			n := min(len(cands), c.workers)
			out := make([]sim.Tape, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					v, l, _ := tryTape(w, c.prop, seed, cands[i], false, "")
					if v == nil {
						return
					}
					if l != nil && l.Tape != nil {
						out[i] = l.Tape
					} else {
						out[i] = cands[i]
					}
				}()
			}
			wg.Wait()
			for _, o := range out {
				if o != nil && measureOf(o).less(bm) {
					best, bm = o, measureOf(o)
					return true
				}
			}
			cands = cands[n:]
		}
		return false
	}
	edit := func(k string, f func([]uint32) []uint32) sim.Tape {
		t := best.Clone()
		t[k] = f(t[k])
		if len(t[k]) == 0 {
			delete(t, k)
		}
		return t
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		keys := best.Keys()
		sort.Slice(keys, func(i, j int) bool { return len(best[keys[i]]) > len(best[keys[j]]) })
		var cs []sim.Tape
		for _, k := range keys {
			cs = append(cs, edit(k, func([]uint32) []uint32 { return nil }))
		}
		for try(cs) {
			progress = true
			cs = cs[:0]
			for _, k := range best.Keys() {
				cs = append(cs, edit(k, func([]uint32) []uint32 { return nil }))
			}
		}
		for _, k := range keys {
			if len(best[k]) == 0 {
				continue
			}
			for bl := len(best[k]); bl >= 1 && time.Now().Before(end); bl /= 2 {
				for {
					cs = cs[:0]
					n := len(best[k])
					for at := (n - 1) / bl * bl; at >= 0 && len(cs) < 64; at -= bl {
						to := min(at+bl, n)
						cs = append(cs, edit(k, func(s []uint32) []uint32 {
							return append(append([]uint32(nil), s[:at]...), s[to:]...)
						}))
						nz := false
						for _, v := range best[k][at:to] {
							nz = nz || v != 0
						}
						if nz && to < n {
							cs = append(cs, edit(k, func(s []uint32) []uint32 {
								for i := at; i < to; i++ {
									s[i] = 0
								}
								return s
							}))
						}
					}
					if !try(cs) {
						break
					}
					progress = true
				}
			}
			if len(best[k]) <= 60 {
				for i := 0; i < len(best[k]) && time.Now().Before(end); i++ {
					if best[k][i] < 2 {
						continue
					}
					cs = cs[:0]
					v := best[k][i]
					for _, x := range []uint32{1, v / 4, v / 2, v - 1} {
						if x > 0 && x < v {
							cs = append(cs, edit(k, func(s []uint32) []uint32 { s[i] = x; return s }))
						}
					}
					if try(cs) {
						progress = true
					}
				}
			}
		}
	}
	return best
}

func coverage(c *checkCtx, w builtWorker, m *merged, el, buildS float64) map[string]any {
	faults, reach, sched := map[string]int{}, map[string]int{}, map[string]int{}
	for k, v := range m.sum.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = v
		case strings.HasPrefix(k, "sched."):
			sched[k[6:]] = v
		default:
			reach[k] = v
		}
	}
	var samples []any
	for _, s := range m.sum.Samples {
		samples = append(samples, map[string]any{"run_seed": s.Seed, "scenario": s.Scenario, "scheduling_steps": s.Steps, "simulated_ms": s.SimMs, "counts": s.Stats})
	}
	if m.found != nil && len(samples) == 0 {
		samples = append(samples, map[string]any{"run_seed": m.found.line.Seed, "scenario": m.found.line.Scen, "violation": m.found.class})
	}
	if el < 0.001 {
		el = 0.001
	}
	cov := map[string]any{
		"evaluations":                  m.sum.Runs,
		"distinct_nontrivial":          len(m.hashes),
		"rule":                         "one evaluation is one simulated run generated from its seed (VERIF_SEED and its index): workload, schedule and faults. Runs count as distinct by the hash of the full sequence of (goroutine, code position) scheduling decisions and delivered events; runs with an equal hash count once.",
		"samples":                      samples,
		"seeds_per_hour":               float64(m.sum.Runs) / el * 3600,
		"runs_per_scenario":            m.sum.Scen,
		"simulated_seconds":            float64(m.sum.SimNs) / 1e9,
		"scheduling_decisions":         m.sum.Steps,
		"statements_executed":          m.sum.YSteps,
		"distinct_context_switches":    len(m.pairs),
		"distinct_context_switch_rule": "pairs (position left, position entered) at a switch from one goroutine to another",
		"faults_injected":              faults,
		"scheduler_policies":           sched,
		"reach":                        reach,
		"other_violations_seen":        m.other,
		"instrumentation":              w.level,
		"build_seconds":                buildS,
		"largest_worker_mb":            maxRSS.Load() >> 10,
		"real_components":              realOf(c.prop),
		"stub_components":              []string{"transport (simulated connections)", "sync (scheduler-owned mutexes, pools, wait groups)", "peers of the component under test (reference implementation)", "handlers and their results (scripted)"},
	}
	for k, v := range c.evidence {
		cov[k] = v
	}
	return cov
}

func realOf(prop string) []string {
	switch prop {
	case "C01", "C08":
		return []string{"rfc1057.Client", "xdr", "generated rfc1057 and rfc1813 codecs"}
	case "C02", "C03", "C04", "C05", "C07", "C10":
		return []string{"rfc1057.Server", "xdr", "generated rfc1057 and rfc1813 codecs and wrappers"}
	case "C14":
		return []string{"the generator binary", "the packages it generated", "rfc1057.Client", "rfc1057.Server", "xdr"}
	}
	return []string{"rfc1057.Client", "rfc1057.Server", "xdr", "generated rfc1057 and rfc1813 codecs and wrappers"}
}
