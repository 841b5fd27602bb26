// Package sim is a cooperative deterministic scheduler for real Go code. The
// code under test is instrumented at build time with calls of Y before every
// statement; exactly one goroutine runs at a time and the world's tape decides
// which one. Simulated time, events (network deliveries, faults, gates) and
// goroutines are interleaved by the same tape.
package sim

import (
	"bytes"
	"container/heap"
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"testing/synctest"
	"time"
)

func getg() uintptr

func goid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

type waiter struct {
	ch   chan bool
	site string
	cond func() bool
	g    uintptr
	id   int // logical goroutine number; 0: not known yet
	goid int64
	prio int
	name string
}

type event struct {
	at  int64
	seq int
	f   func()
}

type evHeap []event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *evHeap) Push(x any)   { *h = append(*h, x.(event)) }
func (h *evHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Violation is one observed breach of an oracle.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	At     int64  `json:"sim_time_ns"`
	Step   int    `json:"step"`
}

// World is one simulated execution.
type World struct {
	*Source
	Verbose bool
	Log     []string

	mu       sync.Mutex
	fresh    []*waiter
	parked   []*waiter
	holder   uintptr
	holderID int
	schedG   uintptr
	killing  bool
	over     bool

	now  int64
	idle int64 // part of now spent waiting for timers that were not there
	evq  evHeap
	eseq int

	Steps    int // scheduling decisions
	YSteps   int // statements executed by instrumented code
	MaxSteps int
	MaxY     int
	budget   int
	mean     int
	pick     int

	goids   map[int64]int
	names   map[int]string
	prios   map[int]int
	nextID  int
	lastID  int
	lastS   string
	demote  int
	Hash    uint64
	Pairs   map[string]struct{}
	Stats   map[string]int
	Viol    []Violation
	onQuiet []func() bool
	Gen     int
	live    int
	freech  []chan bool
	BaseG   int // goroutines alive before the world began
	slowID  int
	runq    []*waiter
}

// W is the current world; nil outside simulation, where every hook is inert.
var W *World

var gen int

// SeedRuntime seeds the Go runtime's choices for simulated goroutines. It is
// there only in workers (see cmd/vrun/build.go).
var SeedRuntime func(uint64)

func NewWorld(seed uint64, replay Tape, verbose bool) *World {
	gen++
	w := &World{Source: NewSource(seed, replay), Verbose: verbose, MaxSteps: 400000, MaxY: 20000000,
		goids: map[int64]int{}, names: map[int]string{}, prios: map[int]int{}, Pairs: map[string]struct{}{}, Stats: map[string]int{},
		Hash: 14695981039346656037, Gen: gen, BaseG: runtime.NumGoroutine(), schedG: getg()}
	if SeedRuntime != nil {
		SeedRuntime(uint64(w.Draw("runtime", 1<<30)) + 1)
	}
	w.mean = []int{0, 3000, 300, 60, 12, 3, 1}[w.Draw("sched", 7)]
	w.pick = w.Draw("sched", 5)
	w.budget = w.nextBudget()
	w.Count(fmt.Sprintf("sched.preempt_mean_%d", w.mean))
	w.Count(fmt.Sprintf("sched.pick_policy_%d", w.pick))
	return w
}

func (w *World) nextBudget() int {
	if w.mean == 0 {
		return 1 << 60
	}
	if w.Steps > 60000 && w.mean < 300 {
		w.mean = 300 // a very large run: coarser from here on
	}
	if w.mean == 1 {
		return 1
	}
	// 0 on the tape means "no further preemption"; generated draws are
	// uniform with the wanted mean.
	d := w.Draw1("preempt", 2*w.mean-1)
	if d == 0 {
		return 1 << 60
	}
	return d
}

func (w *World) Now() int64 { return w.now }

// Busy is the simulated time without the final waits for stray timers.
func (w *World) Busy() int64 { return w.now - w.idle }

func (w *World) Logf(f string, a ...any) {
	if w.Verbose {
		w.Log = append(w.Log, fmt.Sprintf("[%d t=%dus] ", w.Steps, w.now/1000)+fmt.Sprintf(f, a...))
	}
}

func (w *World) Count(s string)         { w.Stats[s]++ }
func (w *World) CountN(s string, n int) { w.Stats[s] += n }

func (w *World) Fail(class, f string, a ...any) {
	v := Violation{Class: class, Detail: fmt.Sprintf(f, a...), At: w.now, Step: w.Steps}
	w.Logf("VIOLATION %s: %s", class, v.Detail)
	if len(w.Viol) < 50 {
		w.Viol = append(w.Viol, v)
	}
}

// After schedules f on the scheduler after d nanoseconds of simulated time.
func (w *World) After(d int64, f func()) {
	w.eseq++
	heap.Push(&w.evq, event{w.now + d, w.eseq, f})
}

// Go starts a harness goroutine under the scheduler.
func (w *World) Go(name string, f func()) {
	w.mu.Lock()
	w.live++
	w.mu.Unlock()
	go func() {
		defer func() {
			w.mu.Lock()
			w.live--
			w.mu.Unlock()
		}()
		w.park(name, nil, name)
		f()
	}()
}

// Y is a possible preemption point.
func Y(site string) {
	w := W
	if w == nil {
		return
	}
	g := getg()
	if g == w.schedG || w.killing {
		if w.killing {
			w.limit(site)
		}
		return
	}
	if g == w.holder {
		w.YSteps++
		w.budget--
		if w.budget > 0 {
			if w.YSteps > w.MaxY {
				w.limit(site)
			}
			return
		}
		w.budget = w.nextBudget()
	}
	w.park(site, nil, "")
}

func (w *World) limit(site string) {
	if w.killing {
		w.YSteps++
		if w.YSteps > 2*w.MaxY+1000000 {
			runtime.Goexit()
		}
		return
	}
	if !w.over {
		w.over = true
		w.Fail("work-limit", "more than %d statements executed; last at %s", w.MaxY, site)
	}
	runtime.Goexit()
}

// Yield always gives the scheduler the choice.
func Yield(site string) {
	if w := W; w != nil && getg() != w.schedG && !w.killing {
		w.park(site, nil, "")
	}
}

// Block parks the caller until cond holds. It reports false if the world is
// being torn down instead.
func Block(site string, cond func() bool) bool {
	w := W
	if w == nil {
		panic("sim.Block outside a world")
	}
	if w.killing {
		return false
	}
	if getg() == w.schedG {
		if !cond() {
			panic("sim.Block on the scheduler: " + site)
		}
		return true
	}
	w.park(site, cond, "")
	return true
}

func (w *World) park(site string, cond func() bool, name string) {
	g := getg()
	wt := &waiter{site: site, cond: cond, g: g, name: name}
	w.mu.Lock()
	if g == w.holder {
		wt.id = w.holderID
		w.holder = 0
	} else {
		wt.goid = goid()
	}
	if n := len(w.freech); n > 0 {
		wt.ch = w.freech[n-1]
		w.freech = w.freech[:n-1]
	} else {
		wt.ch = make(chan bool)
	}
	w.fresh = append(w.fresh, wt)
	w.mu.Unlock()
	kill := <-wt.ch
	w.mu.Lock()
	w.freech = append(w.freech, wt.ch)
	w.mu.Unlock()
	if kill {
		runtime.Goexit()
	}
}

func (w *World) collect() {
	w.mu.Lock()
	fr := w.fresh
	w.fresh = nil
	w.mu.Unlock()
	if len(fr) > 1 {
		// The order in which goroutines reached their first yield is not
		// the scheduler's decision, so do not let it matter.
		sort.SliceStable(fr, func(i, j int) bool {
			a, b := fr[i], fr[j]
			if (a.id != 0) != (b.id != 0) {
				return a.id != 0
			}
			if a.id == 0 {
				a.id = w.goids[a.goid]
			}
			if b.id == 0 {
				b.id = w.goids[b.goid]
			}
			if a.id == 0 && b.id == 0 {
				return a.goid < b.goid // order of creation
			}
			if (a.id == 0) != (b.id == 0) {
				return a.id != 0
			}
			return a.id < b.id
		})
	}
	for _, wt := range fr {
		if wt.id == 0 {
			wt.id = w.goids[wt.goid]
		}
		if wt.id == 0 {
			w.nextID++
			wt.id = w.nextID
			w.goids[wt.goid] = wt.id
			if wt.name == "" {
				wt.name = "g" + strconv.Itoa(wt.id)
			}
			w.names[wt.id] = wt.name
			if w.pick == 2 {
				w.prios[wt.id] = w.Draw("prio", 1000)
			}
			w.Logf("new goroutine %s#%d at %s", wt.name, wt.id, wt.site)
		}
		w.parked = append(w.parked, wt)
	}
}

func (w *World) mix(s string, id int) {
	h := w.Hash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h = (h ^ uint64(id)) * 1099511628211
	w.Hash = h
}

// Run schedules until nothing can happen any more, done returns true, or the
// step limits are hit. It reports whether the world became quiescent.
func (w *World) Run(done func() bool) bool {
	w.schedG = getg()
	idle := 0
	for {
		synctest.Wait()
		w.holder = 0
		w.collect()
		if w.over || done != nil && done() {
			return false
		}
		if w.Steps > w.MaxSteps {
			w.Fail("step-limit", "not quiescent after %d scheduling steps", w.Steps)
			w.over = true
			return false
		}
		for len(w.evq) > 0 && w.evq[0].at <= w.now {
			e := heap.Pop(&w.evq).(event)
			w.mix("ev", e.seq)
			e.f()
		}
		run := w.runq[:0]
		for _, p := range w.parked {
			if p.cond == nil || p.cond() {
				run = append(run, p)
			}
		}
		w.runq = run
		if len(run) == 0 {
			if len(w.evq) > 0 {
				if d := w.evq[0].at - w.now; d > 0 {
					w.now += d
					time.Sleep(time.Duration(d)) // keep the bubble's clock in step
				}
				idle = 0
				continue
			}
			// Timers of the code under test, if any.
			if idle < 3 {
				idle++
				w.now += int64(time.Hour)
				w.idle += int64(time.Hour)
				time.Sleep(time.Hour)
				continue
			}
			return true
		}
		idle = 0
		i := w.choose(run)
		wt := run[i]
		for k, p := range w.parked {
			if p == wt {
				w.parked = append(w.parked[:k], w.parked[k+1:]...)
				break
			}
		}
		w.Steps++
		w.now += 1000
		w.mix(wt.site, wt.id)
		if wt.id != w.lastID {
			w.Pairs[w.lastS+">"+wt.site] = struct{}{}
		}
		w.lastID, w.lastS = wt.id, wt.site
		if w.Verbose {
			w.Logf("run %s#%d from %s (%d runnable)", w.names[wt.id], wt.id, wt.site, len(run))
		}
		w.holderID = wt.id
		w.holder = wt.g
		wt.ch <- false
	}
}

func (w *World) choose(run []*waiter) int {
	if len(run) == 1 {
		return 0
	}
	switch w.pick {
	case 0: // oldest first
		return 0
	case 1: // uniform
		return w.Draw("pick", len(run))
	case 2: // priorities with change points
		best := 0
		for i := range run {
			if w.prios[run[i].id] > w.prios[run[best].id] {
				best = i
			}
		}
		if w.Chance("pick", 1, 40) {
			w.demote--
			w.prios[run[best].id] = w.demote
		}
		return best
	case 3: // mostly the most recent, sometimes any
		if w.Chance("pick", 1, 6) {
			return w.Draw("pick", len(run))
		}
		return len(run) - 1
	default: // one goroutine is slow: anything else first
		if w.Chance("pick", 1, 50) {
			w.slowID = run[w.Draw("pick", len(run))].id
		}
		k := w.Draw("pick", len(run))
		if run[k].id == w.slowID {
			k = (k + 1) % len(run)
		}
		return k
	}
}

// Unfinished lists the goroutines still parked, by site.
func (w *World) Unfinished() []string {
	var r []string
	for _, p := range w.parked {
		r = append(r, fmt.Sprintf("%s#%d@%s", w.names[p.id], p.id, p.site))
	}
	return r
}

// Live is the number of harness goroutines not finished.
func (w *World) Live() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.live
}

// Stop tears the world down: every parked goroutine exits.
func (w *World) Stop() {
	w.killing = true
	for k := 0; k < 100; k++ {
		synctest.Wait()
		w.collect()
		if len(w.parked) == 0 {
			break
		}
		p := w.parked
		w.parked = nil
		for _, wt := range p {
			wt.ch <- true
		}
	}
	W = nil
}

func (w *World) Killing() bool { return w.killing }
