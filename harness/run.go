// Package harness runs the repository's client, server, codecs and generated
// stubs in simulated worlds and judges them.
package harness

import (
	"runtime"
	"runtime/metrics"

	"verif/sim"
)

// dynamic protocols: registered by files the checks generate.
func dynVers() []*Vers {
	var r []*Vers
	for _, v := range allVers() {
		if !v.G.builtIn() {
			r = append(r, v)
		}
	}
	if len(r) == 0 {
		return allVers()
	}
	return r
}

var memSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64()
}

// checkMem: memory allocated during a run is bounded by what was received
// and sent; the constants are generous, the lengths that peers declare are
// far beyond them.
func checkMem(w *sim.World, a0 uint64, in, out int) {
	a := allocated() - a0
	limit := uint64(48<<20) + 100*uint64(in+out) + 3000*uint64(w.Steps)
	if a > limit {
		w.Fail("mem", "%d MB allocated for %d bytes received and %d sent (limit %d MB)", a>>20, in, out, limit>>20)
	}
}

// Scenario runs the scenario family drawn for a property.
func Scenario(w *sim.World, prop string) string {
	if w.Has("huge") {
		if m := w.Draw("huge", 3); m > 0 {
			return hugeScenario(w, m)
		}
	}
	type fam struct {
		name   string
		weight int
		f      func(*sim.World, string)
	}
	srv, cli := fam{"server", 1, srvScenario}, fam{"client", 1, cliScenario}
	e2e := fam{"end-to-end", 1, e2eScenario}
	cod := fam{"codec", 1, codecScenario}
	var fs []fam
	switch prop {
	case "C03", "C07":
		fs = []fam{srv}
	case "C02", "C04", "C05", "C10":
		fs = []fam{srv, srv, srv, e2e}
	case "C01", "C08":
		fs = []fam{cli, cli, cli, e2e}
	case "C09":
		fs = []fam{srv, cli, srv, cli, e2e}
	case "C11", "C12", "C14", "C18":
		fs = []fam{srv, cli, cod}
	case "C13":
		fs = []fam{cod, srv, cli, cod}
	case "C17":
		fs = []fam{e2e, e2e, e2e, e2e, e2e, e2e, srv, cli}
	default:
		fs = []fam{srv, cli}
	}
	// One run in eight explores without the property's bias.
	prof := prop
	if prop != "C14" && w.Draw("family", 8) == 7 {
		prof = "any"
	}
	f := fs[w.Draw("family", len(fs))]
	w.Count("family." + f.name)
	f.f(w, prof)
	return f.name + "/" + prof
}

// RunResult is what one simulated run produced.
type RunResult struct {
	Seed     uint64
	Scenario string
	Tape     sim.Tape
	Viol     []sim.Violation
	Stats    map[string]int
	Hash     uint64
	Steps    int
	YSteps   int
	SimNs    int64
	Pairs    map[string]struct{}
	Log      []string
	Leaked   bool
}

// RunOne executes one run; it must be called inside a synctest bubble.
func RunOne(prop string, seed uint64, tape sim.Tape, verbose bool) *RunResult {
	sim.Reset()
	w := sim.NewWorld(seed, tape, verbose)
	sim.W = w
	r := &RunResult{Seed: seed}
	r.Scenario = Scenario(w, prop)
	leftBefore := w.BaseG
	w.Stop()
	r.Leaked = numGoroutine() > leftBefore
	r.Tape, r.Viol, r.Stats, r.Hash, r.Steps, r.YSteps, r.SimNs, r.Pairs, r.Log = w.Tape(), w.Viol, w.Stats, w.Hash, w.Steps, w.YSteps, w.Busy(), w.Pairs, w.Log
	return r
}

func numGoroutine() int { return runtime.NumGoroutine() }
