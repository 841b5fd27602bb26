package sim

import (
	"sort"
	"strings"
)

type reset struct {
	pkg   string
	order int
	f     func()
}

var resets []reset
var resetsSorted bool

// OnReset registers how to give package variables their initial values. file
// is "package/file.go".
func OnReset(file string, order int, f func()) {
	pkg := file
	if i := strings.LastIndexByte(file, '/'); i >= 0 {
		pkg = file[:i]
	}
	resets = append(resets, reset{pkg, order, f})
}

// Reset gives the variables of all instrumented packages their initial
// values, so that no run sees what an earlier one left behind.
func Reset() {
	if !resetsSorted {
		// Packages stay in the order in which they were initialized.
		rank := map[string]int{}
		for _, r := range resets {
			if _, ok := rank[r.pkg]; !ok {
				rank[r.pkg] = len(rank)
			}
		}
		sort.SliceStable(resets, func(i, j int) bool {
			a, b := resets[i], resets[j]
			if a.pkg != b.pkg {
				return rank[a.pkg] < rank[b.pkg]
			}
			return a.order < b.order
		})
		resetsSorted = true
	}
	for _, r := range resets {
		r.f()
	}
}
