package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/ref"
	"verif/sim"
	"verif/specgen"
	"verif/stubgen"
)

// buildGenerator builds the repository's generator, without touching its
// working tree: the parser made by goyacc comes in through the overlay.
func buildGenerator(extra overlay, name string) string {
	dir := filepath.Join(scratch, "gen-"+name)
	must(os.MkdirAll(dir, 0777))
	y := filepath.Join(dir, "xdr.go")
	env := append(goEnv(), "GOFLAGS=-mod=readonly")
	if out, err := run(dir, env, "/opt/vp/gobin/goyacc", "-o", y, "-v", filepath.Join(dir, "y.output"), "-p", "xdr", filepath.Join(repo, "xdr.y")); err != nil {
		fatal("goyacc: %v\n%s", err, trim(out, 3000))
	}
	o := overlay{filepath.Join(repo, "xdr.go"): y}
	for k, v := range extra {
		o[k] = v
	}
	of := filepath.Join(dir, "overlay.json")
	o.write(of)
	bin := filepath.Join(dir, "go-rpcgen")
	if out, err := run(repo, env, "go", "build", "-overlay", of, "-buildvcs=false", "-o", bin, "."); err != nil {
		fatal("cannot build the generator from /repo:\n%s", trim(out, 6000))
	}
	return bin
}

// specText is a specification with its options in a leading comment.
func specText(s specgen.Spec) string {
	f := s.Flags()
	if s.Types {
		f = append(f, "-t")
	}
	return "// options: " + strings.Join(f, " ") + "\n" + s.Text()
}

func specOptions(text string) (flags []string, types bool) {
	l, _, _ := strings.Cut(text, "\n")
	l, ok := strings.CutPrefix(l, "// options: ")
	if !ok {
		return nil, false
	}
	for _, f := range strings.Fields(l) {
		if f == "-t" {
			types = true
		} else {
			flags = append(flags, f)
		}
	}
	return
}

// generate runs the generator on one specification.
func generate(bin, dir, pkg, text string) (files map[string]string, why string) {
	os.RemoveAll(dir)
	must(os.MkdirAll(dir, 0777))
	in := filepath.Join(dir, "in.x")
	must(os.WriteFile(in, []byte(text), 0666))
	flags, types := specOptions(text)
	args := append([]string{"-i", in, "-o", filepath.Join(dir, "xdr.go"), "-p", pkg}, flags...)
	files = map[string]string{"xdr.go": filepath.Join(dir, "xdr.go")}
	if types {
		args = append(args, "-t", filepath.Join(dir, "types.go"))
		files["types.go"] = filepath.Join(dir, "types.go")
	}
	c := exec.Command("timeout", append([]string{"-s", "KILL", "60", bin}, args...)...)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir}
	out, err := c.CombinedOutput()
	if err != nil {
		return nil, fmt.Sprintf("the generator fails (%v) on a valid specification: %s", err, trim(string(out), 1500))
	}
	for _, f := range files {
		if _, err := os.Stat(f); err != nil {
			return nil, "the generator exits successfully without an output file: " + err.Error()
		}
	}
	return files, ""
}

var gensutRE = regexp.MustCompile(`gensut/(\w+)`)

// prepare turns specifications into a worker that simulates them, or into
// the violation that shows one of them cannot be used.
func prepare(bin string, specs map[string]string) (w builtWorker, bad string, viol *sim.Violation) {
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	gen := overlay{}   // the packages, plain
	extra := overlay{} // the glue
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			files, why := generate(bin, filepath.Join(scratch, "spec", n), n, specs[n])
			mu.Lock()
			defer mu.Unlock()
			if why != "" {
				if viol == nil || n < bad {
					bad, viol = n, &sim.Violation{Class: "gen.rejected", Detail: why}
				}
				return
			}
			for f, p := range files {
				gen["/verif/gensut/"+n+"/"+f] = p
			}
		}()
	}
	wg.Wait()
	if viol != nil {
		return
	}
	of := filepath.Join(scratch, "spec", "overlay.json")
	gen.write(of)
	args := []string{"build", "-overlay", of}
	for _, n := range names {
		args = append(args, "verif/gensut/"+n)
	}
	if out, err := run(verif, goEnv(), "go", args...); err != nil {
		m := gensutRE.FindStringSubmatch(out)
		if m == nil || specs[m[1]] == "" {
			fatal("building generated packages: %v\n%s", err, trim(out, 3000))
		}
		return w, m[1], &sim.Violation{Class: "gen.compile", Detail: "the generated code does not compile: " + trim(out, 1500)}
	}
	for _, n := range names {
		sp := ref.Parse(specs[n])
		flags, _ := specOptions(specs[n])
		src := stubgen.Emit("harness", n, "verif/gensut/"+n, fmt.Sprintf("%q", specs[n]), sp, flags)
		f := filepath.Join(scratch, "spec", "zz_"+n+".go")
		must(os.WriteFile(f, []byte(src), 0666))
		extra["/verif/harness/zz_"+n+".go"] = f
	}
	// The glue uses every name the specification declares.
	gl := overlay{}
	for k, v := range gen {
		gl[k] = v
	}
	for k, v := range extra {
		gl[k] = v
	}
	gl.write(of)
	out, err := run(verif, goEnv(), "go", "build", "-overlay", of, "./harness")
	if err != nil && withoutUser(gl, out) {
		withoutUser(extra, out)
		gl.write(of)
		out, err = run(verif, goEnv(), "go", "build", "-overlay", of, "./harness")
	}
	if err != nil {
		m := regexp.MustCompile(`zz_(\w+)\.go`).FindStringSubmatch(out)
		if m == nil || specs[m[1]] == "" {
			fatal("building against generated packages: %v\n%s", err, trim(out, 3000))
		}
		return w, m[1], &sim.Violation{Class: "gen.compile", Detail: "the generated package does not offer what its specification declares: " + trim(out, 1500)}
	}
	if noWorker {
		return
	}
	return buildWorker(extra, gen), "", nil
}

func buildSpecs(rf *ReplayFile) (builtWorker, *sim.Violation) {
	w, _, v := prepare(buildGenerator(nil, "plain"), rf.Specs)
	return w, v
}

// minimiseSpec drops definitions while the same thing stays wrong.
func minimiseSpec(c *checkCtx, bin, name string, s specgen.Spec, class string) specgen.Spec {
	end := time.Now().Add(c.shrink)
	for again := true; again; {
		again = false
		for i := len(s.Defs) - 1; i >= 0 && time.Now().Before(end); i-- {
			t := s
			t.Defs = append(append([]string(nil), s.Defs[:i]...), s.Defs[i+1:]...)
			if _, ok := t.Valid(); !ok {
				continue
			}
			if _, why := generate(bin, filepath.Join(scratch, "shrink"), name, specText(t)); why != "" {
				if class == "gen.rejected" {
					s, again = t, true
				}
				continue
			}
			if class == "gen.rejected" {
				continue
			}
			if _, _, v := prepareOnly(bin, map[string]string{name: specText(t)}); v != nil && v.Class == class {
				s, again = t, true
			}
		}
	}
	return s
}

// prepareOnly is prepare without the worker.
func prepareOnly(bin string, specs map[string]string) (builtWorker, string, *sim.Violation) {
	noWorker = true
	defer func() { noWorker = false }()
	return prepare(bin, specs)
}

var noWorker bool

func checkSpecs(c *checkCtx) int {
	bin := buildGenerator(nil, "plain")
	total := newMerged()
	rounds, perRound := 1, 72
	if c.tier == "thorough" {
		rounds = 7
	}
	nspecs, defs := 0, 0
	constructs := map[string]int{}
	var buildS, el float64
	var w builtWorker
	for r := range rounds {
		if time.Since(c.start).Seconds() > c.seconds+120 {
			break
		}
		t0 := time.Now()
		specs := map[string]string{}
		objs := map[string]specgen.Spec{}
		for i := range perRound {
			seed := mix(c.seed*1000003+uint64(r), uint64(i))
			s := specgen.New(seed, 2+i%11)
			n := fmt.Sprintf("g%02d", i)
			sp, ok := s.Valid()
			if !ok {
				fatal("specification %d is not valid:\n%s", seed, s.Text())
			}
			count(sp, constructs)
			specs[n], objs[n] = specText(s), s
			nspecs++
			defs += len(s.Defs)
		}
		var bad string
		var v *sim.Violation
		w, bad, v = prepare(bin, specs)
		c.evidence = map[string]any{"specifications": nspecs, "definitions": defs, "constructs": constructs}
		if v != nil {
			s := minimiseSpec(c, bin, bad, objs[bad], v.Class)
			_, _, v2 := prepareOnly(bin, map[string]string{bad: specText(s)})
			if v2 == nil {
				s, v2 = objs[bad], v
			}
			c.writeEvidence(coverage(c, w, total, el, buildS), nil, 1)
			fmt.Println(specText(s))
			return c.report(&ReplayFile{Property: c.prop, Class: v2.Class, Detail: v2.Detail, Scenario: "generator", CheckSeed: c.seed,
				Exact: fmt.Sprintf("replays exactly; %d definitions minimised to %d", len(objs[bad].Defs), len(s.Defs)), Minimised: true,
				Specs: map[string]string{bad: specText(s)}})
		}
		buildS += time.Since(t0).Seconds()
		t1 := time.Now()
		m := search(c, w, c.seconds/float64(rounds))
		el += time.Since(t1).Seconds()
		total.absorb(m)
		if m.found != nil || m.err != "" {
			return conclude(c, w, total, specs, el, buildS)
		}
	}
	return conclude(c, w, total, nil, el, buildS)
}

func count(s *ref.Spec, n map[string]int) {
	kinds := []string{"void", "int", "unsigned int", "hyper", "unsigned hyper", "bool", "enum", "opaque[n]", "opaque<n>", "string", "array[n]", "array<n>", "struct", "union", "optional", "named"}
	var walk func(t *ref.Type)
	walk = func(t *ref.Type) {
		if t == nil {
			return
		}
		n[kinds[t.Kind]]++
		walk(t.Elem)
		for _, f := range t.Fields {
			walk(f.T)
		}
		for _, c := range t.Cases {
			walk(c.F.T)
		}
		if t.Def != nil {
			walk(t.Def.T)
		}
	}
	for _, o := range s.Order {
		walk(s.Types[o])
	}
	for _, g := range s.Progs {
		n["program"]++
		n["version"] += len(g.Vers)
		for _, v := range g.Vers {
			n["procedure"] += len(v.Procs)
		}
	}
	n["const"] += len(s.Consts)
}

// mix derives a seed.
func mix(a, b uint64) uint64 {
	x := a ^ (b+1)*0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}
