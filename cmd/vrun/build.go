package main

import (
	"encoding/json"
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif/instr"
)

const repo = "/repo"
const verif = "/verif"

var scratch string

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GODEBUG", "GOMAXPROCS", "GOGC", "GOEXPERIMENT", "GOOS", "GOARCH", "CGO_ENABLED", "PATH", "GOSUMDB", "GOMEMLIMIT":
		default:
			env = append(env, e)
		}
	}
	return append(env, "PATH=/opt/veriftools/go1.27.3/bin:/opt/vp/gobin:"+os.Getenv("PATH"),
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	b, err := c.CombinedOutput()
	return string(b), err
}

type overlay map[string]string

func (o overlay) write(path string) {
	b, _ := json.Marshal(map[string]any{"Replace": o})
	must(os.WriteFile(path, b, 0666))
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vrun: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(scratch)
		if shm != "" {
			os.RemoveAll(shm)
		}
	}
}

// instrument adds instrumented copies of a directory's Go files to o.
func instrument(o overlay, srcDir, label, outDir string, opt instr.Options) error {
	ents, err := os.ReadDir(srcDir)
	if err != nil {
		return err
	}
	must(os.MkdirAll(outDir, 0777))
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(srcDir, n))
		if err != nil {
			return err
		}
		if opt.Statements {
			opt.Maps = repoTypes().Maps(srcDir, n)
			if opt.Reset {
				opt.Inits = repoTypes().Inits(srcDir, n)
			}
		}
		b, err := instr.File(label+"/"+n, src, opt)
		if err != nil {
			return err
		}
		p := filepath.Join(outDir, n)
		must(os.WriteFile(p, b, 0666))
		o[filepath.Join(srcDir, n)] = p
	}
	return nil
}

// editGo adds an edited copy of a file of the Go distribution to o.
func editGo(o overlay, dir, f string, res ...string) {
	b, err := os.ReadFile(goroot + "/src/" + f)
	must(err)
	for i := 0; i < len(res); i += 2 {
		r := regexp.MustCompile(res[i])
		if !r.Match(b) {
			fatal("the seam does not fit %s: %s", f, res[i])
		}
		b = r.ReplaceAll(b, []byte(res[i+1]))
	}
	p := filepath.Join(dir, strings.ReplaceAll(f, "/", "_"))
	must(os.WriteFile(p, b, 0666))
	o[goroot+"/src/"+f] = p
}

// seedRuntime makes the random choices the Go runtime takes for simulated
// goroutines (among the ready cases of a select, timers of one moment, hash
// seeds, the top-level functions of math/rand) a function of the tape.
func seedRuntime(o overlay, dir string) {
	must(os.MkdirAll(dir, 0777))
	editGo(o, dir, "runtime/rand.go", `(?m)^func rand\(\) uint64 \{$`, "$0\n\tif verifState != 0 && getg().bubble != nil {\n\t\treturn verifNext()\n\t}")
	editGo(o, dir, "runtime/select.go", `cheaprandn\(`, "verifRandn(")
	editGo(o, dir, "runtime/time.go", `t\.rand = cheaprand\(\)`, "t.rand = verifRandn(1<<31)")
	add := func(path, text string) {
		f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "_"))
		must(os.WriteFile(f, []byte(text), 0666))
		o[path] = f
	}
	add(goroot+"/src/runtime/verif_rand.go", `package runtime

import _ "unsafe"

var verifState uint64

//go:nosplit
func verifNext() uint64 {
	verifState += 0x9e3779b97f4a7c15
	z := verifState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func verifRandn(n uint32) uint32 {
	if verifState != 0 && getg().bubble != nil {
		return uint32((uint64(uint32(verifNext())) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

//go:linkname verifSeedRand verif/sim.seedRand
func verifSeedRand(s uint64) { verifState = s }
`)
	add(filepath.Join(verif, "sim/runtime_verif.go"), `package sim

import _ "unsafe"

func seedRand(uint64)

func init() { SeedRuntime = seedRand }
`)
}

// libraries lists the directories of the repository's library packages.
func libraries() (r []string) {
	filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil || !d.IsDir() || p == repo {
			return nil
		}
		if n := d.Name(); strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" {
			return filepath.SkipDir
		}
		fs, _ := filepath.Glob(filepath.Join(p, "*.go"))
		for _, f := range fs {
			if a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.PackageClauseOnly); err == nil && a.Name.Name != "main" && !strings.HasSuffix(f, "_test.go") {
				rel, _ := filepath.Rel(repo, p)
				r = append(r, rel)
				break
			}
		}
		return nil
	})
	return
}

var theTypes *instr.Types

func repoTypes() *instr.Types {
	if theTypes == nil {
		build.Default.CgoEnabled = false
		theTypes = instr.NewTypes(repo, "github.com/zeldovich/go-rpcgen")
	}
	return theTypes
}

type builtWorker struct {
	bin   string
	level string
}

// withoutUser: package user is written against the library as it was. Should
// that have come to be incompatible, the shipped protocols are still what
// they are, and the simulation does without it.
func withoutUser(o overlay, out string) bool {
	if !strings.Contains(out, "user/xdr.go") {
		return false
	}
	fmt.Fprintf(os.Stderr, "vrun: note: the user's protocol does not build with this library:\n%s\n", trim(out, 2000))
	none := filepath.Join(scratch, "nouser.go")
	must(os.WriteFile(none, []byte("package harness\n"), 0666))
	o["/verif/harness/zz_user.go"] = none
	return true
}

// buildWorker builds the simulation worker from /repo's current tree. extra
// holds additional overlay entries (generated packages and their glue).
func buildWorker(extra overlay, instrExtra map[string]string) builtWorker {
	var last string
	for i, l := range []struct {
		name string
		o    instr.Options
	}{{"statements+sync+variables", instr.Options{Statements: true, Sync: true, Reset: true}}, {"statements+sync", instr.Options{Statements: true, Sync: true}}, {"sync only", instr.Options{Sync: true}}, {"none", instr.Options{}}} {
		dir := filepath.Join(scratch, fmt.Sprintf("w%d", i))
		must(os.MkdirAll(dir, 0777))
		o := overlay{}
		for k, v := range extra {
			o[k] = v
		}
		seedRuntime(o, filepath.Join(dir, "go"))
		var err error
		for _, p := range libraries() {
			if err = instrument(o, filepath.Join(repo, p), p, filepath.Join(dir, p), l.o); err != nil {
				break
			}
		}
		// Packages generated for this check: virtual path -> real file.
		for virt, real := range instrExtra {
			src, e := os.ReadFile(real)
			must(e)
			b, e := instr.File(filepath.Base(filepath.Dir(virt))+"/"+filepath.Base(virt), src, l.o)
			if e != nil {
				err = e
				break
			}
			f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(virt, "/"), "/", "_"))
			must(os.WriteFile(f, b, 0666))
			o[virt] = f
		}
		if err != nil {
			last = err.Error()
			continue
		}
		of := filepath.Join(dir, "overlay.json")
		o.write(of)
		bin := filepath.Join(dir, "worker")
		out, err := run(verif, goEnv(), "go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./harness")
		if err != nil && withoutUser(o, out) {
			o.write(of)
			out, err = run(verif, goEnv(), "go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./harness")
		}
		if err == nil {
			return builtWorker{bin, l.name}
		}
		last = out
		if i == 0 {
			fmt.Fprintf(os.Stderr, "vrun: note: fully instrumented build failed:\n%s\n", trim(out, 3000))
		}
	}
	fatal("cannot build the simulation from /repo:\n%s", trim(last, 6000))
	panic("unreachable")
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}
