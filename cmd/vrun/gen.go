package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"maps"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/props"
	"verif/sim"
	"verif/specgen"
	"verif/specs"
)

// Simulated runs of the real generator: its file system calls go through a
// seam (simfs/verif_sim.go.txt) that fails, shortens, loses or cuts them
// short as the plan says. See DESIGN.md, C15 and C16.

const goroot = "/opt/veriftools/go1.27.3"

func buildSimGenerator() string {
	dir := filepath.Join(scratch, "simfs")
	must(os.MkdirAll(dir, 0777))
	o := overlay{}
	o[goroot+"/src/syscall/verif_sim.go"] = filepath.Join(dir, "verif_sim.go")
	b, err := os.ReadFile(filepath.Join(verif, "simfs/verif_sim.go.txt"))
	must(err)
	must(os.WriteFile(filepath.Join(dir, "verif_sim.go"), b, 0666))
	edit := func(f string, res ...string) { editGo(o, dir, f, res...) }
	for _, f := range []string{"at", "at_fstatat", "copy_file_range_unix", "fchmodat_other"} {
		edit("internal/syscall/unix/"+f+".go", `syscall\.Syscall(6?)\(`, "syscall.SimSyscall$1(")
	}
	edit("syscall/zsyscall_linux_amd64.go", `\bSyscall(6?)\((_?SYS_)`, "simSyscall$1($2", `rawSyscallNoError\(SYS_GETPID, 0, 0, 0\)`, "simGetpid()", `\bRawSyscall\(SYS_UNAME,`, "simUname(SYS_UNAME,")
	edit("time/time.go", `:= runtimeNow\(\)`, ":= verifNow()", `(?m)^func Now\(\) Time \{`, "func verifNow() (sec int64, nsec int32, mono int64) {\n\tsec, nsec, mono = runtimeNow()\n\tsec = verifTime(sec)\n\treturn\n}\n\n$0")
	o[goroot+"/src/time/verif_sim.go"] = filepath.Join(dir, "time.go")
	must(os.WriteFile(filepath.Join(dir, "time.go"), []byte("package time\n\nimport \"syscall\"\n\nfunc verifTime(sec int64) int64 { return syscall.SimTime(sec) }\n"), 0666))
	edit("runtime/rand.go", `(?m)^\tglobalRand\.state\.Init\(\*seed\)$`, "\tverifSeed(seed)\n$0",
		`(?m)^func rand\(\) uint64 \{$`, "$0\n\tif gp := getg(); verifState != 0 && gp != gp.m.g0 {\n\t\treturn verifNext()\n\t}")
	edit("runtime/select.go", `cheaprandn\(`, "verifRandn(")
	edit("runtime/proc.go", `(?m)^(\t\trunqput\(pp, newg), true\)$`, "$1, verifRunNext(newg))", `(?m)^(\trunqput\(mp\.p\.ptr\(\), gp), next\)$`, "$1, next && verifRunNext(gp))")
	o[goroot+"/src/runtime/verif_sim.go"] = filepath.Join(dir, "runtime.go")
	must(os.WriteFile(filepath.Join(dir, "runtime.go"), []byte(`package runtime

// verifSeed makes all of the runtime's randomness a function of VERIF_RAND.
func verifSeed(seed *[32]byte) {
	const k = "VERIF_RAND="
	for i := argc + 1; ; i++ {
		p := argv_index(argv, i)
		if p == nil {
			return
		}
		s := gostringnocopy(p)
		if len(s) > len(k) && s[:len(k)] == k {
			clear(seed[:])
			seed[31] = 1
			copy(seed[:31], s[len(k):])
			verifState = 1
			for _, c := range []byte(s[len(k):]) {
				verifState = verifState*131 + uint64(c)
			}
		}
	}
}

var verifState uint64

//go:nosplit
func verifNext() uint64 {
	verifState += 0x9e3779b97f4a7c15
	z := verifState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// verifRunNext: does a goroutine that can run go before the others that wait for
// the processor, or behind them?
func verifRunNext(gp *g) bool {
	return verifState == 0 || !mainStarted || isSystemGoroutine(gp, false) || verifNext()>>63 == 0
}

func verifRandn(n uint32) uint32 {
	if verifState != 0 {
		return uint32((uint64(uint32(verifNext())) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}
`), 0666))
	return buildGenerator(o, "sim")
}

// genFile is a file, directory or link of the scratch directory.
type genFile struct {
	Path  string   `json:"path"`
	Kind  string   `json:"kind,omitempty"` // "" file, "dir", "link"
	Data  string   `json:"data,omitempty"` // or the link's target
	Defs  []string `json:"defs,omitempty"` // a specification's definitions, in place of data
	Odd   string   `json:"odd,omitempty"`  // stands after the first OddAt definitions
	OddAt int      `json:"odd_at,omitempty"`
	Mode  uint32   `json:"mode,omitempty"`
	Out   bool     `json:"output,omitempty"` // a former output
}

func (f genFile) content() string {
	if f.Defs != nil {
		k := min(f.OddAt, len(f.Defs))
		return strings.Join(f.Defs[:k], "") + f.Odd + strings.Join(f.Defs[k:], "")
	}
	return f.Data
}

// genFault is one fault; see the seam for the kinds.
type genFault struct {
	N    int    `json:"op"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
	On   string `json:"on,omitempty"` // which call that is, for the reader
}

type genRun struct {
	Args  []string   `json:"args"` // $DIR stands for the scratch directory
	Edit  []genFile  `json:"edit,omitempty"`
	Plan  []genFault `json:"faults,omitempty"`
	Power bool       `json:"power_loss,omitempty"` // the machine goes down when the run ends
	World genWorld   `json:"world,omitempty"`
	// With has faults of a second run with the same arguments at the same
	// time; the turn changes at every "I" of either plan.
	With []genFault `json:"with,omitempty"`
	Two  bool       `json:"two,omitempty"`
}

// genWorld is what a run could depend on but should not.
type genWorld struct {
	Rand string   `json:"rand,omitempty"` // seeds all randomness of the runtime: map order, temporary names
	Time int64    `json:"time,omitempty"` // the clock, in seconds
	Pid  int      `json:"pid,omitempty"`
	Env  []string `json:"env,omitempty"`
	Cwd  string   `json:"cwd,omitempty"` // below the scratch directory
	Host string   `json:"host,omitempty"`
	Age  int64    `json:"age,omitempty"` // when the specification was last written, in seconds
	// Unsized: the specification comes out of a pipe, or a file of /proc,
	// whose size nobody knows before it is read.
	Unsized bool `json:"unsized,omitempty"`
}

type genCase struct {
	Files   []genFile `json:"files"`
	Runs    []genRun  `json:"runs"`
	MustBad bool      `json:"bad_input,omitempty"` // no run of it may succeed
}

func (c *genCase) clone() *genCase {
	b, _ := json.Marshal(c)
	var d genCase
	must(json.Unmarshal(b, &d))
	return &d
}

func (p genFault) String() string { return fmt.Sprintf("%d:%s:%d", p.N, p.Kind, p.Arg) }

type genOp struct {
	N    int
	Name string
	Rest string
}

type genResult struct {
	exit   int
	killed bool
	hang   bool
	stdout []byte
	stderr string
	ops    []genOp
	raw    []string
	dirty  map[uint64]int64 // inodes with data never synced -> synced size
	fired  int
	denied string
	with   *genResult // the run at the same time
}

func (r *genResult) String() string {
	switch {
	case r.hang:
		return "hangs"
	case r.killed:
		return "is killed"
	}
	return fmt.Sprintf("exits %d", r.exit)
}

type genEnv struct {
	bin   string
	base  string
	seq   atomic.Int64
	mu    sync.Mutex
	refs  map[[32]byte]*genRef
	execs atomic.Int64
	opCnt atomic.Int64
	stats map[string]int
	trace bool
	pairs bool // histories may have runs at the same time
}

func (g *genEnv) count(k string, n int) {
	g.mu.Lock()
	g.stats[k] += n
	g.mu.Unlock()
}

type genRef struct {
	once sync.Once
	ok   bool
	out  map[string]string // by output argument
	ops  []genOp
	err  string
	bad  string // why what an undisturbed run wrote is not right
}

func newGenEnv() *genEnv {
	base := scratch
	if d, err := os.MkdirTemp("/dev/shm", "vrun."); err == nil {
		base = d
		shm = d
	}
	return &genEnv{bin: buildSimGenerator(), base: base, refs: map[[32]byte]*genRef{}, stats: map[string]int{}}
}

var shm string

func (g *genEnv) dir() string {
	d := filepath.Join(g.base, fmt.Sprintf("g%d", g.seq.Add(1)))
	must(os.MkdirAll(filepath.Join(d, "tmp"), 0777))
	return d
}

func (g *genEnv) put(dir string, fs []genFile) {
	for _, f := range fs {
		p := filepath.Join(dir, f.Path)
		os.MkdirAll(filepath.Dir(p), 0777)
		switch f.Kind {
		case "dir":
			must(os.MkdirAll(p, 0777))
		case "link":
			os.Remove(p)
			must(os.Symlink(strings.ReplaceAll(f.Data, "$DIR", dir), p))
		default:
			m := os.FileMode(0644)
			if f.Mode != 0 {
				m = os.FileMode(f.Mode)
			}
			os.Remove(p)
			must(os.WriteFile(p, []byte(f.content()), m))
		}
	}
}

// run runs the generator once under a plan.
func (g *genEnv) run(dir string, args []string, plan []genFault, wd genWorld) *genResult {
	p := g.start(dir, args, plan, wd)
	for p.turn() {
	}
	return p.finish()
}

// duo runs it twice at the same time, by turns.
func (g *genEnv) duo(dir string, r genRun) *genResult {
	var ps [2]*genProc
	var over [2]bool
	var seen [2]int
	var raw []string
	ps[0] = g.start(dir, r.Args, r.Plan, r.World)
	for k := 0; !over[0] || !over[1]; k = 1 - k {
		if ps[k] == nil {
			wd := r.World
			wd.Pid = 4322
			ps[k] = g.start(dir, r.Args, r.With, wd)
		}
		if !over[k] {
			over[k] = !ps[k].turn()
			g.count("turns", 1)
			for _, l := range ps[k].lines[seen[k]:] {
				raw = append(raw, fmt.Sprintf("%c %s", 'A'+k, strings.ReplaceAll(l, dir, "$DIR")))
			}
			seen[k] = len(ps[k].lines)
		}
	}
	x := ps[0].finish()
	x.with = ps[1].finish()
	if g.trace {
		x.raw = raw
	}
	return x
}

// genProc is a run in progress.
type genProc struct {
	g       *genEnv
	dir     string
	c       *exec.Cmd
	r       *genResult
	so, se  bytes.Buffer
	log     *bufio.Scanner
	pr, res *os.File
	lines   []string
	started bool
	hang    atomic.Bool
	t       *time.Timer
}

// turn lets it run until it is over or another's turn has come.
func (p *genProc) turn() bool {
	if p.started {
		p.res.Write([]byte{0})
	}
	p.started = true
	for p.log.Scan() {
		if p.log.Text() == "I" {
			return true
		}
		p.lines = append(p.lines, p.log.Text())
	}
	return false
}

func (g *genEnv) start(dir string, args []string, plan []genFault, wd genWorld) *genProc {
	g.execs.Add(1)
	var pl []string
	for _, p := range plan {
		pl = append(pl, p.String())
	}
	as := make([]string, len(args))
	for i, a := range args {
		as[i] = strings.ReplaceAll(a, "$DIR", dir)
	}
	c := exec.Command(g.bin, as...)
	c.Dir = filepath.Join(dir, wd.Cwd)
	os.MkdirAll(c.Dir, 0777)
	if wd.Rand == "" {
		wd.Rand = "fixed"
	}
	if wd.Time == 0 {
		wd.Time = 1700000000
	}
	if wd.Pid == 0 {
		wd.Pid = 4321
	}
	c.Env = []string{"VERIF_FS_DIR=" + dir, "VERIF_FS_PLAN=" + strings.Join(pl, ","), "TMPDIR=" + dir + "/tmp", "HOME=" + dir, "PWD=" + c.Dir,
		"PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOTRACEBACK=single",
		"VERIF_RAND=" + wd.Rand, fmt.Sprint("VERIF_TIME=", wd.Time), fmt.Sprint("VERIF_PID=", wd.Pid)}
	if wd.Host == "" {
		wd.Host = "localhost"
	}
	c.Env = append(c.Env, "VERIF_HOST="+wd.Host)
	if wd.Unsized {
		for i, a := range as {
			if i > 0 && as[i-1] == "-i" {
				c.Env = append(c.Env, "VERIF_UNSIZED="+abs(c.Dir, a))
			}
		}
	}
	c.Env = append(c.Env, wd.Env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p := &genProc{g: g, dir: dir, c: c, r: &genResult{dirty: map[uint64]int64{}}}
	c.Stdout, c.Stderr = &p.so, &p.se
	pr, pw, err := os.Pipe()
	must(err)
	rr, rw, err := os.Pipe()
	must(err)
	c.ExtraFiles = []*os.File{pw, rr}
	if err := c.Start(); err != nil {
		fatal("starting the generator: %v", err)
	}
	pw.Close()
	rr.Close()
	p.pr, p.res = pr, rw
	p.log = bufio.NewScanner(pr)
	p.log.Buffer(nil, 1<<20)
	p.t = time.AfterFunc(20*time.Second, func() {
		p.hang.Store(true)
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
	})
	return p
}

func (p *genProc) finish() *genResult {
	g, r, dir := p.g, p.r, p.dir
	p.pr.Close()
	p.res.Close()
	p.c.Wait()
	p.t.Stop()
	r.exit = p.c.ProcessState.ExitCode()
	if ws, ok := p.c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		r.killed = true
	}
	r.hang = p.hang.Load()
	r.stdout, r.stderr = p.so.Bytes(), trim(p.se.String(), 600)
	synced := map[uint64]int64{}
	for _, l := range p.lines {
		f := strings.SplitN(l, " ", 4)
		if g.trace {
			r.raw = append(r.raw, strings.ReplaceAll(l, dir, "$DIR"))
		}
		switch f[0] {
		case "o":
			n, _ := strconv.Atoi(f[1])
			rest := ""
			if len(f) > 3 {
				rest = strings.ReplaceAll(f[3], dir, "$DIR")
			}
			r.ops = append(r.ops, genOp{n, f[2], rest})
		case "f":
			r.fired++
		case "D":
			r.denied = strings.ReplaceAll(l, dir, "$DIR")
		case "W":
			ino, _ := strconv.ParseUint(f[1], 10, 64)
			r.dirty[ino] = synced[ino]
		case "S":
			if f[1] == "*" {
				clear(r.dirty)
				continue
			}
			ino, _ := strconv.ParseUint(f[1], 10, 64)
			sz, _ := strconv.ParseInt(f[2], 10, 64)
			synced[ino] = sz
			delete(r.dirty, ino)
		}
	}
	g.opCnt.Add(int64(len(r.ops)))
	return r
}

// powerLoss takes away what was never synced.
func powerLoss(dir string, r *genResult) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || !d.Type().IsRegular() {
			return nil
		}
		fi, err := os.Lstat(p)
		if err != nil {
			return nil
		}
		if sz, ok := r.dirty[fi.Sys().(*syscall.Stat_t).Ino]; ok {
			os.Truncate(p, min(sz, fi.Size()))
		}
		return nil
	})
}

// outputs are the arguments of -o and -t.
func outputs(args []string) (r []string) {
	for i, a := range args {
		if (a == "-o" || a == "-t") && i+1 < len(args) && args[i+1] != "" {
			r = append(r, args[i+1])
		}
	}
	return
}

func abs(dir, p string) string {
	p = strings.ReplaceAll(p, "$DIR", dir)
	if !strings.HasPrefix(p, "/") {
		p = filepath.Join(dir, p)
	}
	return p
}

// listing is every regular file and link below dir with its content.
func listing(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case d.Type()&fs.ModeSymlink != 0:
			t, _ := os.Readlink(p)
			m[rel] = "link " + strings.ReplaceAll(t, dir, "$DIR")
		case d.Type().IsRegular():
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		case d.IsDir():
			m[rel] = "dir"
		}
		return nil
	})
	return m
}

// state is what a reader of an output path sees.
func state(p string) string {
	fi, err := os.Stat(p)
	if err != nil {
		return "absent"
	}
	if fi.IsDir() {
		return "dir"
	}
	if !fi.Mode().IsRegular() {
		return "special"
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return "unreadable"
	}
	return "file " + string(b)
}

func describe(s string) string {
	if c, ok := strings.CutPrefix(s, "file "); ok {
		if len(c) > 60 {
			return fmt.Sprintf("%d bytes (%q ... %q)", len(c), c[:30], c[len(c)-30:])
		}
		return fmt.Sprintf("%d bytes (%q)", len(c), c)
	}
	return s
}

func special(o string) bool { return strings.HasPrefix(o, "/dev/") }

// reference is what an undisturbed run in a clean directory makes of the
// current inputs.
func (g *genEnv) reference(files map[string]genFile, args []string) *genRef {
	var keys []string
	outs := map[string]bool{}
	for _, o := range outputs(args) {
		outs[filepath.Clean(strings.TrimPrefix(o, "$DIR/"))] = true
	}
	var in []genFile
	for k := range files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := files[k]
		if f.Out || f.Kind == "" && outs[filepath.Clean(k)] {
			continue
		}
		in = append(in, f)
	}
	b, _ := json.Marshal(struct {
		F []genFile
		A []string
	}{in, args})
	h := sha256.Sum256(b)
	g.mu.Lock()
	r := g.refs[h]
	if r == nil {
		if len(g.refs) > 5000 {
			clear(g.refs)
		}
		r = &genRef{}
		g.refs[h] = r
	}
	g.mu.Unlock()
	r.once.Do(func() {
		dir := g.dir()
		defer os.RemoveAll(dir)
		g.put(dir, in)
		x := g.run(dir, args, nil, genWorld{})
		r.ops = x.ops
		r.err = x.stderr
		r.out = map[string]string{}
		if x.hang || x.killed || x.exit != 0 {
			return
		}
		r.ok = true
		for _, o := range outputs(args) {
			s := state(abs(dir, o))
			if o == "/dev/stdout" {
				s = "file " + string(x.stdout)
			}
			r.out[o] = s
			if special(o) && o != "/dev/stdout" {
				continue
			}
			c, isFile := strings.CutPrefix(s, "file ")
			if !isFile {
				r.bad = fmt.Sprintf("exits 0, but %s is %s", o, s)
				continue
			}
			if _, err := parser.ParseFile(token.NewFileSet(), "", c, parser.SkipObjectResolution); err != nil {
				r.bad = fmt.Sprintf("exits 0, but %s is not a Go file: %v", o, err)
			}
		}
		for n, s := range declared(in, args) {
			found := false
			for _, o := range outputs(args) {
				found = found || strings.Contains(r.out[o], s)
			}
			if !found && r.bad == "" && !strings.Contains(strings.Join(args, " "), "/dev/null") {
				r.bad = fmt.Sprintf("exits 0, but nothing of %s (%q) is in the output", n, s)
			}
		}
	})
	return r
}

// declared lists what must be found in the output of a specification.
func declared(in []genFile, args []string) map[string]string {
	m := map[string]string{}
	for i, a := range args {
		if a != "-i" || i+1 >= len(args) {
			continue
		}
		for _, f := range in {
			if f.Defs == nil || filepath.Clean(f.Path) != filepath.Clean(strings.TrimPrefix(args[i+1], "$DIR/")) {
				continue
			}
			sp, ok := specgen.Spec{Defs: f.Defs}.Valid()
			if !ok {
				continue
			}
			up := func(n string) string { return strings.ToUpper(n[:1]) + n[1:] }
			for _, n := range sp.Order {
				m["type "+n] = "type " + up(n) + " "
				m["codec of "+n] = "func (v *" + up(n) + ") Xdr("
			}
			for n := range sp.Consts {
				m["constant "+n] = ""
			}
			for _, p := range sp.Progs {
				for _, v := range p.Vers {
					m["version "+v.Name] = "func " + up(p.Name) + "_" + up(v.Name) + "_regs("
				}
			}
		}
	}
	return m
}

// eval plays a case: its runs under their faults, then the last one again
// without any.
func (g *genEnv) eval(c *genCase) (viol *sim.Violation, res []*genResult) {
	dir := g.dir()
	defer os.RemoveAll(dir)
	g.put(dir, c.Files)
	files := map[string]genFile{}
	for _, f := range c.Files {
		files[f.Path] = f
	}
	runs := append([]genRun(nil), c.Runs...)
	runs = append(runs, genRun{Args: runs[len(runs)-1].Args})
	fail := func(cl, f string, a ...any) {
		if viol == nil {
			viol = &sim.Violation{Class: cl, Detail: fmt.Sprintf(f, a...)}
		}
	}
	for ri, r := range runs {
		final := ri == len(runs)-1
		g.put(dir, r.Edit)
		for _, e := range r.Edit {
			files[e.Path] = e
		}
		ref := g.reference(files, r.Args)
		outs := outputs(r.Args)
		prior := map[string]string{}
		isOut := map[string]bool{}
		for _, o := range outs {
			p := abs(dir, o)
			prior[o] = state(p)
			for _, q := range resolved(dir, p) {
				isOut[q] = true
			}
		}
		before := listing(dir)
		var x *genResult
		if r.Two {
			x = g.duo(dir, r)
		} else {
			x = g.run(dir, r.Args, r.Plan, r.World)
		}
		res = append(res, x)
		if r.Power && !r.Two {
			powerLoss(dir, x)
		}
		after := listing(dir)
		for _, o := range outs {
			for _, q := range resolved(dir, abs(dir, o)) {
				isOut[q] = true
			}
		}
		what := fmt.Sprintf("run %d", ri+1)
		if final {
			what = "the undisturbed run at the end"
		}
		what += fmt.Sprintf(" (%s) %s", strings.Join(r.Args, " "), x)
		if r.Power && !r.Two {
			what += ", then the machine goes down"
		}
		if x.with != nil {
			what += fmt.Sprintf(", and another at the same time %s", x.with)
		}
		ok := false
		for k, x := range []*genResult{x, x.with} {
			if x == nil {
				continue
			}
			if x.hang {
				fail("gen.hang", "%s", what)
				return
			}
			if x.killed && x.fired == 0 {
				fail("gen.hang", "%s by a signal of its own: %s", what, x.stderr)
				return
			}
			good := !x.killed && x.exit == 0
			ok = ok || good
			if r.Two && !good && !faulty([][]genFault{r.Plan, r.With}[k]) && ref.ok && ref.bad == "" && !c.MustBad {
				fail("gen.concurrent", "%s: the %s, which had no fault: %s %s", what, []string{"first", "second"}[k], x.stderr, x.denied)
			}
			if want, has := ref.out["/dev/stdout"]; r.Two && good && has && "file "+string(x.stdout) != want {
				fail("gen.concurrent", "%s: the %s writes %q to /dev/stdout, not %q", what, []string{"first", "second"}[k], x.stdout, want)
			}
		}
		if final {
			switch {
			case ref.ok && ref.bad == "" && !ok && !c.MustBad:
				fail("gen.rerun-failed", "%s: %s %s", what, x.stderr, x.denied)
			case !ref.ok && ok && !c.MustBad:
				fail("gen.rerun-differs", "%s, but in a clean directory it fails: %s", what, ref.err)
			}
		}
		if ok && c.MustBad {
			fail("gen.false-success", "%s, but its input is bad", what)
		}
		if ok && ref.ok && ref.bad != "" {
			fail("gen.false-success", "an undisturbed run (%s) %s", strings.Join(r.Args, " "), ref.bad)
		}
		for _, o := range outs {
			now := state(abs(dir, o))
			if o == "/dev/stdout" {
				now = "file " + string(x.stdout)
			}
			want, has := ref.out[o]
			switch {
			case o == "/dev/stdout" && r.Two: // seen above
			case special(o) && o != "/dev/stdout":
			case ok && (!has || now != want):
				cl := "gen.false-success"
				if final {
					cl = "gen.rerun-differs"
				}
				fail(cl, "%s, but %s is %s; an undisturbed run makes it %s", what, o, describe(now), describe(want))
			case ok || o == "/dev/stdout":
			case now == prior[o] || has && now == want:
			case prior[o] == "absent":
				fail("gen.partial-new", "%s and leaves %s, which was not there before, as %s; complete, it is %s", what, o, describe(now), describe(want))
			default:
				fail("gen.damage", "%s and leaves %s as %s; it was %s and would have become %s", what, o, describe(now), describe(prior[o]), describe(want))
			}
		}
		for p, s := range before {
			n, there := after[p]
			if strings.HasPrefix(s, "link ") && (!there || n != s) && known(files, p) {
				fail("gen.damage", "%s and replaces the link %s: it was a %s and is now %s", what, p, s, describe(n))
			}
			if isOut[p] {
				continue
			}
			if known(files, p) && (!there || n != s) {
				fail("gen.damage", "%s and changes %s, which is not its output: it was %s and is now %s", what, p, describe(s), describe(n))
			}
		}
		cleanup := !x.killed
		for _, f := range r.Plan {
			if f.Kind == "P" || f.Kind != "I" && f.N >= 1 && f.N <= len(x.ops) && strings.Contains("unlink rmdir", x.ops[f.N-1].Name) {
				cleanup = false
			}
		}
		if y := x.with; y != nil {
			cleanup = cleanup && !y.killed
			for _, f := range r.With {
				if f.Kind == "P" || f.Kind != "I" && f.N >= 1 && f.N <= len(y.ops) && strings.Contains("unlink rmdir", y.ops[f.N-1].Name) {
					cleanup = false
				}
			}
		}
		if cleanup {
			for p, s := range after {
				if _, was := before[p]; !was && !isOut[p] && s != "dir" {
					fail("gen.temp-left", "%s and leaves %s behind", what, p)
				}
			}
		}
		if viol != nil {
			return
		}
	}
	return
}

// faulty: a plan with more than changes of turn.
func faulty(plan []genFault) bool {
	return slices.ContainsFunc(plan, func(f genFault) bool { return f.Kind != "I" })
}

// vary plays a case whose runs differ in everything but the specification
// and the options; what they write must not.
func (g *genEnv) vary(c *genCase) (viol *sim.Violation, res []*genResult) {
	dir := g.dir()
	defer os.RemoveAll(dir)
	g.put(dir, c.Files)
	var first *genResult
	var was []string
	for ri, r := range c.Runs {
		for _, o := range outputs(r.Args) {
			os.MkdirAll(filepath.Dir(abs(filepath.Join(dir, r.World.Cwd), strings.ReplaceAll(o, "$DIR", dir))), 0777)
		}
		if w := r.World; w.Age != 0 {
			for _, f := range c.Files {
				if p := filepath.Join(dir, f.Path); f.Kind == "" {
					os.Chtimes(p, time.Unix(w.Age, 0), time.Unix(w.Age, 0))
				}
			}
		}
		x := g.run(dir, r.Args, r.Plan, r.World)
		res = append(res, x)
		if x.hang {
			return &sim.Violation{Class: "gen.hang", Detail: fmt.Sprintf("run %d hangs", ri+1)}, res
		}
		if len(r.Plan) > 0 && (x.killed || x.exit != 0) {
			continue // an earlier run that did not get there
		}
		var now []string
		for _, o := range outputs(r.Args) {
			if x.exit != 0 {
				now = append(now, "")
				continue
			}
			now = append(now, state(abs(filepath.Join(dir, r.World.Cwd), strings.ReplaceAll(o, "$DIR", dir))))
		}
		if first == nil {
			first, was = x, now
			continue
		}
		if (x.exit == 0) != (first.exit == 0) {
			return &sim.Violation{Class: "gen.varies", Detail: fmt.Sprintf("run %d (%s, %+v) %s %s, but on the same specification an earlier one %s %s", ri+1, strings.Join(r.Args, " "), r.World, x, x.stderr, first, first.stderr)}, res
		}
		for i := range now {
			if now[i] != was[i] {
				return &sim.Violation{Class: "gen.varies", Detail: fmt.Sprintf("run %d (%s, %+v) makes %s %s; an earlier one with the same specification and options made it %s; %s", ri+1, strings.Join(r.Args, " "), r.World, outputs(r.Args)[i], describe(now[i]), describe(was[i]), firstDifference(was[i], now[i]))}, res
			}
		}
	}
	return nil, res
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-30):min(len(s), i+50)] }
	return fmt.Sprintf("first difference at byte %d: %q, now %q", i-5, cut(a), cut(b))
}

func (g *genEnv) judge(prop string, c *genCase) (*sim.Violation, []*genResult) {
	if prop == "C19" {
		return g.vary(c)
	}
	return g.eval(c)
}

// known: one of the case's own files, not something an earlier run left.
func known(files map[string]genFile, p string) bool {
	f, ok := files[p]
	return ok && !f.Out
}

// resolved is the places a path leads through, relative to dir.
func resolved(dir, p string) (r []string) {
	for range 10 {
		d, err := filepath.EvalSymlinks(filepath.Dir(p))
		if err != nil {
			d = filepath.Dir(p)
		}
		p = filepath.Join(d, filepath.Base(p))
		if rel, err := filepath.Rel(dir, p); err == nil {
			r = append(r, rel)
		}
		t, err := os.Readlink(p)
		if err != nil {
			return
		}
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(p), t)
		}
		p = t
	}
	return
}

// ---- scenarios

type genGen struct {
	r *rand.Rand
}

func (g *genGen) n(k int) int { return g.r.IntN(k) }

func (g *genGen) spec() genFile {
	switch g.n(18) {
	case 0:
		return genFile{Data: specs.RFC1057}
	case 1:
		return genFile{Data: specs.RFC1813}
	case 2:
		return genFile{Defs: specgen.New(g.r.Uint64(), 60+g.n(200)).Defs}
	}
	return genFile{Defs: specgen.New(g.r.Uint64(), 1+g.n(10)).Defs}
}

// scenario makes inputs, former outputs, bystanders and arguments.
func (g *genGen) scenario() *genCase {
	c := &genCase{}
	in := g.spec()
	in.Path = []string{"prot.x", "in/prot.x", "a b.x"}[g.n(3)]
	inArg := in.Path
	if g.n(4) == 0 {
		inArg = "$DIR/" + in.Path
	}
	outDir := []string{"", "", "out", "deep/er"}[g.n(4)]
	if outDir != "" {
		c.Files = append(c.Files, genFile{Path: outDir, Kind: "dir"})
	}
	join := func(n string) string { return filepath.Join(outDir, n) }
	o, t := join("xdr.go"), ""
	if g.n(3) > 0 {
		t = join("types.go")
		if g.n(5) == 0 {
			c.Files = append(c.Files, genFile{Path: "other", Kind: "dir"})
			t = "other/types.go"
		}
	}
	arg := func(p string) string {
		switch g.n(8) {
		case 0:
			return "$DIR/" + p
		case 1:
			return "./" + p
		}
		return p
	}
	oa, ta := arg(o), ""
	if t != "" {
		if g.n(8) == 0 {
			t = o + []string{".tmp", ".tmp0", ".tmp1", ".new"}[g.n(4)]
		}
		ta = arg(t)
	}
	misuse := 0
	switch g.n(10) {
	case 0: // bad input of some kind
		c.MustBad = true
		switch g.n(10) {
		case 0: // cut short inside a definition
			s := in.content()
			k := strings.LastIndex(s, "{")
			if k < 0 {
				s, k = "const", 4
			}
			in.Defs, in.Data = nil, s[:k+1]
		case 1:
			if in.Defs == nil {
				in.Defs = []string{in.Data}
				in.Data = ""
			}
			k := g.n(len(in.Defs) + 1)
			junk := []string{"%#include <stdio.h>\n", "const SUM = 1 + 2;\n", "const HALF = 0.5;\n", "const NAME = \"name\";\n", "const CHAR = 'c';\n", "@\n", "const AFTER == 3;\n", "typedef int away!;\n", "typedef int pair, other;\n", "typedef opaque sum<1 + 2>;\n", "struct dots { int a.b; };\n", "struct { int x; } ;\n", "const = 3;\n", "enum nope { A B };\n", "typedef int;\n", "}\n", "struct broken {\n int a\n", "const X := 3;\n", "program P { version V { void F(void) = 1 } = 1; } = 2;\n", "typedef float *fraction<3>;\n", "struct s { string x[3]; };\n", "union u switch (int a) { default: void; case 1: void; };\n",
				"program WIDE { version WIDEV { void WIDEP(void) = 4294967296; } = 1; } = 2;\n", "program WIDE { version WIDEV { void WIDEP(void) = 1; } = 0x100000000; } = 2;\n", "program WIDE { version WIDEV { void WIDEP(void) = 1; } = 1; } = 0x1ffffffff;\n", "program WIDE { version WIDEV { void WIDEP(void) = 1; } = -1; } = 2;\n",
				"program TWO { version TWOV { void TWOP(void) = 1; } = 1; version TWOV { void TWOQ(void) = 1; } = 2; } = 3;\n"}
			s := append(append(append([]string{}, in.Defs[:k]...), junk[g.n(len(junk))]), in.Defs[k:]...)
			in.Defs, in.Data = nil, strings.Join(s, "")
		case 2:
			inArg = "missing.x"
		case 3:
			c.Files = append(c.Files, genFile{Path: "dir.x", Kind: "dir"})
			inArg = "dir.x"
		case 4:
			oa = "nowhere/xdr.go"
		case 5:
			c.Files = append(c.Files, genFile{Path: "taken", Kind: "dir"})
			if g.n(2) == 0 || t == "" {
				oa = "taken"
			} else {
				ta = "taken"
			}
		case 6:
			if g.n(2) == 0 || t == "" {
				oa = "/dev/full"
			} else {
				ta = "/dev/full"
			}
		case 7: // two outputs in one file
			t = o
			ta = []string{oa, o, "./" + o, "$DIR/" + o}[g.n(4)]
			switch g.n(4) {
			case 0:
				c.Files = append(c.Files, genFile{Path: "store", Kind: "dir"}, genFile{Path: "via", Kind: "link", Data: "store"})
				oa, ta = "via/xdr.go", "store/xdr.go"
			case 1:
				c.Files = append(c.Files, genFile{Path: "real.go", Data: g.old(""), Out: true}, genFile{Path: "link.go", Kind: "link", Data: "real.go"})
				oa, ta = "real.go", "link.go"
			}
			if g.n(2) == 0 {
				oa, ta = ta, oa
			}
		case 9: // an output is the specification
			a := []string{in.Path, "./" + in.Path, "$DIR/" + in.Path, "spec.go"}[g.n(4)]
			if a == "spec.go" {
				c.Files = append(c.Files, genFile{Path: a, Kind: "link", Data: in.Path})
			}
			if g.n(2) == 0 || t == "" {
				oa = a
			} else {
				ta = a
			}
		case 8: // not all arguments
			misuse = 1 + g.n(4)
		}
	case 1:
		if g.n(2) == 0 || t == "" {
			oa = "/dev/null"
		} else {
			ta = "/dev/null"
		}
	case 2:
		if g.n(2) == 0 || t == "" {
			oa = "/dev/stdout"
		} else {
			ta = "/dev/stdout"
		}
	case 3: // the output is a link
		tgt := "real/x.go"
		if g.n(2) == 0 {
			tgt = "$DIR/real/x.go"
		}
		c.Files = append(c.Files, genFile{Path: "real", Kind: "dir"})
		if g.n(2) == 0 {
			c.Files = append(c.Files, genFile{Path: "real/x.go", Data: g.old(""), Out: true})
		}
		p := "link.go"
		c.Files = append(c.Files, genFile{Path: p, Kind: "link", Data: tgt})
		if g.n(2) == 0 || t == "" {
			oa = p
		} else {
			ta = p
		}
	case 4: // a directory on the way is a link
		c.Files = append(c.Files, genFile{Path: "store", Kind: "dir"}, genFile{Path: "via", Kind: "link", Data: "store"})
		oa = "via/xdr.go"
		if t != "" && g.n(2) == 0 {
			ta = "via/types.go"
		}
	}
	if !c.MustBad && g.n(6) == 0 {
		// Legal, but perhaps too much for the generator: it may fail, but not
		// pretend.
		if in.Defs == nil {
			in.Defs, in.Data = specgen.New(g.r.Uint64(), 1+g.n(10)).Defs, ""
		}
		in.OddAt = g.n(len(in.Defs) + 1)
		in.Odd = []string{"const map = 3;\n", "const func = 3;\n", "const type = 0x10;\n", "const NEGATIVE = -5;\n", "const range = 1;\n", "typedef int map;\n", "struct chan { int a; };\n", "struct odd { int type; };\n", "typedef float odd;\n", "const HUGE = 0xffffffffffffffffffff;\n", "const OCT = 0777;\n", "const BADOCT = 0999;\n", "% passed through\n", "# 1 \"other.x\"\n", "enum odd { LESS = -1 };\n", "union odd switch (int a) { case -1: int b; };\n", "typedef quadruple odd;\n", "struct odd { struct { int a; } b; };\n"}[g.n(18)]
	}
	c.Files = append(c.Files, in)
	// Former outputs.
	former := g.n(4)
	for i, a := range []string{oa, ta} {
		p := strings.TrimPrefix(strings.TrimPrefix(a, "$DIR/"), "./")
		if a == "" || special(a) || p == "link.go" || p == "taken" || p == "spec.go" || p == in.Path || strings.HasPrefix(p, "nowhere") || former == 0 || former == 1+i && t != "" {
			continue
		}
		f := genFile{Path: p, Data: g.old(in.content()), Out: true}
		f.Mode = []uint32{0644, 0644, 0600, 0444, 0755}[g.n(5)]
		if strings.HasPrefix(p, "via/") {
			f.Path = "store/" + p[4:]
		}
		c.Files = append(c.Files, f)
	}
	for k := g.n(4); k == 3 && !special(oa) && oa != "" && !strings.HasPrefix(oa, "nowhere"); k = g.n(2) * 3 {
		// Somebody's file with a name like a temporary one.
		p := strings.TrimPrefix(strings.TrimPrefix(oa, "$DIR/"), "./") + []string{".tmp", ".tmp0", ".tmp1", "~", ".new", ".bak", ".go"}[g.n(7)]
		c.Files = append(c.Files, genFile{Path: p, Data: "package precious\n", Mode: []uint32{0644, 0444}[g.n(2)]})
	}
	c.Files = append(c.Files, genFile{Path: join("xdr_test.go"), Data: "package mine\n"}, genFile{Path: "notes.txt", Data: "precious\n"})
	args := []string{"-i", inArg, "-o", oa}
	if ta != "" {
		args = append(args, "-t", ta)
	}
	if g.n(3) > 0 {
		args = append(args, "-p", "pkg")
	}
	if g.n(3) == 0 {
		args = append(args, "-unsigned-enum")
	}
	if g.n(3) == 0 {
		args = append(args, "-const-type", "uint64")
	}
	if !special(oa) && !special(ta) && g.n(12) == 0 {
		args = append(args, "-d")
	}
	switch misuse {
	case 1:
		args = args[2:]
	case 2:
		args = append(args[:2:2], args[4:]...)
	case 3:
		args = append(args, "-no-such-option")
	case 4:
		args = append([]string{"-i"}, args...)
	}
	c.Runs = []genRun{{Args: args}}
	c.Runs[0].World.Unsized = g.n(10) == 0
	return c
}

// old is the content of a former output.
func (g *genGen) old(spec string) string {
	switch g.n(6) {
	case 0:
		return "package old\n"
	case 1:
		return ""
	case 4:
		return "// Copyright someone\n\n//go:build old\n\n// Package old is old.\npackage old\n\nimport \"fmt\"\n\nvar Kept = fmt.Sprint()\n"
	case 5:
		return "//go:generate go-rpcgen\n// Code generated by hand; DO NOT EDIT.\npackage old // -p old\n\nimport . \"github.com/zeldovich/go-rpcgen/xdr\"\n\ntype Kept int\n"
	case 2: // longer than anything new
		return "package old\n" + strings.Repeat("// old old old old old old old old old old old old old old\n", 20+g.n(12000))
	}
	return "package old\n\nvar Kept = 1\n" + strings.Repeat("// x\n", g.n(400))
}

const (
	eio    = int(syscall.EIO)
	enospc = int(syscall.ENOSPC)
	eintr  = int(syscall.EINTR)
	eacces = int(syscall.EACCES)
	erofs  = int(syscall.EROFS)
	emfile = int(syscall.EMFILE)
	edquot = int(syscall.EDQUOT)
	enomem = int(syscall.ENOMEM)
)

// cuts are the places where a read of the input may stop short and what was
// read still makes sense by itself.
func (g *genGen) cuts(files []genFile) []int {
	var r []int
	for _, f := range files {
		if f.Kind != "" || f.Out || len(f.content()) == 0 {
			continue
		}
		s := f.content()
		for i := 0; i+2 < len(s); i++ {
			if s[i] == ';' && s[i+1] == '\n' && (i == 0 || s[i-1] == '}' || s[i-1] == ' ' || g.n(4) == 0) {
				r = append(r, i+2)
			}
		}
	}
	g.r.Shuffle(len(r), func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r[:min(len(r), 3)]
}

// faultsFor lists what can go wrong with one operation.
func faultsFor(o genOp, cuts []int) (r []genFault) {
	e := func(k string, args ...int) {
		for _, a := range args {
			r = append(r, genFault{N: o.N, Kind: k, Arg: a, On: strings.TrimSpace(o.Name + " " + o.Rest)})
		}
	}
	size := 0
	if f := strings.Fields(o.Rest); len(f) > 0 {
		size, _ = strconv.Atoi(f[len(f)-1])
	}
	e("K", 0)
	e("A", 0)
	switch o.Name {
	case "open":
		e("E", eio, eacces, emfile, enospc, eintr, enomem)
		e("P", enospc, erofs, emfile, eio)
	case "read", "pread", "getdents":
		e("E", eio, eintr)
		e("S", 1, 100)
		e("S", cuts...)
		e("P", eio)
	case "write", "pwrite":
		e("E", eio, enospc, eintr, edquot)
		e("S", 1, size/2)
		e("L", eio, enospc)
		e("M", 0, 1, size/2, size-1)
		e("P", enospc, eio, edquot)
	case "copy":
		e("E", eio, enospc)
		e("P", enospc)
	case "fsync":
		e("E", eio, enospc, eintr, edquot)
	case "close":
		e("E", eio, enospc, edquot)
	case "rename", "link":
		e("E", eio, enospc, eacces, enomem)
		e("P", eio, erofs)
	case "unlink", "rmdir":
		e("E", eio, eacces)
	case "stat", "lstat", "fstat", "readlink", "access":
		e("E", eio, eacces, enomem)
	default:
		e("E", eio, enospc, eacces)
	}
	return
}

func (g *genGen) budget(total int) genFault {
	return genFault{N: 0, Kind: "B", Arg: g.n(total + 1), On: "disk space"}
}

// history turns a scenario into several runs, each with faults of its own,
// with edits of the input in between.
func (g *genGen) history(e *genEnv, c *genCase) *genCase {
	h := c.clone()
	base := h.Runs[0]
	h.Runs = nil
	k := 1 + g.n(4)
	cur := map[string]genFile{}
	for _, f := range h.Files {
		cur[f.Path] = f
	}
	for i := range k {
		r := genRun{Args: base.Args, World: base.World}
		if i > 0 && g.n(2) == 0 && !h.MustBad {
			for _, f := range h.Files {
				if f.Kind == "" && !f.Out && strings.HasSuffix(f.Path, ".x") {
					n := g.spec()
					if f.Defs != nil && g.n(2) == 0 && len(f.Defs) > 1 {
						// A shorter version of the same.
						s := specgen.Spec{Defs: append([]string(nil), f.Defs[:1+g.n(len(f.Defs)-1)]...)}
						if _, ok := s.Valid(); ok {
							n = genFile{Defs: s.Defs}
						}
					}
					n.Path = f.Path
					r.Edit = append(r.Edit, n)
					cur[n.Path] = n
				}
			}
		}
		ref := e.reference(cur, base.Args)
		ops := ref.ops
		for range 1 + g.n(3)*g.n(2) {
			if len(ops) == 0 {
				break
			}
			// Later operations matter more.
			o := ops[max(g.n(len(ops)), g.n(len(ops)))]
			var files []genFile
			for _, p := range slices.Sorted(maps.Keys(cur)) {
				files = append(files, cur[p])
			}
			cuts := g.cuts(files)
			fs := faultsFor(o, cuts)
			if g.n(8) == 0 {
				tot := 0
				for _, s := range ref.out {
					tot += len(s)
				}
				r.Plan = append(r.Plan, g.budget(tot+10))
				continue
			}
			f := fs[g.n(len(fs))]
			// Recovery changes the numbering: faults may hit later calls too.
			f.N += g.n(2) * g.n(4)
			if (f.Kind == "S" || f.Kind == "M") && !slices.Contains(cuts, f.Arg) {
				f.Arg = g.n(5000)
			}
			r.Plan = append(r.Plan, f)
		}
		if g.n(6) == 0 {
			r.Plan = nil
		}
		r.Power = g.n(3) == 0
		if e.pairs && g.n(3) == 0 {
			g.pair(&r, ops)
		}
		h.Runs = append(h.Runs, r)
	}
	return h
}

// pair makes r two runs at the same time.
func (g *genGen) pair(r *genRun, ops []genOp) {
	if len(ops) == 0 {
		return
	}
	r.Two = true
	switch g.n(3) {
	case 0:
		r.Plan = nil
	case 1:
		o := ops[max(g.n(len(ops)), g.n(len(ops)))]
		fs := faultsFor(o, nil)
		r.With = append(r.With, fs[g.n(len(fs))])
	}
	n := 1 + g.n(2)*g.n(12)
	for range n {
		for _, p := range []*[]genFault{&r.Plan, &r.With} {
			o := ops[max(g.n(len(ops)), g.n(len(ops)))]
			// Before the same call's fault, if there is one.
			*p = append([]genFault{{N: o.N + g.n(2)*g.n(3), Kind: "I", On: strings.TrimSpace(o.Name + " " + o.Rest)}}, *p...)
		}
	}
}

// variations makes runs that share the specification and the options.
func (g *genGen) variations() *genCase {
	c := &genCase{}
	in := g.spec()
	in.Path = "prot.x"
	if g.n(12) == 0 { // it fails, always
		in.Data, in.Defs = in.content()+"struct broken {\n int a\n", nil
	}
	c.Files = append(c.Files, in, genFile{Path: "w/x", Kind: "dir"}, genFile{Path: "y", Kind: "dir"}, genFile{Path: "alias.x", Kind: "link", Data: "prot.x"},
		genFile{Path: "go.mod", Data: "module elsewhere\n"}, genFile{Path: "y/go.mod", Data: "module y\n"})
	for _, d := range []string{"", "o1/", "o2/p/", "w/x/", "y/"} {
		for _, n := range []string{"xdr.go", "gen.go", "a.out", "t_xdr.go", "t_gen.go", "t_a.out", "doc.go", "types.go", ".go-rpcgen", "prot.cfg"} {
			if g.n(10) == 0 {
				c.Files = append(c.Files, genFile{Path: d + n, Data: g.old("")})
			}
		}
	}
	types := g.n(3) > 0
	var opts []string
	if g.n(3) > 0 {
		opts = append(opts, "-p", []string{"pkg", "nfs"}[g.n(2)])
	}
	if g.n(2) == 0 {
		opts = append(opts, "-unsigned-enum")
	}
	if g.n(2) == 0 {
		opts = append(opts, "-const-type", "uint64")
	}
	for i := range 2 + g.n(5) {
		var r genRun
		w := &r.World
		w.Rand = fmt.Sprintf("%016x", g.r.Uint64())
		w.Time = int64(g.r.Uint32()) + int64(g.n(3))*1000000000
		w.Pid = 2 + g.n(4000000)
		w.Cwd = []string{"", "w/x", "y"}[g.n(3)]
		w.Host = []string{"", "ws12", "build.example.org"}[g.n(3)]
		if g.n(2) == 0 {
			w.Age = 1 + int64(g.r.Uint32())
		}
		w.Unsized = g.n(8) == 0
		for _, e := range []string{"LANG=C", "LANG=tr_TR.UTF-8", "LC_ALL=de_DE", "TZ=Asia/Tokyo", "TZ=", "USER=someone", "GOPACKAGE=other", "GOFILE=a.go", "GOOS=windows", "GOARCH=386", "GOPATH=/nowhere", "DEBUG=1", "SOURCE_DATE_EPOCH=1", "COLUMNS=20", "GOFLAGS=-mod=vendor"} {
			if g.n(4) == 0 {
				w.Env = append(w.Env, e)
			}
		}
		up := map[string]string{"": "", "w/x": "../../", "y": "../"}[w.Cwd]
		path := func(p string) string {
			switch g.n(4) {
			case 0:
				return "$DIR/" + p
			case 1:
				return "./" + up + p
			}
			return up + p
		}
		odir := []string{"", "o1/", "o2/p/"}[g.n(3)]
		oname := []string{"xdr.go", "gen.go", "a.out"}[g.n(3)]
		a := [][]string{{"-i", path([]string{"prot.x", "alias.x"}[g.n(2)])}, {"-o", path(odir + oname)}}
		if types {
			a = append(a, []string{"-t", path(odir + "t_" + oname)})
		}
		for j := 0; j < len(opts); {
			k := j + 1
			if k < len(opts) && !strings.HasPrefix(opts[k], "-") {
				k++
			}
			a = append(a, opts[j:k])
			j = k
		}
		if g.n(6) == 0 {
			a = append(a, []string{"-d"})
		}
		g.r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		// -o before -t: outputs are compared in order.
		if types {
			var io, it int
			for j, x := range a {
				if x[0] == "-o" {
					io = j
				}
				if x[0] == "-t" {
					it = j
				}
			}
			if io > it {
				a[io], a[it] = a[it], a[io]
			}
		}
		for _, x := range a {
			r.Args = append(r.Args, x...)
		}
		if i > 0 && g.n(4) == 0 {
			r.Plan = []genFault{{N: 1 + g.n(25), Kind: []string{"K", "A"}[g.n(2)]}}
		}
		c.Runs = append(c.Runs, r)
	}
	return c
}

type genFound struct {
	c    *genCase
	v    *sim.Violation
	seed uint64
}

func checkGenerator(c *checkCtx) int {
	e := newGenEnv()
	e.pairs = c.prop == "C16"
	buildS := time.Since(c.start).Seconds()
	t0 := time.Now()
	end := t0.Add(time.Duration(c.seconds * float64(time.Second)))
	var mu sync.Mutex
	var found *genFound
	other := map[string]int{}
	evals, scenarios, swept, plain := 0, 0, 0, 0
	distinct := map[[32]byte]bool{}
	kinds := map[string]int{}
	fired := map[string]int{}
	scen := map[string]int{}
	worlds := map[string]int{}
	var samples []any
	done := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return found != nil || !time.Now().Before(end)
	}
	judge := func(k *genCase, seed uint64) {
		v, res := e.judge(c.prop, k)
		mu.Lock()
		defer mu.Unlock()
		evals++
		h := sha256.New()
		for i, r := range res {
			for _, o := range r.ops {
				fmt.Fprintln(h, o.Name, o.Rest)
			}
			fmt.Fprintln(h, r.exit, r.killed, r.fired)
			if i < len(k.Runs) {
				if w := k.Runs[i].World; w.Rand != "" {
					fmt.Fprintln(h, w)
					worlds["randomness_seeds"]++
					worlds["clock_settings"]++
					worlds["working_directory "+w.Cwd]++
					worlds["host_name "+w.Host]++
					if w.Age != 0 {
						worlds["age_of_the_specification"]++
					}
					for _, v := range w.Env {
						worlds["environment "+v]++
					}
				}
				if k.Runs[i].World.Unsized {
					worlds["specification_of_unknown_size"]++
				}
				fmt.Fprintln(h, k.Runs[i].Plan, k.Runs[i].Power)
				for _, f := range append(k.Runs[i].Plan[:len(k.Runs[i].Plan):len(k.Runs[i].Plan)], k.Runs[i].With...) {
					name := map[string]string{"E": "error", "P": "persistent_error", "S": "short_transfer", "L": "lost_write", "K": "kill_before_call", "A": "kill_after_call", "M": "kill_inside_write", "B": "disk_full", "I": "turn_of_another_run"}[f.Kind]
					if f.Kind == "E" || f.Kind == "P" || f.Kind == "L" {
						name += "." + syscall.Errno(f.Arg).Error()
					}
					kinds[name]++
				}
				if r.fired > 0 {
					fired["runs_hit_by_a_fault"]++
				}
				if k.Runs[i].Two {
					fired["pairs_of_runs_at_the_same_time"]++
					fmt.Fprintln(h, k.Runs[i].With, r.with)
				}
				if k.Runs[i].Power {
					kinds["power_loss"]++
				}
				switch {
				case r.killed:
					fired["runs_killed"]++
				case r.exit != 0:
					fired["runs_failed"]++
				default:
					fired["runs_succeeded"]++
				}
			}
		}
		var s [32]byte
		copy(s[:], h.Sum(nil))
		distinct[s] = true
		if len(samples) < 4 && len(k.Runs[0].Plan) > 0 && evals%97 == 1 {
			var l []string
			for i, r := range res {
				pl := "no faults"
				if i < len(k.Runs) && len(k.Runs[i].Plan) > 0 {
					pl = fmt.Sprint(k.Runs[i].Plan)
				}
				l = append(l, fmt.Sprintf("%s: %d file operations, %s", pl, len(r.ops), r))
			}
			samples = append(samples, map[string]any{"seed": seed, "args": k.Runs[0].Args, "runs": l})
		}
		if v != nil {
			if props.Breaks(v.Class, c.prop) {
				if found == nil {
					found = &genFound{k, v, seed}
				}
			} else {
				other[v.Class]++
			}
		}
	}
	var wg sync.WaitGroup
	var next atomic.Int64
	for range c.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !done() {
				seed := mix(c.seed, uint64(next.Add(1)))
				g := &genGen{rand.New(rand.NewPCG(seed, 1))}
				if c.prop == "C19" {
					mu.Lock()
					scenarios++
					mu.Unlock()
					judge(g.variations(), seed)
					continue
				}
				// Many inputs without faults, for each one with them.
				for range 20 {
					if k := g.scenario(); !done() {
						mu.Lock()
						plain++
						mu.Unlock()
						judge(k, seed)
					}
				}
				k := g.scenario()
				mu.Lock()
				scenarios++
				if k.MustBad {
					scen["bad_input_or_output_path"]++
				} else {
					scen["good"]++
				}
				mu.Unlock()
				// What the run looks like when nothing goes wrong.
				v, res := e.eval(k)
				if v != nil {
					judge(k, seed)
					continue
				}
				p := k.clone()
				p.Runs[0].Power = true
				judge(p, seed)
				ops := res[0].ops
				if g.n(2) == 0 {
					// Every fault at every operation of this run.
					mu.Lock()
					swept++
					mu.Unlock()
					cuts := g.cuts(k.Files)
					for _, o := range ops {
						if e.pairs {
							// Another run all of whose work falls in here.
							x := k.clone()
							x.Runs[0].Two = true
							x.Runs[0].Plan = []genFault{{N: o.N, Kind: "I", On: strings.TrimSpace(o.Name + " " + o.Rest)}}
							judge(x, seed)
						}
						for _, f := range faultsFor(o, cuts) {
							if done() {
								return
							}
							x := k.clone()
							x.Runs[0].Plan = []genFault{f}
							x.Runs[0].Power = strings.Contains("KAM", f.Kind) && g.n(2) == 0
							judge(x, seed)
						}
					}
				}
				for range 40 {
					if done() {
						return
					}
					judge(g.history(e, k), seed)
				}
			}
		}()
	}
	wg.Wait()
	el := time.Since(t0).Seconds()
	cov := map[string]any{
		"evaluations":              evals,
		"distinct_nontrivial":      len(distinct),
		"rule":                     "one evaluation is one history: a directory and arguments made from the seed, one to four simulated runs of the real generator under faults, and a last run without any. Histories count as distinct by their sequences of file operations, fault plans and outcomes.",
		"samples":                  samples,
		"seeds_per_hour":           float64(evals) / el * 3600,
		"scenarios":                scenarios,
		"scenario_kinds":           scen,
		"scenarios_without_faults": plain,
		"scenarios_with_every_fault_at_every_call": swept,
		"generator_processes":                      e.execs.Load(),
		"file_operations":                          e.opCnt.Load(),
		"simulated_time":                           "no timers run; the wall clock is a simulated constant per run",
		"worlds":                                   worlds,
		"faults_injected":                          kinds,
		"outcomes":                                 fired,
		"other_violations_seen":                    other,
		"build_seconds":                            buildS,
		"real_components":                          []string{"the generator (main.go, out.go, scan.go, xdr.y)", "package os above its system calls", "the file system below the seam"},
		"stub_components":                          []string{"system calls on files (pass through, fail, cut short, lost or killed as planned)", "fsync and loss of power (modelled by the driver)"},
	}
	assume := []string{
		"scenarios and histories are sampled; within the swept scenarios every modelled fault at every file operation is tried",
		"a power failure loses file data never synced, but not completed renames and unlinks; directory entries are never reordered",
	}
	if found == nil {
		if evals == 0 {
			fmt.Fprintln(os.Stderr, "vrun: no run completed")
			return 2
		}
		c.writeEvidence(cov, assume, 0)
		fmt.Printf("%s: held in %d histories (%d generator runs, %d scenarios, %.0f s)\n", c.prop, evals, e.execs.Load(), scenarios, el)
		return 0
	}
	c.writeEvidence(cov, assume, 1)
	rf := &ReplayFile{Property: c.prop, Scenario: "generator", CheckSeed: c.seed, RunSeed: found.seed}
	v, _ := e.judge(c.prop, found.c)
	if v == nil {
		rf.Exact = "observed once, but playing the same history again did not show it: the generator has a source of nondeterminism of its own"
		rf.Class, rf.Detail, rf.Gen = found.v.Class, found.v.Detail, found.c
		return c.report(rf)
	}
	best := e.shrink(c, found.c)
	e.trace = true
	rf.Exact = "replays exactly"
	v, res := e.judge(c.prop, best)
	if v == nil || !props.Breaks(v.Class, c.prop) {
		rf.Exact = "does not show in every replay: the generator has a source of nondeterminism of its own"
		v = found.v
	}
	for i, r := range res {
		rf.Log = append(rf.Log, fmt.Sprintf("run %d %s", i+1, r))
		rf.Log = append(rf.Log, r.raw...)
	}
	rf.Class, rf.Detail, rf.Gen, rf.Minimised = v.Class, v.Detail, best, true
	for i, r := range best.Runs {
		fmt.Printf("run %d: %s, faults: %v, power loss: %v\n", i+1, strings.Join(r.Args, " "), r.Plan, r.Power)
		if r.Two {
			fmt.Printf("   and another at the same time, faults: %v\n", r.With)
		}
		for _, f := range append(r.Plan[:len(r.Plan):len(r.Plan)], r.With...) {
			fmt.Printf("   %s: %s\n", f, f.On)
		}
	}
	return c.report(rf)
}

func replayGenerator(rf *ReplayFile) int {
	e := newGenEnv()
	e.trace = true
	v, res := e.judge(rf.Property, rf.Gen)
	for i, r := range res {
		fmt.Printf("run %d %s\n", i+1, r)
		for _, l := range r.raw {
			if l != "" {
				fmt.Println("   " + l)
			}
		}
	}
	if v == nil || !props.Breaks(v.Class, rf.Property) {
		fmt.Println("not reproduced: this tree does not break the property in this history")
		return 0
	}
	fmt.Printf("reproduced: %s: %s\n", v.Class, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, rf.file)
	return 1
}

// shrink makes a history smaller while it still breaks the property.
func (e *genEnv) shrink(c *checkCtx, best *genCase) *genCase {
	end := time.Now().Add(c.shrink)
	try := func(f func(k *genCase) bool) bool {
		if time.Now().After(end) {
			return false
		}
		k := best.clone()
		if !f(k) {
			return false
		}
		v, _ := e.judge(c.prop, k)
		if v != nil && props.Breaks(v.Class, c.prop) {
			best = k
			return true
		}
		return false
	}
	for again := true; again; {
		again = false
		for i := len(best.Runs) - 1; i >= 0 && len(best.Runs) > 1; i-- {
			again = try(func(k *genCase) bool {
				if i+1 < len(k.Runs) {
					// What the run edited stays edited.
					k.Runs[i+1].Edit = append(k.Runs[i].Edit, k.Runs[i+1].Edit...)
				} else if len(k.Runs[i].Edit) > 0 {
					return false
				}
				k.Runs = append(k.Runs[:i], k.Runs[i+1:]...)
				return true
			}) || again
		}
		for i := range best.Runs {
			for j := len(best.Runs[i].Plan) - 1; j >= 0; j-- {
				again = try(func(k *genCase) bool {
					k.Runs[i].Plan = append(k.Runs[i].Plan[:j], k.Runs[i].Plan[j+1:]...)
					return true
				}) || again
			}
			for j := len(best.Runs[i].Edit) - 1; j >= 0; j-- {
				again = try(func(k *genCase) bool {
					k.Runs[i].Edit = append(k.Runs[i].Edit[:j], k.Runs[i].Edit[j+1:]...)
					return true
				}) || again
			}
			for j := len(best.Runs[i].With) - 1; j >= 0; j-- {
				again = try(func(k *genCase) bool {
					k.Runs[i].With = append(k.Runs[i].With[:j], k.Runs[i].With[j+1:]...)
					return true
				}) || again
			}
			again = try(func(k *genCase) bool {
				was := k.Runs[i].Two
				k.Runs[i].Two, k.Runs[i].With = false, nil
				return was
			}) || again
			// What does not matter is as in the first run, or as usual.
			for _, f := range []func(w, v *genWorld){
				func(w, v *genWorld) { w.Rand = v.Rand },
				func(w, v *genWorld) { w.Time = v.Time },
				func(w, v *genWorld) { w.Pid = v.Pid },
				func(w, v *genWorld) { w.Env = v.Env },
				func(w, v *genWorld) { w.Host = v.Host },
				func(w, v *genWorld) { w.Age = v.Age },
				func(w, v *genWorld) { w.Unsized = v.Unsized },
			} {
				again = try(func(k *genCase) bool {
					was, _ := json.Marshal(k.Runs[i].World)
					var v genWorld
					if i > 0 {
						v = k.Runs[0].World
					}
					f(&k.Runs[i].World, &v)
					is, _ := json.Marshal(k.Runs[i].World)
					return string(is) != string(was)
				}) || again
			}
			again = try(func(k *genCase) bool {
				was := k.Runs[i].Power
				k.Runs[i].Power = false
				return was
			}) || again
		}
		for i := len(best.Files) - 1; i >= 0; i-- {
			again = try(func(k *genCase) bool {
				if c.prop == "C19" && strings.HasSuffix(k.Files[i].Path, ".x") {
					return false // or some runs would have another input
				}
				k.Files = append(k.Files[:i], k.Files[i+1:]...)
				return true
			}) || again
		}
		again = e.shrinkDefs(try, func(k *genCase) []*genFile {
			var r []*genFile
			for i := range k.Files {
				r = append(r, &k.Files[i])
			}
			for i := range k.Runs {
				for j := range k.Runs[i].Edit {
					r = append(r, &k.Runs[i].Edit[j])
				}
			}
			return r
		}, best) || again
	}
	return best
}

func (e *genEnv) shrinkDefs(try func(func(k *genCase) bool) bool, all func(k *genCase) []*genFile, best *genCase) (any bool) {
	for fi := range all(best) {
		n := len(all(best)[fi].Defs)
		for bl := n / 2; bl >= 1; bl /= 2 {
			for at := n - bl; at >= 0; at -= bl {
				any = try(func(k *genCase) bool {
					fs := all(k)
					if fi >= len(fs) || at+bl > len(fs[fi].Defs) || len(fs[fi].Defs) <= bl {
						return false
					}
					f := fs[fi]
					f.Defs = append(append([]string(nil), f.Defs[:at]...), f.Defs[at+bl:]...)
					_, ok := specgen.Spec{Defs: f.Defs}.Valid()
					return ok
				}) || any
			}
		}
	}
	return
}
