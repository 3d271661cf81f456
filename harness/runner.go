package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Phase is a deterministic list of cases run by sharded worker processes.
type Phase struct {
	Name   string
	Flavor string       // build flavour of the worker: "", "race", "asan", "checkptr", "pure"
	Quick  int          // number of cases per tier
	Thor   int          //
	Shards int          // worker processes (0: one per core)
	Run    func(c *Ctx) // runs case c.Idx
	Init   func(c *Ctx) // optional, once per worker
	Done   func(c *Ctx) // optional, once per worker after its last case
	Env    []string
}

type Check struct {
	ID     string
	Rule   string
	Assume []string
	Phases []Phase
	// Custom runs checks that need other processes (perl); it may be combined with Phases.
	Custom func(p *Parent)
	// Prepare builds what the workers need besides the harness; it returns their extra environment.
	Prepare func(p *Parent) ([]string, error)
	Level   string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is what one case sees.
type Ctx struct {
	R      *Rng
	Idx    int
	Check  string
	Phase  string
	Seed   uint64
	Thor   bool
	stats  *Stats
	fails  []string
	replay bool
	pf     *os.File
}

type Stats struct {
	Evals   int64            `json:"evals"`
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	hashes  map[uint64]bool
}

// Fail records a violation of the property by the current case.
func (c *Ctx) Fail(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 6*clipLen {
		s = s[:6*clipLen] + "..."
	}
	c.fails = append(c.fails, s)
}
func (c *Ctx) Failed() bool { return len(c.fails) > 0 }

func (c *Ctx) Count(name string, n int64) { c.stats.Counts[name] += n }
func (c *Ctx) Evals(n int64)              { c.stats.Evals += n }

// Distinct notes the key of a non-trivial case.
func (c *Ctx) Distinct(h uint64) {
	if len(c.stats.hashes) < 4_000_000 {
		c.stats.hashes[h] = true
	}
}

func (c *Ctx) Sample(f string, a ...any) {
	if len(c.stats.Samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.stats.Samples = append(c.stats.Samples, s)
	}
}

type failure struct {
	Check, Phase, Tier string
	Seed               uint64
	Idx                int
	Detail             []string
}

// guarded runs f and turns a panic into a violation.
func guarded(c *Ctx, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Fail("panic: %v\n%s", r, trimStack(st))
		}
	}()
	f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "panic(") {
			out = lines[i:]
			break
		}
	}
	if out == nil {
		out = lines
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

func childMain(args map[string]string) {
	ck := checks[args["check"]]
	var ph *Phase
	for i := range ck.Phases {
		if ck.Phases[i].Name == args["phase"] {
			ph = &ck.Phases[i]
		}
	}
	atoi := func(k string) int { n, _ := strconv.Atoi(args[k]); return n }
	seed, _ := strconv.ParseUint(args["seed"], 10, 64)
	start, step, n := atoi("start"), atoi("step"), atoi("n")
	out := args["out"]
	c := &Ctx{Check: ck.ID, Phase: ph.Name, Seed: seed, Thor: args["tier"] == "thorough", replay: args["replay"] != "",
		stats: &Stats{Counts: map[string]int64{}, hashes: map[uint64]bool{}}}
	var pf *os.File
	if out != "" {
		pf, _ = os.OpenFile(out+".prog", os.O_CREATE|os.O_RDWR, 0o644)
		c.pf = pf
	}
	debug.SetGCPercent(200)
	if ph.Init != nil {
		guarded(c, func() { ph.Init(c) })
	}
	var buf [8]byte
	nfail := 0
	for i := start; i < n; i += step {
		if pf != nil {
			binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
			pf.WriteAt(buf[:], 0)
		}
		c.Idx = i
		c.R = newRng(seed, hashStr(ck.ID), hashStr(ph.Name), uint64(i))
		c.stats.Evals++
		guarded(c, func() { ph.Run(c) })
		if len(c.fails) > 0 {
			f := failure{Check: ck.ID, Phase: ph.Name, Seed: seed, Idx: i, Detail: c.fails, Tier: args["tier"]}
			b, _ := json.Marshal(f)
			if pf != nil {
				ff, _ := os.OpenFile(out+".fail", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
				ff.Write(append(b, '\n'))
				ff.Close()
			} else {
				fmt.Println(strings.Join(c.fails, "\n"))
			}
			c.fails = nil
			nfail++
			if nfail >= 3 {
				break
			}
		}
	}
	if ph.Done != nil {
		c.Idx = n
		guarded(c, func() { ph.Done(c) })
		if len(c.fails) > 0 && pf != nil {
			b, _ := json.Marshal(failure{Check: ck.ID, Phase: ph.Name, Seed: seed, Idx: -1, Detail: c.fails, Tier: args["tier"]})
			ff, _ := os.OpenFile(out+".fail", os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
			ff.Write(append(b, '\n'))
			ff.Close()
		}
	}
	if pf != nil {
		hf, _ := os.Create(out + ".hash")
		w := bufio.NewWriter(hf)
		for h := range c.stats.hashes {
			binary.LittleEndian.PutUint64(buf[:], h)
			w.Write(buf[:])
		}
		w.Flush()
		hf.Close()
		b, _ := json.Marshal(c.stats)
		os.WriteFile(out+".stats", b, 0o644)
		binary.LittleEndian.PutUint64(buf[:], ^uint64(0))
		pf.WriteAt(buf[:], 0)
	} else if nfail > 0 {
		os.Exit(1)
	}
}

// Parent drives the workers of one check.
type Parent struct {
	C        *Check
	Seed     uint64
	Tier     string
	Dir      string // scratch of this run
	Root     string // /verif
	mu       sync.Mutex
	fails    []failure
	stats    Stats
	hashes   map[uint64]bool
	phaseN   map[string]int64
	inconc   []string
	start    time.Time
	reports  []string
	buildDir string
	env      []string // from Prepare
}

func (p *Parent) Thor() bool { return p.Tier == "thorough" }

func (p *Parent) AddFail(phase string, idx int, detail ...string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.fails = append(p.fails, failure{Check: p.C.ID, Phase: phase, Tier: p.Tier, Seed: p.Seed, Idx: idx, Detail: detail})
}

func (p *Parent) Inconclusive(f string, a ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.inconc = append(p.inconc, fmt.Sprintf(f, a...))
}

func (p *Parent) AddCount(k string, n int64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.stats.Counts[k] += n
}

var flavorArgs = map[string][]string{
	"":         {"-tags", "clibs"},
	"pure":     {},
	"race":     {"-race", "-tags", "clibs"},
	"asan":     {"-asan", "-tags", "clibs"},
	"checkptr": {"-tags", "clibs", "-gcflags=all=-d=checkptr"},
}

func (p *Parent) buildFlavor(fl string) (string, error) {
	bin := filepath.Join(p.buildDir, "vh-"+map[string]string{"": "plain"}[fl]+fl)
	args := append([]string{"build", "-o", bin}, flavorArgs[fl]...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(p.Root, "harness")
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %v: %v\n%s", args, err, b)
	}
	return bin, nil
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod")
}

const hangSeconds = 75

// runPhase runs all cases of a phase in worker processes.
func (p *Parent) runPhase(ph *Phase) {
	n := ph.Quick
	if p.Thor() {
		n = ph.Thor
		if n == 0 {
			n = ph.Quick
		}
	}
	bin, err := p.buildFlavor(ph.Flavor)
	if err != nil {
		p.Inconclusive("build of flavour %q failed: %v", ph.Flavor, err)
		return
	}
	shards := ph.Shards
	if shards == 0 {
		shards = runtime.NumCPU()
	}
	if shards > n {
		shards = n
	}
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			p.runShard(ph, bin, s, shards, n)
		}(s)
	}
	wg.Wait()
}

func (p *Parent) childEnv(ph *Phase, out string) []string {
	env := append(os.Environ(), "GOTRACEBACK=single")
	switch ph.Flavor {
	case "race":
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+out+".race")
	case "asan":
		env = append(env, "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
	}
	return append(append(env, p.env...), ph.Env...)
}

func (p *Parent) runShard(ph *Phase, bin string, s, step, n int) {
	start := s
	for attempt := 0; attempt < 3; attempt++ {
		out := filepath.Join(p.Dir, fmt.Sprintf("%s-%d-%d", ph.Name, s, attempt))
		last, crashed, hung, stderr := p.runChild(ph, bin, out, start, step, n)
		p.collect(ph, out)
		if !crashed && !hung {
			return
		}
		if last < 0 {
			p.Inconclusive("phase %s: worker died before its first case: %s", ph.Name, tail(stderr, 600))
			return
		}
		// confirm alone
		out2 := out + "-confirm"
		_, crashed2, hung2, stderr2 := p.runChild(ph, bin, out2, last, n, last+1)
		switch {
		case crashed2:
			p.AddFail(ph.Name, last, "the process died while running this case: "+tail(stderr2, 1500))
		case hung2:
			p.AddFail(ph.Name, last, fmt.Sprintf("the case does not terminate within %d s", hangSeconds))
			return
		case crashed:
			p.collect(ph, out2)
			p.AddFail(ph.Name, last, "the process died while running this case after the ones before it: "+tail(stderr, 1500))
		default:
			p.collect(ph, out2)
			// slow machine, the case is fine alone: go on
		}
		start = last + step
		if start >= n {
			return
		}
	}
}

func tail(s string, n int) string {
	// keep the head: fatal errors start with the reason
	if i := strings.Index(s, "fatal error"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "ERROR: AddressSanitizer"); i >= 0 {
		s = s[i:]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

func (p *Parent) runChild(ph *Phase, bin, out string, start, step, n int) (last int, crashed, hung bool, stderr string) {
	ef, _ := os.Create(out + ".err")
	cmd := exec.Command(bin, "-child", "check="+p.C.ID, "phase="+ph.Name, "seed="+strconv.FormatUint(p.Seed, 10), "tier="+p.Tier,
		"start="+strconv.Itoa(start), "step="+strconv.Itoa(step), "n="+strconv.Itoa(n), "out="+out)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.Env = p.childEnv(ph, out)
	if err := cmd.Start(); err != nil {
		return -1, true, false, err.Error()
	}
	var done atomic.Bool
	res := make(chan error, 1)
	go func() { res <- cmd.Wait(); done.Store(true) }()
	prog := func() uint64 {
		b, err := os.ReadFile(out + ".prog")
		if err != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	lastP, since := uint64(0), time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-res:
			ef.Close()
			eb, _ := os.ReadFile(out + ".err")
			pr := prog()
			if pr == ^uint64(0) {
				return 0, false, false, ""
			}
			return int(pr) - 1, true, false, string(eb)
		case <-tick.C:
			pr := prog()
			if pr != lastP {
				lastP, since = pr, time.Now()
			} else if time.Since(since) > hangSeconds*time.Second {
				cmd.Process.Kill()
				<-res
				return int(pr) - 1, false, true, "hang"
			}
		}
	}
}

func (p *Parent) collect(ph *Phase, out string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if b, err := os.ReadFile(out + ".stats"); err == nil {
		var st Stats
		json.Unmarshal(b, &st)
		p.stats.Evals += st.Evals
		p.phaseN[ph.Name] += st.Evals
		for k, v := range st.Counts {
			p.stats.Counts[k] += v
		}
		if len(p.stats.Samples) < 8 {
			p.stats.Samples = append(p.stats.Samples, st.Samples...)
		}
	}
	if b, err := os.ReadFile(out + ".hash"); err == nil {
		for i := 0; i+8 <= len(b); i += 8 {
			p.hashes[binary.LittleEndian.Uint64(b[i:])] = true
		}
	}
	if b, err := os.ReadFile(out + ".fail"); err == nil {
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var f failure
			if json.Unmarshal([]byte(l), &f) == nil {
				p.fails = append(p.fails, f)
			}
		}
	}
	if ph.Flavor == "race" {
		m, _ := filepath.Glob(out + ".race.*")
		for _, f := range m {
			b, _ := os.ReadFile(f)
			p.raceReports(ph, string(b))
		}
	}
}

// raceReports counts race reports whose stacks involve the package under test.
func (p *Parent) raceReports(ph *Phase, s string) {
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		p.stats.Counts["race_reports"]++
		if len(blk) > 3500 {
			blk = blk[:3500]
		}
		if strings.Contains(blk, "Sereal/Go/sereal") {
			p.fails = append(p.fails, failure{Check: p.C.ID, Phase: ph.Name, Tier: p.Tier, Seed: p.Seed, Idx: -1, Detail: []string{"data race:\n" + blk}})
		} else {
			p.inconc = append(p.inconc, "data race outside the package:\n"+blk)
		}
	}
}

func parentMain(id string, replayFile string) int {
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 2
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p := &Parent{C: ck, Seed: seed, Tier: tier, Root: root, start: time.Now(), hashes: map[uint64]bool{}, phaseN: map[string]int64{}}
	p.stats.Counts = map[string]int64{}
	p.buildDir = filepath.Join(root, "build")
	os.MkdirAll(p.buildDir, 0o755)
	if replayFile != "" {
		return p.replay(replayFile)
	}
	p.Dir, err = os.MkdirTemp(p.buildDir, "run-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(p.Dir)
	if ck.Prepare != nil {
		if p.env, err = ck.Prepare(p); err != nil {
			p.Inconclusive("%v", err)
			return p.finish()
		}
	}
	for i := range ck.Phases {
		if len(p.fails) > 0 && time.Since(p.start) > 150*time.Second {
			fmt.Printf("%s: phase %s skipped after a violation\n", id, ck.Phases[i].Name)
			continue
		}
		p.runPhase(&ck.Phases[i])
		fmt.Printf("%s: phase %s: %d cases, %.1f s\n", id, ck.Phases[i].Name, p.phaseN[ck.Phases[i].Name], time.Since(p.start).Seconds())
	}
	if ck.Custom != nil && (len(p.fails) == 0 || time.Since(p.start) < 150*time.Second) {
		ck.Custom(p)
	}
	return p.finish()
}

func (p *Parent) replay(file string) int {
	b, err := os.ReadFile(file)
	var f failure
	if err != nil || json.Unmarshal(b, &f) != nil {
		fmt.Println("bad replay file", file)
		return 2
	}
	if p.C.Prepare != nil {
		if p.env, err = p.C.Prepare(p); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	for i := range p.C.Phases {
		ph := &p.C.Phases[i]
		if ph.Name != f.Phase || f.Idx < 0 {
			continue
		}
		bin, err := p.buildFlavor(ph.Flavor)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		cmd := exec.Command(bin, "-child", "check="+f.Check, "phase="+f.Phase, fmt.Sprintf("seed=%d", f.Seed), "tier="+f.Tier,
			fmt.Sprintf("start=%d", f.Idx), "step=1", fmt.Sprintf("n=%d", f.Idx+1), "replay=1")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		cmd.Env = p.childEnv(ph, "/dev/null")
		if err := cmd.Run(); err != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Check, file)
			return 1
		}
		fmt.Println("the case passes")
		return 0
	}
	fmt.Println(strings.Join(f.Detail, "\n"))
	return 2
}

func (p *Parent) finish() int {
	known := loadKnown(filepath.Join(p.Root, "known_findings.json"), p.C.ID)
	var real []failure
	knownHit := map[string]bool{}
	for _, f := range p.fails {
		if k := matchKnown(known, f); k != "" {
			knownHit[k] = true
			continue
		}
		real = append(real, f)
	}
	sort.SliceStable(real, func(i, j int) bool {
		if real[i].Phase != real[j].Phase {
			return real[i].Phase < real[j].Phase
		}
		return real[i].Idx < real[j].Idx
	})
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.C.ID, k.What)
	}
	cov := map[string]any{
		"evaluations":         p.stats.Evals,
		"distinct_nontrivial": len(p.hashes),
		"rule":                p.C.Rule,
		"samples":             p.stats.Samples,
		"observed":            p.stats.Counts,
		"cases_per_phase":     p.phaseN,
	}
	if len(p.stats.Samples) == 0 {
		cov["samples"] = []string{}
	}
	level := p.C.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.C.ID, "tier": p.Tier, "seed": p.Seed, "level": level, "coverage": cov,
		"assumptions": p.C.Assume, "wall_s": time.Since(p.start).Seconds(), "violations": len(real),
	}
	if len(p.inconc) > 0 {
		cov["inconclusive"] = p.inconc
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(p.Root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(p.Root, "evidence", p.C.ID+".json"), append(b, '\n'), 0o644)
	if len(real) > 0 {
		dir := filepath.Join(p.Root, "replays")
		os.MkdirAll(dir, 0o755)
		for i, f := range real {
			if i >= 5 {
				break
			}
			file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", f.Check, f.Phase, f.Idx))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(file, b, 0o644)
			d := strings.Join(f.Detail, "\n")
			if len(d) > 1800 {
				d = d[:1800]
			}
			fmt.Printf("--- %s phase %s case %d\n%s\n", f.Check, f.Phase, f.Idx, d)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.C.ID, file)
		}
		fmt.Printf("%s: %d violations\n", p.C.ID, len(real))
		return 1
	}
	if len(p.inconc) > 0 {
		fmt.Printf("INCONCLUSIVE %s: %s\n", p.C.ID, strings.Join(p.inconc, "\n"))
		return 2
	}
	if p.stats.Evals == 0 {
		fmt.Printf("INCONCLUSIVE %s: nothing observed\n", p.C.ID)
		return 2
	}
	fmt.Printf("OK %s: %d cases, %d distinct non-trivial, %.1f s\n", p.C.ID, p.stats.Evals, len(p.hashes), time.Since(p.start).Seconds())
	return 0
}

type knownFinding struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Match    string `json:"match"` // text that the detail of the failing case contains
	Fixed    string `json:"fixed"`
}

func loadKnown(file, id string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var all struct {
		Known []knownFinding `json:"known"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Println("bad known findings file:", err)
		os.Exit(2)
	}
	var out []knownFinding
	for _, k := range all.Known {
		if k.Property == id && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []knownFinding, f failure) string {
	for _, k := range ks {
		all := true
		for _, d := range f.Detail {
			if !strings.Contains(d, k.Match) {
				all = false
			}
		}
		if all {
			return k.What
		}
	}
	return ""
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-child" {
		m := map[string]string{}
		for _, a := range os.Args[2:] {
			k, v, _ := strings.Cut(a, "=")
			m[k] = v
		}
		childMain(m)
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		for _, id := range sortedKeys(checks) {
			for _, ph := range checks[id].Phases {
				fl := ph.Flavor
				if fl == "" {
					fl = "-"
				}
				fmt.Println(id, ph.Name, fl, ph.Quick)
			}
		}
		return
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: vh CHECK [--replay FILE]")
		os.Exit(2)
	}
	rf := ""
	if len(os.Args) > 3 && os.Args[2] == "--replay" {
		rf = os.Args[3]
	}
	os.Exit(parentMain(os.Args[1], rf))
}
