// Command vsim builds the simulation workers from /repo's current tree, runs
// seeded simulated runs of them, and reports.
//
//	vsim check <property> [quick|thorough]
//	vsim replay <file>
//	vsim determinism <property> [n]
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func die(code int, format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", args...)
	cleanup()
	os.Exit(code)
}

var (
	scratch string
	cluster *Cluster
	procs   sync.Map
	once    sync.Once
)

func cleanup() {
	once.Do(func() {
		procs.Range(func(k, _ interface{}) bool {
			_ = k.(*exec.Cmd).Process.Kill()
			return true
		})
		if cluster != nil {
			cluster.Stop()
		}
		if strings.HasPrefix(scratch, "/tmp/vsim-") && os.Getenv("VSIM_KEEP") == "" {
			_ = os.RemoveAll(scratch)
		}
	})
}

func main() {
	if v := os.Getenv("VSIM_REPO"); v != "" {
		repoDir = v
	}
	if wd, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(wd, "virt")); err == nil {
			verifDir = wd
		}
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() { <-sig; cleanup(); os.Exit(3) }()
	if len(os.Args) < 3 {
		die(2, "usage: vsim check <property> | replay <file> | determinism <property> [n]")
	}
	var err error
	scratch, err = os.MkdirTemp("/tmp", "vsim-")
	if err != nil {
		die(3, "%v", err)
	}
	os.Chmod(scratch, 0o755)
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		code := runCheck(os.Args[2], tier)
		cleanup()
		os.Exit(code)
	case "replay":
		code := runReplay(os.Args[2])
		cleanup()
		os.Exit(code)
	case "qgen": // development: generate the query packages in a directory
		code := 0
		if err := devQgen(os.Args[2]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 3
		}
		cleanup()
		os.Exit(code)
	case "determinism":
		n := 64
		if len(os.Args) > 3 {
			n, _ = strconv.Atoi(os.Args[3])
		}
		code := runDeterminism(os.Args[2], n)
		cleanup()
		os.Exit(code)
	}
	die(2, "unknown command %s", os.Args[1])
}

func verifSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

// ---- results ----

type replayFile struct {
	Property string            `json:"property"`
	Check    string            `json:"check"`
	Seed     int64             `json:"verif_seed"`
	Tier     string            `json:"tier"`
	Run      int               `json:"run"`
	Params   map[string]string `json:"params,omitempty"`
	Choices  []int32           `json:"choices"`
	Class    string            `json:"class"`
	Msg      string            `json:"msg"`
	Trace    []string          `json:"trace,omitempty"`
	Original int               `json:"choices_before_minimisation,omitempty"`
	Worker   string            `json:"worker,omitempty"`
	Report   string            `json:"report,omitempty"`
}

type result struct {
	Check      string         `json:"check"`
	Runs       int            `json:"runs"`
	Evals      int            `json:"evals"`
	Overruns   int            `json:"overruns"`
	Stuck      int            `json:"stuck"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	Hits       map[string]int `json:"hits"`
	States     []uint64       `json:"states"`
	Hashes     []uint64       `json:"hashes"`
	Samples    []string       `json:"samples"`
	Known      map[string]int `json:"known"`
	WallS      float64        `json:"wall_s"`
	Violations []*replayFile  `json:"violations"`
	Errors     []string       `json:"errors"`
	Stderr     string         `json:"-"`
}

func (p *part) args(prop, tier string, seed int64, extra ...string) []string {
	a := []string{"-check", p.Mode, "-property", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-known", filepath.Join(verifDir, "known_findings.txt")}
	var kv []string
	for k, v := range p.params {
		kv = append(kv, k+"="+v)
	}
	sort.Strings(kv)
	if len(kv) > 0 {
		a = append(a, "-params", strings.Join(kv, ","))
	}
	return append(a, extra...)
}

var workerSeq int
var workerMu sync.Mutex

// spawn runs one worker process to its end.
func (p *part) spawn(limit time.Duration, args []string) (*result, error) {
	workerMu.Lock()
	workerSeq++
	id := workerSeq
	workerMu.Unlock()
	out := filepath.Join(scratch, fmt.Sprintf("out%d.json", id))
	errf := filepath.Join(scratch, fmt.Sprintf("err%d.txt", id))
	home := filepath.Join(scratch, fmt.Sprintf("w%d", id))
	if err := os.MkdirAll(home, 0o755); err != nil {
		return nil, err
	}
	cmd := exec.Command(p.bin, append(args, "-out", out)...)
	cmd.Dir = home
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3 exitcode=0", "VSIM_SCRATCH="+home, "TZ=UTC", "GOMAXPROCS=2")
	ef, err := os.Create(errf)
	if err != nil {
		return nil, err
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	procs.Store(cmd, true)
	t := time.AfterFunc(limit, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	t.Stop()
	procs.Delete(cmd)
	ef.Close()
	eb, _ := os.ReadFile(errf)
	if len(eb) > 40000 {
		eb = append(eb[:20000], eb[len(eb)-20000:]...)
	}
	if werr != nil {
		return nil, fmt.Errorf("worker %s: %v\n%s", p.Worker, werr, eb)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, err
	}
	r := &result{Stderr: string(eb)}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err
	}
	_ = os.RemoveAll(home)
	return r, nil
}

func (p *part) replay(prop, tier string, r *replayFile) (*result, error) {
	b, _ := json.Marshal(r)
	workerMu.Lock()
	workerSeq++
	f := filepath.Join(scratch, fmt.Sprintf("replay%d.json", workerSeq))
	workerMu.Unlock()
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return nil, err
	}
	return p.spawn(120*time.Second, p.args(prop, tier, r.Seed, "-replay", f))
}

func sameClass(res *result, class string) *replayFile {
	for _, v := range res.Violations {
		if v.Class == class {
			return v
		}
	}
	return nil
}

// shrinkByProcess minimises a violation whose runs cannot be repeated inside
// one process (data races, deadlocks).
func (p *part) shrinkByProcess(prop, tier string, r *replayFile, budget time.Duration) {
	end := time.Now().Add(budget)
	best := append([]int32(nil), r.Choices...)
	try := func(c []int32) bool {
		if time.Now().After(end) {
			return false
		}
		q := *r
		q.Choices = c
		res, err := p.replay(prop, tier, &q)
		if err != nil || sameClass(res, r.Class) == nil {
			return false
		}
		best = c
		return true
	}
	// truncate first: the tail of a run usually does not matter
	for n := len(best) / 2; n >= 1 && len(best) > 1; n /= 2 {
		for len(best) > n && try(append([]int32(nil), best[:len(best)-n]...)) {
		}
	}
	for size := len(best) / 2; size >= 1; size /= 2 {
		for i := 0; i+size <= len(best); {
			if !try(append(append([]int32(nil), best[:i]...), best[i+size:]...)) {
				i += size
			}
			if time.Now().After(end) {
				r.Choices = best
				return
			}
		}
	}
	r.Choices = best
}

func runCheck(prop, tier string) int {
	start := time.Now()
	c, ok := checks[prop]
	if !ok {
		die(2, "no check for %s", prop)
	}
	seed := verifSeed()
	fmt.Printf("vsim: property=%s tier=%s seed=%d\n", prop, tier, seed)
	if err := prepare(c, seed, tier); err != nil {
		if code := reportBuild(c, prop, tier, seed, err); code != 0 {
			return code
		}
		die(3, "%v", err)
	}
	fmt.Printf("vsim: built from %s in %.1fs\n", repoDir, time.Since(start).Seconds())

	type job struct {
		p   *part
		w   int
		res *result
		err error
	}
	var jobs []*job
	for _, p := range c.Parts {
		n := p.workers()
		for w := 0; w < n; w++ {
			jobs = append(jobs, &job{p: p, w: w})
		}
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j *job) {
			defer wg.Done()
			defer func() { <-sem }()
			runs, budget := j.p.Quick, j.p.QuickS
			if tier == "thorough" {
				runs, budget = j.p.Thorough, j.p.ThoroughS
			}
			j.res, j.err = j.p.spawn(time.Duration(budget*2+120)*time.Second, j.p.args(prop, tier, seed, "-from", fmt.Sprint(j.w), "-to", fmt.Sprint(runs),
				"-stride", fmt.Sprint(j.p.workers()), "-budget", fmt.Sprint(budget)))
		}(j)
	}
	wg.Wait()

	ev := newEvidence(c, tier, seed)
	type found struct {
		v *replayFile
		p *part
	}
	var viols []found
	var errs []string
	for _, j := range jobs {
		if j.err != nil {
			errs = append(errs, j.err.Error())
			continue
		}
		ev.add(j.p, j.res)
		if os.Getenv("VSIM_ALL") != "" {
			fmt.Print(j.res.Stderr)
		}
		errs = append(errs, j.res.Errors...)
		for _, v := range j.res.Violations {
			viols = append(viols, found{v, j.p})
		}
	}
	// the violation that needs the fewest choices is reported
	sort.SliceStable(viols, func(a, b int) bool { return len(viols[a].v.Choices) < len(viols[b].v.Choices) })
	var verrs []string
	for i, f := range viols {
		if i == 6 {
			break
		}
		if report(f.p, prop, tier, f.v, &verrs) == 1 {
			ev.violations = 1
			ev.write(time.Since(start).Seconds())
			return 1
		}
	}
	errs = append(errs, verrs...)
	if len(errs) > 0 {
		for i, e := range errs {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "vsim: error:", e)
			}
		}
		die(3, "%d errors of the check itself", len(errs))
	}
	var known []string
	for k := range ev.known {
		known = append(known, k)
	}
	sort.Strings(known)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if ev.runs == 0 {
		die(3, "no runs")
	}
	if miss := ev.missing(); len(miss) > 0 && os.Getenv("VSIM_REPO") == "" {
		fmt.Printf("vsim: note: never hit in this run: %s\n", strings.Join(miss, ", "))
	}
	ev.write(time.Since(start).Seconds())
	fmt.Printf("vsim: %s held on %d runs (%d evaluations, %d distinct) in %.1fs\n", prop, ev.runs, ev.evals, len(ev.states), time.Since(start).Seconds())
	return 0
}

// reportBuild reports a tool that refuses the simulation's query types, or
// generates code that does not compile, for the property that rules it out.
func reportBuild(c *check, prop, tier string, seed int64, err error) int {
	tf, ok := err.(*ToolFailure)
	if !ok || !c.BuildViolates {
		return 0
	}
	v := &replayFile{Property: prop, Check: "build", Seed: seed, Tier: tier, Class: "build", Msg: tf.Msg}
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, seed))
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return 0
	}
	ev := newEvidence(c, tier, seed)
	ev.violations = 1
	ev.write(0)
	fmt.Println(tf.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

// report confirms a violation in a fresh process, minimises what could not be
// minimised in the worker, and writes the replay file.
func report(p *part, prop, tier string, v *replayFile, errs *[]string) int {
	// what the race detector reports depends a little on what the process did before
	again := func(v *replayFile) (res *result, got *replayFile) {
		n := 1
		if v.Class == "race" {
			n = 4
		}
		for ; n > 0 && got == nil; n-- {
			var err error
			if res, err = p.replay(prop, tier, v); err != nil {
				*errs = append(*errs, "replay: "+err.Error())
				return nil, nil
			}
			got = sameClass(res, v.Class)
		}
		return res, got
	}
	res, got := again(v)
	if got == nil {
		*errs = append(*errs, fmt.Sprintf("a violation (%s: %s) does not repeat in a fresh process", v.Class, v.Msg))
		return 3
	}
	if v.Class == "race" || v.Class == "deadlock" || v.Class == "hang" && strings.Contains(v.Msg, "million") {
		full := v.Choices
		p.shrinkByProcess(prop, tier, v, 20*time.Second)
		r, g := again(v)
		if g == nil {
			v.Choices = full
			r, g = again(v)
		}
		if g == nil {
			*errs = append(*errs, "the minimised violation does not repeat")
			return 3
		}
		res, got = r, g
	}
	v.Msg, v.Trace = got.Msg, got.Trace
	if v.Class == "race" {
		v.Report = res.Stderr
	}
	dir := filepath.Join(verifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, v.Seed))
	v.Params = nil
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		*errs = append(*errs, err.Error())
		return 3
	}
	fmt.Printf("vsim: seed %d run %d, %d choices (%d before minimisation), class %s\n%s\n", v.Seed, v.Run, len(v.Choices), v.Original, v.Class, v.Msg)
	for i, l := range v.Trace {
		if i > 60 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + l)
	}
	if v.Report != "" {
		fmt.Println(v.Report)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die(2, "%v", err)
	}
	var v replayFile
	if err := json.Unmarshal(b, &v); err != nil {
		die(2, "%v", err)
	}
	c, ok := checks[v.Property]
	if !ok {
		die(2, "no check for %s", v.Property)
	}
	if v.Check == "build" {
		err := prepare(c, v.Seed, v.Tier)
		if tf, ok := err.(*ToolFailure); ok {
			fmt.Println(tf.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
			return 1
		}
		if err != nil {
			die(3, "%v", err)
		}
		fmt.Printf("vsim: the violation does not occur on this tree\n")
		return 0
	}
	var p *part
	for _, q := range c.Parts {
		if q.Mode == v.Check {
			p = q
		}
	}
	if p == nil {
		die(2, "no part %s", v.Check)
	}
	c.Parts = []*part{p}
	if err := prepare(c, v.Seed, v.Tier); err != nil {
		die(3, "%v", err)
	}
	res, err := p.replay(v.Property, v.Tier, &v)
	if err != nil {
		die(3, "%v", err)
	}
	for _, e := range res.Errors {
		fmt.Fprintln(os.Stderr, "vsim: error:", e)
	}
	got := sameClass(res, v.Class)
	if got == nil {
		fmt.Printf("vsim: the violation does not occur on this tree\n")
		return 0
	}
	fmt.Println(strings.Join(got.Trace, "\n"))
	fmt.Println(got.Msg)
	fmt.Println(res.Stderr)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
	return 1
}

// runDeterminism runs the same seeds in different processes, at different
// strides, and compares the hash of everything they decided.
func runDeterminism(prop string, n int) int {
	c, ok := checks[prop]
	if !ok {
		die(2, "no check for %s", prop)
	}
	bad := 0
	for _, seed := range []int64{verifSeed()} {
		if err := prepare(c, seed, "quick"); err != nil {
			die(3, "%v", err)
		}
		for _, p := range c.Parts {
			hashes := map[int][]uint64{}
			for _, stride := range []int{1, 3, 4} {
				var mu sync.Mutex
				var wg sync.WaitGroup
				for w := 0; w < stride; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						res, err := p.spawn(600*time.Second, p.args(prop, "quick", seed, "-from", fmt.Sprint(w), "-to", fmt.Sprint(n), "-stride", fmt.Sprint(stride), "-budget", "500", "-hashes", "-noshrink"))
						if err != nil {
							fmt.Fprintln(os.Stderr, err)
							return
						}
						for _, e := range res.Errors {
							fmt.Fprintln(os.Stderr, "error:", e)
						}
						mu.Lock()
						for i, h := range res.Hashes {
							hashes[w+i*stride] = append(hashes[w+i*stride], h)
						}
						mu.Unlock()
					}(w)
				}
				wg.Wait()
			}
			for i := 0; i < n; i++ {
				h := hashes[i]
				for _, x := range h {
					if x != h[0] {
						fmt.Printf("%s/%s run %d differs: %x\n", prop, p.Mode, i, h)
						bad++
						break
					}
				}
			}
			fmt.Printf("vsim: %s/%s: %d runs compared, %d differ\n", prop, p.Mode, len(hashes), bad)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
