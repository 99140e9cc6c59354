package simutil

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/frk/gosql/zzsim/rt"
)

// Violation is what a run reports. Class identifies the kind of violation:
// minimisation keeps it.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func Violate(class, format string, args ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

// Replay is a replay file.
type Replay struct {
	Property string            `json:"property"`
	Check    string            `json:"check"` // worker mode
	Seed     int64             `json:"verif_seed"`
	Tier     string            `json:"tier"`
	Run      int               `json:"run"`
	Params   map[string]string `json:"params,omitempty"`
	Choices  []int32           `json:"choices"`
	Class    string            `json:"class"`
	Msg      string            `json:"msg"`
	Trace    []string          `json:"trace,omitempty"`
	Original int               `json:"choices_before_minimisation,omitempty"`
	Worker   string            `json:"worker,omitempty"`
}

// Result is what a worker writes.
type Result struct {
	Check      string         `json:"check"`
	Runs       int            `json:"runs"`
	Evals      int            `json:"evals"`
	Overruns   int            `json:"overruns"`
	Stuck      int            `json:"stuck"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	Hits       map[string]int `json:"hits"`
	States     []uint64       `json:"states"`
	Hashes     []uint64       `json:"hashes,omitempty"`
	Samples    []string       `json:"samples"`
	Known      map[string]int `json:"known"`
	WallS      float64        `json:"wall_s"`
	Violations []*Replay      `json:"violations"`
	Errors     []string       `json:"errors"`
}

// Worker runs the simulated runs of one check in one process.
type Worker struct {
	Check    string
	Property string
	Seed     int64
	Tier     string
	From, To int
	Stride   int
	Params   map[string]string
	Name     string
	NoShrink bool

	// Run executes one run; every decision comes from rt.Draw.
	Run func(w *Worker) *Violation
	// Known tells whether a violation is a listed finding.
	IsKnown func(v *Violation) string
	// Sample describes the current run for the evidence file.
	Sample func() string
	// Nontrivial says whether the last run counts as non-trivial.
	Nontrivial func() bool

	Evals int
	res   Result
	out   string
	execs int64
	cur   int
}

var (
	flagCheck    = flag.String("check", "", "")
	flagProperty = flag.String("property", "", "")
	flagSeed     = flag.Int64("seed", 1, "")
	flagTier     = flag.String("tier", "quick", "")
	flagFrom     = flag.Int("from", 0, "")
	flagTo       = flag.Int("to", 1, "")
	flagStride   = flag.Int("stride", 1, "")
	flagBudget   = flag.Float64("budget", 30, "seconds")
	flagOut      = flag.String("out", "", "")
	flagReplay   = flag.String("replay", "", "")
	flagParams   = flag.String("params", "", "k=v,k=v")
	flagNoShrink = flag.Bool("noshrink", false, "")
	flagHashes   = flag.Bool("hashes", false, "")
	flagKnown    = flag.String("known", "", "known findings file")
)

// NewWorker parses the command line.
func NewWorker(name string) *Worker {
	flag.Parse()
	w := &Worker{Name: name, Check: *flagCheck, Property: *flagProperty, Seed: *flagSeed, Tier: *flagTier, From: *flagFrom, To: *flagTo,
		Stride: *flagStride, Params: map[string]string{}, NoShrink: *flagNoShrink, out: *flagOut}
	for _, kv := range strings.Split(*flagParams, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			w.Params[kv[:i]] = kv[i+1:]
		}
	}
	return w
}

// Index is the number of the current run.
func (w *Worker) Index() int { return w.cur }

// Main runs the worker and exits.
func (w *Worker) Main() {
	start := time.Now()
	w.res = Result{Check: w.Check, Known: map[string]int{}}
	known := loadKnown(*flagKnown, w.Property)
	if w.IsKnown == nil {
		w.IsKnown = func(v *Violation) string {
			for _, k := range known {
				if k.match(v) {
					return k.text
				}
			}
			return ""
		}
	}
	rt.OnFatal = func(kind, msg string) {
		w.fatal(&Violation{kind, msg}, start)
	}
	w.watchdog(start)
	if *flagReplay != "" {
		b, err := os.ReadFile(*flagReplay)
		if err != nil {
			w.fail(err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			w.fail(err)
		}
		w.cur = r.Run
		v := w.exec(0, r.Choices, true)
		w.res.Runs = 1
		if v != nil {
			r2 := r
			r2.Class, r2.Msg, r2.Trace = v.Class, v.Msg, rt.Trace()
			r2.Choices = rt.Choices()
			w.res.Violations = append(w.res.Violations, &r2)
		}
		w.finish(start)
	}
	states := map[uint64]bool{}
	seenClass := map[string]bool{}
	for i := w.From; i < w.To; i += w.Stride {
		if time.Since(start).Seconds() > *flagBudget {
			break
		}
		w.cur = i
		seed := rt.Mix(w.Seed, "|", w.Check, "|", i)
		v := w.exec(seed, nil, false)
		w.res.Runs++
		if rt.Overrun() {
			w.res.Overruns++
		}
		if rt.Stuck() {
			w.res.Stuck++
		}
		w.res.Steps += int64(rt.Steps())
		w.res.Switches += int64(rt.Switches())
		if *flagHashes {
			w.res.Hashes = append(w.res.Hashes, rt.Hash())
		}
		if (w.Nontrivial == nil || w.Nontrivial()) && len(states) < 2000000 {
			states[rt.State()] = true
		}
		if len(w.res.Samples) < 2 && w.Sample != nil && i >= w.From+w.Stride {
			if s := w.Sample(); s != "" {
				w.res.Samples = append(w.res.Samples, s)
			}
		}
		if v == nil {
			continue
		}
		if k := w.IsKnown(v); k != "" {
			w.res.Known[k]++
			continue
		}
		if os.Getenv("VSIM_ALL") != "" { // development: list every class once
			if !seenClass[v.Class] {
				seenClass[v.Class] = true
				fmt.Fprintf(os.Stderr, "CLASS %s: %.700s\n", v.Class, v.Msg)
			}
			continue
		}
		orig := rt.Choices()
		r := &Replay{Property: w.Property, Check: w.Check, Seed: w.Seed, Tier: w.Tier, Run: i, Params: w.Params, Choices: orig, Class: v.Class, Msg: v.Msg,
			Original: len(orig), Worker: w.Name}
		if v.Class == "race" {
			// the detector reports a pair of places once per process
			w.res.Violations = append(w.res.Violations, r)
			w.finishStates(states)
			w.finish(start)
		}
		if !w.NoShrink {
			best, bv := w.shrink(orig, v, 20*time.Second)
			v2 := w.exec(0, best, true)
			if v2 != nil && v2.Class == v.Class {
				r.Choices, r.Msg, r.Trace = best, v2.Msg, rt.Trace()
			} else {
				w.res.Errors = append(w.res.Errors, fmt.Sprintf("run %d: minimised run does not repeat (%v, %v)", i, bv, v2))
			}
		}
		w.res.Violations = append(w.res.Violations, r)
		break
	}
	w.finishStates(states)
	w.finish(start)
}

func (w *Worker) finishStates(states map[uint64]bool) {
	for s := range states {
		w.res.States = append(w.res.States, s)
	}
}

func (w *Worker) fail(err error) {
	fmt.Fprintln(os.Stderr, w.Name+":", err)
	os.Exit(4)
}

func (w *Worker) finish(start time.Time) {
	w.res.Hits = rt.Hits()
	w.res.Evals = w.Evals
	w.res.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(&w.res)
	if err != nil {
		w.fail(err)
	}
	if w.out == "" {
		os.Stdout.Write(b)
	} else if err := os.WriteFile(w.out, b, 0o644); err != nil {
		w.fail(err)
	}
	os.Exit(0)
}

// fatal ends the process with a violation that cannot be unwound.
func (w *Worker) fatal(v *Violation, start time.Time) {
	if k := w.IsKnown(v); k != "" {
		w.res.Known[k]++
	} else {
		c := rt.Choices()
		w.res.Violations = append(w.res.Violations, &Replay{Property: w.Property, Check: w.Check, Seed: w.Seed, Tier: w.Tier, Run: w.cur, Params: w.Params,
			Choices: c, Class: v.Class, Msg: v.Msg, Original: len(c), Worker: w.Name, Trace: rt.Trace()})
	}
	w.res.Runs++
	w.finish(start)
}

// watchdog ends the process when a run makes no progress for a long time:
// the code under test waits for something that the simulator does not see.
func (w *Worker) watchdog(start time.Time) {
	go func() {
		last, idle := int64(-1), 0
		for {
			time.Sleep(time.Second)
			n := atomic.LoadInt64(&w.execs)
			if n != last || n == 0 {
				last, idle = n, 0
				continue
			}
			if idle++; idle > 60 {
				w.fatal(&Violation{"hang", "the run does not end: nothing happened for a minute"}, start)
			}
		}
	}()
}

func (w *Worker) exec(seed uint64, choices []int32, trace bool) (v *Violation) {
	atomic.AddInt64(&w.execs, 1)
	rt.Begin(seed, choices, trace)
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(rt.Abort); ok {
				w.res.Errors = append(w.res.Errors, "aborted: "+a.Reason)
				v = nil
				return
			}
			// A panic that the check did not anticipate is trouble of the harness.
			w.res.Errors = append(w.res.Errors, fmt.Sprintf("run %d: panic: %v\n%s", w.cur, r, debug.Stack()))
			v = nil
		}
	}()
	before := rt.RaceErrors()
	v = w.Run(w)
	if v == nil && rt.RaceErrors() > before {
		v = &Violation{"race", "the race detector reports a data race (see the worker's stderr)"}
	}
	if v != nil {
		rt.Logf("VIOLATION %s: %s", v.Class, v.Msg)
	}
	return v
}

// shrink minimises the list of choices while the class of the violation stays.
func (w *Worker) shrink(c []int32, v *Violation, budget time.Duration) ([]int32, *Violation) {
	end := time.Now().Add(budget)
	execs := 0
	best := c
	try := func(cand []int32) bool {
		if time.Now().After(end) || execs > 3000 {
			return false
		}
		execs++
		nv := w.exec(0, cand, false)
		if nv == nil || nv.Class != v.Class || w.IsKnown(nv) != "" {
			return false
		}
		used := rt.Choices()
		if len(used) > len(cand) {
			used = used[:len(cand)]
		}
		// trailing zeros are implied
		n := len(used)
		for n > 0 && used[n-1] == 0 {
			n--
		}
		used = used[:n]
		if len(used) > len(best) {
			return false
		}
		if len(used) == len(best) {
			same, less := true, false
			for i := range used {
				if used[i] != best[i] {
					same = false
					less = used[i] < best[i]
					break
				}
			}
			if same || !less {
				return false
			}
		}
		best = append([]int32(nil), used...)
		return true
	}
	try(best)
	for round := 0; round < 6; round++ {
		improved := false
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				cand := append(append([]int32(nil), best[:i]...), best[i+size:]...)
				if try(cand) {
					improved = true
				} else {
					i += size
				}
				if time.Now().After(end) {
					return best, v
				}
			}
		}
		for size := 8; size >= 1; size /= 2 {
			for i := 0; i < len(best); i += size {
				cand := append([]int32(nil), best...)
				z := true
				for j := i; j < i+size && j < len(cand); j++ {
					z = z && cand[j] == 0
					cand[j] = 0
				}
				if !z && try(cand) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				cand := append([]int32(nil), best...)
				cand[i] /= 2
				if !try(cand) {
					cand = append([]int32(nil), best...)
					cand[i]--
					if !try(cand) {
						break
					}
				}
				improved = true
			}
		}
		if !improved || time.Now().After(end) {
			break
		}
	}
	return best, v
}

type knownFinding struct {
	class, substr, text string
}

func (k knownFinding) match(v *Violation) bool {
	return v.Class == k.class && strings.Contains(v.Msg, k.substr)
}

// loadKnown reads lines of the form
// known: property=<id> class=<class> match=<substring of the message> :: <what fails>
func loadKnown(path, prop string) []knownFinding {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		i := strings.Index(l, " class=")
		j := strings.Index(l, " match=")
		k := strings.Index(l, " :: ")
		if i < 0 || j < i || k < j {
			continue
		}
		out = append(out, knownFinding{l[i+7 : j], l[j+7 : k], l[k+4:]})
	}
	return out
}
