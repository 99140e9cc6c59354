// Package rt is the runtime of the deterministic simulator. Everything a run
// decides - generated operations, fault points, which task runs next, the
// order a map is walked in - comes from Draw, so that one seed, or one
// recorded list of choices, is one exactly repeatable execution.
//
// Functions that run on the goroutines of the code under test are marked
// go:norace and hand control over under runtime.RaceDisable, so that in race
// builds the detector sees only the happens-before edges that the code under
// test creates itself.
package rt

import (
	"fmt"
	"hash/fnv"
	"strings"
)

const maxDraws = 1 << 17

var (
	rng      uint64
	replay   []int32
	replayOn bool
	pos      int
	rec      [maxDraws]int32
	recMax   [maxDraws]int32
	hash     uint64
	overrun  bool

	tracing bool
	trace   []string

	steps     int
	switches  int
	stateHash uint64
)

// Abort is the panic value that ends a run which cannot continue.
type Abort struct{ Reason string }

func (a Abort) Error() string { return a.Reason }

//go:norace
func next() uint64 {
	rng += 0x9E3779B97F4A7C15
	z := rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives the seed of a run.
func Mix(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	s := h.Sum64()
	s ^= s >> 33
	s *= 0xff51afd7ed558ccd
	s ^= s >> 33
	return s
}

// Begin starts a run from a seed (choices == nil) or from recorded choices.
func Begin(seed uint64, choices []int32, withTrace bool) {
	rng = seed
	replay = choices
	replayOn = choices != nil
	pos = 0
	hash = 1469598103934665603
	stateHash = 1469598103934665603
	overrun = false
	tracing = withTrace
	trace = nil
	steps, switches = 0, 0
	resetSched()
	resetProbes()
}

// Choices returns the choices of the run so far.
func Choices() []int32 {
	out := make([]int32, pos)
	copy(out, rec[:pos])
	return out
}

func Hash() uint64  { return hash }
func Overrun() bool { return overrun }
func Steps() int    { return steps }
func Switches() int { return switches }
func State() uint64 { return stateHash }

//go:norace
func mix(v uint64) {
	hash ^= v
	hash *= 1099511628211
}

// Observe adds a caller chosen abstraction of the run's behaviour to the
// state hash by which distinct executions are counted.
//
//go:norace
func Observe(v uint64) {
	stateHash ^= v
	stateHash *= 1099511628211
}

//go:norace
func ObserveString(s string) {
	for i := 0; i < len(s); i++ {
		stateHash ^= uint64(s[i])
		stateHash *= 1099511628211
	}
}

// Draw returns a number in [0,n). 0 is always the simplest outcome.
//
//go:norace
func Draw(n int) int {
	if n <= 1 {
		return 0
	}
	if pos >= maxDraws {
		overrun = true
		return 0
	}
	var v int
	if replayOn {
		if pos < len(replay) {
			v = int(uint32(replay[pos]) % uint32(n))
		}
	} else {
		v = int(next() % uint64(n))
	}
	rec[pos] = int32(v)
	recMax[pos] = int32(n)
	pos++
	mix(uint64(v)<<20 ^ uint64(n))
	return v
}

// Chance is true with probability permille/1000; its simplest outcome is false.
//
//go:norace
func Chance(permille int) bool {
	if permille <= 0 {
		return false
	}
	return Draw(1000) >= 1000-permille
}

// Bool is a fair coin.
//
//go:norace
func Bool() bool { return Draw(2) == 1 }

// Range returns a number in [lo,hi].
//
//go:norace
func Range(lo, hi int) int { return lo + Draw(hi-lo+1) }

// Small returns a number >= 0 with a geometric-like distribution, capped.
//
//go:norace
func Small(max int) int {
	n := 0
	for n < max && Draw(3) != 0 {
		n++
	}
	return n
}

// Weighted picks an index by weight; index 0 is the simplest.
func Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	d := Draw(t)
	for i, x := range w {
		if d < x {
			return i
		}
		d -= x
	}
	return 0
}

// Perm returns a permutation of 0..n-1 (identity when all draws are 0).
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + Draw(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func Pick[T any](s []T) T { return s[Draw(len(s))] }

// Logf adds a line to the trace of the run (it never draws).
func Logf(format string, args ...interface{}) {
	if tracing && active {
		LogS(format)
		return
	}
	if tracing {
		s := fmt.Sprintf(format, args...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		trace = append(trace, s)
	}
}

// LogS is Logf for code that runs in tasks.
//
//go:norace
func LogS(s string) {
	if tracing && nTaskLog < len(taskLog) {
		taskLog[nTaskLog] = s
		taskLogBy[nTaskLog] = cur
		nTaskLog++
	}
}

var (
	taskLog   [1 << 14]string
	taskLogBy [1 << 14]int
	nTaskLog  int
)

func flushTaskLog() {
	for i := 0; i < nTaskLog; i++ {
		trace = append(trace, fmt.Sprintf("task %d: %s", taskLogBy[i], taskLog[i]))
	}
	nTaskLog = 0
}

func Tracing() bool     { return tracing }
func Trace() []string   { flushTaskLog(); return trace }
func TraceText() string { return strings.Join(Trace(), "\n") }

// ---- probes: counters of things that actually happened ----

var (
	hitBuf  [1 << 14]string
	nHits   int
	total   = map[string]int{}
	thisRun = map[string]int{}
)

func resetProbes() {
	flushHits()
	for k := range thisRun {
		delete(thisRun, k)
	}
}

// Hit counts an event, per process and per run.
//
//go:norace
func Hit(name string) {
	if nHits < len(hitBuf) {
		hitBuf[nHits] = name
		nHits++
	}
}

//go:norace
func takeHit(i int) string { return hitBuf[i] }

func flushHits() {
	for i := 0; i < nHits; i++ {
		n := takeHit(i)
		total[n]++
		thisRun[n]++
	}
	nHits = 0
}

// Hits returns the process wide counts (not to be called while tasks run).
func Hits() map[string]int { flushHits(); return total }

// RunHits returns this run's count.
func RunHits(n string) int { flushHits(); return thisRun[n] }
