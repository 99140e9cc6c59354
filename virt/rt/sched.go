package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
)

// The scheduler: tasks are goroutines of which exactly one runs at any time.
// A task gives up control at Y (inserted before every statement of the code
// under test), at Yield (in shims) and when it blocks in a simsync primitive.

const maxTasks = 128

const (
	stRun = iota
	stBlocked
	stDone
)

type task struct {
	id    int
	name  string
	ch    chan struct{}
	state int
	on    uintptr
	fn    func()
	panik interface{}
	stack string
}

var (
	active   bool
	tasks    [maxTasks]*task
	nTasks   int
	cur      int
	gap      int
	gapKind  int
	wg       sync.WaitGroup
	mainCh   chan struct{}
	solo     bool
	idle     int // statements outside of schedules
	deadlock string
	maxSteps = 2000000
	hangStep = 200000000
	stuck    bool

	// OnFatal is called when a run cannot be unwound (deadlock); it must not return.
	OnFatal func(kind, msg string)
)

func resetSched() {
	active = false
	nTasks = 0
	deadlock = ""
	stuck = false
	chans = nil
	outside = 0
	idle = 0
}

// Active reports whether tasks are being scheduled.
//
//go:norace
func Active() bool { return active }

// CurTask is the index of the running task.
//
//go:norace
func CurTask() int { return cur }

//go:norace
func newGap() {
	// gapKind selects per run how eager preemption is; a drawn 0 means
	// "run on" so that minimised runs have few switches.
	switch gapKind {
	case 0:
		gap = 1 << 30
	case 1:
		gap = [...]int{1 << 30, 1, 2, 3, 5, 8, 13, 21, 34, 55}[Draw(10)]
	case 2:
		gap = [...]int{1 << 30, 10, 40, 120, 400, 900, 2000, 4000}[Draw(8)]
	default:
		gap = [...]int{1 << 30, 1000, 4000, 15000, 40000, 100000}[Draw(6)]
	}
}

// Y is the yield point inserted into the code under test.
//
//go:norace
func Y(site int) {
	if !active {
		idle++
		if idle > hangStep {
			hang()
		}
		return
	}
	steps++
	if steps > hangStep {
		hang()
	}
	gap--
	if gap > 0 {
		return
	}
	yield()
}

// hang ends a run that does not end by itself.
//
//go:norace
func hang() {
	hangStep = 1 << 60
	if OnFatal != nil {
		OnFatal("hang", "the run does not end: more than 200 million statements were executed")
	}
	fmt.Fprintln(os.Stderr, "hang")
	os.Exit(3)
}

// Yield is an eager yield point, used by shims at calls into the outside.
//
//go:norace
func Yield() {
	if !active {
		return
	}
	steps++
	if gap > 50 && gapKind != 0 && Draw(3) == 0 {
		return
	}
	yield()
}

//go:norace
func yield() {
	if steps > maxSteps {
		stuck = true
		newGap()
		return
	}
	n := 0
	var cand [maxTasks]int
	cand[n] = cur // staying is the simplest choice
	n++
	for i := 0; i < nTasks; i++ {
		if i != cur && tasks[i].state == stRun {
			cand[n] = i
			n++
		}
	}
	c := cand[Draw(n)]
	newGap()
	if c == cur {
		return
	}
	switchTo(c)
}

//go:norace
func switchTo(c int) {
	me := tasks[cur]
	switches++
	mix(uint64(c) + 7777)
	Observe(uint64(c))
	cur = c
	raceOff()
	tasks[c].ch <- struct{}{}
	<-me.ch
	raceOn()
}

// Block parks the running task until Wake(addr) is called.
//
//go:norace
func Block(addr uintptr) {
	me := tasks[cur]
	me.state = stBlocked
	me.on = addr
	Hit("sched.block")
	n := 0
	var cand [maxTasks]int
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == stRun {
			cand[n] = i
			n++
		}
	}
	for n == 0 {
		if !outsideWake() {
			fatalDeadlock()
		}
		for i := 0; i < nTasks; i++ {
			if tasks[i].state == stRun {
				cand[n] = i
				n++
			}
		}
	}
	newGap()
	if c := cand[Draw(n)]; c != cur {
		switchTo(c)
	}
}

// Wake makes the tasks blocked on addr runnable.
//
//go:norace
func Wake(addr uintptr) {
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].on == addr {
			tasks[i].state = stRun
		}
	}
}

func fatalDeadlock() {
	msg := "deadlock:"
	for i := 0; i < nTasks; i++ {
		t := tasks[i]
		msg += fmt.Sprintf(" task %d (%s) state=%d;", t.id, t.name, t.state)
	}
	if OnFatal != nil {
		OnFatal("deadlock", msg)
	}
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(3)
}

// Task describes one task of RunTasks.
type Task struct {
	Name string
	Fn   func()
}

// TaskPanic is what a task ended with.
type TaskPanic struct {
	Value interface{}
	Stack string
}

// RunTasks runs the tasks to completion under the seeded scheduler and returns
// the panic of each (nil when it returned).
func RunTasks(list []Task) []*TaskPanic {
	gapKind = []int{1, 2, 3, 0}[Draw(4)]
	nTasks = 0
	mainCh = make(chan struct{}, 1)
	for _, t := range list {
		addTask(t)
	}
	out := make([]*TaskPanic, 0, len(list))
	solo = false
	startTasks()
	<-mainCh
	wg.Wait() // real edges: everything the tasks did happens before this
	endTasks()
	for i := 0; i < nTasks; i++ {
		if tasks[i].panik != nil {
			out = append(out, &TaskPanic{tasks[i].panik, tasks[i].stack})
		} else {
			out = append(out, nil)
		}
	}
	return out
}

// RunSolo runs f like the main goroutine of a process: without preemption and
// without draws unless it starts goroutines, and those end with it. A lock
// that is never released is found instead of hanging.
func RunSolo(f func()) *TaskPanic {
	gapKind = 0
	nTasks = 0
	solo = true
	mainCh = make(chan struct{}, 1)
	addTask(Task{Name: "main", Fn: f})
	startTasks()
	<-mainCh
	wg.Wait()
	endTasks()
	for i := 0; i < nTasks; i++ {
		if tasks[i].panik != nil {
			return &TaskPanic{tasks[i].panik, tasks[i].stack}
		}
	}
	return nil
}

//go:norace
func startTasks() {
	active = true
	newGap()
	first := Draw(nTasks)
	cur = first
	raceOff()
	tasks[first].ch <- struct{}{}
	raceOn()
}

//go:norace
func endTasks() { active = false }

//go:norace
func addTask(t Task) {
	if nTasks >= maxTasks {
		panic(Abort{"too many tasks"})
	}
	tk := &task{id: nTasks, name: t.Name, ch: make(chan struct{}, 1), fn: t.Fn}
	tasks[nTasks] = tk
	nTasks++
	wg.Add(1)
	go tk.main()
}

//go:norace
func (t *task) main() {
	raceOff()
	<-t.ch
	raceOn()
	t.run()
	t.finish()
	wg.Done()
}

func (t *task) run() {
	defer func() {
		if r := recover(); r != nil {
			t.setPanic(r, string(debug.Stack()))
		}
	}()
	t.fn()
}

//go:norace
func (t *task) setPanic(r interface{}, st string) { t.panik = r; t.stack = st }

//go:norace
func (t *task) finish() {
	t.state = stDone
	if solo && (t.id == 0 || t.panik != nil) {
		// the process ends, and with it all other goroutines
		for i := 0; i < nTasks; i++ {
			if tasks[i].state != stDone {
				tasks[i].state = stDone
				wg.Done()
			}
		}
		raceOff()
		mainCh <- struct{}{}
		raceOn()
		return
	}
	n := 0
	var cand [maxTasks]int
	blocked := false
	for i := 0; i < nTasks; i++ {
		switch tasks[i].state {
		case stRun:
			cand[n] = i
			n++
		case stBlocked:
			blocked = true
		}
	}
	for n == 0 && blocked {
		if !outsideWake() {
			fatalDeadlock()
		}
		for i := 0; i < nTasks; i++ {
			if tasks[i].state == stRun {
				cand[n] = i
				n++
			}
		}
	}
	if n == 0 {
		raceOff()
		mainCh <- struct{}{}
		raceOn()
		return
	}
	newGap()
	c := cand[Draw(n)]
	cur = c
	switches++
	mix(uint64(c) + 7777)
	Observe(uint64(c))
	raceOff()
	tasks[c].ch <- struct{}{}
	raceOn()
}

// Go runs f as a task when a schedule is active, else as a goroutine.
//
//go:norace
func Go(f func()) {
	if active {
		if solo && gapKind == 0 {
			gapKind = []int{1, 2, 3, 0}[Draw(4)]
			newGap()
		}
		addTask(Task{Name: "go", Fn: f})
		return
	}
	go f()
}

// Stuck reports that the step limit was hit.
func Stuck() bool { return stuck }

// Spin lets other goroutines run (outside of schedules).
func Spin() { runtime.Gosched() }
