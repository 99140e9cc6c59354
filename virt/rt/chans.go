package rt

import (
	"reflect"
	"time"
)

// Channels: the instrumentation turns the channel operations of the code
// under test into calls of these functions. While a schedule is active a task
// that would block gives up control; buffered channels hold their values
// themselves, the values of unbuffered ones wait in a queue here.

const chanAddr uintptr = 1 // what tasks that wait for any channel block on

type sent struct {
	v         interface{}
	taken     bool
	data, ack chan struct{} // the edges that the race detector has to see
}

type chanState struct {
	queue   []*sent
	waiting int // receivers
	closed  bool
	c       interface{} // keeps the channel alive, and with it its address
}

var chans map[uintptr]*chanState

//go:norace
func chanOf(c interface{}) *chanState {
	p := reflect.ValueOf(c).Pointer()
	if chans == nil {
		chans = map[uintptr]*chanState{}
	}
	s := chans[p]
	if s == nil {
		s = &chanState{c: c}
		chans[p] = s
	}
	return s
}

//go:norace
func (s *chanState) push(v interface{}) *sent {
	x := &sent{v: v, data: make(chan struct{}), ack: make(chan struct{})}
	close(x.data)
	s.queue = append(s.queue, x)
	Wake(chanAddr)
	return x
}

//go:norace
func (s *chanState) pop() (interface{}, bool) {
	if len(s.queue) == 0 {
		return nil, false
	}
	x := s.queue[0]
	s.queue = s.queue[1:]
	x.taken = true
	<-x.data
	close(x.ack)
	Wake(chanAddr)
	return x.v, true
}

//go:norace
func (x *sent) done() bool { return x.taken }

//go:norace
func (s *chanState) wait(n int) { s.waiting += n }

//go:norace
func (s *chanState) wanted() bool { return s.waiting > len(s.queue) }

//go:norace
func (s *chanState) setClosed() { s.closed = true }

//go:norace
func (s *chanState) isClosed() bool { return s.closed }

// Sender returns the function that sends to c.
func Sender[T any](c chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			c <- v
			return
		}
		Yield()
		if c == nil {
			for {
				Block(0)
			}
		}
		s := chanOf(c)
		if cap(c) > 0 {
			for {
				select {
				case c <- v:
					Wake(chanAddr)
					return
				default:
					Block(chanAddr)
				}
			}
		}
		if s.isClosed() {
			panic("send on closed channel")
		}
		x := s.push(v)
		for !x.done() {
			if s.isClosed() {
				panic("send on closed channel")
			}
			Block(chanAddr)
		}
		<-x.ack
	}
}

func tryRecv[T any](c <-chan T) (v T, ok, did bool) {
	if x, got := chanOf(c).pop(); got {
		v, _ = x.(T)
		return v, true, true
	}
	select {
	case v, ok = <-c:
		Wake(chanAddr)
		return v, ok, true
	default:
		return v, false, false
	}
}

// Recv2 receives from c.
func Recv2[T any](c <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-c
		return v, ok
	}
	Yield()
	if c == nil {
		for {
			Block(0)
		}
	}
	s := chanOf(c)
	for {
		if v, ok, did := tryRecv(c); did {
			return v, ok
		}
		s.wait(1)
		Block(chanAddr)
		s.wait(-1)
	}
}

// Recv receives from c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// RangeChan begins a range over c.
func RangeChan[T any](c <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(c)
	return c, v, ok
}

// Close closes c.
func Close[T any](c chan<- T) {
	close(c)
	if Active() {
		chanOf(c).setClosed()
		Wake(chanAddr)
		Yield()
	}
}

// A ChanCase is a case of a select statement.
type ChanCase interface {
	try() bool
	wait(n int)
	real() reflect.SelectCase
	realDone(reflect.Value, bool)
}

type RCase[T any] struct {
	c  <-chan T
	v  T
	ok bool
}

func RecvCase[T any](c <-chan T) *RCase[T] { return &RCase[T]{c: c} }

func (r *RCase[T]) Got() T          { return r.v }
func (r *RCase[T]) Got2() (T, bool) { return r.v, r.ok }

func (r *RCase[T]) try() bool {
	if r.c == nil {
		return false
	}
	v, ok, did := tryRecv(r.c)
	if did {
		r.v, r.ok = v, ok
	}
	return did
}

func (r *RCase[T]) wait(n int) {
	if r.c != nil {
		chanOf(r.c).wait(n)
	}
}

func (r *RCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

func (r *RCase[T]) realDone(v reflect.Value, ok bool) {
	r.ok = ok
	if ok {
		r.v, _ = v.Interface().(T)
	}
}

type SCase[T any] struct {
	c chan<- T
	v T
}

func SendCase[T any](c chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{c, v} }
}

func (s *SCase[T]) try() bool {
	if s.c == nil {
		return false
	}
	st := chanOf(s.c)
	if cap(s.c) == 0 {
		if st.isClosed() {
			panic("send on closed channel")
		}
		if !st.wanted() {
			return false
		}
		st.push(s.v)
		return true
	}
	select {
	case s.c <- s.v:
		Wake(chanAddr)
		return true
	default:
		return false
	}
}

func (s *SCase[T]) wait(int) {}
func (s *SCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *SCase[T]) realDone(reflect.Value, bool) {}

// Select chooses among the cases; -1 is the default.
func Select(def bool, cases ...ChanCase) int {
	if !Active() {
		var l []reflect.SelectCase
		for _, c := range cases {
			l = append(l, c.real())
		}
		if def {
			l = append(l, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(l)
		if i == len(cases) {
			return -1
		}
		cases[i].realDone(v, ok)
		return i
	}
	Yield()
	for {
		first := 0
		if len(cases) > 1 {
			first = Draw(len(cases))
		}
		for i := range cases {
			if k := (first + i) % len(cases); cases[k].try() {
				return k
			}
		}
		if def {
			return -1
		}
		for _, c := range cases {
			c.wait(1)
		}
		Block(chanAddr)
		for _, c := range cases {
			c.wait(-1)
		}
	}
}

// outsideWake lets tasks that wait for channels look at them again: code
// outside of the simulation (a context, a timer) may have used them.
//
//go:norace
func outsideWake() bool {
	any := false
	for i := 0; i < nTasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].on == chanAddr {
			any = true
		}
	}
	if !any || outside > 2000 {
		return false
	}
	outside++
	time.Sleep(time.Millisecond)
	Wake(chanAddr)
	return true
}

var outside int
