// Package sched runs a few goroutines one at a time, switching only at the
// points where instrumented synchronization happens, by the choices it is given.
//
// Handing over does not synchronize for the race detector: only what the code
// itself does counts, so a race is reported whatever the interleaving.
package sched

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

const MaxThreads = 4

type thread struct {
	id     int
	resume chan struct{}
	state  int32 // see below
	wait   uintptr
	where  uintptr // what it is about to do
}

const (
	runnable = iota
	blocked  // until wait changes
	done
)

// Result tells of one run.
type Result struct {
	Points   int
	Deadlock bool
	Stuck    bool   // a thread blocks outside of the scheduler's knowledge
	Panic    string // of a thread
	Choices  []Choice
}

// Choice is one decision between threads.
type Choice struct {
	Enabled []int
	Cur     int // the running one, -1 if it cannot go on
	Pick    int // index in Enabled
}

type world struct {
	threads []*thread
	back    chan int
	cur     int32
	panics  [MaxThreads]string
	byG     [MaxThreads]int64
}

var active atomic.Pointer[world]

//go:norace
func goid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}

//go:norace
func self() (*world, *thread) {
	raceOff()
	w := active.Load()
	raceOn()
	if w == nil {
		return nil, nil
	}
	g := goid()
	for i := range w.threads {
		if w.byG[i] == g {
			return w, w.threads[i]
		}
	}
	return nil, nil
}

// Controlled tells whether this goroutine is scheduled.
//
//go:norace
func Controlled() bool { _, t := self(); return t != nil }

// Self is the number of the running thread, -1 outside of them.
//
//go:norace
func Self() int {
	if _, t := self(); t != nil {
		return t.id
	}
	return -1
}

//go:norace
func (w *world) park(t *thread) {
	raceOff()
	w.back <- t.id
	<-t.resume
	raceOn()
}

// Yield is a point where another thread may go on.
//
//go:norace
func Yield() {
	w, t := self()
	if t == nil {
		return
	}
	w.park(t)
}

// Block waits until Wake of the same key.
//
//go:norace
func Block(key uintptr) {
	w, t := self()
	if t == nil {
		runtime.Gosched()
		return
	}
	t.wait = key
	t.state = blocked
	w.park(t)
}

// Wake lets the threads blocked on a key try again.
//
//go:norace
func Wake(key uintptr) {
	w, _ := self()
	if w == nil {
		return
	}
	for _, t := range w.threads {
		if t.state == blocked && t.wait == key {
			t.state = runnable
		}
	}
}

//go:norace
func (w *world) start(t *thread, f func()) {
	w.byG[t.id] = goid()
	raceOff()
	<-t.resume
	raceOn()
	w.guarded(t, f)
	t.state = done
	w.byG[t.id] = -1
	raceOff()
	w.back <- t.id
	raceOn()
}

//go:norace
func (w *world) guarded(t *thread, f func()) {
	defer w.caught(t)
	f()
}

//go:norace
func (w *world) caught(t *thread) {
	if r := recover(); r != nil {
		w.panics[t.id] = fmt.Sprintf("%v\n%s", r, debug.Stack())
	}
}

// Run runs the functions, each on its own goroutine, switching by pick: it gets
// the enabled threads and the running one (-1 if it cannot go on) and returns
// an index.
//
//go:norace
func Run(fs []func(), pick func(n int, c Choice) int) (res Result) {
	w := &world{back: make(chan int, MaxThreads)}
	for i := range fs {
		w.threads = append(w.threads, &thread{id: i, resume: make(chan struct{}, 1)})
	}
	active.Store(w)
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go spawn(w, w.threads[i], f, &wg)
	}
	cur := -1
	var timer *time.Timer
	for {
		var en []int
		alive := false
		for _, t := range w.threads {
			if t.state != done {
				alive = true
			}
			if t.state == runnable {
				en = append(en, t.id)
			}
		}
		if !alive {
			break
		}
		if len(en) == 0 {
			res.Deadlock = true
			break
		}
		c := Choice{Enabled: en, Cur: -1}
		for _, id := range en {
			if id == cur {
				c.Cur = cur
			}
		}
		if len(en) > 1 {
			c.Pick = pick(len(res.Choices), c)
			res.Choices = append(res.Choices, c)
		}
		cur = en[c.Pick]
		raceOff()
		w.threads[cur].resume <- struct{}{}
		if timer == nil {
			timer = time.NewTimer(20 * time.Second)
		} else {
			timer.Reset(20 * time.Second)
		}
		stuck := false
		select {
		case <-w.back:
			if !timer.Stop() {
				select {
				case <-timer.C:
				default:
				}
			}
		case <-timer.C:
			stuck = true
		}
		raceOn()
		res.Points++
		if stuck {
			res.Stuck = true
			break
		}
	}
	active.Store(nil)
	if !res.Deadlock && !res.Stuck {
		wg.Wait()
	}
	for i := range fs {
		if w.panics[i] != "" && res.Panic == "" {
			res.Panic = w.panics[i]
		}
	}
	return
}

//go:norace
func spawn(w *world, t *thread, f func(), wg *sync.WaitGroup) {
	defer wg.Done()
	w.start(t, f)
}

var clock atomic.Int64

// Tick is a clock which orders nothing for the race detector.
//
//go:norace
func Tick() int64 {
	raceOff()
	n := clock.Add(1)
	raceOn()
	return n
}
