package main

// A scheduler under which one of a few goroutines runs at a time and every
// switch is planned.  Handing over uses a futex word in functions the race
// detector does not look into: as far as it can tell the goroutines never
// synchronise, so it reports two conflicting accesses whichever way they were
// scheduled.

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"
	"unsafe"

	E "github.com/octarinesec/MAPL/MAPL_engine"
)

const maxThreads = 4

// turn lets a thread run until its stop-th scheduling point (never: -1).
type turn struct{ thread, stop int32 }

var sch struct {
	cur     int32 // thread+1; 0: everybody may run
	active  bool
	n       int32
	count   [maxThreads]int32
	done    [maxThreads]bool
	plan    [16]turn
	reached [16]bool
	nplan   int32
	pos     int32
	stop    int32
	ticks   int64
	freed   bool
	patient int64 // ticks of the monitor without progress before everybody is set free
}

//go:norace
func futex(op, val uintptr) {
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(&sch.cur)), op|128, val, 0, 0, 0)
}

//go:norace
func schSet(v int32) {
	sch.cur = v
	futex(1, math.MaxInt32)
}

//go:norace
func schWait(i int32) {
	for {
		v := sch.cur
		if v == 0 || v == i+1 || sch.done[i] {
			return
		}
		futex(0, uintptr(v))
	}
}

// schNext starts the next segment of the plan.
//
//go:norace
func schNext() {
	for sch.pos++; sch.pos < sch.nplan; sch.pos++ {
		s := sch.plan[sch.pos]
		if !sch.done[s.thread] {
			sch.stop = s.stop
			schSet(s.thread + 1)
			return
		}
	}
	sch.stop = -1
	for i := int32(0); i < sch.n; i++ {
		if !sch.done[i] {
			schSet(i + 1)
			return
		}
	}
	schSet(0)
}

// schYield is called by the running thread at every scheduling point.
//
//go:norace
func schYield() {
	if !sch.active {
		return
	}
	sch.ticks++
	v := sch.cur
	if v == 0 {
		return
	}
	i := v - 1
	c := sch.count[i]
	sch.count[i]++
	if sch.stop < 0 || c < sch.stop || sch.pos >= sch.nplan {
		return
	}
	sch.reached[sch.pos] = true
	schNext()
	schWait(i)
}

//go:norace
func schDone(i int32) {
	sch.ticks++
	sch.done[i] = true
	if sch.cur == i+1 {
		schNext()
	} else {
		futex(1, math.MaxInt32)
	}
}

//go:norace
func schStart(n int, plan []turn, patient int) {
	sch.patient = int64(patient)
	sch.n, sch.nplan, sch.pos = int32(n), int32(len(plan)), -1
	for i := range sch.count {
		sch.count[i], sch.done[i] = 0, false
	}
	for i, s := range plan {
		sch.plan[i], sch.reached[i] = s, false
	}
	sch.freed = false
	sch.cur = maxThreads + 1 // nobody
	sch.active = true
}

//go:norace
func schGo(free bool) {
	if free {
		schSet(0)
		return
	}
	schNext()
}

//go:norace
func schEnd() bool { sch.active = false; return sch.freed }

//go:norace
func schReached(i int) bool { return sch.reached[i] }

//go:norace
func schCount(i int) int { return int(sch.count[i]) }

// schMonitor sets everybody free when the running thread stands still, which
// it does when it waits for something another thread holds.
//
//go:norace
func schMonitor() {
	var last, same int64
	for {
		time.Sleep(20 * time.Millisecond)
		if t := sch.ticks; t != last || !sch.active {
			last, same = t, 0
		} else if same++; same >= sch.patient && sch.cur != 0 {
			sch.freed = true
			schSet(0)
		}
	}
}

var schOnce sync.Once

// interleave runs the operations as goroutines under the plan; it returns
// their results and whether the plan could be followed.
func interleave(ops []func() string, plan []turn, free bool, patient int) ([]string, bool) {
	schOnce.Do(func() {
		runtime.GOMAXPROCS(8)
		E.VerifYield = schYield
		go schMonitor()
	})
	res := make([]string, len(ops))
	var wg sync.WaitGroup
	schStart(len(ops), plan, patient)
	for i, op := range ops {
		wg.Add(1)
		go func(i int, op func() string) {
			defer wg.Done()
			defer schDone(int32(i))
			defer func() {
				if r := recover(); r != nil {
					res[i] = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				}
			}()
			schWait(int32(i))
			res[i] = op()
		}(i, op)
	}
	schGo(free)
	wg.Wait()
	return res, !schEnd()
}
