// Package kairos is a stand-in for github.com/rhansen/go-kairos with the same
// observable contract (a resettable timer whose Stop and Reset never leave a
// stale value in C), built on time.AfterFunc instead of a process-wide clock
// goroutine, so that timers obey the virtual clock of testing/synctest.
// VERIF_TIME_SCALE=n divides every duration by n (real-time network checks).
package kairos

import (
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var scale atomic.Int64

func init() {
	n, err := strconv.ParseInt(os.Getenv("VERIF_TIME_SCALE"), 10, 64)
	if err != nil || n < 1 {
		n = 1
	}
	scale.Store(n)
}

// SetScale changes the divisor of durations from now on.
func SetScale(n int64) { scale.Store(n) }

type Timer struct {
	C <-chan time.Time

	c   chan time.Time
	mu  sync.Mutex
	t   *time.Timer
	gen uint64
}

func NewStoppedTimer() *Timer {
	c := make(chan time.Time, 1)
	return &Timer{C: c, c: c}
}

func NewTimer(d time.Duration) *Timer {
	t := NewStoppedTimer()
	t.Reset(d)
	return t
}

func (t *Timer) halt() bool {
	active := false
	if t.t != nil {
		active = t.t.Stop()
		t.t = nil
	}
	t.gen++
	select {
	case <-t.c:
	default:
	}
	return active
}

func (t *Timer) Stop() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.halt()
}

func (t *Timer) Reset(d time.Duration) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	active := t.halt()
	g := t.gen
	t.t = time.AfterFunc(d/time.Duration(scale.Load()), func() {
		t.mu.Lock()
		defer t.mu.Unlock()
		if t.gen != g {
			return
		}
		t.t = nil
		select {
		case t.c <- time.Now():
		default:
		}
	})
	return active
}
