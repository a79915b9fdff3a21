package harness

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

// jitter delays its callers by a generated schedule, to spread interleavings.
type jitter struct {
	mu   sync.Mutex
	r    *rand.Rand
	rate int // of 100 calls, how many are delayed
	max  time.Duration
}

func newJitter(seed int64, rate int, max time.Duration) *jitter {
	return &jitter{r: rand.New(rand.NewSource(seed)), rate: rate, max: max}
}

func (j *jitter) pause() {
	if j == nil {
		return
	}
	j.mu.Lock()
	n, d := j.r.Intn(100), time.Duration(j.r.Int63n(int64(j.max)))
	j.mu.Unlock()
	switch {
	case n < j.rate:
		time.Sleep(d)
	case n < 70:
		runtime.Gosched()
	}
}
