package time

import "sync/atomic"

// This file joins package time in the checks' test binaries (see check.sh), so that they own the clock
// of the whole process: wall and monotonic time are ahead of the real ones by the same distance.
// Timers keep running in real time.

var verifShift atomic.Int64

// VerifShift sets how far the process' clock is ahead.
func VerifShift(d Duration) { verifShift.Store(int64(d)) }

func verifNow() (sec int64, nsec int32, mono int64) {
	sec, nsec, mono = now()
	if s := verifShift.Load(); s != 0 {
		t := int64(nsec) + s%1e9
		sec += s / 1e9
		if t < 0 {
			t += 1e9
			sec--
		} else if t >= 1e9 {
			t -= 1e9
			sec++
		}
		return sec, int32(t), mono + s
	}
	return sec, nsec, mono
}

func verifNano() int64 { return runtimeNano() + verifShift.Load() }
