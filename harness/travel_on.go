//go:build travel

package harness

import "time"

// timeTravel sets how far the clock of the whole process is ahead (see /verif/travel).
func timeTravel(d time.Duration) bool { time.VerifShift(d); return true }

// travels: timeTravel does.
const travels = true
