//go:build vpclock

package main

import (
	"time"

	"vpharness/vp"
)

func init() {
	vp.ClockHook = func(sec int64) {
		if sec < 0 {
			time.VPClock = nil
			return
		}
		time.VPClock = func() int64 { return sec }
	}
}
