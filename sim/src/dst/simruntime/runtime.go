// Package simruntime stands in for runtime: giving way goes to the scheduler.
package simruntime

import "dst/sim"

func Gosched() { sim.Gosched() }
