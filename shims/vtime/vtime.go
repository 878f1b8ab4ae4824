// Package vtime stands for package time with a clock of the model's own.
package vtime

import (
	"time"

	"github.com/metrumresearchgroup/pkgr/verifsym/sym"
)

// Clock is the current second.
var Clock int64 = 1700000000

func Now() time.Time                  { return time.Unix(Clock, 0) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { sym.Sleep() }
