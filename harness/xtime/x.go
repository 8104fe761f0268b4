// Package time stands in for time: sleeping is yielding.
package time

import (
	"time"

	"skipmapverif/vs"
)

type (
	Duration = time.Duration
	Time     = time.Time
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

func Sleep(Duration)        { vs.Point(vs.KUser, nil, 0) }
func Now() Time             { return time.Now() }
func Since(t Time) Duration { return time.Since(t) }
