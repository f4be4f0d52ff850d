// Package vtime runs cases on a virtual clock (testing/synctest bubbles): time
// moves only when every goroutine of the case waits, so hours cost nothing and
// a return can be timed exactly.
package vtime

import (
	"fmt"
	"math/rand"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"xv/rep"
)

// Each runs n cases of a family, each on a virtual clock of its own.
//
// A case whose goroutines all wait for each other, with no timer left to end
// that, is reported through stuck; goroutines left behind by a case that has
// come to its end are not.
func Each(r *rep.Run, family string, n int, f func(i int, rng *rand.Rand), stuck func(i int)) {
	t := host()
	r.Each(family, n, func(i int, rng *rand.Rand) {
		ended := false
		var p interface{}
		func() {
			defer func() {
				e := recover()
				if e == nil {
					return
				}
				if err, ok := e.(error); ok && strings.Contains(err.Error(), "deadlock") {
					if !ended {
						stuck(i)
					}
					return
				}
				panic(e)
			}()
			synctest.Test(t, func(*testing.T) {
				defer func() {
					if p = recover(); p != nil {
						p = fmt.Sprintf("%v\n%s", p, debug.Stack())
					}
				}()
				f(i, rng)
				ended = true
			})
		}()
		if p != nil {
			panic(p)
		}
	})
}

var once sync.Once
var hostT *testing.T

// host returns the test that hosts the bubbles; it never ends.
func host() *testing.T {
	once.Do(func() {
		c := make(chan *testing.T)
		go testing.Main(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "vtime", F: func(t *testing.T) {
			c <- t
			select {}
		}}}, nil, nil)
		hostT = <-c
	})
	return hostT
}

// Wait blocks until every other goroutine of the case waits.
func Wait() { synctest.Wait() }

// Span is a random length of time, from none to a year, spread over all scales.
func Span(rng *rand.Rand) time.Duration {
	scale := []time.Duration{0, time.Microsecond, time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, 10 * time.Minute, time.Hour, 10 * time.Hour, 24 * time.Hour, 400 * time.Hour, 8760 * time.Hour}
	s := scale[rng.Intn(len(scale))]
	if s == 0 {
		return 0
	}
	return s/2 + time.Duration(rng.Int63n(int64(s)))
}
