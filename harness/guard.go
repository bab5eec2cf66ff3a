package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// guard runs f, which calls the library. It returns what went wrong: a panic, running for too long
// or using too much memory.
func guard(f func(), limit time.Duration) (why string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				// Only what the library itself does counts
				if !strings.Contains(st, "RH12503") && !strings.Contains(st, "/repo/") {
					fmt.Fprintln(os.Stderr, "harness error:", r, st)
					os.Exit(4)
				}
				done <- fmt.Sprint("panic: ", r)
				return
			}
			done <- ""
		}()
		f()
	}()
	start := time.Now()
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case w := <-done:
			return w
		case <-t.C:
			if time.Since(start) > limit {
				atomic.StoreInt32(&stuck, 1)
				return "hang"
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				atomic.StoreInt32(&stuck, 1)
				return "memory"
			}
		}
	}
}

// stuck is set once a call into the library doesn't return; the process should end soon.
var stuck int32

// die ends the process because of an error that isn't the library's.
func die(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(4)
}
