// Package simrt is what the instrumented copy of gopf calls: points at which another
// calculation may run, and threads and channels that the simulator schedules.
package simrt

import "runtime"

// Budget is the number of statements until Hook is called
var Budget int64 = 1 << 60

// Hook is called when the budget is used up
var Hook func()

// P is a point in front of every statement of gopf
func P() {
	if Budget--; Budget < 0 {
		expired()
	}
}

func expired() {
	if Hook == nil {
		Budget = 1 << 60
		return
	}
	Hook()
}

// Spawn starts a simulated thread; it returns false if no simulation is running
var Spawn func(fn func()) bool

// Wait is called by a thread that cannot go on; it returns when something may have
// changed. It returns false if no simulation is running.
var Wait func() bool

// Go starts a goroutine
func Go(fn func()) {
	if Spawn != nil && Spawn(fn) {
		return
	}
	go fn()
}

// Block waits until ready returns true
func Block(ready func() bool) {
	for !ready() {
		if Wait == nil || !Wait() {
			runtime.Gosched()
		}
	}
}

// Send is ch <- v
func Send[T any](ch chan<- T, v T) {
	P()
	Block(func() bool {
		select {
		case ch <- v:
			return true
		default:
			return false
		}
	})
}

// Recv is <-ch
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	P()
	Block(func() bool {
		select {
		case v, ok = <-ch:
			return true
		default:
			return false
		}
	})
	return v, ok
}
