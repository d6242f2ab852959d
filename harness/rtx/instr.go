//go:build instr

// Package rtx gives access to the instrumentation of the module under test, if
// it is instrumented.
package rtx

import rt "github.com/jschaf/bibtex/verifrt"

// Available reports whether the module is instrumented.
const Available = true

// Register makes the calling goroutine count its steps.
func Register() int { return rt.Register() }

// Unregister forgets all goroutines.
func Unregister() { rt.Unregister() }

// Limit starts counting from 0.
func Limit(i int, n int64) { rt.Limit(i, n) }

// Steps is the number of steps since Limit.
func Steps(i int) int64 { return rt.Steps(i) }

// Exceeded reports whether a panic's value means that the limit was exceeded.
func Exceeded(v interface{}) bool { _, ok := v.(rt.Exceeded); return ok }

// Schedule calls hook at every point, and blocked where a goroutine waits.
func Schedule(hook func(step bool), blocked func()) {
	rt.Hook, rt.Blocked = hook, blocked
	rt.Schedule(hook != nil)
}

// G identifies the calling goroutine.
func G() uintptr { return rt.G() }
