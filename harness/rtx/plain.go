//go:build !instr

package rtx

const Available = false

func Register() int                                 { return 0 }
func Unregister()                                   {}
func Limit(i int, n int64)                          {}
func Steps(i int) int64                             { return 0 }
func Exceeded(v interface{}) bool                   { return false }
func Schedule(hook func(step bool), blocked func()) {}
func G() uintptr                                    { return 0 }
