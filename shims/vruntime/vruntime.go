// Package vruntime stands for package runtime.
package vruntime

const (
	GOOS     = "linux"
	GOARCH   = "amd64"
	Compiler = "gc"
)

// Cores is the number of processors of the model.
var Cores = 4

func GOMAXPROCS(n int) int { return Cores }
func NumCPU() int          { return Cores }
