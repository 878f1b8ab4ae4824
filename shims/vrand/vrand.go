// Package vrand stands for math/rand: the harness decides every value.
package vrand

// Next gives the next value in [0,n).
var Next = func(n int) int { return 0 }

type Source interface{ Int63() int64 }
type source struct{}

func (source) Int63() int64 { return 0 }

type Rand struct{}

func NewSource(seed int64) Source { return source{} }
func New(s Source) *Rand          { return &Rand{} }
func (r *Rand) Intn(n int) int    { return Next(n) }
func (r *Rand) Int() int          { return Next(1 << 30) }
func (r *Rand) Int63() int64      { return int64(Next(1 << 30)) }
func Intn(n int) int              { return Next(n) }
func Int() int                    { return Next(1 << 30) }
func Seed(int64)                  {}
