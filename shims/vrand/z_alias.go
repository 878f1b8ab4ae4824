// Code generated by gosym alias; the parts of math/rand the model leaves as they are.

package vrand

import real_ "math/rand"

type (
	Source64 = real_.Source64
	Zipf     = real_.Zipf
)

var (
	ExpFloat64  = real_.ExpFloat64
	Float32     = real_.Float32
	Float64     = real_.Float64
	Int31       = real_.Int31
	Int31n      = real_.Int31n
	Int63       = real_.Int63
	Int63n      = real_.Int63n
	NewZipf     = real_.NewZipf
	NormFloat64 = real_.NormFloat64
	Perm        = real_.Perm
	Read        = real_.Read
	Shuffle     = real_.Shuffle
	Uint32      = real_.Uint32
	Uint64      = real_.Uint64
)
