// Code generated by gen; DO NOT EDIT.

package rand

import (
	real "math/rand/v2"
	"simrt"
)

type src struct{}

func (src) Uint64() uint64 { return simrt.Rand64() }

var g = real.New(src{})


type ChaCha8 = real.ChaCha8
var ExpFloat64 = g.ExpFloat64
var Float32 = g.Float32
var Float64 = g.Float64
var Int = g.Int
var Int32 = g.Int32
var Int32N = g.Int32N
var Int64 = g.Int64
var Int64N = g.Int64N
var IntN = g.IntN
var New = real.New
var NewChaCha8 = real.NewChaCha8
var NewPCG = real.NewPCG
var NewZipf = real.NewZipf
var NormFloat64 = g.NormFloat64
type PCG = real.PCG
var Perm = g.Perm
type Rand = real.Rand
var Shuffle = g.Shuffle
type Source = real.Source
var Uint = g.Uint
var Uint32 = g.Uint32
var Uint32N = g.Uint32N
var Uint64 = g.Uint64
var Uint64N = g.Uint64N
var UintN = g.UintN
type Zipf = real.Zipf

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// N is rand.N.
func N[Int intType](n Int) Int { return Int(g.Uint64N(uint64(n))) }
