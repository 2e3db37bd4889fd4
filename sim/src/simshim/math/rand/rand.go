// Code generated by gen; DO NOT EDIT.

package rand

import (
	real "math/rand"
	"simrt"
)

type src struct{}

func (src) Int63() int64 { return int64(simrt.Rand64() >> 1) }
func (src) Uint64() uint64 { return simrt.Rand64() }
func (src) Seed(int64) {}

var g = real.New(src{})


var ExpFloat64 = g.ExpFloat64
var Float32 = g.Float32
var Float64 = g.Float64
var Int = g.Int
var Int31 = g.Int31
var Int31n = g.Int31n
var Int63 = g.Int63
var Int63n = g.Int63n
var Intn = g.Intn
var New = real.New
var NewSource = real.NewSource
var NewZipf = real.NewZipf
var NormFloat64 = g.NormFloat64
var Perm = g.Perm
type Rand = real.Rand
var Read = g.Read
var Seed = g.Seed
var Shuffle = g.Shuffle
type Source = real.Source
type Source64 = real.Source64
var Uint32 = g.Uint32
var Uint64 = g.Uint64
type Zipf = real.Zipf
