// Package vrand replaces package math/rand (and math/rand/v2): numbers are a
// deterministic function of the history of the caller.
package vrand

import "vmc/vs"

func Seed(int64)           {}
func Float64() float64     { return 0.5 }
func Float32() float32     { return 0.5 }
func Uint64() uint64       { return vs.Rand64() }
func Uint32() uint32       { return uint32(vs.Rand64()) }
func Int63() int64         { return int64(vs.Rand64() >> 1) }
func Int31() int32         { return int32(vs.Rand64() >> 33) }
func Int() int             { return int(vs.Rand64() >> 1) }
func Intn(n int) int       { return int(vs.Rand64() % uint64(n)) }
func Int63n(n int64) int64 { return int64(vs.Rand64() % uint64(n)) }
func Int31n(n int32) int32 { return int32(vs.Rand64() % uint64(n)) }
func IntN(n int) int       { return Intn(n) }
func Int64N(n int64) int64 { return Int63n(n) }
func Int64() int64         { return Int63() }
func N[T ~int | ~int64 | ~uint64 | ~int32 | ~uint32](n T) T {
	return T(vs.Rand64() % uint64(n))
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vs.Rand64() >> 8)
	}
	return len(p), nil
}

// Rand is rand.Rand.
type Rand struct{}

// Source is rand.Source.
type Source interface{ Int63() int64 }
type src struct{}

func (src) Int63() int64                         { return Int63() }
func NewSource(int64) Source                     { return src{} }
func New(Source) *Rand                           { return &Rand{} }
func (*Rand) Seed(int64)                         {}
func (*Rand) Float64() float64                   { return 0.5 }
func (*Rand) Float32() float32                   { return 0.5 }
func (*Rand) Uint64() uint64                     { return Uint64() }
func (*Rand) Uint32() uint32                     { return Uint32() }
func (*Rand) Int63() int64                       { return Int63() }
func (*Rand) Int31() int32                       { return Int31() }
func (*Rand) Int() int                           { return Int() }
func (*Rand) Intn(n int) int                     { return Intn(n) }
func (*Rand) Int63n(n int64) int64               { return Int63n(n) }
func (*Rand) Int31n(n int32) int32               { return Int31n(n) }
func (*Rand) Perm(n int) []int                   { return Perm(n) }
func (*Rand) Shuffle(n int, swap func(i, j int)) {}
func (*Rand) Read(p []byte) (int, error)         { return Read(p) }

// the names of math/rand/v2
func Int32() int32               { return Int31() }
func Int32N(n int32) int32       { return Int31n(n) }
func Uint() uint                 { return uint(vs.Rand64()) }
func UintN(n uint) uint          { return uint(vs.Rand64() % uint64(n)) }
func Uint32N(n uint32) uint32    { return uint32(vs.Rand64() % uint64(n)) }
func Uint64N(n uint64) uint64    { return vs.Rand64() % n }
func NormFloat64() float64       { return 0 }
func ExpFloat64() float64        { return 1 }
func NewPCG(_, _ uint64) Source  { return src{} }
func NewChaCha8([32]byte) Source { return src{} }

func (*Rand) Int32() int32            { return Int32() }
func (*Rand) Int32N(n int32) int32    { return Int32N(n) }
func (*Rand) Int64() int64            { return Int64() }
func (*Rand) Int64N(n int64) int64    { return Int64N(n) }
func (*Rand) IntN(n int) int          { return IntN(n) }
func (*Rand) Uint() uint              { return Uint() }
func (*Rand) UintN(n uint) uint       { return UintN(n) }
func (*Rand) Uint32N(n uint32) uint32 { return Uint32N(n) }
func (*Rand) Uint64N(n uint64) uint64 { return Uint64N(n) }
func (*Rand) NormFloat64() float64    { return 0 }
func (*Rand) ExpFloat64() float64     { return 1 }
