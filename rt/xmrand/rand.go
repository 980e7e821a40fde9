// Package rand replaces math/rand and math/rand/v2: each value is a choice of
// the explorer where the range is small, and a constant otherwise.
package rand

import (
	rr "math/rand"

	"github.com/luxfi/zmq/v4/internal/zzmc/mc"
)

type (
	Rand   = rr.Rand
	Source = rr.Source
	Zipf   = rr.Zipf
)

var (
	New       = rr.New
	NewSource = rr.NewSource
	NewZipf   = rr.NewZipf
)

func pick(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n <= 8 {
		return mc.Deviate(n)
	}
	return [2]int{0, n - 1}[mc.Deviate(2)]
}

func Seed(int64)                                                    {}
func Int() int                                                      { return pick(1 << 30) }
func Intn(n int) int                                                { return pick(n) }
func IntN(n int) int                                                { return pick(n) }
func Int31() int32                                                  { return int32(pick(1 << 30)) }
func Int31n(n int32) int32                                          { return int32(pick(int(n))) }
func Int32() int32                                                  { return int32(pick(1 << 30)) }
func Int32N(n int32) int32                                          { return int32(pick(int(n))) }
func Int63() int64                                                  { return int64(pick(1 << 40)) }
func Int63n(n int64) int64                                          { return int64(pick(int(n))) }
func Int64() int64                                                  { return int64(pick(1 << 40)) }
func Int64N(n int64) int64                                          { return int64(pick(int(n))) }
func Uint32() uint32                                                { return uint32(pick(1 << 30)) }
func Uint64() uint64                                                { return uint64(pick(1 << 40)) }
func Float64() float64                                              { return float64(pick(4)) / 4 }
func Float32() float32                                              { return float32(pick(4)) / 4 }
func N[T ~int | ~int64 | ~int32 | ~uint | ~uint32 | ~uint64](n T) T { return T(pick(int(n))) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {
	if n > 1 && mc.Deviate(2) == 1 {
		swap(0, n-1)
	}
}
func Read(p []byte) (int, error) {
	k := mc.CurKey()
	for i := range p {
		p[i] = byte(k >> (8 * (i % 8)))
		if i%8 == 7 {
			k = k*0x9e3779b97f4a7c15 + 1
		}
	}
	return len(p), nil
}
