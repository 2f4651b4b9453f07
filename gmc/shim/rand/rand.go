// Package rand replaces math/rand under the model checker.
package rand

import "gmc/mc"

func u() uint64            { return mc.Rand64() }
func Seed(int64)           {}
func Int63() int64         { return int64(u() >> 1) }
func Uint32() uint32       { return uint32(u()) }
func Uint64() uint64       { return u() }
func Int31() int32         { return int32(u() >> 33) }
func Int() int             { return int(u() >> 1) }
func Int63n(n int64) int64 { return int64(u()>>1) % n }
func Int31n(n int32) int32 { return int32(u()>>33) % n }
func Intn(n int) int       { return int(u()>>1) % n }
func Float64() float64     { return float64(u()>>11) / (1 << 53) }
func Float32() float32     { return float32(Float64()) }
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func Shuffle(n int, swap func(i, j int)) {}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(u())
	}
	return len(p), nil
}
