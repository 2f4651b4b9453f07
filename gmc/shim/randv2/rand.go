// Package rand replaces math/rand/v2 under the model checker.
package rand

import "gmc/mc"

func u() uint64                                             { return mc.Rand64() }
func Uint32() uint32                                        { return uint32(u()) }
func Uint64() uint64                                        { return u() }
func Int() int                                              { return int(u() >> 1) }
func Int64() int64                                          { return int64(u() >> 1) }
func Int32() int32                                          { return int32(u() >> 33) }
func IntN(n int) int                                        { return int(u()>>1) % n }
func Int64N(n int64) int64                                  { return int64(u()>>1) % n }
func Uint64N(n uint64) uint64                               { return u() % n }
func Uint32N(n uint32) uint32                               { return uint32(u()) % n }
func Int32N(n int32) int32                                  { return int32(u()>>33) % n }
func Float64() float64                                      { return float64(u()>>11) / (1 << 53) }
func N[T ~int | ~int64 | ~int32 | ~uint64 | ~uint32](n T) T { return T(u()>>1) % n }
func Shuffle(n int, swap func(i, j int))                    {}
