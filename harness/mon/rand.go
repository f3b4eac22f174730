package mon

import (
	"hash/fnv"
	"math/rand/v2"
)

// Rand is the PRNG of a case.
type Rand struct{ *rand.Rand }

func NewRand(seed int64, name string, index int) *Rand {
	h := fnv.New64a()
	h.Write([]byte(name))
	return &Rand{rand.New(rand.NewPCG(uint64(seed)*0x9e3779b97f4a7c15+uint64(index), h.Sum64()^uint64(index)*0xbf58476d1ce4e5b9))}
}

func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// Chance is true once in n times.
func (r *Rand) Chance(n int) bool { return r.IntN(n) == 0 }

// Range is between lo and hi, both included.
func (r *Rand) Range(lo, hi int) int { return lo + r.IntN(hi-lo+1) }

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := r.Uint64()
		for j := i; j < n && j < i+8; j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
	return b
}

func Pick[T any](r *Rand, xs []T) T { return xs[r.IntN(len(xs))] }
