package main

import "hash/fnv"

// Rand is a splitmix64 generator: every random choice of a run derives from
// VERIF_SEED through it.
type Rand struct{ s uint64 }

func NewRand(seed int64, tags ...string) *Rand {
	h := fnv.New64a()
	for _, t := range tags {
		h.Write([]byte(t))
		h.Write([]byte{0})
	}
	r := &Rand{uint64(seed)*0x9E3779B97F4A7C15 ^ h.Sum64()}
	r.next()
	return r
}

func (r *Rand) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// Range returns a number in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability pc percent.
func (r *Rand) P(pc int) bool { return r.Intn(100) < pc }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](r *Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Fork returns an independent generator.
func (r *Rand) Fork() *Rand { return &Rand{r.next()} }
