package c20

import (
	"fmt"
	"math/rand"

	"github.com/openconfig/gnmi/zzverif/nd"
)

// The pseudo-random numbers are arbitrary values, the same for the same seed and draw.

type state struct {
	seed any
	n    int
}

var (
	states = map[*rand.Rand]*state{}
	draws  = map[string]any{}
	bounds = map[string]int64{}
)

// fractions are the draws of Float64, all if empty.
var fractions []float64

type source struct{ seed int64 }

func (s *source) Int63() int64    { panic("not modelled") }
func (s *source) Seed(seed int64) { panic("not modelled") }

//nd:model math/rand.NewSource
func newSource(seed int64) rand.Source { return &source{seed} }

//nd:model math/rand.New
func newRand(s rand.Source) *rand.Rand {
	r := new(rand.Rand)
	states[r] = &state{seed: s.(*source).seed}
	return r
}

func draw[T any](r *rand.Rand, what string, mk func(name string) T) T {
	st := states[r]
	st.n++
	name := fmt.Sprintf("rand.%v.%d.%s", st.seed, st.n, what)
	if v, ok := draws[name]; ok {
		return v.(T)
	}
	v := mk(name)
	draws[name] = v
	return v
}

func below(r *rand.Rand, n int64, who string) int64 {
	if n <= 0 {
		panic("invalid argument to " + who)
	}
	st := states[r]
	name := fmt.Sprintf("rand.%v.%d", st.seed, st.n)
	for k := 0; ; k++ {
		b, ok := bounds[fmt.Sprint(name, k)]
		if !ok {
			bounds[fmt.Sprint(name, k)] = n
		} else if b != n {
			continue // the same draw with another bound is another number
		}
		v := draw(r, fmt.Sprintf("int%d", k), nd.Int64)
		nd.Assume(nd.And(v >= 0, v < n))
		return v
	}
}

//nd:model (*math/rand.Rand).Int63n
func int63n(r *rand.Rand, n int64) int64 { return below(r, n, "Int63n") }

//nd:model (*math/rand.Rand).Int31n
func int31n(r *rand.Rand, n int32) int32 { return int32(below(r, int64(n), "Int31n")) }

//nd:model (*math/rand.Rand).Intn
func intn(r *rand.Rand, n int) int { return nd.Concrete(int(below(r, int64(n), "Intn"))) }

//nd:model (*math/rand.Rand).Int63
func int63(r *rand.Rand) int64 {
	v := draw(r, "int63", nd.Int64)
	nd.Assume(v >= 0)
	return v
}

//nd:model (*math/rand.Rand).Uint64
func uint64s(r *rand.Rand) uint64 { return draw(r, "uint64", nd.Uint64) }

//nd:model (*math/rand.Rand).Float64
func float64s(r *rand.Rand) float64 {
	if len(fractions) > 0 {
		return draw(r, "float", func(name string) float64 { return fractions[nd.Choose(name, len(fractions))] })
	}
	v := draw(r, "float", nd.Float64)
	nd.Assume(nd.And(v >= 0, v < 1))
	return v
}

//nd:model (*math/rand.Rand).Shuffle
func shuffle(r *rand.Rand, n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, intn(r, i+1))
	}
}
