package scen

// Rng is a small seeded generator (splitmix64).
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s = Mix(r.s ^ Mix(p+0x9e3779b97f4a7c15))
	}
	return r
}

func Mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return Mix(r.s)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p percent.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Small returns a number in [1, n], small ones being much likelier.
func (r *Rng) Small(n int) int {
	m := 1
	for m < n && r.P(60) {
		m++
		if r.P(15) {
			m *= 2
		}
	}
	if m > n {
		m = n
	}
	return m
}

// Pick returns an index according to the weights.
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

func Of[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }
