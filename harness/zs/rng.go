package zs

import "math/big"

// Rng is a splitmix64 generator: the only source of randomness.
type Rng struct{ s uint64 }

// NewRng seeds a generator from several numbers.
func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + r.s<<6 + r.s>>2
		r.U64()
	}
	return r
}

// U64 is the next word.
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

// W picks an index with the given weights.
func (r *Rng) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Pick picks an element.
func Pick[T any](r *Rng, s []T) T { return s[r.N(len(s))] }

// Shuffle shuffles.
func Shuffle[T any](r *Rng, s []T) {
	for i := len(s) - 1; i > 0; i-- {
		j := r.N(i + 1)
		s[i], s[j] = s[j], s[i]
	}
}

// BigIn picks from a range, preferring its edges and small magnitudes.
func (r *Rng) BigIn(lo, hi *big.Int) *big.Int {
	clamp := func(n *big.Int) *big.Int {
		if n.Cmp(lo) < 0 {
			return new(big.Int).Set(lo)
		}
		if n.Cmp(hi) > 0 {
			return new(big.Int).Set(hi)
		}
		return n
	}
	switch r.W(2, 4, 3, 3) {
	case 0: // edges
		e := []*big.Int{lo, hi, big.NewInt(0), big.NewInt(-1), big.NewInt(1)}
		n := new(big.Int).Set(Pick(r, e))
		return clamp(n.Add(n, big.NewInt(int64(r.In(-1, 1)))))
	case 1: // small
		n := big.NewInt(int64(r.In(-3, 20)))
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			n.Neg(n)
		}
		return clamp(n)
	case 2: // powers of two
		n := new(big.Int).Lsh(big.NewInt(1), uint(r.N(65)))
		n.Add(n, big.NewInt(int64(r.In(-2, 1))))
		if r.P(.5) {
			n.Neg(n)
		}
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			n.Neg(n)
		}
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			break
		}
		return n
	}
	// uniform over the range
	d := new(big.Int).Sub(hi, lo)
	d.Add(d, big.NewInt(1))
	x := new(big.Int).SetUint64(r.U64())
	x.Lsh(x, 64).Or(x, new(big.Int).SetUint64(r.U64()))
	if r.P(.5) && d.BitLen() > 1 { // a random magnitude
		d = new(big.Int).Lsh(big.NewInt(1), uint(1+r.N(d.BitLen()-1)))
	}
	x.Mod(x, d)
	return clamp(x.Add(x, lo))
}
