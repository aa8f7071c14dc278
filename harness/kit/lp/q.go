// Package lp solves small linear programs exactly.
package lp

import (
	"math/big"
	"math/bits"
)

// Q is an exact rational number. Its zero value is not valid, use Int.
type Q struct {
	n, d int64
	big  *big.Rat // takes over once n/d would overflow
}

// Int makes a whole number.
func Int(n int64) Q { return Q{n: n, d: 1} }

// Frac makes n/d.
func Frac(n, d int64) Q {
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(abs(n), uint64(d))
	return Q{n: n / int64(g), d: d / int64(g)}
}

func abs(n int64) uint64 {
	if n < 0 {
		return uint64(-n)
	}
	return uint64(n)
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	if a == 0 {
		return 1
	}
	return a
}

const limit = 1 << 62

func mul(a, b int64) (int64, bool) {
	hi, lo := bits.Mul64(abs(a), abs(b))
	if hi != 0 || lo >= limit {
		return 0, false
	}
	if (a < 0) != (b < 0) {
		return -int64(lo), true
	}
	return int64(lo), true
}

// Rat converts to a big rational.
func (a Q) Rat() *big.Rat {
	if a.big != nil {
		return a.big
	}
	return big.NewRat(a.n, a.d)
}

func fromRat(r *big.Rat) Q {
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		n, d := r.Num().Int64(), r.Denom().Int64()
		if abs(n) < limit && d < limit {
			return Q{n: n, d: d}
		}
	}
	return Q{big: r}
}

// Sign is -1, 0 or 1.
func (a Q) Sign() int {
	if a.big != nil {
		return a.big.Sign()
	}
	switch {
	case a.n < 0:
		return -1
	case a.n > 0:
		return 1
	}
	return 0
}

// Neg is -a.
func (a Q) Neg() Q {
	if a.big != nil {
		return fromRat(new(big.Rat).Neg(a.big))
	}
	return Q{n: -a.n, d: a.d}
}

// Mul is a*b.
func (a Q) Mul(b Q) Q {
	if a.big == nil && b.big == nil {
		g1, g2 := int64(gcd(abs(a.n), uint64(b.d))), int64(gcd(abs(b.n), uint64(a.d)))
		n, ok1 := mul(a.n/g1, b.n/g2)
		d, ok2 := mul(a.d/g2, b.d/g1)
		if ok1 && ok2 {
			return Q{n: n, d: d}
		}
	}
	return fromRat(new(big.Rat).Mul(a.Rat(), b.Rat()))
}

// Inv is 1/a.
func (a Q) Inv() Q {
	if a.big != nil {
		return fromRat(new(big.Rat).Inv(a.big))
	}
	if a.n < 0 {
		return Q{n: -a.d, d: -a.n}
	}
	return Q{n: a.d, d: a.n}
}

// Add is a+b.
func (a Q) Add(b Q) Q {
	if a.big == nil && b.big == nil {
		if a.d == 1 && b.d == 1 {
			if n := a.n + b.n; abs(n) < limit {
				return Q{n: n, d: 1}
			}
		}
		x, ok1 := mul(a.n, b.d)
		y, ok2 := mul(b.n, a.d)
		d, ok3 := mul(a.d, b.d)
		if ok1 && ok2 && ok3 {
			n := x + y
			if abs(n) < limit {
				g := int64(gcd(abs(n), uint64(d)))
				return Q{n: n / g, d: d / g}
			}
		}
	}
	return fromRat(new(big.Rat).Add(a.Rat(), b.Rat()))
}

// Sub is a-b.
func (a Q) Sub(b Q) Q { return a.Add(b.Neg()) }

// Cmp compares a and b.
func (a Q) Cmp(b Q) int { return a.Sub(b).Sign() }

// Float approximates a.
func (a Q) Float() float64 {
	f, _ := a.Rat().Float64()
	return f
}

// String prints a.
func (a Q) String() string { return a.Rat().RatString() }
