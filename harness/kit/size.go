package kit

import "pgregory.net/rapid"

// Rarely is true once in 2^n cases. (Ranges of rapid favour small numbers too
// much to tell.)
func Rarely(t *rapid.T, n int, label string) bool {
	for i := 0; i < n; i++ {
		if !rapid.Bool().Draw(t, label) {
			return false
		}
	}
	return true
}

// UpTo draws a number up to n, now and then one several times as large.
func UpTo(n int) *rapid.Generator[int] {
	return rapid.Custom(func(t *rapid.T) int {
		if Rarely(t, 5, "beyond") {
			if Rarely(t, 3, "far beyond") {
				if Rarely(t, 2, "out of sight") {
					// more than a byte holds
					return rapid.IntRange(250, 250+max(50, n)).Draw(t, "number")
				}
				return rapid.IntRange(0, max(100, 8*n)).Draw(t, "number")
			}
			return rapid.IntRange(0, 4*n+4).Draw(t, "number")
		}
		return rapid.IntRange(0, n).Draw(t, "number")
	})
}

// AtLeast draws like UpTo, but no less than from.
func AtLeast(from, n int) *rapid.Generator[int] {
	return rapid.Map(UpTo(n-from), func(k int) int { return from + k })
}

// Several draws what SliceOfN does, now and then more than n.
func Several[T any](g *rapid.Generator[T], from, n int) *rapid.Generator[[]T] {
	return rapid.Custom(func(t *rapid.T) []T {
		if Rarely(t, 5, "many") {
			if Rarely(t, 4, "very many") {
				// more than a byte counts
				k := rapid.IntRange(250, 280).Draw(t, "count")
				return rapid.SliceOfN(g, k, k).Draw(t, "elements")
			}
			return rapid.SliceOfN(g, from, 8*n+8).Draw(t, "elements")
		}
		return rapid.SliceOfN(g, from, n).Draw(t, "elements")
	})
}
