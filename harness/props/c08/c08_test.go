// C08: flex modes put excess space where they say.
package c08

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

func frac(a, b int) *big.Rat { return big.NewRat(int64(a), int64(b)) }

// ideal gives the exact start of every segment and the end of the last one.
func ideal(flex bento.Flex, lengths []int, spacing, size int) (starts, ends []*big.Rat) {
	n := len(lengths)
	total := 0
	for _, l := range lengths {
		total += l
	}
	lead, gap := frac(0, 1), frac(spacing, 1)
	excess := size - total - spacing*(n-1)
	switch flex {
	case bento.FlexEnd:
		lead = frac(excess, 1)
	case bento.FlexCenter:
		lead = frac(excess, 2)
	case bento.FlexSpaceBetween:
		if n > 1 {
			gap = frac(size-total, n-1)
		}
	case bento.FlexSpaceAround:
		gap = frac(size-total, n+1)
		lead = gap
	}
	at := lead
	for i, l := range lengths {
		if stretched(flex, i, n) {
			l += excess
		}
		starts = append(starts, at)
		end := new(big.Rat).Add(at, frac(l, 1))
		ends = append(ends, end)
		at = new(big.Rat).Add(end, gap)
	}
	return starts, ends
}

// stretched tells whether segment i of n takes the excess itself: the last one of
// the legacy mode, and the only one when space may go between segments alone.
func stretched(flex bento.Flex, i, n int) bool {
	return flex == bento.FlexLegacy && i == n-1 || flex == bento.FlexSpaceBetween && n == 1
}

// near tells whether a whole cell is the exact position rounded.
func near(cell int, exact *big.Rat) bool {
	d := new(big.Rat).Sub(frac(cell, 1), exact)
	return d.Abs(d).Cmp(big.NewRat(52, 100)) < 0
}

func property(t *rapid.T) {
	flex := rapid.SampledFrom(lay.Flexes).Draw(t, "flex")
	n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 6), rapid.IntRange(1, 20)).Draw(t, "n")
	overlap := rapid.IntRange(0, 4).Draw(t, "overlap") == 0
	low := 0
	spacing := 0
	if overlap {
		spacing = -rapid.IntRange(0, 3).Draw(t, "by")
		low = -spacing
	} else {
		spacing = rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3), rapid.IntRange(0, 12)).Draw(t, "spacing")
	}
	lengths := make([]int, n)
	total := 0
	for i := range lengths {
		lengths[i] = rapid.IntRange(low, 12).Draw(t, "length")
		total += lengths[i]
	}
	gaps := n - 1
	if flex == bento.FlexSpaceAround {
		gaps = n + 1
	}
	excess := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 30), rapid.IntRange(0, 200)).Draw(t, "excess")
	// the segments must fit at every point, also where they overlap
	size := max(total+spacing*gaps, total+spacing*(n-1), 0) + excess
	if flex == bento.FlexSpaceAround {
		// nothing can overlap where the outer gaps, which are as large, cannot
		size = max(size, total)
	}

	padding := lay.Padding(4).Draw(t, "padding")
	cross := rapid.IntRange(0, 4).Draw(t, "cross")
	horizontal := rapid.Bool().Draw(t, "horizontal")
	x, y := rapid.IntRange(0, 9).Draw(t, "x"), rapid.IntRange(0, 9).Draw(t, "y")

	w, h := cross, size
	if horizontal {
		w, h = size, cross
	}
	if horizontal && w == 0 || !horizontal && h == 0 {
		t.Skip("empty")
	}
	if cross == 0 {
		padding = bento.Padding{}
	}
	area := bento.NewRect(w+padding.Left+padding.Right, h+padding.Top+padding.Bottom).Positioned(x, y)

	cs := make([]bento.Constraint, n)
	for i, l := range lengths {
		cs[i] = bento.ConstraintLen(l)
	}
	layout := bento.NewLayout(cs...).WithFlex(flex).WithPadding(padding)
	if overlap {
		layout = layout.WithSpacing(bento.SpacingOverlap(-spacing))
	} else {
		layout = layout.WithSpacing(bento.SpacingSpace(spacing))
	}
	origin := y + padding.Top
	if horizontal {
		layout = layout.Horizontal()
		origin = x + padding.Left
	}
	desc := fmt.Sprintf("%s lengths=%v area=%v", lay.Describe(layout), lengths, area)
	class := lay.FlexName(flex)
	if overlap {
		class += "-overlap"
	}
	kit.Case(desc, excess > 0 && n > 1, class)

	kit.Guard(desc, func() {
		segs, spacers := layout.SplitWithSpacers(area)
		starts, ends := ideal(flex, lengths, spacing, size)
		if len(segs) != n || len(spacers) != n+1 {
			t.Fatalf("%s: %d segments, %d spacers", desc, len(segs), len(spacers))
		}
		prev := 0
		for i, s := range segs {
			at, length, c, cw := s.Y, s.Height, s.X, s.Width
			cat := x + padding.Left
			if horizontal {
				at, length, c, cw = s.X, s.Width, s.Y, s.Height
				cat = y + padding.Top
			}
			if cw > 0 && (c != cat || cw != cross) {
				t.Fatalf("%s: segment %d is %v, across it should be %d+%d", desc, i, s, cat, cross)
			}
			at -= origin
			if !stretched(flex, i, n) && length != lengths[i] {
				t.Fatalf("%s: segment %d has length %d; %v", desc, i, length, segs)
			}
			if !near(at, starts[i]) || !near(at+length, ends[i]) {
				t.Fatalf("%s: segment %d is at %d+%d, exactly %s to %s; %v", desc, i, at, length, starts[i].FloatString(2), ends[i].FloatString(2), segs)
			}
			if i > 0 && at-prev < spacing {
				t.Fatalf("%s: gap before segment %d is %d; %v", desc, i, at-prev, segs)
			}
			prev = at + length
		}
	})
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
