// C05: a layout tiles its area in order, without gaps, overlap or spill.
package c05

import (
	"fmt"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	lay.Huge = true
	kit.Main(m)
}

// extent of a rectangle along and across the layout.
type extent struct{ start, end, crossStart, crossEnd int }

func measure(r bento.Rect, d bento.Direction) extent {
	if d == bento.DirectionHorizontal {
		return extent{r.X, r.X + r.Width, r.Y, r.Y + r.Height}
	}
	return extent{r.Y, r.Y + r.Height, r.X, r.X + r.Width}
}

func property(t *rapid.T) {
	l := lay.Layout(36, true).Draw(t, "layout")
	area := lay.Area().Draw(t, "area")
	inner := area.Inner(l.Padding)
	desc := fmt.Sprintf("%s area=%v", lay.Describe(l), area)
	overlap := false
	if o, ok := l.Spacing.(bento.SpacingOverlap); ok && o > 0 {
		overlap = true
	}
	class := lay.FlexName(l.Flex)
	if overlap {
		class = "overlap-" + class
	}
	many := ""
	if len(l.Constraints) > 8 {
		many = "many"
	}
	kit.Case(desc, len(l.Constraints) > 1 && !inner.IsEmpty(), class, many)

	kit.Journal(desc)
	kit.Guard(desc, func() {
		segs, spacers := l.SplitWithSpacers(area)
		if len(segs) != len(l.Constraints) || len(spacers) != len(l.Constraints)+1 {
			t.Fatalf("%s: %d segments and %d spacers", desc, len(segs), len(spacers))
		}
		whole := measure(inner, l.Direction)
		for i, r := range append(append([]bento.Rect{}, segs...), spacers...) {
			e := measure(r, l.Direction)
			if r.Width < 0 || r.Height < 0 {
				t.Fatalf("%s: negative size of %v (#%d)", desc, r, i)
			}
			if e.crossStart != whole.crossStart || e.crossEnd != whole.crossEnd {
				t.Fatalf("%s: %v does not span %v across", desc, r, inner)
			}
			if i >= len(segs) && overlap {
				continue
			}
			if e.start < whole.start || e.end > whole.end {
				t.Fatalf("%s: %v (#%d) leaves %v; segments %v spacers %v", desc, r, i, inner, segs, spacers)
			}
		}
		if overlap {
			return
		}
		at := whole.start
		for i, r := range spacers {
			e := measure(r, l.Direction)
			if e.start != at {
				t.Fatalf("%s: spacer %d starts at %d, want %d; segments %v spacers %v", desc, i, e.start, at, segs, spacers)
			}
			at = e.end
			if i == len(segs) {
				break
			}
			e = measure(segs[i], l.Direction)
			if e.start != at {
				t.Fatalf("%s: segment %d starts at %d, want %d; segments %v spacers %v", desc, i, e.start, at, segs, spacers)
			}
			at = e.end
		}
		if at != whole.end {
			t.Fatalf("%s: the last one ends at %d, want %d; segments %v spacers %v", desc, at, whole.end, segs, spacers)
		}

		// helpers hand out the segments by position
		var got [4]bento.Rect
		switch {
		case len(segs) >= 4:
			got[0], got[1], got[2], got[3] = segs.Unwrap4()
			fallthrough
		case len(segs) == 3:
			a, b, c := segs.Unwrap3()
			if a != segs[0] || b != segs[1] || c != segs[2] {
				t.Fatalf("Unwrap3 gives %v %v %v of %v", a, b, c, segs)
			}
			fallthrough
		case len(segs) == 2:
			a, b := segs.Unwrap2()
			if a != segs[0] || b != segs[1] {
				t.Fatalf("Unwrap2 gives %v %v of %v", a, b, segs)
			}
			fallthrough
		case len(segs) == 1:
			if segs.Unwrap() != segs[0] {
				t.Fatalf("Unwrap gives %v of %v", segs.Unwrap(), segs)
			}
		}
		if len(segs) >= 4 && got != [4]bento.Rect(segs[:4]) {
			t.Fatalf("Unwrap4 gives %v of %v", got, segs)
		}
		out := make([]bento.Rect, len(segs))
		ptrs := make([]*bento.Rect, len(segs))
		for i := range out {
			if i%3 != 1 {
				ptrs[i] = &out[i]
			}
		}
		segs.Assign(ptrs...)
		for i := range out {
			if ptrs[i] != nil && out[i] != segs[i] {
				t.Fatalf("Assign gives %v of %v", out, segs)
			}
		}
	})
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
