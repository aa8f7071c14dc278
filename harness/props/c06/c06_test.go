// C06: segment sizes are an optimal compromise between the constraints.
package c06

import (
	"fmt"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"github.com/metafates/bento/verif/kit/layref"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

func optimal(t *rapid.T) {
	n := rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 7)).Draw(t, "n")
	cs := make([]bento.Constraint, n)
	for i := range cs {
		cs[i] = lay.Constraint().Draw(t, "constraint")
	}
	size := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 40), rapid.IntRange(0, 200)).Draw(t, "size")
	l := bento.NewLayout(cs...).
		WithFlex(rapid.SampledFrom(lay.Flexes).Draw(t, "flex")).
		WithSpacing(lay.Spacing(true).Draw(t, "spacing"))
	desc := fmt.Sprintf("%s size=%d", lay.Describe(l), size)
	kit.Journal(desc)
	kit.Case(desc, n > 1 && size > 0, lay.FlexName(l.Flex))

	kit.Guard(desc, func() {
		segs := l.Split(bento.NewRect(3, size))
		var at []int
		for _, s := range segs {
			at = append(at, s.Y, s.Y+s.Height)
		}
		m := layref.New(l, size)
		best, got := m.Whole(), m.Near(at)
		if best.Cmp(got) != 0 {
			t.Fatalf("%s: weighted violation of %v is at least %.3f, the least possible is %.3f", desc, segs, got.Float()/100, best.Float()/100)
		}
	})
}

func TestOptimal(t *testing.T) { rapid.Check(t, optimal) }

// room checks what users rely on wherever there is room, without any weights.
func room(t *rapid.T) {
	type wish struct {
		c      bento.Constraint
		lo, hi float64 // bounds of the size, in cells
		factor int     // of a fill
	}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	size := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 200)).Draw(t, "size")
	flex := rapid.SampledFrom(lay.Flexes).Draw(t, "flex")
	spacing := rapid.OneOf(rapid.Just(0), rapid.IntRange(0, 3)).Draw(t, "spacing")
	gaps := n - 1
	if flex == bento.FlexSpaceAround {
		gaps = n + 1
	}
	left := float64(size - spacing*gaps)
	if left < 0 {
		t.Skip("the spacing alone does not fit")
	}
	var wishes []wish
	take := func(need float64) bool {
		if need > left {
			return false
		}
		left -= need
		return true
	}
	fills, minimums := 0, 0
	for len(wishes) < n {
		size := float64(size)
		w := wish{hi: size}
		v := rapid.IntRange(0, 15).Draw(t, "v")
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			w.c, w.lo, w.hi = bento.ConstraintLen(v), float64(v), float64(v)
		case 1:
			w.c, w.lo = bento.ConstraintMin(v), float64(v)
			minimums++
		case 2:
			w.c, w.lo, w.hi = bento.ConstraintMax(v), float64(v), float64(v)
		case 3:
			exact := size * float64(v*4) / 100
			w.c, w.lo, w.hi = bento.ConstraintPercentage(v*4), exact, exact
		case 4:
			den := rapid.IntRange(1, 9).Draw(t, "den")
			exact := size * float64(v%4) / float64(den)
			w.c, w.lo, w.hi = bento.ConstraintRatio{Num: v % 4, Den: den}, exact, exact
		case 5:
			w.factor = 1 + v%9
			w.c = bento.ConstraintFill(w.factor)
			fills += w.factor
		}
		if !take(w.lo) {
			// instead something there is always room for
			if _, ok := w.c.(bento.ConstraintMin); ok {
				minimums--
			}
			w = wish{c: bento.ConstraintFill(1), hi: size, factor: 1}
			fills++
		}
		wishes = append(wishes, w)
	}
	// someone must be able to take what is left
	flexible := fills > 0 || flex == bento.FlexStart || flex == bento.FlexEnd || flex == bento.FlexCenter || flex == bento.FlexSpaceAround ||
		flex == bento.FlexSpaceBetween && n > 1 || flex != bento.FlexLegacy && minimums > 0
	if !flexible {
		t.Skip("nothing may take what is left")
	}
	cs := make([]bento.Constraint, n)
	for i, w := range wishes {
		cs[i] = w.c
	}
	l := bento.NewLayout(cs...).WithFlex(flex).WithSpacing(bento.SpacingSpace(spacing)).Horizontal()
	desc := fmt.Sprintf("%s size=%d", lay.Describe(l), size)
	kit.Case(desc, n > 1 && left > 0, "room", lay.FlexName(flex))
	kit.Guard(desc, func() {
		segs := l.Split(bento.NewRect(size, 2))
		for i, w := range wishes {
			got := float64(segs[i].Width)
			if got <= w.lo-1 || got >= w.hi+1 {
				t.Fatalf("%s: segment %d is %v wide, there is room for %v to %v; %v", desc, i, got, w.lo, w.hi, segs)
			}
			if w.lo == w.hi && w.lo == float64(int(w.lo)) && got != w.lo {
				// whole sizes may still begin between cells, but end so as well
				t.Fatalf("%s: segment %d is %v wide, not %v; %v", desc, i, got, w.lo, segs)
			}
			if flex != bento.FlexLegacy && minimums > 0 || w.factor == 0 || fills == 0 {
				continue
			}
			share := left * float64(w.factor) / float64(fills)
			if got <= share-1.05 || got >= share+1.05 {
				t.Fatalf("%s: fill %d is %v wide, its share is %.2f; %v", desc, i, got, share, segs)
			}
		}
	})
}

func TestRoom(t *testing.T) { rapid.Check(t, room) }
