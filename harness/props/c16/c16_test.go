// C16: scrollbars.
package c16

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/symbol"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/widget/scrollwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

var orientations = []scrollwidget.Orientation{
	scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft,
	scrollwidget.OrientationHorizontalBottom, scrollwidget.OrientationHorizontalTop,
}

// bar lists the cells of the edge in order.
func bar(o scrollwidget.Orientation, a bento.Rect) []bento.Position {
	var ps []bento.Position
	if a.IsEmpty() {
		return nil
	}
	switch o {
	case scrollwidget.OrientationVerticalLeft, scrollwidget.OrientationVerticalRight:
		x := a.Left()
		if o == scrollwidget.OrientationVerticalRight {
			x = a.Right() - 1
		}
		for y := a.Top(); y < a.Bottom(); y++ {
			ps = append(ps, bento.NewPosition(x, y))
		}
	default:
		y := a.Top()
		if o == scrollwidget.OrientationHorizontalBottom {
			y = a.Bottom() - 1
		}
		for x := a.Left(); x < a.Right(); x++ {
			ps = append(ps, bento.NewPosition(x, y))
		}
	}
	return ps
}

type scene struct {
	o        scrollwidget.Orientation
	area     bento.Rect
	content  int
	viewport int
	desc     string
}

const untouched = "q"

// render draws the bar and returns where the thumb starts and ends and how
// long the track is (0 when nothing was drawn).
func (s *scene) render(t *rapid.T, state scrollwidget.State) (from, to, track int) {
	buf := bento.NewBufferFilled(bento.NewRect(s.area.Right()+1, s.area.Bottom()+1), bento.NewCell(untouched))
	kit.Guard(s.desc, func() { scrollwidget.New(s.o).RenderStateful(s.area, &buf, state) })
	fail := func(format string, args ...any) {
		t.Helper()
		t.Fatalf("%s: position %d, %s\n%s", fmt.Sprintf(format, args...), state.Position(), s.desc, kit.Dump(&buf))
	}

	cells := bar(s.o, s.area)
	on := map[bento.Position]bool{}
	for _, p := range cells {
		on[p] = true
	}
	var sb strings.Builder
	for y := 0; y < buf.Area().Height; y++ {
		for x := 0; x < buf.Area().Width; x++ {
			p := bento.NewPosition(x, y)
			if !on[p] && *buf.CellAt(p) != bento.NewCell(untouched) {
				fail("(%d,%d), not on the edge, shows %q", x, y, buf.CellAt(p).Symbol)
			}
		}
	}
	for _, p := range cells {
		sb.WriteString(buf.CellAt(p).Symbol)
	}
	got := sb.String()

	begin, end, line := "", "", symbol.LineDoubleHorizontal
	if s.o.IsVertical() {
		begin, end, line = symbol.ArrowUp, symbol.ArrowDown, symbol.LineDoubleVertical
	}
	track = len(cells) - kit.Width(begin) - kit.Width(end)
	if track <= 0 || s.content == 0 {
		if strings.Trim(got, untouched) != "" {
			fail("no room or no content, but the bar shows %q", got)
		}
		return 0, 0, 0
	}
	if !strings.HasPrefix(got, begin) || !strings.HasSuffix(got, end) {
		fail("the ends of %q are not %q and %q", got, begin, end)
	}
	middle := kit.Clusters(strings.TrimSuffix(strings.TrimPrefix(got, begin), end))
	if len(middle) != track {
		fail("%q has %d cells for track and thumb, want %d", got, len(middle), track)
	}
	from, to = -1, -1
	for i, c := range middle {
		switch c {
		case symbol.BlockFull:
			if from < 0 {
				from = i
			} else if to != i {
				fail("%q has two thumbs", got)
			}
			to = i + 1
		case line:
		default:
			fail("%q holds %q", got, c)
		}
	}
	if from < 0 {
		fail("%q has no thumb", got)
	}

	// Proportions.
	viewport := s.viewport
	if viewport == 0 {
		viewport = len(cells)
	}
	last := s.content - 1
	pos := min(max(0, state.Position()), last)
	all := float64(last) + float64(viewport)
	exactFrom, exactTo := float64(pos)*float64(track)/all, (float64(pos)+float64(viewport))*float64(track)/all
	const eps = 1e-6
	if d := math.Abs(float64(from) - exactFrom); d > 0.5+eps && from != track-1 {
		fail("%q starts at %d, exactly it is %.3f", got, from, exactFrom)
	}
	if d := math.Abs(float64(to) - exactTo); d > 0.5+eps && to-from > 1 {
		fail("%q ends at %d, exactly it is %.3f", got, to, exactTo)
	}
	if l := float64(to - from); math.Abs(l-(exactTo-exactFrom)) > 1+eps {
		fail("the thumb of %q is %v long, exactly it is %.3f", got, l, exactTo-exactFrom)
	}
	if pos == 0 && from != 0 {
		fail("%q does not start at the start", got)
	}
	if pos == last && to != track {
		fail("%q does not end at the end", got)
	}
	return from, to, track
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		s := &scene{o: rapid.SampledFrom(orientations).Draw(t, "orientation")}
		s.area = bento.NewRect(kit.UpTo(25).Draw(t, "w"), kit.UpTo(25).Draw(t, "h")).Positioned(rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 2).Draw(t, "y"))
		s.content = rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 300), rapid.IntRange(1000, 2_000_000), rapid.IntRange(1, math.MaxInt), rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, 1 << 62, 1<<31 - 1})).Draw(t, "content")
		state := scrollwidget.NewState(s.content)
		var log []string
		note := func(format string, args ...any) {
			log = append(log, fmt.Sprintf(format, args...))
			s.desc = fmt.Sprintf("orientation=%d area=%v content=%d viewport=%d: %s", s.o, s.area, s.content, s.viewport, strings.Join(log, " "))
		}
		note("start")
		if rapid.Bool().Draw(t, "hasViewport") {
			s.viewport = rapid.IntRange(0, 60).Draw(t, "viewport")
			if s.content >= 1000 {
				s.viewport *= rapid.IntRange(1, 10000).Draw(t, "factor")
				if rapid.IntRange(0, 9).Draw(t, "huge") == 7 {
					s.viewport = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 3, 1 << 62, 1 << 40}).Draw(t, "hugeViewport")
				}
			}
			state.SetViewportContentLen(s.viewport)
		}
		last := max(0, s.content-1)
		pos := 0
		lastPos, lastFrom := 0, 0
		drawn := 0
		first := true
		for i, n := 0, kit.AtLeast(1, 10).Draw(t, "ops"); i < n; i++ {
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0:
				k := kit.AtLeast(1, 12).Draw(t, "times")
				note("next*%d", k)
				for j := 0; j < k; j++ {
					if rapid.Bool().Draw(t, "byScroll") {
						state.Scroll(scrollwidget.DirectionForward)
					} else {
						state.Next()
					}
					pos = min(min(pos, last-1)+1, last)
				}
			case 1:
				k := kit.AtLeast(1, 12).Draw(t, "times")
				note("prev*%d", k)
				for j := 0; j < k; j++ {
					if rapid.Bool().Draw(t, "byScroll") {
						state.Scroll(scrollwidget.DirectionBackward)
					} else {
						state.Prev()
					}
					pos = max(pos-1, 0)
				}
			case 2:
				note("first")
				state.First()
				pos = 0
			case 3:
				note("last")
				state.Last()
				pos = last
			default:
				pos = rapid.OneOf(rapid.IntRange(0, last), rapid.SampledFrom([]int{last, max(0, last-1)})).Draw(t, "position")
				switch rapid.IntRange(0, 9).Draw(t, "beyond") {
				case 5:
					pos = rapid.IntRange(last, last+min(9, math.MaxInt-last)).Draw(t, "past")
				case 7:
					pos = math.MaxInt
				}
				note("position=%d", pos)
				state.SetPosition(pos)
				if rapid.IntRange(0, 9).Draw(t, "before") == 5 {
					// drawn as the first one; a step back goes there
					neg := rapid.OneOf(rapid.IntRange(-9, -1), rapid.Just(math.MinInt)).Draw(t, "negative")
					note("position=%d", neg)
					state.SetPosition(neg)
					s.render(t, state)
					note("prev")
					state.Prev()
					pos = 0
				}
			}
			if got := state.Position(); got != pos {
				t.Fatalf("position is %d, want %d: %s", got, pos, s.desc)
			}
			if s.content > 0 {
				if r := state.Ratio(); math.Abs(r-float64(pos)/float64(s.content)) > 1e-9 {
					t.Fatalf("ratio is %v at position %d: %s", r, pos, s.desc)
				}
			}
			from, _, track := s.render(t, state)
			if track == 0 {
				continue
			}
			drawn++
			if p := min(pos, last); !first && ((p >= lastPos && from < lastFrom) || (p <= lastPos && from > lastFrom)) {
				t.Fatalf("the thumb went from %d to %d while the position went from %d to %d: %s", lastFrom, from, lastPos, p, s.desc)
			}
			first, lastPos, lastFrom = false, min(pos, last), from
		}

		// What is left beside the bar.
		inner := scrollwidget.New(s.o).Inner(s.area)
		edge := map[bento.Position]bool{}
		for _, p := range bar(s.o, s.area) {
			edge[p] = true
		}
		for y := s.area.Top() - 1; y <= s.area.Bottom(); y++ {
			for x := s.area.Left() - 1; x <= s.area.Right(); x++ {
				p := bento.NewPosition(x, y)
				if want := s.area.Contains(p) && !edge[p]; inner.Contains(p) != want {
					t.Fatalf("inner area %v contains (%d,%d): %v, want %v: %s", inner, x, y, !want, want, s.desc)
				}
			}
		}
		kit.Case(s.desc, drawn > 1, kit.Cls(s.viewport > 0, "explicit viewport"), kit.Cls(s.o.IsVertical(), "vertical"))
	})
}
