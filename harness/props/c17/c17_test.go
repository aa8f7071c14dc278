// C17: gauges.
package c17

import (
	"fmt"
	"math"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const untouched = "q"

var eighths = map[string]int{
	untouched: 0, " ": 0,
	"▏": 1, "▎": 2, "▍": 3, "▌": 4, "▋": 5, "▊": 6, "▉": 7, "█": 8,
}

func ratio() *rapid.Generator[float64] {
	return rapid.OneOf(
		rapid.Float64Range(0, 1),
		rapid.Custom(func(t *rapid.T) float64 {
			d := rapid.IntRange(1, 240).Draw(t, "denominator")
			return float64(rapid.IntRange(0, d).Draw(t, "numerator")) / float64(d)
		}),
		rapid.SampledFrom([]float64{0, 1, 0.5, math.SmallestNonzeroFloat64, math.Nextafter(1, 0), 0.995, 0.005, 0.999}),
	)
}

type scene struct {
	area    bento.Rect
	unicode bool
	style   bento.Style
	gauge   bento.Style
	label   *textwidget.Span
	percent *int
}

func (s *scene) describe(r float64) string {
	l := "-"
	if s.label != nil {
		l = fmt.Sprintf("%q{%s}", s.label.Content, txt.Sty(s.label.Style))
	}
	return fmt.Sprintf("area=%v unicode=%v ratio=%v style=%s gauge=%s label=%s", s.area, s.unicode, r, txt.Sty(s.style), txt.Sty(s.gauge), l)
}

// render draws the gauge and returns its fill in eighths of a cell.
func (s *scene) render(t *rapid.T, r float64, percent bool) int {
	desc := s.describe(r)
	g := gaugewidget.New().WithStyle(s.style).WithGaugeStyle(s.gauge).WithUnicode(s.unicode)
	if percent {
		g = g.WithPercent(int(math.Round(r * 100)))
		desc += " (as percentage)"
	} else {
		g = g.WithRatio(r)
	}
	if s.label != nil {
		if s.label.Style == bento.NewStyle() {
			g = g.WithLabelStr(s.label.Content)
		} else {
			g = g.WithLabel(*s.label)
		}
	}
	buf := bento.NewBufferFilled(bento.NewRect(s.area.Right()+1, s.area.Bottom()+1), bento.NewCell(untouched))
	kit.Rehearse(t, desc, g.Render)
	kit.Guard(desc, func() { g.Render(s.area, &buf) })
	fail := func(format string, args ...any) {
		t.Helper()
		t.Fatalf("%s: %s\n%s", fmt.Sprintf(format, args...), desc, kit.Dump(&buf))
	}
	for y := 0; y < buf.Area().Height; y++ {
		for x := 0; x < buf.Area().Width; x++ {
			if p := bento.NewPosition(x, y); !s.area.Contains(p) && *buf.CellAt(p) != bento.NewCell(untouched) {
				fail("(%d,%d) outside of the area changed", x, y)
			}
		}
	}
	if s.area.IsEmpty() {
		return -1
	}

	// The label: centred in both directions to within half a cell.
	w := s.area.Width
	labels := [][]string{}
	if s.label != nil {
		labels = append(labels, kit.Clusters(txt.Visible(s.label.Content)))
	} else {
		p := int(math.Floor(r * 100))
		for _, n := range []int{p, p + 1} {
			if math.Abs(float64(n)-r*100) <= 0.5+1e-9 {
				labels = append(labels, kit.Clusters(fmt.Sprintf("%d%%", n)))
			}
		}
	}
	base := txt.Styled(bento.NewCell(untouched), s.style, s.gauge)
	labelStyle := bento.NewStyle()
	if s.label != nil {
		labelStyle = s.label.Style
	}
	var label map[bento.Position]bool
	var problem error
	for _, cs := range labels {
		lw := 0
		for _, c := range cs {
			lw += kit.Width(c)
		}
		lw = min(lw, w)
		var rows, cols []int
		for y := (s.area.Height - 1) / 2; y <= s.area.Height/2; y++ {
			rows = append(rows, s.area.Y+y)
		}
		for x := (w - lw) / 2; x <= (w-lw+1)/2; x++ {
			cols = append(cols, s.area.X+x)
		}
		for _, y := range rows {
			for _, x0 := range cols {
				at := map[bento.Position]bool{}
				for x := x0; x < x0+lw; x++ {
					at[bento.NewPosition(x, y)] = true
				}
				problem = func() error {
					x := x0
					for _, c := range cs {
						cw := kit.Width(c)
						if x+cw > x0+lw {
							break
						}
						cell := *buf.CellAt(bento.NewPosition(x, y))
						if cell.Symbol != c {
							return fmt.Errorf("column %d of row %d shows %q, want %q of the label", x, y, cell.Symbol, c)
						}
						if labelStyle.Foreground.IsSet() && cell.Fg != labelStyle.Foreground.Color() {
							return fmt.Errorf("label cell (%d,%d) has foreground %v", x, y, cell.Fg)
						}
						if labelStyle.Background.IsSet() && cell.Bg != labelStyle.Background.Color() {
							return fmt.Errorf("label cell (%d,%d) has background %v", x, y, cell.Bg)
						}
						x += cw
					}
					return nil
				}()
				if problem == nil {
					// more than one place if nothing of it is visible
					if label == nil {
						label = map[bento.Position]bool{}
					}
					for p := range at {
						label[p] = true
					}
				}
			}
		}
	}
	if label == nil {
		fail("label: %v", problem)
	}

	// The fill, alike in all rows but for the label.
	fill := -1
	exact := float64(w) * r
	for y := s.area.Top(); y < s.area.Bottom(); y++ {
		row, gap, known := 0, false, true
		for x := s.area.Left(); x < s.area.Right(); x++ {
			p := bento.NewPosition(x, y)
			cell := *buf.CellAt(p)
			if label[p] {
				known = false // cannot tell how much of this cell is filled
				continue
			}
			e, ok := eighths[cell.Symbol]
			if !ok {
				fail("(%d,%d) shows %q", x, y, cell.Symbol)
			}
			if e > 0 && e < 8 && !s.unicode {
				fail("a part of a cell at (%d,%d) without unicode", x, y)
			}
			if gap && e > 0 {
				fail("row %d is filled behind a gap at column %d", y, x)
			}
			if e < 8 {
				if !gap && known {
					row = (x-s.area.X)*8 + e
				} else if !gap {
					// the boundary is below the label or here
					row = -1
					if e > 0 {
						row = (x-s.area.X)*8 + e
					}
				}
				gap = true
			} else {
				row = (x - s.area.X + 1) * 8
				known = true
			}
			if e > 0 {
				if s.gauge.Foreground.IsSet() && cell.Fg != s.gauge.Foreground.Color() {
					fail("filled cell (%d,%d) has foreground %v", x, y, cell.Fg)
				}
				if s.gauge.Background.IsSet() && cell.Bg != s.gauge.Background.Color() {
					fail("filled cell (%d,%d) has background %v", x, y, cell.Bg)
				}
			} else {
				want := base
				want.Symbol = cell.Symbol
				if cell != want {
					fail("empty cell (%d,%d) is %+v, want %+v", x, y, cell, want)
				}
			}
		}
		if !gap && !known {
			row = -1
		}
		if row < 0 {
			continue // ends below the label
		}
		if fill >= 0 && row != fill {
			fail("row %d is filled for %d eighths, another one for %d", y, row, fill)
		}
		fill = row
	}
	if fill >= 0 {
		limit := 1.0
		if s.unicode {
			limit = 1.0 / 8
		}
		if d := math.Abs(float64(fill)/8 - exact); d >= limit {
			fail("%v cells are filled, exactly it is %v", float64(fill)/8, exact)
		}
		if r == 0 && fill != 0 {
			fail("a ratio of 0 fills %v cells", float64(fill)/8)
		}
		if r == 1 && fill != 8*w {
			fail("a ratio of 1 fills %v of %d cells", float64(fill)/8, w)
		}
	}
	return fill
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		s := &scene{unicode: rapid.Bool().Draw(t, "unicode"), style: txt.MaybeStyle().Draw(t, "style"), gauge: txt.MaybeStyle().Draw(t, "gauge")}
		s.area = bento.NewRect(kit.UpTo(40).Draw(t, "w"), kit.UpTo(9).Draw(t, "h")).Positioned(rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 2).Draw(t, "y"))
		if rapid.IntRange(0, 2).Draw(t, "labelled") == 1 {
			// no fill symbols in labels
			content := rapid.SampledFrom([]string{"", "x", "label", "世界", "a longer label", "é 世", "3/4"}).Draw(t, "label")
			l := textwidget.NewSpan(content).WithStyle(txt.MaybeStyle().Draw(t, "labelStyle"))
			s.label = &l
		}
		a, b := ratio().Draw(t, "ratio"), ratio().Draw(t, "other")
		percent := rapid.IntRange(0, 3).Draw(t, "percent") == 2
		if percent {
			a, b = math.Round(a*100)/100, math.Round(b*100)/100
		}
		if a > b {
			a, b = b, a
		}
		fa, fb := s.render(t, a, percent), s.render(t, b, percent)
		if fa >= 0 && fb >= 0 && fa > fb {
			t.Fatalf("%s is filled for %d eighths, but ratio %v for %d", s.describe(a), fa, b, fb)
		}
		kit.Case(fmt.Sprintf("%s and ratio=%v percent=%v", s.describe(a), b, percent), !s.area.IsEmpty() && a < b, kit.Cls(s.unicode, "unicode"), kit.Cls(s.area.Height == 1, "label in the only row"))
	})
}

// Ratios and percentages out of range are rejected, others never.
func TestRange(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		r := rapid.OneOf(rapid.Float64(), rapid.Float64Range(-2, 3), ratio(),
			rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Nextafter(1, 2), -math.SmallestNonzeroFloat64, 1.0001, -0.0001, math.MaxFloat64})).Draw(t, "ratio")
		p := rapid.OneOf(rapid.Int(), rapid.IntRange(-150, 250), rapid.SampledFrom([]int{-1, 0, 100, 101, math.MaxInt, math.MinInt})).Draw(t, "percent")
		panics := func(f func()) (yes bool) {
			defer func() { yes = recover() != nil }()
			f()
			return false
		}
		if got, want := panics(func() { gaugewidget.New().WithRatio(r) }), !(0 <= r && r <= 1); got != want {
			t.Fatalf("ratio %v rejected: %v, want %v", r, got, want)
		}
		if got, want := panics(func() { gaugewidget.New().WithPercent(p) }), p < 0 || p > 100; got != want {
			t.Fatalf("percentage %v rejected: %v, want %v", p, got, want)
		}
		kit.Case(fmt.Sprintf("ratio %v percentage %d", r, p), true, kit.Cls(!(0 <= r && r <= 1), "bad ratio"), kit.Cls(p < 0 || p > 100, "bad percentage"))
	})
}
