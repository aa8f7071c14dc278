// C31: a widget draws the same wherever and however often it is drawn.
package c31

import (
	"fmt"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/verif/kit/wid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	wid.Pure = true
	txt.Keeping = true
	kit.Main(m)
}

// ground is what a widget is drawn onto, by position in its area.
type ground struct {
	blank bool
	style bento.Style
}

func (g ground) paint(buf *bento.Buffer, area bento.Rect) {
	if g.blank {
		return
	}
	for y := 0; y < area.Height; y++ {
		for x := 0; x < area.Width; x++ {
			buf.CellAt(bento.NewPosition(area.X+x, area.Y+y)).SetSymbol([]string{"q", "é", "."}[(x+2*y)%3]).SetStyle(g.style)
		}
	}
}

// onto draws the widget into the area of a buffer and returns the area's cells.
func onto(w wid.Widget, g ground, at, area bento.Rect) [][]bento.Cell {
	buf := bento.NewBufferEmpty(at)
	g.paint(&buf, area)
	w.Draw(area, &buf)
	var out [][]bento.Cell
	for y := area.Top(); y < area.Bottom(); y++ {
		var row []bento.Cell
		for x := area.Left(); x < area.Right(); x++ {
			row = append(row, *buf.CellAt(bento.NewPosition(x, y)))
		}
		out = append(out, row)
	}
	return out
}

func differ(a, b [][]bento.Cell) string {
	for y := range a {
		for x := range a[y] {
			if a[y][x] != b[y][x] {
				return fmt.Sprintf("column %d of row %d is %+v, was %+v", x, y, b[y][x], a[y][x])
			}
		}
	}
	return ""
}

func dump(g [][]bento.Cell) (out string) {
	for _, row := range g {
		out += "|"
		for x := 0; x < len(row); x++ {
			out += row[x].Symbol
			if kit.Width(row[x].Symbol) == 2 {
				x++
			}
		}
		out += "|\n"
	}
	return
}

// TestProperty: draws of one widget into areas of one size (and others in between).
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		txt.Forget()
		size := bento.NewRect(kit.UpTo(36).Draw(t, "w"), kit.UpTo(12).Draw(t, "h"))
		g := ground{rapid.Bool().Draw(t, "blank"), kit.Style().Draw(t, "ground")}
		kind := rapid.SampledFrom(wid.Kinds).Draw(t, "kind")
		w := wid.Any(t, kind, 2)
		type draw struct{ at, area bento.Rect }
		var draws []draw
		moved, others := false, 0
		for i, n := 0, rapid.IntRange(2, 5).Draw(t, "draws"); i < n; i++ {
			a := size
			if i > 0 && i < n-1 && rapid.IntRange(0, 2).Draw(t, "other size") == 0 {
				a = bento.NewRect(rapid.IntRange(0, 36).Draw(t, "ow"), rapid.IntRange(0, 12).Draw(t, "oh"))
				others++
			}
			// the place of the buffer, and that of the area in it
			bx, by := rapid.IntRange(0, 9).Draw(t, "bx"), rapid.IntRange(0, 9).Draw(t, "by")
			dx, dy := rapid.IntRange(0, 5).Draw(t, "dx"), rapid.IntRange(0, 5).Draw(t, "dy")
			rx, ry := rapid.IntRange(0, 5).Draw(t, "rx"), rapid.IntRange(0, 5).Draw(t, "ry")
			a = a.Positioned(bx+dx, by+dy)
			at := bento.NewRect(a.Width+dx+rx, a.Height+dy+ry).Positioned(bx, by)
			draws = append(draws, draw{at, a})
			moved = moved || a.Position != draws[0].area.Position
		}
		// Another widget, drawn in between.
		var between *wid.Widget
		if rapid.IntRange(0, 3).Draw(t, "between") == 3 {
			b := wid.Any(t, rapid.SampledFrom(wid.Kinds).Draw(t, "kind between"), 1)
			between = &b
		}
		desc := fmt.Sprintf("%v on %+v: %s", draws, g, w.Desc)
		if between != nil {
			desc += " with between " + between.Desc
		}
		kit.Case(desc, !size.IsEmpty() && moved, w.Kind, kit.Cls(others > 0, "other sizes between"))
		var first [][]bento.Cell
		for i, d := range draws {
			var got [][]bento.Cell
			kit.Guard(desc, func() { got = onto(w, g, d.at, d.area) })
			if i == 0 {
				first = got
			} else if d.area.Width == size.Width && d.area.Height == size.Height {
				if s := differ(first, got); s != "" {
					t.Fatalf("draw %d: %s\n%s\n%s\n%s", i+1, s, desc, dump(first), dump(got))
				}
			}
			if between != nil {
				kit.Guard(desc, func() { onto(*between, g, d.at, d.area) })
			}
			if s := txt.Changed(); s != "" {
				t.Fatalf("draw %d changed the content: %s\n%s", i+1, s, desc)
			}
		}
	})
}
