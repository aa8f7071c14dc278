// C10: widgets render into any area without panic and never outside of it.
package c10

import (
	"fmt"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/wid"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// surround fills a buffer with one-column symbols in the area and next to it,
// with symbols of any width elsewhere. Some of the area may be blank.
func surround(t *rapid.T, buf *bento.Buffer, area bento.Rect) {
	style := kit.Style().Draw(t, "old style")
	wide, blank := rapid.Bool().Draw(t, "wide"), rapid.Bool().Draw(t, "blank")
	for y := buf.Area().Top(); y < buf.Area().Bottom(); y++ {
		for x := buf.Area().Left(); x < buf.Area().Right(); x++ {
			p := bento.NewPosition(x, y)
			c := buf.CellAt(p)
			switch q := bento.NewPosition(x+1, y); {
			case area.Contains(p):
				if !blank {
					c.SetSymbol([]string{"q", "é", "."}[(x+2*y)%3]).SetStyle(style)
				}
			case wide && x+1 < buf.Area().Right() && !area.Contains(q):
				c.SetSymbol("界").SetStyle(style)
				buf.CellAt(q).SetStyle(style)
				x++
			default:
				c.SetSymbol("q").SetStyle(style)
			}
		}
	}
}

// TestProperty: a widget of any kind in an area inside of a buffer.
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		at := bento.NewRect(kit.UpTo(36).Draw(t, "w"), kit.UpTo(12).Draw(t, "h")).
			Positioned(rapid.IntRange(0, 4).Draw(t, "x"), rapid.IntRange(0, 4).Draw(t, "y"))
		area := kit.Sub(at).Draw(t, "area")
		if rapid.IntRange(0, 2).Draw(t, "tiny") == 0 {
			area.Width, area.Height = min(area.Width, rapid.IntRange(0, 4).Draw(t, "tw")), min(area.Height, rapid.IntRange(0, 3).Draw(t, "th"))
		}
		buf := bento.NewBufferEmpty(at)
		surround(t, &buf, area)
		w := wid.Any(t, rapid.SampledFrom(wid.Kinds).Draw(t, "kind"), 2)
		beyond := w.Clips && rapid.IntRange(0, 5).Draw(t, "beyond") == 0
		if beyond {
			area = bento.NewRect(rapid.IntRange(0, 50).Draw(t, "bw"), rapid.IntRange(0, 20).Draw(t, "bh")).
				Positioned(rapid.IntRange(0, 50).Draw(t, "bx"), rapid.IntRange(0, 20).Draw(t, "by"))
			buf = bento.NewBufferEmpty(at)
			surround(t, &buf, area.Intersection(at))
		}
		renders := rapid.IntRange(1, 2).Draw(t, "renders")
		before := kit.Grid(&buf)
		desc := fmt.Sprintf("%v of %v: %s", area, at, w.Desc)
		kit.Case(desc, !area.IsEmpty() && area != at, w.Kind, kit.Cls(area.IsEmpty(), "empty"), kit.Cls(area == at, "whole buffer"), kit.Cls(beyond, "beyond the buffer"))
		kit.Guard(desc, func() {
			for range renders {
				w.Draw(area, &buf)
			}
		})
		for y, row := range before {
			for x, c := range row {
				p := bento.NewPosition(at.X+x, at.Y+y)
				if now := *buf.CellAt(p); !area.Contains(p) && now != c {
					t.Fatalf("(%d,%d), outside of the area, changed from %+v to %+v\n%s\n%s", p.X, p.Y, c, now, desc, kit.Dump(&buf))
				}
			}
		}
		if buf.Area() != at {
			t.Fatalf("the buffer's area is %v now\n%s", buf.Area(), desc)
		}
		// Text clears the column a wide symbol covers, whatever was there.
		if w.Kind == "text" || w.Kind == "line" || w.Kind == "span" {
			if err := kit.CheckWellFormed(&buf); err != nil {
				t.Fatalf("%v\n%s\n%s", err, desc, kit.Dump(&buf))
			}
		}
		for y := at.Top(); y < at.Bottom(); y++ {
			for x := at.Left(); x < at.Right(); x++ {
				s := buf.CellAt(bento.NewPosition(x, y)).Symbol
				if kit.Width(s) < 1 || kit.Width(s) > 2 {
					t.Fatalf("cell (%d,%d) holds %q\n%s", x, y, s, desc)
				}
				// A wide symbol in the last column of the area covers a column next to it.
				if p := bento.NewPosition(x+1, y); kit.Width(s) == 2 && area.Contains(bento.NewPosition(x, y)) && !area.Contains(p) {
					t.Fatalf("wide symbol %q in the last column of the area, at (%d,%d)\n%s\n%s", s, x, y, desc, kit.Dump(&buf))
				}
			}
		}
	})
}
