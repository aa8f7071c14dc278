// C03: strings written to a buffer.
package c03

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

func str() *rapid.Generator[string] {
	return rapid.OneOf(
		kit.Printable(12), kit.Messy(12), kit.Messy(12),
		// anything at all, mostly valid
		rapid.StringN(0, 12, -1),
		rapid.Custom(func(t *rapid.T) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{
				"\u0301", "a", "世", "\r\n", "\n", "\u200d", "🇺", "🇦", "👍", "🏽", "\ufe0f", "☺", "각", "ᄀ", "ᅡ", "\u00ad", "\xff", "เ", "ก", "ำ",
			}), 0, 10).Draw(t, "parts"), "")
		}),
	)
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		area := bento.NewRect(kit.UpTo(10).Draw(t, "w"), rapid.IntRange(1, 3).Draw(t, "h")).
			Positioned(rapid.IntRange(0, 5).Draw(t, "ax"), rapid.IntRange(0, 5).Draw(t, "ay"))
		buf := bento.NewBufferEmpty(area)
		if rapid.Bool().Draw(t, "dirty") {
			kit.FillWellFormed(t, &buf, 60)
		}
		want := kit.Grid(&buf)

		s := str().Draw(t, "string")
		x := rapid.IntRange(area.Left(), area.Right()+2).Draw(t, "x")
		y := rapid.IntRange(area.Top(), area.Bottom()-1).Draw(t, "y")
		style := kit.Style().Draw(t, "style")
		unlimited := rapid.Bool().Draw(t, "unlimited")
		budget := math.MaxInt
		if !unlimited {
			budget = kit.AtLeast(-1, 12).Draw(t, "budget")
		}

		// Reference.
		room := min(budget, max(0, area.Right()-x))
		cx, used, stopped, skipped := x, 0, false, 0
		for _, c := range kit.Clusters(s) {
			w := kit.Width(c)
			if w == 0 {
				skipped++
				continue
			}
			if used+w > room {
				stopped = true
				break
			}
			cell := &want[y-area.Y][cx-area.X]
			cell.SetSymbol(c).SetStyle(style)
			for i := 1; i < w; i++ {
				want[y-area.Y][cx+i-area.X] = bento.NewEmptyCell()
			}
			cx += w
			used += w
		}

		desc := fmt.Sprintf("area=%v at=(%d,%d) budget=%d unlimited=%v string=%q", area, x, y, budget, unlimited, s)
		kit.Guard(desc, func() {
			if unlimited && rapid.Bool().Draw(t, "short") {
				buf.SetString(x, y, s, style)
				return
			}
			gx, gy := buf.SetStringN(x, y, s, budget, style)
			if gx != cx || gy != y {
				t.Fatalf("returned (%d,%d), the position after the last cell written is (%d,%d); %s", gx, gy, cx, y, desc)
			}
		})
		got := kit.Grid(&buf)
		for r := range want {
			for c := range want[r] {
				if want[r][c] != got[r][c] {
					t.Fatalf("cell (%d,%d) is %+v, want %+v; %s", area.X+c, area.Y+r, got[r][c], want[r][c], desc)
				}
			}
		}
		kit.Case(desc, used > 0, kit.Cls(stopped, "cut"), kit.Cls(skipped > 0, "skipped clusters"),
			kit.Cls(stopped && used < room, "wide cluster at the edge"), kit.Cls(!unlimited && budget < area.Right()-x, "budget limits"))
	})
}
