// C02: the difference of two buffers is sound and minimal.
package c02

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

type shown struct {
	cell bento.Cell
	tail bool
	bad  bool
}

// screen is a model display: one cell per column, wide symbols covering two.
type screen struct {
	area  bento.Rect
	cells [][]shown
}

func show(b *bento.Buffer) *screen {
	s := &screen{area: b.Area()}
	for _, row := range kit.Grid(b) {
		r := make([]shown, len(row))
		for x := 0; x < len(row); {
			r[x] = shown{cell: row[x]}
			w := max(1, kit.Width(row[x].Symbol))
			for i := 1; i < w && x+i < len(row); i++ {
				r[x+i] = shown{tail: true}
			}
			x += w
		}
		s.cells = append(s.cells, r)
	}
	return s
}

func (s *screen) put(x, y int, c bento.Cell) {
	row := s.cells[y]
	w := max(1, kit.Width(c.Symbol))
	for i := x; i < x+w && i < len(row); i++ {
		if row[i].tail && i > 0 {
			row[i-1].bad = true
		}
		if i+1 < len(row) && row[i+1].tail && i+1 >= x+w {
			row[i+1] = shown{bad: true}
		}
	}
	row[x] = shown{cell: c}
	for i := x + 1; i < x+w && i < len(row); i++ {
		row[i] = shown{tail: true}
	}
}

var pool = []string{"a", "b", " ", " ", "世", "界", "😀", "é"}

func mutate(t *rapid.T, b *bento.Buffer, styles []bento.Style, writes int) {
	area := b.Area()
	if area.Width == 0 || area.Height == 0 {
		return
	}
	for i := 0; i < writes; i++ {
		x := rapid.IntRange(0, area.Width-1).Draw(t, "x")
		y := rapid.IntRange(0, area.Height-1).Draw(t, "y")
		at := func(x int) *bento.Cell { return b.CellAt(bento.NewPosition(area.X+x, area.Y+y)) }
		sym := rapid.SampledFrom(pool).Draw(t, "sym")
		if kit.Width(sym) == 2 && x+1 >= area.Width {
			sym = "z"
		}
		if x > 0 && kit.Width(at(x-1).Symbol) == 2 {
			at(x - 1).SetSymbol("q")
		}
		at(x).Reset()
		at(x).SetSymbol(sym).SetStyle(rapid.SampledFrom(styles).Draw(t, "style"))
		at(x).Skip = rapid.IntRange(0, 9).Draw(t, "skip") == 0
		if kit.Width(sym) == 2 {
			at(x + 1).Reset()
			at(x + 1).SetStyle(rapid.SampledFrom(styles).Draw(t, "tailStyle"))
		}
	}
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		area := bento.NewRect(kit.UpTo(9).Draw(t, "w"), kit.UpTo(3).Draw(t, "h")).
			Positioned(rapid.IntRange(0, 4).Draw(t, "ax"), rapid.IntRange(0, 4).Draw(t, "ay"))
		styles := []bento.Style{bento.NewStyle(), bento.NewStyle(), kit.Style().Draw(t, "s1"), kit.Style().Draw(t, "s2")}

		a := bento.NewBufferEmpty(area)
		mutate(t, &a, styles, kit.UpTo(12).Draw(t, "writesA"))
		// A shown screen holds no skip marks of its own.
		b := bento.NewBufferEmpty(area)
		if rapid.Bool().Draw(t, "derived") {
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					p := bento.NewPosition(x, y)
					*b.CellAt(p) = *a.CellAt(p)
				}
			}
			mutate(t, &b, styles, kit.UpTo(4).Draw(t, "changes"))
		} else {
			mutate(t, &b, styles, kit.UpTo(12).Draw(t, "writesB"))
		}
		ga, gb := kit.Grid(&a), kit.Grid(&b)

		var updates []bento.PositionedCell
		kit.Guard("diff", func() { updates = a.Diff(&b) })

		if fmt.Sprint(kit.Grid(&a)) != fmt.Sprint(ga) || fmt.Sprint(kit.Grid(&b)) != fmt.Sprint(gb) {
			t.Fatalf("computing the difference changed a buffer")
		}

		describe := func() string {
			return fmt.Sprintf("area %v\nA:\n%sB:\n%supdates: %v", area, dump(ga), dump(gb), updates)
		}

		// Exactly the expected cells.
		var want []bento.PositionedCell
		wide := false
		for y := range gb {
			for x := 0; x < len(gb[y]); x++ {
				tailOfB := x > 0 && kit.Width(gb[y][x-1].Symbol) == 2
				coveredInA := x > 0 && kit.Width(ga[y][x-1].Symbol) == 2
				wide = wide || tailOfB || coveredInA
				if gb[y][x].Skip || tailOfB {
					continue
				}
				if ga[y][x] != gb[y][x] || coveredInA {
					want = append(want, bento.PositionedCell{Cell: gb[y][x], Position: bento.NewPosition(area.X+x, area.Y+y)})
				}
			}
		}
		if len(want) != len(updates) {
			t.Fatalf("the difference lists %d cells, %d need an update\n%s\nwant %v", len(updates), len(want), describe(), want)
		}
		for i := range want {
			if want[i] != updates[i] {
				t.Fatalf("entry %d of the difference is %v, want %v\n%s", i, updates[i], want[i], describe())
			}
		}

		// And they turn one screen into the other.
		s := show(&a)
		for _, u := range updates {
			s.put(u.Position.X-area.X, u.Position.Y-area.Y, u.Cell)
		}
		goal := show(&b)
		for y := range goal.cells {
			for x, g := range goal.cells[y] {
				if g.cell.Skip || (g.tail && gb[y][x-1].Skip) {
					continue
				}
				got := s.cells[y][x]
				if g.tail {
					if !got.tail {
						t.Fatalf("column %d of row %d is not covered by the wide symbol\n%s", x, y, describe())
					}
					continue
				}
				ca, cb := got.cell, g.cell
				ca.Skip, cb.Skip = false, false
				if got.bad || got.tail || ca != cb {
					t.Fatalf("column %d of row %d shows %+v, want %+v\n%s", x, y, got, g, describe())
				}
			}
		}

		kit.Case(describe(), len(updates) > 0 && fmt.Sprint(ga) != fmt.Sprint(gb),
			kit.Cls(wide, "wide symbols"), kit.Cls(len(updates) == 0, "empty difference"))
	})
}

func dump(g [][]bento.Cell) string {
	var sb strings.Builder
	for _, row := range g {
		for _, c := range row {
			fmt.Fprintf(&sb, "%q", c.Symbol)
			if c.Skip {
				sb.WriteString("!")
			}
			if c.Fg != (bento.ResetColor{}) || c.Bg != (bento.ResetColor{}) || c.Modifier != 0 {
				fmt.Fprintf(&sb, "{%v,%v,%x}", c.Fg, c.Bg, uint16(c.Modifier))
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
