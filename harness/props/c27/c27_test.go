// C27: rectangle geometry is exact.
package c27

import (
	"fmt"
	"math"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

func rect() *rapid.Generator[bento.Rect] {
	return rapid.Custom(func(t *rapid.T) bento.Rect {
		lim := rapid.SampledFrom([]int{4, 9, 9, 30}).Draw(t, "lim")
		return bento.NewRect(rapid.IntRange(0, lim).Draw(t, "w"), rapid.IntRange(0, lim).Draw(t, "h")).
			Positioned(rapid.IntRange(-3, lim).Draw(t, "x"), rapid.IntRange(-3, lim).Draw(t, "y"))
	})
}

type pos struct{ x, y int }

// cells enumerates a rectangle from its four fields alone.
func cells(r bento.Rect) map[pos]bool {
	out := map[pos]bool{}
	for y := 0; y < r.Height; y++ {
		for x := 0; x < r.Width; x++ {
			out[pos{r.X + x, r.Y + y}] = true
		}
	}
	return out
}

func same(a, b map[pos]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for p := range a {
		if !b[p] {
			return false
		}
	}
	return true
}

func property(t *rapid.T) {
	a, b := rect().Draw(t, "a"), rect().Draw(t, "b")
	small := rapid.IntRange(0, 8)
	side := rapid.OneOf(small, small, small, small, small, small, rapid.SampledFrom([]int{1 << 32, math.MaxInt/2 + 1, math.MaxInt - 1, math.MaxInt}))
	sides := [4]int{side.Draw(t, "top"), side.Draw(t, "right"), side.Draw(t, "bottom"), side.Draw(t, "left")}
	indent := rapid.IntRange(0, 12).Draw(t, "indent")
	desc := fmt.Sprintf("a=%v b=%v pad=%v indent=%d", a, b, sides, indent)
	ca, cb := cells(a), cells(b)
	both := map[pos]bool{}
	for p := range ca {
		if cb[p] {
			both[p] = true
		}
	}
	overlap := ""
	if len(both) > 0 {
		overlap = "overlap"
	}
	kit.Case(desc, len(ca) > 0 && len(cb) > 0, overlap)

	// accessors
	if a.Left() != a.X || a.Top() != a.Y || a.Right() != a.X+a.Width || a.Bottom() != a.Y+a.Height {
		t.Fatalf("edges of %+v: %d %d %d %d", a, a.Left(), a.Top(), a.Right(), a.Bottom())
	}
	if a.Area() != len(ca) || a.IsEmpty() != (len(ca) == 0) {
		t.Fatalf("%+v: area %d empty %v, holds %d cells", a, a.Area(), a.IsEmpty(), len(ca))
	}
	for y := a.Y - 2; y <= a.Y+a.Height+1; y++ {
		for x := a.X - 2; x <= a.X+a.Width+1; x++ {
			if got := a.Contains(bento.NewPosition(x, y)); got != ca[pos{x, y}] {
				t.Fatalf("%+v contains (%d,%d): %v", a, x, y, got)
			}
		}
	}

	// intersection
	i, j := a.Intersection(b), b.Intersection(a)
	if i.Width > a.Width || i.Height > a.Height || !same(cells(i), both) {
		t.Fatalf("intersection of %+v and %+v is %+v", a, b, i)
	}
	if i != j {
		t.Fatalf("intersection does not commute: %+v, %+v", i, j)
	}
	if i.Width < 0 || i.Height < 0 {
		t.Fatalf("negative intersection %+v", i)
	}
	if !a.IsEmpty() && a.Intersection(a) != a {
		t.Fatalf("intersection of %+v with itself is %+v", a, a.Intersection(a))
	}

	// rows and columns
	rows := a.Rows()
	if len(rows) != a.Height {
		t.Fatalf("%d rows of %+v", len(rows), a)
	}
	for k, r := range rows {
		if r != (bento.Rect{Position: bento.NewPosition(a.X, a.Y+k), Width: a.Width, Height: 1}) {
			t.Fatalf("row %d of %+v is %+v", k, a, r)
		}
	}
	cols := a.Columns()
	if len(cols) != a.Width {
		t.Fatalf("%d columns of %+v", len(cols), a)
	}
	for k, c := range cols {
		if c != (bento.Rect{Position: bento.NewPosition(a.X+k, a.Y), Width: 1, Height: a.Height}) {
			t.Fatalf("column %d of %+v is %+v", k, a, c)
		}
	}

	// padding
	p := bento.NewPadding(sides[0], sides[1], sides[2], sides[3])
	if p != (bento.Padding{Top: sides[0], Right: sides[1], Bottom: sides[2], Left: sides[3]}) {
		t.Fatalf("NewPadding(%v) is %+v", sides, p)
	}
	if q := bento.NewPadding(sides[0], sides[1]); q != (bento.Padding{Top: sides[0], Right: sides[1], Bottom: sides[0], Left: sides[1]}) {
		t.Fatalf("NewPadding(%v) is %+v", sides[:2], q)
	}
	if q := bento.NewPadding(sides[0]); q != (bento.Padding{Top: sides[0], Right: sides[0], Bottom: sides[0], Left: sides[0]}) {
		t.Fatalf("NewPadding(%v) is %+v", sides[:1], q)
	}
	if q := bento.NewPadding(); q != (bento.Padding{}) {
		t.Fatalf("NewPadding() is %+v", q)
	}
	// setters in any order on any base, against a field-wise model
	model := p
	got := p
	for k, n := 0, rapid.IntRange(0, 6).Draw(t, "setters"); k < n; k++ {
		v := side.Draw(t, "v")
		before := got
		switch rapid.IntRange(0, 3).Draw(t, "which") {
		case 0:
			got, model.Top = got.WithTop(v), v
		case 1:
			got, model.Right = got.WithRight(v), v
		case 2:
			got, model.Bottom = got.WithBottom(v), v
		case 3:
			got, model.Left = got.WithLeft(v), v
		}
		if got != model {
			t.Fatalf("after setting a side of %+v to %d: %+v, want %+v", before, v, got, model)
		}
	}

	inner := a.Inner(model)
	want := map[pos]bool{}
	for q := range ca {
		if q.x-a.X >= model.Left && a.X+a.Width-q.x > model.Right && q.y-a.Y >= model.Top && a.Y+a.Height-q.y > model.Bottom {
			want[q] = true
		}
	}
	if inner.Width > a.Width || inner.Height > a.Height || !same(cells(inner), want) || inner.Width < 0 || inner.Height < 0 {
		t.Fatalf("%+v padded by %+v is %+v", a, model, inner)
	}
	if len(want) == 0 && !inner.IsEmpty() {
		t.Fatalf("%+v padded by %+v is not empty: %+v", a, model, inner)
	}

	// indentation keeps the right, top and bottom edges while it fits
	in := a.IndentX(indent)
	if in.Y != a.Y || in.Height != a.Height || in.X != a.X+indent || in.Width != max(0, a.Width-indent) {
		t.Fatalf("%+v indented by %d is %+v", a, indent, in)
	}
	if indent <= a.Width && in.Right() != a.Right() {
		t.Fatalf("%+v indented by %d ends at %d", a, indent, in.Right())
	}
	// repositioning and resizing
	if m := a.Positioned(b.X, b.Y); m != (bento.Rect{Position: bento.Position{X: b.X, Y: b.Y}, Width: a.Width, Height: a.Height}) {
		t.Fatalf("%+v positioned at %d,%d is %+v", a, b.X, b.Y, m)
	}
	if m := a.WithWidth(b.Width); m != (bento.Rect{Position: a.Position, Width: b.Width, Height: a.Height}) {
		t.Fatalf("%+v with width %d is %+v", a, b.Width, m)
	}
	if m := a.WithHeight(b.Height); m != (bento.Rect{Position: a.Position, Width: a.Width, Height: b.Height}) {
		t.Fatalf("%+v with height %d is %+v", a, b.Height, m)
	}
	if m := bento.NewRect(a.Width, a.Height); m != (bento.Rect{Width: a.Width, Height: a.Height}) {
		t.Fatalf("NewRect(%d,%d) is %+v", a.Width, a.Height, m)
	}
}

// TestLarge: the intersection of rectangles too large to enumerate, looked at
// around its corners.
func TestLarge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		num := rapid.OneOf(rapid.IntRange(-9, 9), rapid.IntRange(-1<<40, 1<<40), rapid.IntRange(-1<<61, 1<<61))
		size := rapid.OneOf(rapid.IntRange(0, 9), rapid.IntRange(0, 1<<40), rapid.IntRange(0, 1<<61))
		rect := func(name string) bento.Rect {
			return bento.NewRect(size.Draw(t, name+"W"), size.Draw(t, name+"H")).Positioned(num.Draw(t, name+"X"), num.Draw(t, name+"Y"))
		}
		a, b := rect("a"), rect("b")
		i := a.Intersection(b)
		kit.Case(fmt.Sprintf("large a=%v b=%v", a, b), !i.IsEmpty(), kit.Cls(!i.IsEmpty(), "large overlap"))
		if i != b.Intersection(a) || i.Width < 0 || i.Height < 0 {
			t.Fatalf("intersection of %+v and %+v is %+v, the other way %+v", a, b, i, b.Intersection(a))
		}
		holds := func(r bento.Rect, x, y int) bool {
			return r.X <= x && x-r.X < r.Width && r.Y <= y && y-r.Y < r.Height
		}
		for _, x := range []int{a.X - 1, a.X, a.X + a.Width - 1, a.X + a.Width, b.X - 1, b.X, b.X + b.Width - 1, b.X + b.Width} {
			for _, y := range []int{a.Y - 1, a.Y, a.Y + a.Height - 1, a.Y + a.Height, b.Y - 1, b.Y, b.Y + b.Height - 1, b.Y + b.Height} {
				both := holds(a, x, y) && holds(b, x, y)
				if holds(i, x, y) != both {
					t.Fatalf("intersection %+v of %+v and %+v holds (%d,%d): %v", i, a, b, x, y, !both)
				}
				p := bento.NewPosition(x, y)
				if a.Contains(p) != holds(a, x, y) {
					t.Fatalf("%+v contains %v: %v", a, p, a.Contains(p))
				}
			}
		}
	})
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
