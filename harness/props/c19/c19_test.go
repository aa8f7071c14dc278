// C19: popups, clear, fill and the place of throbbers.
package c19

import (
	"fmt"
	"math"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// scene draws a buffer somewhere, with content, and an area inside it.
func scene(t *rapid.T) (*bento.Buffer, bento.Rect) {
	at := bento.NewRect(kit.UpTo(40).Draw(t, "w"), kit.UpTo(16).Draw(t, "h")).
		Positioned(rapid.IntRange(0, 5).Draw(t, "x"), rapid.IntRange(0, 5).Draw(t, "y"))
	buf := bento.NewBufferEmpty(at)
	a, b := bento.NewCell("q"), bento.NewCell("é")
	a.SetStyle(kit.Style().Draw(t, "old"))
	for y := at.Top(); y < at.Bottom(); y++ {
		for x := at.Left(); x < at.Right(); x++ {
			c := a
			if (x*7+y*3)%5 == 0 {
				c = b
			}
			*buf.CellAt(bento.NewPosition(x, y)) = c
		}
	}
	return &buf, kit.Sub(at).Draw(t, "area")
}

func clone(b *bento.Buffer) *bento.Buffer {
	c := bento.NewBufferEmpty(b.Area())
	for y := b.Area().Top(); y < b.Area().Bottom(); y++ {
		for x := b.Area().Left(); x < b.Area().Right(); x++ {
			*c.CellAt(bento.NewPosition(x, y)) = *b.CellAt(bento.NewPosition(x, y))
		}
	}
	return &c
}

func compare(t *rapid.T, desc string, got, want *bento.Buffer) {
	t.Helper()
	for y := got.Area().Top(); y < got.Area().Bottom(); y++ {
		for x := got.Area().Left(); x < got.Area().Right(); x++ {
			p := bento.NewPosition(x, y)
			if g, w := *got.CellAt(p), *want.CellAt(p); g != w {
				t.Fatalf("(%d,%d) shows %+v, want %+v\n%s\ngot\n%swant\n%s", x, y, g, w, desc, kit.Dump(got), kit.Dump(want))
			}
		}
	}
}

func each(r bento.Rect, fn func(p bento.Position)) {
	for y := r.Top(); y < r.Bottom(); y++ {
		for x := r.Left(); x < r.Right(); x++ {
			fn(bento.NewPosition(x, y))
		}
	}
}

func symbol(t *rapid.T) string {
	return rapid.OneOf(rapid.SampledFrom(kit.Width1), rapid.SampledFrom(kit.Spaces)).Draw(t, "symbol")
}

// TestFill: fill and clear cover exactly their area.
func TestFill(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		buf, area := scene(t)
		want := clone(buf)
		var desc string
		if rapid.Bool().Draw(t, "clear") {
			desc = fmt.Sprintf("clear %v of %v", area, buf.Area())
			each(area, func(p bento.Position) { *want.CellAt(p) = bento.NewCell(" ") })
			kit.Guard(desc, func() { clearwidget.New().Render(area, buf) })
		} else {
			sym, style := symbol(t), kit.Style().Draw(t, "style")
			desc = fmt.Sprintf("fill %v of %v with %q{%s}", area, buf.Area(), sym, txt.Sty(style))
			each(area, func(p bento.Position) {
				*want.CellAt(p) = txt.Styled(bento.NewCell(sym), style)
			})
			kit.Guard(desc, func() { fillwidget.New(sym).WithStyle(style).Render(area, buf) })
		}
		kit.Case(desc, !area.IsEmpty() && area != buf.Area(), kit.Cls(area.IsEmpty(), "empty"), kit.Cls(area == buf.Area(), "whole buffer"))
		compare(t, desc, buf, want)
	})
}

type axis struct {
	c    bento.Constraint
	flex bento.Flex
}

func drawAxis(t *rapid.T, p popupwidget.Popup, vertical bool) (popupwidget.Popup, axis, string) {
	a := axis{flex: bento.FlexCenter}
	if vertical {
		a.c = p.Height
	} else {
		a.c = p.Width
	}
	if rapid.IntRange(0, 4).Draw(t, "sized") > 0 {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			a.c = bento.ConstraintMax(rapid.IntRange(0, 40).Draw(t, "max"))
		case 1:
			a.c = bento.ConstraintMin(rapid.IntRange(0, 40).Draw(t, "min"))
		case 2:
			a.c = bento.ConstraintPercentage(rapid.IntRange(0, 110).Draw(t, "percent"))
		case 3:
			d := rapid.IntRange(1, 7).Draw(t, "den")
			a.c = bento.ConstraintRatio{Num: rapid.IntRange(0, d).Draw(t, "num"), Den: d}
		case 4:
			a.c = bento.ConstraintFill(rapid.IntRange(1, 3).Draw(t, "fill"))
		default:
			a.c = bento.ConstraintLen(rapid.IntRange(0, 45).Draw(t, "len"))
		}
		if vertical {
			p = p.WithHeight(a.c)
		} else {
			p = p.WithWidth(a.c)
		}
	}
	switch rapid.IntRange(0, 4).Draw(t, "place") {
	case 0:
		a.flex = bento.FlexStart
		if vertical {
			p = p.Top()
		} else {
			p = p.Left()
		}
	case 1:
		a.flex = bento.FlexEnd
		if vertical {
			p = p.Bottom()
		} else {
			p = p.Right()
		}
	case 2: // back to the middle
		if vertical {
			p = p.Top().Middle()
		} else {
			p = p.Right().Center()
		}
	}
	return p, a, fmt.Sprintf("%T(%v) %s", a.c, a.c, lay.FlexName(a.flex))
}

// judge says whether a segment from..to lies in lo..hi as the axis asks.
func (a axis) judge(lo, hi, from, to int) error {
	room, size := hi-lo, to-from
	want, slack := math.NaN(), 0.0
	switch c := a.c.(type) {
	case bento.ConstraintLen:
		want = float64(c)
	case bento.ConstraintPercentage:
		want, slack = float64(room)*float64(c)/100, 1
	case bento.ConstraintRatio:
		want, slack = float64(room)*float64(c.Num)/float64(c.Den), 1
	case bento.ConstraintMin:
		if size < min(int(c), room) {
			return fmt.Errorf("%d cells, less than %d", size, c)
		}
	case bento.ConstraintMax:
		if size > int(c) {
			return fmt.Errorf("%d cells, more than %d", size, c)
		}
	case bento.ConstraintFill:
		want = float64(room)
	}
	want = math.Min(want, float64(room))
	if d := math.Abs(float64(size) - want); !math.IsNaN(d) && (d > slack || slack > 0 && d >= slack) {
		return fmt.Errorf("%d cells, want %v", size, want)
	}
	if from < lo || to > hi || size < 0 {
		return fmt.Errorf("from %d to %d beyond %d to %d", from, to, lo, hi)
	}
	before, after := from-lo, hi-to
	switch a.flex {
	case bento.FlexStart:
		if before != 0 {
			return fmt.Errorf("%d cells before it", before)
		}
	case bento.FlexEnd:
		if after != 0 {
			return fmt.Errorf("%d cells behind it", after)
		}
	default:
		if before-after > 1 || after-before > 1 {
			return fmt.Errorf("%d cells before and %d behind it", before, after)
		}
	}
	return nil
}

// TestPopup: place, size and what a popup draws.
func TestPopup(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		buf, area := scene(t)
		p, h, hd := drawAxis(t, popupwidget.New(), false)
		p, v, vd := drawAxis(t, p, true)
		padding := lay.Padding(4).Draw(t, "padding")
		if padding != (bento.Padding{}) {
			p = p.WithPadding(padding)
		}
		style := kit.Style().Draw(t, "style")
		p = p.WithStyle(style)
		bare := p
		var block *blockwidget.Block
		if rapid.Bool().Draw(t, "block") {
			b := blockwidget.New().Bordered().WithTitleStr("T").WithStyle(kit.Style().Draw(t, "block style"))
			if rapid.Bool().Draw(t, "padded") {
				b = b.WithPadding(bento.NewPadding(1))
			}
			block, p = &b, p.WithBlock(b)
		}
		var content bento.Widget
		if rapid.Bool().Draw(t, "content") {
			content = fillwidget.New("c").WithStyle(kit.Style().Draw(t, "content style"))
			p.Content = content
		}
		desc := fmt.Sprintf("area=%v of %v width=%s height=%s padding=%v style=%s block=%v content=%v", area, buf.Area(), hd, vd, padding, txt.Sty(style), block != nil, content != nil)
		old := clone(buf)
		var rect, inner bento.Rect
		kit.Rehearse(t, desc, p.Render)
		kit.Guard(desc, func() {
			rect, inner = bare.Inner(area), p.Inner(area)
			p.Render(area, buf)
		})

		// Room: the area without the padding, nothing if it does not fit.
		l, r := area.Left()+padding.Left, area.Right()-padding.Right
		top, bottom := area.Top()+padding.Top, area.Bottom()-padding.Bottom
		room := l < r && top < bottom
		kit.Case(desc, !rect.IsEmpty() && rect != area, kit.Cls(rect.IsEmpty(), "empty"), kit.Cls(block != nil, "block"), kit.Cls(padding != (bento.Padding{}), "padding"),
			kit.Cls(content != nil, "content"), lay.FlexName(h.flex), "vertical "+lay.FlexName(v.flex), fmt.Sprintf("%T", h.c))
		if !room {
			if !rect.IsEmpty() {
				t.Fatalf("covers %v without room\n%s", rect, desc)
			}
		} else {
			if err := h.judge(l, r, rect.Left(), rect.Right()); err != nil {
				t.Fatalf("horizontally: %v\nat %v: %s", err, rect, desc)
			}
			if err := v.judge(top, bottom, rect.Top(), rect.Bottom()); err != nil {
				t.Fatalf("vertically: %v\nat %v: %s", err, rect, desc)
			}
		}
		want := old
		each(rect, func(p bento.Position) { *want.CellAt(p) = txt.Styled(bento.NewCell(" "), style) })
		room2 := rect
		if block != nil {
			block.Render(rect, want)
			room2 = block.Inner(rect)
		}
		if inner != room2 && !(inner.IsEmpty() && room2.IsEmpty()) {
			t.Fatalf("inner %v, want %v\n%s", inner, room2, desc)
		}
		if content != nil {
			content.Render(room2, want)
		}
		compare(t, desc, buf, want)
	})
}

// TestThrobber: the frame of the step, in the middle.
func TestThrobber(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		buf, area := scene(t)
		typ := throbberwidget.Type(rapid.IntRange(0, 8).Draw(t, "type"))
		steps := rapid.IntRange(0, 20).Draw(t, "steps")
		st := throbberwidget.NewState()
		st.WithFPS(0)
		for i := 0; i < steps; i++ {
			if _, ok := st.TryUpdate(st.Tick()); !ok {
				t.Fatalf("tick %d of %v refused", i, typ)
			}
		}
		set := typ.Set()
		frame := string(set[steps%len(set)])
		desc := fmt.Sprintf("throbber %v frame %q area=%v of %v", typ, frame, area, buf.Area())
		old := clone(buf)
		kit.Guard(desc, func() { throbberwidget.New().WithType(typ).RenderStateful(area, buf, st) })
		cs := kit.Clusters(frame)
		kit.Case(desc, !area.IsEmpty() && len(cs) > 0, kit.Cls(len(cs) > area.Width, "cut"), typ.String())

		// Two places are central where the excess is odd.
		n := min(len(cs), area.Width)
		var last string
		for y := (area.Height - 1) / 2; y <= area.Height/2; y++ {
			for x := (area.Width - n) / 2; x <= (area.Width-n+1)/2; x++ {
				want := clone(old)
				if !area.IsEmpty() {
					for i := 0; i < n; i++ {
						want.CellAt(bento.NewPosition(area.X+x+i, area.Y+y)).SetSymbol(cs[i])
					}
				}
				same := true
				each(buf.Area(), func(p bento.Position) {
					g, w := *buf.CellAt(p), *want.CellAt(p)
					same = same && g == w
				})
				if same {
					return
				}
				last = kit.Dump(want)
			}
		}
		t.Fatalf("%s\ngot\n%swant\n%s", desc, kit.Dump(buf), last)
	})
}
