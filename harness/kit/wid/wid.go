// Package wid generates widgets of every kind with any settings and content.
package wid

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/lay"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"pgregory.net/rapid"
)

// Widget is a widget with its state.
type Widget struct {
	Kind string
	Desc string
	Draw func(area bento.Rect, buffer *bento.Buffer)
	// Clips: may be drawn into an area that reaches beyond the buffer.
	Clips bool
}

// Render implements bento.Widget.
func (w Widget) Render(area bento.Rect, buffer *bento.Buffer) { w.Draw(area, buffer) }

// Pure makes widgets draw with a copy of their state each time, so that what
// drawing does to the state is left out.
var Pure = false

// Kinds of widgets.
var Kinds = []string{"text", "line", "span", "paragraph", "list", "block", "gauge", "scrollbar", "tabs", "input", "throbber", "fill", "clear", "popup"}

// content draws a string without newlines, now and then a long one.
func content() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "content") {
		case 0, 1:
			return kit.Messy(12).Draw(t, "messy")
		case 2:
			return strings.Repeat(kit.Printable(4).Draw(t, "part"), rapid.IntRange(1, 30).Draw(t, "times"))
		case 3:
			return rapid.SampledFrom(kit.Width2).Draw(t, "wide")
		}
		return kit.Printable(10).Draw(t, "printable")
	})
}

// short draws a symbol or two of printable clusters.
func short(most int) *rapid.Generator[string] { return kit.Printable(most) }

func text(t *rapid.T) textwidget.Text {
	if rapid.IntRange(0, 3).Draw(t, "plain") == 0 {
		parts := rapid.SliceOfN(content(), 0, 6).Draw(t, "lines")
		x := textwidget.NewTextStr(strings.Join(parts, "\n")).WithAlignment(txt.Alignment().Draw(t, "align"))
		txt.Keep(x)
		return x
	}
	return txt.Text(6, 3, content()).Draw(t, "text")
}

func line(t *rapid.T) textwidget.Line { return txt.Line(3, content()).Draw(t, "line") }

// Block draws a block.
func Block(t *rapid.T) (blockwidget.Block, string) {
	b := blockwidget.New()
	var log []string
	note := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }
	switch rapid.IntRange(0, 2).Draw(t, "borders") {
	case 0:
		b = b.Bordered()
		note("bordered")
	case 1:
		s := blockwidget.Side(rapid.IntRange(1, 15).Draw(t, "sides"))
		b = b.WithBorderSides(s)
		note("sides %04b", s)
	}
	b = b.WithBorderType(rapid.SampledFrom([]blockwidget.BorderType{blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick}).Draw(t, "type"))
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "titles"); i < n; i++ {
		l := txt.Line(2, content()).Draw(t, "title")
		pos := rapid.SampledFrom([]blockwidget.TitlePosition{blockwidget.TitlePositionTop, blockwidget.TitlePositionBottom}).Draw(t, "position")
		ti := blockwidget.NewTitle(l).WithPosition(pos)
		if rapid.Bool().Draw(t, "aligned") {
			ti = ti.WithAlignment(txt.Alignment().Draw(t, "title alignment"))
		}
		b = b.WithTitle(ti)
		note("title %d %s", pos, txt.DescribeLine(l))
	}
	if rapid.Bool().Draw(t, "styled") {
		b = b.WithStyle(kit.Style().Draw(t, "style")).WithBorderStyle(kit.Style().Draw(t, "border style")).WithTitlesStyle(kit.Style().Draw(t, "titles style"))
		b = b.WithTitlesAlignment(txt.Alignment().Draw(t, "titles alignment"))
	}
	if rapid.IntRange(0, 2).Draw(t, "padded") == 0 {
		p := lay.Padding(3).Draw(t, "padding")
		b = b.WithPadding(p)
		note("padding %v", p)
	}
	return b, "block(" + strings.Join(log, ", ") + ")"
}

func maybeBlock(t *rapid.T, with func(blockwidget.Block)) string {
	if rapid.IntRange(0, 3).Draw(t, "block") != 2 {
		return ""
	}
	b, d := Block(t)
	with(b)
	return " in " + d
}

// number draws sizes and positions, mostly small.
func number() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 60), rapid.IntRange(0, 1<<40), rapid.SampledFrom([]int{0, 1, 1<<31 - 1, 1 << 31}))
}

// signed draws positions, now and then one before the start.
func signed() *rapid.Generator[int] {
	return rapid.OneOf(number(), number(), number(), rapid.IntRange(-12, -1), rapid.SampledFrom([]int{-1, -1 << 31, -1<<62 + 1}))
}

func constraint(t *rapid.T) bento.Constraint {
	switch rapid.IntRange(0, 5).Draw(t, "constraint") {
	case 0:
		return bento.ConstraintMax(rapid.IntRange(0, 40).Draw(t, "max"))
	case 1:
		return bento.ConstraintMin(rapid.IntRange(0, 40).Draw(t, "min"))
	case 2:
		return bento.ConstraintPercentage(rapid.IntRange(0, 110).Draw(t, "percent"))
	case 3:
		d := rapid.IntRange(1, 7).Draw(t, "den")
		return bento.ConstraintRatio{Num: rapid.IntRange(0, d+1).Draw(t, "num"), Den: d}
	case 4:
		return bento.ConstraintFill(rapid.IntRange(1, 3).Draw(t, "fill"))
	}
	return bento.ConstraintLen(rapid.IntRange(0, 45).Draw(t, "len"))
}

var keys = []bento.Key{
	{Type: bento.KeyLeft}, {Type: bento.KeyRight}, {Type: bento.KeyHome}, {Type: bento.KeyEnd}, {Type: bento.KeyBackspace}, {Type: bento.KeyUp}, {Type: bento.KeyDown},
	{Type: bento.KeyCtrlW}, {Type: bento.KeyCtrlU}, {Type: bento.KeyCtrlA}, {Type: bento.KeyCtrlE}, {Type: bento.KeyCtrlD}, {Type: bento.KeyLeft, Alt: true}, {Type: bento.KeyRight, Alt: true},
	{Type: bento.KeySpace, Runes: []rune{' '}}, {Type: bento.KeyRunes, Runes: []rune{'j'}}, {Type: bento.KeyRunes, Runes: []rune{'G'}},
}

// Any draws a widget of the kind. depth limits the widgets inside of it.
func Any(t *rapid.T, kind string, depth int) Widget {
	switch kind {
	case "text":
		x := text(t)
		return Widget{kind, "text " + txt.Describe(x), x.Render, true}
	case "line":
		x := line(t)
		return Widget{kind, "line " + txt.DescribeLine(x), x.Render, true}
	case "span":
		x := textwidget.NewSpan(content().Draw(t, "content")).WithStyle(txt.MaybeStyle().Draw(t, "style"))
		return Widget{kind, fmt.Sprintf("span %q{%s}", x.Content, txt.Sty(x.Style)), x.Render, true}
	case "paragraph":
		x := text(t)
		p := paragraphwidget.New(x).WithStyle(txt.MaybeStyle().Draw(t, "style"))
		d := "paragraph " + txt.Describe(x)
		switch rapid.IntRange(0, 2).Draw(t, "wrap") {
		case 0:
			p = p.Wrapped()
			d += " wrapped"
		case 1:
			trim := rapid.Bool().Draw(t, "trim")
			p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(trim))
			d += fmt.Sprintf(" wrapped trim=%v", trim)
		}
		switch rapid.IntRange(0, 4).Draw(t, "aligned") {
		case 0:
			p = p.Right()
			d += " right"
		case 1:
			p = p.Center()
			d += " center"
		}
		if rapid.Bool().Draw(t, "scrolled") {
			g := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 8), rapid.IntRange(0, 200), rapid.SampledFrom([]int{1 << 31, 1<<62 - 1, -1, -3, -1 << 31}))
			v, h := g.Draw(t, "vertical"), g.Draw(t, "horizontal")
			p = p.WithScroll(v, h)
			d += fmt.Sprintf(" scroll %d,%d", v, h)
		}
		d += maybeBlock(t, func(b blockwidget.Block) { p = p.WithBlock(b) })
		return Widget{kind, d, p.Render, false}
	case "list":
		var items []textwidget.Text
		for i, n := 0, kit.UpTo(9).Draw(t, "items"); i < n; i++ {
			items = append(items, txt.Text(3, 2, content()).Draw(t, "item"))
		}
		l := listwidget.New(items...).WithStyle(txt.MaybeStyle().Draw(t, "style")).WithHighlightStyle(txt.MaybeStyle().Draw(t, "highlight"))
		symbol, repeat := short(3).Draw(t, "symbol"), rapid.Bool().Draw(t, "repeat")
		spacing := rapid.SampledFrom([]listwidget.HighlightSpacing{listwidget.HighlightSpacingWhenSelected, listwidget.HighlightSpacingAlways, listwidget.HighlightSpacingNever}).Draw(t, "spacing")
		direction := rapid.SampledFrom([]listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop}).Draw(t, "direction")
		padding := signed().Draw(t, "padding")
		l = l.WithHighlightSymbol(symbol).WithRepeatHighlightSymbol(repeat).WithHighlightSpacing(spacing).WithDirection(direction).WithScrollPadding(padding)
		var ds []string
		for _, i := range items {
			ds = append(ds, txt.Describe(i))
		}
		d := fmt.Sprintf("list %v symbol=%q repeat=%v spacing=%d direction=%d padding=%d", ds, symbol, repeat, spacing, direction, padding)
		d += maybeBlock(t, func(b blockwidget.Block) { l = l.WithBlock(b) })
		if rapid.IntRange(0, 3).Draw(t, "stateless") == 0 {
			return Widget{kind, d + " without state", l.Render, false}
		}
		s := listwidget.NewState()
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "ops"); i < n; i++ {
			switch v := signed().Draw(t, "number"); rapid.IntRange(0, 6).Draw(t, "op") {
			case 0, 1:
				s.Select(v)
				d += fmt.Sprintf(" select %d", v)
			case 2:
				s.SelectLast()
				d += " last"
			case 3:
				s.SetOffset(v)
				d += fmt.Sprintf(" offset %d", v)
			case 4:
				s.ScrollDownBy(v)
				d += fmt.Sprintf(" down %d", v)
			case 5:
				s.SelectPrevious()
				d += " previous"
			default:
				k := rapid.SampledFrom(keys).Draw(t, "key")
				_, _ = s.TryUpdate(bento.KeyMsg(k))
				d += " key " + k.String()
			}
		}
		return Widget{kind, d, func(a bento.Rect, b *bento.Buffer) {
			if Pure {
				s := s
				l.RenderStateful(a, b, &s)
				return
			}
			l.RenderStateful(a, b, &s)
		}, false}
	case "block":
		b, d := Block(t)
		if depth == 0 || rapid.Bool().Draw(t, "hollow") {
			return Widget{kind, d, b.Render, true}
		}
		in := Any(t, rapid.SampledFrom(Kinds).Draw(t, "inside"), depth-1)
		return Widget{kind, d + " with " + in.Desc, func(area bento.Rect, buf *bento.Buffer) {
			b.Render(area, buf)
			in.Draw(b.Inner(area), buf)
		}, false}
	case "gauge":
		g := gaugewidget.New().WithUnicode(rapid.Bool().Draw(t, "unicode")).WithStyle(txt.MaybeStyle().Draw(t, "style")).WithGaugeStyle(txt.MaybeStyle().Draw(t, "gauge style"))
		r := rapid.OneOf(rapid.Float64Range(0, 1), rapid.SampledFrom([]float64{0, 1, 0.5, 0.999999})).Draw(t, "ratio")
		g = g.WithRatio(r)
		d := fmt.Sprintf("gauge %v", r)
		if rapid.Bool().Draw(t, "labelled") {
			l := content().Draw(t, "label")
			g = g.WithLabel(textwidget.NewSpan(l).WithStyle(txt.MaybeStyle().Draw(t, "label style")))
			d += fmt.Sprintf(" labelled %q", l)
		}
		return Widget{kind, d, g.Render, false}
	case "scrollbar":
		o := rapid.SampledFrom([]scrollwidget.Orientation{scrollwidget.OrientationVerticalRight, scrollwidget.OrientationVerticalLeft, scrollwidget.OrientationHorizontalBottom, scrollwidget.OrientationHorizontalTop}).Draw(t, "orientation")
		g := rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 100), rapid.IntRange(0, 1<<31), rapid.IntRange(-20, -1))
		n, v, p := g.Draw(t, "content"), g.Draw(t, "viewport"), g.Draw(t, "position")
		s := scrollwidget.NewState(n)
		s.SetViewportContentLen(v).SetPosition(p)
		return Widget{kind, fmt.Sprintf("scrollbar %d content=%d viewport=%d position=%d", o, n, v, p), func(a bento.Rect, b *bento.Buffer) {
			scrollwidget.New(o).RenderStateful(a, b, s)
		}, false}
	case "tabs":
		var titles []textwidget.Line
		var ds []string
		for i, n := 0, kit.UpTo(6).Draw(t, "titles"); i < n; i++ {
			l := txt.Line(2, content()).Draw(t, "title")
			titles = append(titles, l)
			ds = append(ds, txt.DescribeLine(l))
		}
		x := tabswidget.New(titles...)
		sel := rapid.IntRange(-1, 7).Draw(t, "selected")
		x = x.Select(sel)
		d := fmt.Sprintf("tabs %v selected=%d", ds, sel)
		if rapid.Bool().Draw(t, "set") {
			l, r, v := content().Draw(t, "left"), content().Draw(t, "right"), content().Draw(t, "divider")
			x = x.WithPaddingLeftStr(l).WithPaddingRightStr(r).WithDividerStr(v).WithStyle(txt.MaybeStyle().Draw(t, "style"))
			d += fmt.Sprintf(" left=%q right=%q divider=%q", l, r, v)
		}
		d += maybeBlock(t, func(b blockwidget.Block) { x = x.WithBlock(b) })
		return Widget{kind, d, x.Render, false}
	case "input":
		prompt, placeholder := short(4).Draw(t, "prompt"), short(6).Draw(t, "placeholder")
		x := inputwidget.New().WithPrompt(prompt).WithPlaceholder(placeholder).WithPromptStyle(txt.MaybeStyle().Draw(t, "prompt style")).WithCursorStyle(txt.MaybeStyle().Draw(t, "cursor style"))
		d := fmt.Sprintf("input prompt=%q placeholder=%q", prompt, placeholder)
		x = x.WithAlignment(txt.Alignment().Draw(t, "align"))
		flex := rapid.SampledFrom([]bento.Flex{bento.FlexStart, bento.FlexCenter, bento.FlexEnd}).Draw(t, "vertical")
		x = x.WithVertical(flex)
		d += maybeBlock(t, func(b blockwidget.Block) { x = x.WithBlock(b) })
		s := inputwidget.NewState()
		s.ShowCursor(rapid.Bool().Draw(t, "cursor"))
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "ops"); i < n; i++ {
			if rapid.Bool().Draw(t, "append") {
				c := content().Draw(t, "typed")
				s.Append(c)
				d += fmt.Sprintf(" append %q", c)
			} else {
				k := rapid.SampledFrom(keys).Draw(t, "key")
				_, _ = s.TryUpdate(bento.KeyMsg(k))
				d += " key " + k.String()
			}
		}
		return Widget{kind, d, func(a bento.Rect, b *bento.Buffer) {
			if Pure {
				s := s
				x.RenderStateful(a, b, &s)
				return
			}
			x.RenderStateful(a, b, &s)
		}, false}
	case "throbber":
		ty := throbberwidget.Type(rapid.IntRange(0, 12).Draw(t, "type"))
		s := throbberwidget.NewState()
		n := rapid.IntRange(0, 20).Draw(t, "ticks")
		for i := 0; i < n; i++ {
			_, _ = s.TryUpdate(s.Tick())
		}
		var x throbberwidget.Throbber
		if !known(ty, &x) {
			x = throbberwidget.New()
		}
		return Widget{kind, fmt.Sprintf("throbber %v after %d", ty, n), func(a bento.Rect, b *bento.Buffer) { x.RenderStateful(a, b, s) }, false}
	case "fill":
		sym := rapid.OneOf(rapid.SampledFrom(kit.Width1), rapid.SampledFrom(kit.Spaces)).Draw(t, "symbol")
		return Widget{kind, fmt.Sprintf("fill %q", sym), fillwidget.New(sym).WithStyle(txt.MaybeStyle().Draw(t, "style")).Render, false}
	case "clear":
		return Widget{kind, "clear", clearwidget.New().Render, false}
	}
	p := popupwidget.New().WithStyle(txt.MaybeStyle().Draw(t, "style"))
	d := "popup"
	if rapid.Bool().Draw(t, "sized") {
		w, h := constraint(t), constraint(t)
		p = p.WithWidth(w).WithHeight(h)
		d += fmt.Sprintf(" %T(%v) %T(%v)", w, w, h, h)
	}
	switch rapid.IntRange(0, 4).Draw(t, "place") {
	case 0:
		p = p.Top().Left()
	case 1:
		p = p.Bottom().Right()
	}
	if rapid.Bool().Draw(t, "padded") {
		pad := lay.Padding(3).Draw(t, "padding")
		p = p.WithPadding(pad)
		d += fmt.Sprintf(" padding %v", pad)
	}
	d += maybeBlock(t, func(b blockwidget.Block) { p = p.WithBlock(b) })
	if depth > 0 && rapid.Bool().Draw(t, "content") {
		in := Any(t, rapid.SampledFrom(Kinds).Draw(t, "inside"), depth-1)
		p.Content = in
		d += " with " + in.Desc
	}
	return Widget{"popup", d, p.Render, false}
}

// known sets the type of a throbber if there is such a type.
func known(ty throbberwidget.Type, x *throbberwidget.Throbber) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	n := throbberwidget.New().WithType(ty)
	_ = ty.Set().Frame(0)
	*x = n
	return true
}
