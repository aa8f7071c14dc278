// C25: builders return new values and never change the ones they were called on.
package c25

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// spare hands out a slice of generated elements with spare capacity behind
// them, and remembers all of it.
type passed struct {
	what string
	now  func() string
	then string
}

type world struct {
	t      *rapid.T
	passed []passed
}

func give[T any](w *world, what string, gen func() T, show func(T) string) []T {
	n := rapid.IntRange(0, 3).Draw(w.t, "len")
	c := n + rapid.IntRange(0, 3).Draw(w.t, "spare")
	full := make([]T, c)
	for i := range full {
		full[i] = gen()
	}
	now := func() string {
		var sb strings.Builder
		for _, v := range full {
			sb.WriteString(show(v))
			sb.WriteString(";")
		}
		return sb.String()
	}
	w.passed = append(w.passed, passed{what, now, now()})
	return full[:n]
}

func word(t *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "b", "cd", "世", "x y", "", "Q"}).Draw(t, "word")
}

func span(t *rapid.T) textwidget.Span {
	return textwidget.NewSpan(word(t)).WithStyle(txt.MaybeStyle().Draw(t, "style"))
}

func (w *world) spans() []textwidget.Span {
	return give(w, "spans", func() textwidget.Span { return span(w.t) }, func(s textwidget.Span) string {
		return fmt.Sprintf("%q{%s}", s.Content, txt.Sty(s.Style))
	})
}

func (w *world) line() textwidget.Line { return textwidget.NewLine(w.spans()...) }

func (w *world) lines() []textwidget.Line {
	return give(w, "lines", w.line, txt.DescribeLine)
}

func (w *world) text() textwidget.Text { return textwidget.NewText(w.lines()...) }

func (w *world) texts() []textwidget.Text { return give(w, "texts", w.text, txt.Describe) }

func constraint(t *rapid.T) bento.Constraint {
	n := rapid.IntRange(1, 20).Draw(t, "n")
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0:
		return bento.ConstraintLen(n)
	case 1:
		return bento.ConstraintMin(n)
	case 2:
		return bento.ConstraintMax(n)
	case 3:
		return bento.ConstraintPercentage(n)
	}
	return bento.ConstraintFill(n)
}

func (w *world) constraints() []bento.Constraint {
	return give(w, "constraints", func() bento.Constraint { return constraint(w.t) }, func(c bento.Constraint) string { return fmt.Sprintf("%T%v", c, c) })
}

func buffer() (bento.Rect, *bento.Buffer) {
	area := bento.NewRect(14, 6).Positioned(1, 1)
	b := bento.NewBufferEmpty(area)
	return area, &b
}

func dump(b *bento.Buffer) string { return fmt.Sprint(kit.Grid(b)) }

func rendered(wd bento.Widget) string {
	area, b := buffer()
	wd.Render(area, b)
	return dump(b)
}

type kind struct {
	name string
	make func(w *world) any
	// derive applies one builder and names it
	derive  func(w *world, v any) (any, string)
	observe func(v any) string
}

func pick(w *world, ops map[string]func() any, order ...string) (any, string) {
	op := rapid.SampledFrom(order).Draw(w.t, "op")
	return ops[op](), op
}

func alignOf(t *rapid.T) bento.Alignment { return txt.Alignment().Draw(t, "align") }

func realAlign(t *rapid.T) bento.Alignment {
	return rapid.SampledFrom([]bento.Alignment{bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}).Draw(t, "align")
}

func style(t *rapid.T) bento.Style { return kit.Style().Draw(t, "style") }

func pad(t *rapid.T) bento.Padding {
	return bento.NewPadding(rapid.IntRange(0, 1).Draw(t, "p"), rapid.IntRange(0, 1).Draw(t, "q"))
}

func title(w *world) blockwidget.Title {
	ti := blockwidget.NewTitle(w.line())
	if rapid.Bool().Draw(w.t, "bottom") {
		ti = ti.Bottom()
	}
	return ti.WithAlignment(alignOf(w.t))
}

func block(w *world) blockwidget.Block {
	b := blockwidget.New()
	for i, n := 0, rapid.IntRange(0, 3).Draw(w.t, "titles"); i < n; i++ {
		b = b.WithTitle(title(w))
	}
	return b.Bordered()
}

var kinds = []kind{
	{
		"layout",
		func(w *world) any { return bento.NewLayout(w.constraints()...) },
		func(w *world, v any) (any, string) {
			l := v.(bento.Layout)
			return pick(w, map[string]func() any{
				"Constraints": func() any { return l.WithConstraints(w.constraints()...) },
				"Flex": func() any {
					return l.WithFlex(rapid.SampledFrom([]bento.Flex{bento.FlexStart, bento.FlexEnd, bento.FlexCenter, bento.FlexLegacy, bento.FlexSpaceBetween}).Draw(w.t, "flex"))
				},
				"Padding":    func() any { return l.WithPadding(pad(w.t)) },
				"Spacing":    func() any { return l.WithSpacing(bento.SpacingSpace(rapid.IntRange(0, 2).Draw(w.t, "s"))) },
				"Horizontal": func() any { return l.Horizontal() },
				"Vertical":   func() any { return l.Vertical() },
			}, "Constraints", "Constraints", "Constraints", "Flex", "Padding", "Spacing", "Horizontal", "Vertical")
		},
		func(v any) string {
			l := v.(bento.Layout)
			s := fmt.Sprint(l.Direction, l.Padding, l.Flex, l.Spacing)
			for _, c := range l.Constraints {
				s += fmt.Sprintf(" %T%v", c, c)
			}
			return s
		},
	},
	{
		"text",
		func(w *world) any { return w.text() },
		func(w *world, v any) (any, string) {
			l := v.(textwidget.Text)
			return pick(w, map[string]func() any{
				"Lines":     func() any { return l.WithLines(w.lines()...) },
				"LinesStr":  func() any { return l.WithLinesStr(give(w, "strings", func() string { return word(w.t) }, kit.Q)...) },
				"Style":     func() any { return l.WithStyle(style(w.t)) },
				"Alignment": func() any { return l.WithAlignment(alignOf(w.t)) },
				"Left":      func() any { return l.Left() },
				"Right":     func() any { return l.Right() },
				"Center":    func() any { return l.Center() },
			}, "Lines", "Lines", "LinesStr", "LinesStr", "Style", "Alignment", "Left", "Right", "Center")
		},
		func(v any) string { l := v.(textwidget.Text); return txt.Describe(l) + rendered(l) },
	},
	{
		"line",
		func(w *world) any { return w.line() },
		func(w *world, v any) (any, string) {
			l := v.(textwidget.Line)
			return pick(w, map[string]func() any{
				"Spans":     func() any { return l.WithSpans(w.spans()...) },
				"SpansStr":  func() any { return l.WithSpansStr(give(w, "strings", func() string { return word(w.t) }, kit.Q)...) },
				"Style":     func() any { return l.WithStyle(style(w.t)) },
				"Alignment": func() any { return l.WithAlignment(alignOf(w.t)) },
				"Left":      func() any { return l.Left() },
				"Right":     func() any { return l.Right() },
				"Center":    func() any { return l.Center() },
			}, "Spans", "Spans", "SpansStr", "SpansStr", "Style", "Alignment", "Left", "Right", "Center")
		},
		func(v any) string { l := v.(textwidget.Line); return txt.DescribeLine(l) + rendered(l) },
	},
	{
		"span",
		func(w *world) any { return span(w.t) },
		func(w *world, v any) (any, string) {
			l := v.(textwidget.Span)
			return pick(w, map[string]func() any{
				"Style":      func() any { return l.WithStyle(style(w.t)) },
				"StylePatch": func() any { return l.WithStylePatch(style(w.t)) },
			}, "Style", "StylePatch")
		},
		func(v any) string { l := v.(textwidget.Span); return l.Content + txt.Sty(l.Style) + rendered(l) },
	},
	{
		"block",
		func(w *world) any { return block(w) },
		func(w *world, v any) (any, string) {
			b := v.(blockwidget.Block)
			return pick(w, map[string]func() any{
				"Title":    func() any { return b.WithTitle(title(w)) },
				"TitleStr": func() any { return b.WithTitleStr(word(w.t)) },
				"Style":    func() any { return b.WithStyle(style(w.t)) },
				"Borders": func() any {
					return b.WithBorderSides(give(w, "sides", func() blockwidget.Side {
						return rapid.SampledFrom([]blockwidget.Side{blockwidget.SideLeft, blockwidget.SideTop, blockwidget.SideBottom, blockwidget.SideRight}).Draw(w.t, "side")
					}, func(s blockwidget.Side) string { return fmt.Sprint(s) })...)
				},
				"Type":           func() any { return b.Thick() },
				"Padding":        func() any { return b.WithPadding(pad(w.t)) },
				"TitlesStyle":    func() any { return b.WithTitlesStyle(style(w.t)) },
				"TitlesAlign":    func() any { return b.WithTitlesAlignment(realAlign(w.t)) },
				"TitlesPosition": func() any { return b.WithTitlePosition(blockwidget.TitlePositionBottom) },
				"BorderStyle":    func() any { return b.WithBorderStyle(style(w.t)) },
			}, "Title", "Title", "Title", "TitleStr", "Style", "Borders", "Type", "Padding", "TitlesStyle", "TitlesAlign", "TitlesPosition", "BorderStyle")
		},
		func(v any) string {
			b := v.(blockwidget.Block)
			area, _ := buffer()
			return rendered(b) + fmt.Sprint(b.Inner(area))
		},
	},
	{
		"title",
		func(w *world) any { return title(w) },
		func(w *world, v any) (any, string) {
			ti := v.(blockwidget.Title)
			return pick(w, map[string]func() any{
				"Top":       func() any { return ti.Top() },
				"Bottom":    func() any { return ti.Bottom() },
				"Left":      func() any { return ti.Left() },
				"Right":     func() any { return ti.Right() },
				"Center":    func() any { return ti.Center() },
				"Alignment": func() any { return ti.WithAlignment(alignOf(w.t)) },
				"Position":  func() any { return ti.WithPosition(blockwidget.TitlePositionBottom) },
				"used": func() any {
					blockwidget.New().WithTitle(ti.Right())
					return ti.Center()
				},
			}, "Top", "Bottom", "Left", "Right", "Center", "Alignment", "Position", "used")
		},
		func(v any) string {
			ti := v.(blockwidget.Title)
			return txt.DescribeLine(ti.Line) + fmt.Sprint(ti.Alignment) + rendered(blockwidget.New().Bordered().WithTitle(ti))
		},
	},
	{
		"list",
		func(w *world) any { return listwidget.New(w.texts()...) },
		func(w *world, v any) (any, string) {
			l := v.(listwidget.List)
			return pick(w, map[string]func() any{
				"Items":      func() any { return l.WithItems(w.texts()...) },
				"Padding":    func() any { return l.WithScrollPadding(rapid.IntRange(0, 2).Draw(w.t, "p")) },
				"Direction":  func() any { return l.WithDirection(listwidget.DirectionBottomToTop) },
				"Spacing":    func() any { return l.WithHighlightSpacing(listwidget.HighlightSpacingAlways) },
				"Repeat":     func() any { return l.WithRepeatHighlightSymbol(true) },
				"HighStyle":  func() any { return l.WithHighlightStyle(style(w.t)) },
				"HighSymbol": func() any { return l.WithHighlightSymbol(word(w.t)) },
				"Style":      func() any { return l.WithStyle(style(w.t)) },
				"Block":      func() any { return l.WithBlock(block(w)) },
			}, "Items", "Items", "Padding", "Direction", "Spacing", "Repeat", "HighStyle", "HighSymbol", "Style", "Block")
		},
		func(v any) string {
			l := v.(listwidget.List)
			area, b := buffer()
			st := listwidget.NewState()
			st.Select(1)
			l.RenderStateful(area, b, &st)
			return dump(b)
		},
	},
	{
		"gauge",
		func(w *world) any { return gaugewidget.New() },
		func(w *world, v any) (any, string) {
			g := v.(gaugewidget.Gauge)
			return pick(w, map[string]func() any{
				"Ratio":      func() any { return g.WithRatio(rapid.Float64Range(0, 1).Draw(w.t, "r")) },
				"Percent":    func() any { return g.WithPercent(rapid.IntRange(0, 100).Draw(w.t, "p")) },
				"Label":      func() any { return g.WithLabel(span(w.t)) },
				"LabelStr":   func() any { return g.WithLabelStr(word(w.t)) },
				"Style":      func() any { return g.WithStyle(style(w.t)) },
				"GaugeStyle": func() any { return g.WithGaugeStyle(style(w.t)) },
				"Unicode":    func() any { return g.WithUnicode(true) },
			}, "Ratio", "Percent", "Label", "LabelStr", "Style", "GaugeStyle", "Unicode")
		},
		func(v any) string { return rendered(v.(gaugewidget.Gauge)) },
	},
	{
		"tabs",
		func(w *world) any { return tabswidget.New(w.lines()...) },
		func(w *world, v any) (any, string) {
			g := v.(tabswidget.Tabs)
			return pick(w, map[string]func() any{
				"Titles":       func() any { return g.WithTitles(w.lines()...) },
				"Select":       func() any { return g.Select(rapid.IntRange(0, 3).Draw(w.t, "i")) },
				"Unselect":     func() any { return g.Unselect() },
				"Style":        func() any { return g.WithStyle(style(w.t)) },
				"HighStyle":    func() any { return g.WithHighlightStyle(style(w.t)) },
				"Divider":      func() any { return g.WithDivider(span(w.t)) },
				"DividerStr":   func() any { return g.WithDividerStr(word(w.t)) },
				"PaddingLeft":  func() any { return g.WithPaddingLeft(w.line()) },
				"PaddingRight": func() any { return g.WithPaddingRight(w.line()) },
				"PaddingStr":   func() any { return g.WithPaddingLeftStr(word(w.t)).WithPaddingRightStr(word(w.t)) },
				"Block":        func() any { return g.WithBlock(block(w)) },
			}, "Titles", "Select", "Unselect", "Style", "HighStyle", "Divider", "DividerStr", "PaddingLeft", "PaddingRight", "PaddingStr", "Block")
		},
		func(v any) string { return rendered(v.(tabswidget.Tabs)) },
	},
	{
		"paragraph",
		func(w *world) any { return paragraphwidget.New(w.text()) },
		func(w *world, v any) (any, string) {
			p := v.(paragraphwidget.Paragraph)
			return pick(w, map[string]func() any{
				"Style":  func() any { return p.WithStyle(style(w.t)) },
				"Scroll": func() any { return p.WithScroll(rapid.IntRange(0, 2).Draw(w.t, "v"), 0) },
				"Right":  func() any { return p.Right() },
				"Left":   func() any { return p.Left() },
				"Center": func() any { return p.Center() },
				"Block":  func() any { return p.WithBlock(block(w)) },
				"Wrap":   func() any { return p.Wrapped() },
			}, "Style", "Scroll", "Right", "Left", "Center", "Block", "Wrap")
		},
		func(v any) string { p := v.(paragraphwidget.Paragraph); return rendered(&p) },
	},
	{
		"popup",
		func(w *world) any { return popupwidget.New() },
		func(w *world, v any) (any, string) {
			p := v.(popupwidget.Popup)
			return pick(w, map[string]func() any{
				"Style":   func() any { return p.WithStyle(style(w.t)) },
				"Height":  func() any { return p.WithHeight(constraint(w.t)) },
				"Width":   func() any { return p.WithWidth(constraint(w.t)) },
				"Padding": func() any { return p.WithPadding(pad(w.t)) },
				"Top":     func() any { return p.Top() },
				"Bottom":  func() any { return p.Bottom() },
				"Left":    func() any { return p.Left() },
				"Right":   func() any { return p.Right() },
				"Block":   func() any { return p.WithBlock(block(w)) },
			}, "Style", "Height", "Width", "Padding", "Top", "Bottom", "Left", "Right", "Block")
		},
		func(v any) string {
			p := v.(popupwidget.Popup)
			area, b := buffer()
			b.SetStyle(area, bento.NewStyle().Bold())
			p.Render(area, b)
			return dump(b) + fmt.Sprint(p.Inner(area))
		},
	},
	{
		"input",
		func(w *world) any { return inputwidget.New() },
		func(w *world, v any) (any, string) {
			p := v.(inputwidget.Input)
			return pick(w, map[string]func() any{
				"Prompt":           func() any { return p.WithPrompt(word(w.t)) },
				"PromptStyle":      func() any { return p.WithPromptStyle(style(w.t)) },
				"Block":            func() any { return p.WithBlock(blockwidget.New().Bordered()) },
				"Placeholder":      func() any { return p.WithPlaceholder(word(w.t)) },
				"PlaceholderStyle": func() any { return p.WithPlaceholderStyle(style(w.t)) },
				"CursorStyle":      func() any { return p.WithCursorStyle(style(w.t)) },
			}, "Prompt", "PromptStyle", "Block", "Placeholder", "PlaceholderStyle", "CursorStyle")
		},
		func(v any) string {
			p := v.(inputwidget.Input)
			area, b := buffer()
			st := inputwidget.NewState()
			p.RenderStateful(area, b, &st)
			return dump(b)
		},
	},
	{
		"style",
		func(w *world) any { return style(w.t) },
		func(w *world, v any) (any, string) {
			s := v.(bento.Style)
			return pick(w, map[string]func() any{
				"Fg":     func() any { return s.WithForeground(kit.Color().Draw(w.t, "c")) },
				"Bg":     func() any { return s.WithBackground(kit.Color().Draw(w.t, "c")) },
				"Mod":    func() any { return s.WithModifier(kit.Modifiers().Draw(w.t, "m")) },
				"NoMod":  func() any { return s.WithoutModifier(kit.Modifiers().Draw(w.t, "m")) },
				"Patch":  func() any { return s.Patched(style(w.t)) },
				"Red":    func() any { return s.Red() },
				"OnBlue": func() any { return s.OnBlue() },
				"Bold":   func() any { return s.Bold() },
			}, "Fg", "Bg", "Mod", "NoMod", "Patch", "Red", "OnBlue", "Bold")
		},
		func(v any) string { return txt.Sty(v.(bento.Style)) },
	},
	{
		"rect",
		func(w *world) any { return kit.Rect(9, 9).Draw(w.t, "rect") },
		func(w *world, v any) (any, string) {
			r := v.(bento.Rect)
			n := rapid.IntRange(0, 5).Draw(w.t, "n")
			return pick(w, map[string]func() any{
				"Positioned": func() any { return r.Positioned(n, n) },
				"Width":      func() any { return r.WithWidth(n) },
				"Height":     func() any { return r.WithHeight(n) },
				"Indent":     func() any { return r.IndentX(n) },
				"Inner":      func() any { return r.Inner(bento.NewPadding(n)) },
			}, "Positioned", "Width", "Height", "Indent", "Inner")
		},
		func(v any) string { return fmt.Sprint(v) },
	},
	{
		"padding",
		func(w *world) any { return pad(w.t) },
		func(w *world, v any) (any, string) {
			r := v.(bento.Padding)
			n := rapid.IntRange(0, 5).Draw(w.t, "n")
			return pick(w, map[string]func() any{
				"Top":    func() any { return r.WithTop(n) },
				"Right":  func() any { return r.WithRight(n) },
				"Bottom": func() any { return r.WithBottom(n) },
				"Left":   func() any { return r.WithLeft(n) },
			}, "Top", "Right", "Bottom", "Left")
		},
		func(v any) string { return fmt.Sprint(v) },
	},
}

type node struct {
	value any
	seen  string
	path  string
}

func property(t *rapid.T) {
	w := &world{t: t}
	k := kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
	root := k.make(w)
	nodes := []node{{root, k.observe(root), k.name}}

	var hist []string
	siblings := map[int]int{}
	shared := ""
	for i, n := 0, rapid.IntRange(2, 9).Draw(t, "calls"); i < n; i++ {
		from := rapid.IntRange(0, len(nodes)-1).Draw(t, "from")
		v, op := k.derive(w, nodes[from].value)
		hist = append(hist, fmt.Sprintf("#%d=#%d.%s", len(nodes), from, op))
		siblings[from]++
		if siblings[from] > 1 {
			shared = "sharedBase"
		}
		nodes = append(nodes, node{v, k.observe(v), nodes[from].path + "." + op})

		for j, nd := range nodes {
			if got := k.observe(nd.value); got != nd.seen {
				t.Fatalf("%s %s changed: value #%d (%s) was\n%.1500s\nis now\n%.1500s", k.name, strings.Join(hist, " "), j, nd.path, nd.seen, got)
			}
		}
		for _, p := range w.passed {
			if got := p.now(); got != p.then {
				t.Fatalf("%s %s changed a slice of %s passed in: was\n%s\nis now\n%s", k.name, strings.Join(hist, " "), p.what, p.then, got)
			}
		}
	}
	kit.Case(k.name+" "+nodes[0].seen[:min(80, len(nodes[0].seen))]+" "+strings.Join(hist, " "), shared != "", k.name, shared)
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
