// C18: tabs.
package c18

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/symbol"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const untouched = "q"

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var titles []textwidget.Line
		for i, n := 0, kit.UpTo(7).Draw(t, "titles"); i < n; i++ {
			titles = append(titles, txt.Line(2, kit.Printable(4)).Draw(t, "title"))
		}
		tabs := tabswidget.New(titles...)
		left, right, divider := textwidget.NewLineStr(" "), textwidget.NewLineStr(" "), textwidget.NewSpan(symbol.LineVertical)
		style, highlight := bento.NewStyle(), bento.NewStyle().Reversed()
		selected := -1
		block := false
		var log []string
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "setters"); i < n; i++ {
			switch rapid.IntRange(0, 8).Draw(t, "setter") {
			case 0:
				left = txt.Line(2, kit.Printable(2)).Draw(t, "left")
				tabs = tabs.WithPaddingLeft(left)
				log = append(log, "left "+txt.DescribeLine(left))
			case 1:
				right = txt.Line(2, kit.Printable(2)).Draw(t, "right")
				tabs = tabs.WithPaddingRight(right)
				log = append(log, "right "+txt.DescribeLine(right))
			case 2:
				l, r := kit.Printable(2).Draw(t, "leftStr"), kit.Printable(2).Draw(t, "rightStr")
				left, right = textwidget.NewLineStr(l), textwidget.NewLineStr(r)
				tabs = tabs.WithPaddingLeftStr(l).WithPaddingRightStr(r)
				log = append(log, fmt.Sprintf("paddings %q %q", l, r))
			case 3:
				divider = textwidget.NewSpan(kit.Printable(2).Draw(t, "divider")).WithStyle(txt.MaybeStyle().Draw(t, "dividerStyle"))
				tabs = tabs.WithDivider(divider)
				log = append(log, fmt.Sprintf("divider %q{%s}", divider.Content, txt.Sty(divider.Style)))
			case 4:
				style = kit.Style().Draw(t, "style")
				tabs = tabs.WithStyle(style)
				log = append(log, "style "+txt.Sty(style))
			case 5:
				highlight = kit.Style().Draw(t, "highlight")
				tabs = tabs.WithHighlightStyle(highlight)
				log = append(log, "highlight "+txt.Sty(highlight))
			case 6, 7:
				selected = rapid.IntRange(-1, len(titles)+1).Draw(t, "selected")
				tabs = tabs.Select(selected)
				log = append(log, fmt.Sprintf("select %d", selected))
			case 8:
				if rapid.Bool().Draw(t, "unselect") {
					selected = -1
					tabs = tabs.Unselect()
					log = append(log, "unselect")
				} else {
					block = true
					tabs = tabs.WithBlock(blockwidget.New().Bordered())
					log = append(log, "block")
				}
			}
		}
		if rapid.IntRange(0, 4).Draw(t, "retitle") == 3 {
			titles = nil
			for i, n := 0, kit.UpTo(7).Draw(t, "newTitles"); i < n; i++ {
				titles = append(titles, txt.Line(2, kit.Printable(4)).Draw(t, "newTitle"))
			}
			tabs = tabs.WithTitles(titles...)
		}
		area := bento.NewRect(kit.UpTo(40).Draw(t, "w"), kit.UpTo(3).Draw(t, "h")).Positioned(rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 2).Draw(t, "y"))
		if block {
			area.Width, area.Height = area.Width+2, area.Height+2
		}
		var ts []string
		for _, ti := range titles {
			ts = append(ts, txt.DescribeLine(ti))
		}
		desc := fmt.Sprintf("area=%v tabs [%s]: %s", area, strings.Join(ts, " "), strings.Join(log, "; "))

		buf := bento.NewBufferFilled(bento.NewRect(area.Right()+1, area.Bottom()+1), bento.NewCell(untouched))
		want := kit.Grid(&buf)
		kit.Rehearse(t, desc, tabs.Render)
		kit.Guard(desc, func() { tabs.Render(area, &buf) })
		inner := area
		if block {
			b := blockwidget.New().Bordered()
			wb := bento.NewBufferFilled(buf.Area(), bento.NewCell(untouched))
			wb.SetStyle(area, style)
			b.Render(area, &wb)
			want = kit.Grid(&wb)
			inner = b.Inner(area)
		} else {
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					want[y][x].SetStyle(style)
				}
			}
		}

		// One row of clusters.
		type glyph struct {
			c        txt.Cluster
			selected bool
		}
		var glyphs []glyph
		add := func(l textwidget.Line, sel bool) {
			cs, _ := txt.LineClusters(l)
			for _, c := range cs {
				glyphs = append(glyphs, glyph{c, sel})
			}
		}
		for i, ti := range titles {
			if i > 0 {
				add(textwidget.NewLine(divider), false)
			}
			add(left, false)
			add(ti, i == selected)
			add(right, false)
		}
		x, cut, lit := inner.Left(), false, false
		any := map[int]bool{}
		if !inner.IsEmpty() {
			for _, g := range glyphs {
				if x+g.c.Width > inner.Right() {
					// what fits behind a cluster that does not is not specified
					cut = true
					for ; x < inner.Right(); x++ {
						any[x] = true
					}
					break
				}
				cell := &want[inner.Y][x]
				cell.SetSymbol(g.c.Sym)
				for _, s := range g.c.Styles {
					cell.SetStyle(s)
				}
				for i := 1; i < g.c.Width; i++ {
					want[inner.Y][x+i] = bento.NewEmptyCell()
				}
				if g.selected {
					lit = true
					for i := 0; i < g.c.Width; i++ {
						want[inner.Y][x+i].SetStyle(highlight)
					}
				}
				x += g.c.Width
			}
		}
		for y, row := range kit.Grid(&buf) {
			for x, got := range row {
				if y == inner.Y && any[x] && inner.Contains(bento.NewPosition(x, y)) {
					continue
				}
				if got != want[y][x] {
					t.Fatalf("(%d,%d) is %+v, want %+v: %s\n%s", x, y, got, want[y][x], desc, kit.Dump(&buf))
				}
			}
		}
		kit.Case(desc, len(titles) > 1 && !inner.IsEmpty(), kit.Cls(cut, "cut at the edge"), kit.Cls(lit, "highlighted"))
	})
}
