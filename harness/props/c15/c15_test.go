// C15: blocks, their borders, titles and inner area.
package c15

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// Border symbols as documented by their names: corners TL TR BL BR, then the
// horizontal and the vertical line.
var sets = map[blockwidget.BorderType][6]string{
	blockwidget.BorderTypeSharp:   {"┌", "┐", "└", "┘", "─", "│"},
	blockwidget.BorderTypeRounded: {"╭", "╮", "╰", "╯", "─", "│"},
	blockwidget.BorderTypeDouble:  {"╔", "╗", "╚", "╝", "═", "║"},
	blockwidget.BorderTypeThick:   {"┏", "┓", "┗", "┛", "━", "┃"},
}

type title struct {
	t     blockwidget.Title
	own   bento.Alignment
	at    *blockwidget.TitlePosition
	pos   blockwidget.TitlePosition
	align bento.Alignment
}

// edges are the sides of a block, apart from how the code encodes them.
type edges uint8

const (
	topEdge edges = 1 << iota
	rightEdge
	bottomEdge
	leftEdge
	allEdges = topEdge | rightEdge | bottomEdge | leftEdge
)

type sideChoice struct {
	side  blockwidget.Side
	edges edges
}

var sideChoices = []sideChoice{
	{blockwidget.SideTop, topEdge}, {blockwidget.SideRight, rightEdge},
	{blockwidget.SideBottom, bottomEdge}, {blockwidget.SideLeft, leftEdge},
	{blockwidget.SideTop | blockwidget.SideBottom, topEdge | bottomEdge},
	{blockwidget.SideLeft | blockwidget.SideRight, leftEdge | rightEdge},
	{blockwidget.SideNone, 0}, {blockwidget.SideAll, allEdges},
}

type block struct {
	b           blockwidget.Block
	sides       edges
	typ         blockwidget.BorderType
	style       bento.Style
	borderStyle bento.Style
	titlesStyle bento.Style
	titles      []title
	padding     bento.Padding
	desc        string
}

func drawBlock(t *rapid.T) *block {
	b := &block{b: blockwidget.New(), typ: blockwidget.BorderTypeSharp}
	var log []string
	note := func(format string, args ...any) { log = append(log, fmt.Sprintf(format, args...)) }

	type setter func()
	var titlesAlign bento.Alignment = bento.AlignmentLeft
	var titlesPos blockwidget.TitlePosition
	setters := []setter{
		func() {
			switch rapid.IntRange(0, 3).Draw(t, "borders") {
			case 0:
				b.b, b.sides = b.b.Bordered(), allEdges
				note("bordered")
			case 1:
				b.b, b.sides = b.b.WithBorderSides(), allEdges
				note("all sides")
			default:
				b.sides = 0
				var ss []blockwidget.Side
				for _, side := range rapid.SliceOfN(rapid.SampledFrom(sideChoices), 1, 3).Draw(t, "sides") {
					ss = append(ss, side.side)
					b.sides |= side.edges
				}
				b.b = b.b.WithBorderSides(ss...)
				note("sides %04b", b.sides)
			}
		},
		func() {
			b.typ = rapid.SampledFrom([]blockwidget.BorderType{blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick}).Draw(t, "type")
			note("type %d", b.typ)
			if rapid.Bool().Draw(t, "byName") {
				switch b.typ {
				case blockwidget.BorderTypeSharp:
					b.b = b.b.Sharp()
				case blockwidget.BorderTypeRounded:
					b.b = b.b.Rounded()
				case blockwidget.BorderTypeDouble:
					b.b = b.b.Double()
				default:
					b.b = b.b.Thick()
				}
			} else {
				b.b = b.b.WithBorderType(b.typ)
			}
		},
		func() {
			b.style = kit.Style().Draw(t, "style")
			note("style %s", txt.Sty(b.style))
			b.b = b.b.WithStyle(b.style)
		},
		func() {
			b.borderStyle = kit.Style().Draw(t, "borderStyle")
			note("border style %s", txt.Sty(b.borderStyle))
			b.b = b.b.WithBorderStyle(b.borderStyle)
		},
		func() {
			b.titlesStyle = kit.Style().Draw(t, "titlesStyle")
			note("titles style %s", txt.Sty(b.titlesStyle))
			b.b = b.b.WithTitlesStyle(b.titlesStyle)
		},
		func() {
			titlesAlign = rapid.SampledFrom([]bento.Alignment{bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}).Draw(t, "titlesAlign")
			note("titles align %d", titlesAlign)
			b.b = b.b.WithTitlesAlignment(titlesAlign)
		},
		func() {
			titlesPos = rapid.SampledFrom([]blockwidget.TitlePosition{blockwidget.TitlePositionTop, blockwidget.TitlePositionBottom}).Draw(t, "titlesPos")
			note("titles at %d", titlesPos)
			b.b = b.b.WithTitlePosition(titlesPos)
		},
		func() {
			b.padding = bento.NewPadding(kit.UpTo(3).Draw(t, "padV"), kit.UpTo(3).Draw(t, "padH"))
			if rapid.Bool().Draw(t, "uneven") {
				b.padding = bento.Padding{Top: kit.UpTo(3).Draw(t, "pt"), Right: kit.UpTo(3).Draw(t, "pr"), Bottom: kit.UpTo(3).Draw(t, "pb"), Left: kit.UpTo(3).Draw(t, "pl")}
			}
			note("padding %+v", b.padding)
			b.b = b.b.WithPadding(b.padding)
		},
	}
	titleSetter := func() {
		var ti blockwidget.Title
		// what the title says of itself, if anything
		own := bento.AlignmentNone
		var at *blockwidget.TitlePosition
		if rapid.IntRange(0, 3).Draw(t, "plainTitle") == 2 {
			s := kit.Printable(5).Draw(t, "title")
			ti = blockwidget.NewTitleStr(s)
			b.b = b.b.WithTitleStr(s)
			note("title %q", s)
		} else {
			l := txt.Line(2, kit.Printable(4)).Draw(t, "titleLine")
			ti = blockwidget.NewTitle(l)
			switch rapid.IntRange(0, 6).Draw(t, "titleAlign") {
			case 1:
				ti, own = ti.Left(), bento.AlignmentLeft
			case 2:
				ti, own = ti.Center(), bento.AlignmentCenter
			case 3:
				ti, own = ti.Right(), bento.AlignmentRight
			case 4:
				own = rapid.SampledFrom([]bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight}).Draw(t, "titleOwn")
				ti = ti.WithAlignment(own)
			}
			p := rapid.IntRange(0, 5).Draw(t, "titlePos")
			if p > 0 && p < 5 {
				v := blockwidget.TitlePositionTop
				if p%2 == 0 {
					v = blockwidget.TitlePositionBottom
				}
				at = &v
			}
			switch p {
			case 1:
				ti = ti.Top()
			case 2:
				ti = ti.Bottom()
			case 3, 4:
				ti = ti.WithPosition(*at)
			}
			b.b = b.b.WithTitle(ti)
			note("title align=%d bottom=%v %s", own, at != nil && *at == blockwidget.TitlePositionBottom, txt.DescribeLine(l))
		}
		b.titles = append(b.titles, title{t: ti, own: own, at: at})
	}
	for i, n := 0, rapid.IntRange(0, 8).Draw(t, "setters"); i < n; i++ {
		if k := rapid.IntRange(0, len(setters)+3).Draw(t, "setter"); k < len(setters) {
			setters[k]()
		} else {
			titleSetter()
		}
	}
	for i := range b.titles {
		ti := &b.titles[i]
		ti.pos, ti.align = titlesPos, titlesAlign
		if ti.at != nil {
			ti.pos = *ti.at
		}
		if ti.own != bento.AlignmentNone {
			ti.align = ti.own
			ti.t.Line.Alignment = ti.own
		}
	}
	b.desc = strings.Join(log, "; ")
	return b
}

func (b *block) has(s edges) bool { return b.sides&s != 0 }

// wantInner is the inner area by its sides.
func (b *block) wantInner(a bento.Rect) (x1, y1, x2, y2 int) {
	x1, y1, x2, y2 = a.Left(), a.Top(), a.Right(), a.Bottom()
	top, bottom := b.has(topEdge), b.has(bottomEdge)
	for _, ti := range b.titles {
		if ti.pos == blockwidget.TitlePositionTop {
			top = true
		} else {
			bottom = true
		}
	}
	if b.has(leftEdge) {
		x1++
	}
	if b.has(rightEdge) {
		x2--
	}
	if top {
		y1++
	}
	if bottom {
		y2--
	}
	return x1 + b.padding.Left, y1 + b.padding.Top, x2 - b.padding.Right, y2 - b.padding.Bottom
}

type want struct {
	syms   []string // acceptable symbols
	styles []bento.Style
	any    bool // not checked
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		b := drawBlock(t)
		area := bento.NewRect(kit.UpTo(24).Draw(t, "w"), kit.UpTo(6).Draw(t, "h")).Positioned(rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 2).Draw(t, "y"))
		desc := fmt.Sprintf("area=%v block: %s", area, b.desc)

		buf := bento.NewBufferEmpty(bento.NewRect(area.Right()+1, area.Bottom()+1))
		if rapid.Bool().Draw(t, "dirty") {
			for y := 0; y < buf.Area().Height; y++ {
				for x := 0; x < buf.Area().Width; x++ {
					buf.CellAt(bento.NewPosition(x, y)).SetSymbol("q").SetStyle(bento.NewStyle().Green().Dim())
				}
			}
		}
		before := kit.Grid(&buf)
		kit.Rehearse(t, desc, b.b.Render)
		var inner bento.Rect
		kit.Guard(desc, func() {
			inner = b.b.Inner(area)
			b.b.Render(area, &buf)
		})

		// The inner area.
		x1, y1, x2, y2 := b.wantInner(area)
		if x1 >= x2 || y1 >= y2 {
			if !inner.IsEmpty() {
				t.Fatalf("inner area is %v, want an empty one: %s", inner, desc)
			}
		} else if got := [4]int{inner.Left(), inner.Top(), inner.Right(), inner.Bottom()}; got != [4]int{x1, y1, x2, y2} {
			t.Fatalf("inner area spans %v, want %v: %s", got, [4]int{x1, y1, x2, y2}, desc)
		}

		// Borders.
		wants := make([][]want, area.Height)
		for y := range wants {
			wants[y] = make([]want, area.Width)
			for x := range wants[y] {
				w := &wants[y][x]
				l, r := x == 0 && b.has(leftEdge), x == area.Width-1 && b.has(rightEdge)
				u, d := y == 0 && b.has(topEdge), y == area.Height-1 && b.has(bottomEdge)
				s := sets[b.typ]
				for i, c := range []bool{l && u, r && u, l && d, r && d} {
					if c {
						w.syms = append(w.syms, s[i])
					}
				}
				if len(w.syms) == 0 {
					if u || d {
						w.syms = append(w.syms, s[4])
					}
					if l || r {
						w.syms = append(w.syms, s[5])
					}
				}
				if len(w.syms) > 0 {
					w.styles = append(w.styles, b.borderStyle)
				}
			}
		}

		// Titles: right ones, over them the centred ones, over them the left
		// ones; the bottom row last.
		clipped, overlap := false, false
		if !area.IsEmpty() {
			lead := 0
			room := area.Width
			if b.has(leftEdge) {
				lead++
				room--
			}
			if b.has(rightEdge) {
				room--
			}
			room = max(0, room)
			for _, pos := range []blockwidget.TitlePosition{blockwidget.TitlePositionTop, blockwidget.TitlePositionBottom} {
				y := 0
				if pos == blockwidget.TitlePositionBottom {
					y = area.Height - 1
				}
				taken := make([]bool, room)
				if pos == blockwidget.TitlePositionBottom && y == 0 {
					for _, ti := range b.titles {
						if ti.pos == blockwidget.TitlePositionTop {
							for i := range taken {
								taken[i] = true
							}
						}
					}
				}
				for _, align := range []bento.Alignment{bento.AlignmentRight, bento.AlignmentCenter, bento.AlignmentLeft} {
					var group []title
					total := -1
					for _, ti := range b.titles {
						if ti.pos == pos && ti.align == align {
							group = append(group, ti)
							_, w := txt.LineClusters(ti.t.Line)
							total += w + 1
						}
					}
					x, end := 0, room
					switch align {
					case bento.AlignmentCenter:
						x = max(0, room-total) / 2
					case bento.AlignmentRight:
						slices.Reverse(group)
					}
					var mine []bool = make([]bool, room)
					for _, ti := range group {
						clusters, tw := txt.LineClusters(ti.t.Line)
						at, w := x, 0
						if align == bento.AlignmentRight {
							w = max(0, min(tw, end))
							at = end - w
							end -= tw + 1
						} else {
							w = max(0, min(tw, room-x))
							x += tw + 1
						}
						if w <= 0 {
							continue
						}
						_, skip := txt.Window(tw, w, ti.t.Line.Alignment)
						clipped = clipped || w < tw
						for i := at; i < at+w; i++ {
							wt := &wants[y][lead+i]
							wt.styles = append(wt.styles, b.titlesStyle)
							mine[i] = true
							if taken[i] {
								overlap = true
							}
							if w < tw {
								// may be half of a cluster
								wt.any = true
							}
						}
						for _, c := range clusters {
							from := c.Col - skip
							if from < 0 || from+c.Width > w {
								continue
							}
							for i := from; i < from+c.Width; i++ {
								wt := &wants[y][lead+at+i]
								wt.any = i > from // behind a wide cluster
								if i == from {
									wt.syms = []string{c.Sym}
									wt.styles = append(wt.styles, c.Styles...)
								}
							}
						}
					}
					for i, m := range mine {
						taken[i] = taken[i] || m
					}
				}
			}
		}

		for y := range before {
			for x := range before[y] {
				p := bento.NewPosition(x, y)
				got, was := *buf.CellAt(p), before[y][x]
				if !area.Contains(p) {
					if got != was {
						t.Fatalf("(%d,%d) outside of the block changed: %s", x, y, desc)
					}
					continue
				}
				w := wants[y-area.Y][x-area.X]
				titleRow := y == area.Top() || y == area.Bottom()-1
				if w.any || (overlap && titleRow && wide(b)) {
					continue
				}
				exp := txt.Styled(txt.Styled(was, b.style), w.styles...)
				if len(w.syms) > 0 {
					if !slices.Contains(w.syms, got.Symbol) {
						t.Fatalf("(%d,%d) shows %q, want %q: %s\n%s", x, y, got.Symbol, w.syms, desc, kit.Dump(&buf))
					}
					exp.Symbol = got.Symbol
				}
				if got != exp {
					t.Fatalf("(%d,%d) is %+v, want %+v: %s\n%s", x, y, got, exp, desc, kit.Dump(&buf))
				}
			}
		}
		kit.Case(desc, !area.IsEmpty() && (b.sides != 0 || len(b.titles) > 0), kit.Cls(len(b.titles) > 1, "several titles"), kit.Cls(clipped, "title clipped"), kit.Cls(overlap, "titles overlap"), kit.Cls(area.Width == 1 || area.Height == 1, "one row or column"))
	})
}

// wide reports a title with a wide cluster, which an overlapping one may cut.
func wide(b *block) bool {
	for _, ti := range b.titles {
		cs, _ := txt.LineClusters(ti.t.Line)
		for _, c := range cs {
			if c.Width > 1 {
				return true
			}
		}
	}
	return false
}

// borderSet derives a set of border symbols part by part.
func borderSet(t *rapid.T) {
	typ := rapid.SampledFrom([]blockwidget.BorderType{
		blockwidget.BorderTypeSharp, blockwidget.BorderTypeRounded, blockwidget.BorderTypeDouble, blockwidget.BorderTypeThick,
	}).Draw(t, "type")
	base := typ.Set()
	set, want := base, base
	desc := fmt.Sprintf("type=%d", typ)
	n := rapid.IntRange(1, 8).Draw(t, "setters")
	for i := 0; i < n; i++ {
		sym := kit.Cluster().Draw(t, "symbol")
		k := rapid.IntRange(0, 7).Draw(t, "part")
		desc += fmt.Sprintf(" %d=%q", k, sym)
		switch k {
		case 0:
			set, want.TopLeft = set.WithTopLeft(sym), sym
		case 1:
			set, want.TopRight = set.WithTopRight(sym), sym
		case 2:
			set, want.BottomLeft = set.WithBottomLeft(sym), sym
		case 3:
			set, want.BottomRight = set.WithBottomRight(sym), sym
		case 4:
			set, want.VerticalLeft = set.WithVerticalLeft(sym), sym
		case 5:
			set, want.VerticalRight = set.WithVerticalRight(sym), sym
		case 6:
			set, want.HorizontalTop = set.WithHorizontalTop(sym), sym
		case 7:
			set, want.HorizontalBottom = set.WithHorizontalBottom(sym), sym
		}
	}
	kit.Case(desc, n > 1)
	if set != want {
		t.Fatalf("set is %+v, want %+v: %s", set, want, desc)
	}
	if again := typ.Set(); again != base {
		t.Fatalf("symbols of the type changed from %+v to %+v: %s", base, again, desc)
	}
}

func TestBorderSet(t *testing.T) { rapid.Check(t, borderSet) }
