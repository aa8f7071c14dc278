// C11: alignment and truncation of lines and texts.
package c11

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

type world struct {
	buf    bento.Buffer
	before [][]bento.Cell
	area   bento.Rect // requested, may reach beyond the buffer
	vis    bento.Rect // its part inside the buffer
}

func drawWorld(t *rapid.T) *world {
	return drawWorldOf(t, kit.AtLeast(1, 14).Draw(t, "bw"), kit.AtLeast(1, 4).Draw(t, "bh"))
}

func drawWorldOf(t *rapid.T, width, height int) *world {
	w := &world{}
	ba := bento.NewRect(width, height).
		Positioned(rapid.IntRange(0, 2).Draw(t, "bx"), rapid.IntRange(0, 2).Draw(t, "by"))
	w.buf = bento.NewBufferEmpty(ba)
	if rapid.Bool().Draw(t, "dirty") {
		// one-column symbols only: what lies under the text is not its business
		for y := ba.Top(); y < ba.Bottom(); y++ {
			for x := ba.Left(); x < ba.Right(); x++ {
				w.buf.CellAt(bento.NewPosition(x, y)).SetSymbol("~").SetStyle(bento.NewStyle().Green().Dim())
			}
		}
	}
	w.area = kit.Sub(ba).Draw(t, "area")
	if rapid.IntRange(0, 4).Draw(t, "beyond") == 0 {
		w.area.Width += rapid.IntRange(0, 5).Draw(t, "beyondX")
		w.area.Height += rapid.IntRange(0, 3).Draw(t, "beyondY")
	}
	w.vis = w.area.Intersection(ba)
	w.before = kit.Grid(&w.buf)
	return w
}

// expectLine checks one row of the visible area against a line. base are the
// styles below the line's own.
func (w *world) expectLine(t *rapid.T, y int, l textwidget.Line, align bento.Alignment, base []bento.Style, desc string) (cut bool) {
	ba := w.buf.Area()
	clusters, width := txt.LineClusters(l)
	indent, skip := txt.Window(width, w.vis.Width, align)

	type want struct {
		sym  string
		ss   []bento.Style
		tail bool
		any  bool
	}
	row := make([]want, w.vis.Width)
	for _, c := range clusters {
		from, to := c.Col-skip+indent, c.Col-skip+indent+c.Width
		if from < 0 || to > len(row) {
			cut = true
			for x := max(0, from); x < min(to, len(row)); x++ {
				row[x].any = true
			}
			continue
		}
		row[from] = want{sym: c.Sym, ss: c.Styles}
		for x := from + 1; x < to; x++ {
			row[x] = want{tail: true}
		}
	}
	for x, wt := range row {
		got := *w.buf.CellAt(bento.NewPosition(w.vis.X+x, y))
		was := w.before[y-ba.Y][w.vis.X+x-ba.X]
		where := fmt.Sprintf("column %d of row %d", w.vis.X+x, y)
		switch {
		case wt.tail:
			if got.Symbol != " " {
				t.Fatalf("%s: %q behind a wide cluster; %s\n%s", where, got.Symbol, desc, kit.Dump(&w.buf))
			}
		case wt.sym != "":
			if txt.Visible(got.Symbol) != wt.sym || txt.HasControl(got.Symbol) {
				t.Fatalf("%s shows %q, want %q; %s\n%s", where, got.Symbol, wt.sym, desc, kit.Dump(&w.buf))
			}
			exp := txt.Styled(txt.Styled(was, base...), wt.ss...)
			if !txt.SameLook(got, exp) {
				t.Fatalf("%s (%q) is styled %+v, want %+v; %s", where, wt.sym, got, exp, desc)
			}
		case wt.any:
			// half of a cluster that is not shown: blank or what was there
			if got.Symbol != was.Symbol && got.Symbol != " " {
				t.Fatalf("%s shows %q for a cut cluster; %s\n%s", where, got.Symbol, desc, kit.Dump(&w.buf))
			}
		default:
			exp := txt.Styled(was, base...)
			if got != exp {
				t.Fatalf("%s next to the text is %+v, want %+v; %s\n%s", where, got, exp, desc, kit.Dump(&w.buf))
			}
		}
	}
	return cut
}

func (w *world) expectRest(t *rapid.T, rows int, base []bento.Style, desc string) {
	ba := w.buf.Area()
	for y := ba.Top(); y < ba.Bottom(); y++ {
		for x := ba.Left(); x < ba.Right(); x++ {
			p := bento.NewPosition(x, y)
			exp := w.before[y-ba.Y][x-ba.X]
			if w.vis.Contains(p) {
				if y < w.vis.Y+rows {
					continue
				}
				exp = txt.Styled(exp, base...)
			}
			if got := *w.buf.CellAt(p); got != exp {
				t.Fatalf("cell (%d,%d) is %+v, want %+v; %s", x, y, got, exp, desc)
			}
		}
	}
	if err := kit.CheckWellFormed(&w.buf); err != nil {
		t.Fatalf("%v; %s", err, desc)
	}
	for _, row := range kit.Grid(&w.buf) {
		for x, c := range row {
			if kit.Width(c.Symbol) == 0 {
				t.Fatalf("column %d holds %q, which takes no column; %s", x, c.Symbol, desc)
			}
		}
	}
}

func content() *rapid.Generator[string] {
	return rapid.OneOf(kit.Printable(8), kit.Printable(8), kit.Messy(8))
}

func TestText(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var w *world
		text := txt.Text(4, 3, content()).Draw(t, "text")
		if kit.Rarely(t, 7, "huge") && len(text.Lines) > 0 {
			// many lines, or a long one, on a screen that has room for them
			n := rapid.IntRange(100, 300).Draw(t, "n")
			if rapid.Bool().Draw(t, "tall") {
				for i := 0; len(text.Lines) < n; i++ {
					text.Lines = append(text.Lines, text.Lines[i])
				}
				w = drawWorldOf(t, rapid.IntRange(1, 6).Draw(t, "bw"), rapid.IntRange(100, 300).Draw(t, "bh"))
			} else {
				for i := range text.Lines {
					for j := 0; len(text.Lines[i].Spans) > 0 && len(text.Lines[i].Spans) < n; j++ {
						text.Lines[i].Spans = append(text.Lines[i].Spans, text.Lines[i].Spans[j])
					}
				}
				w = drawWorldOf(t, rapid.IntRange(100, 500).Draw(t, "bw"), rapid.IntRange(1, 3).Draw(t, "bh"))
			}
		} else {
			w = drawWorld(t)
		}
		desc := fmt.Sprintf("area=%v in %v %s", w.area, w.buf.Area(), txt.Describe(text))
		kit.Rehearse(t, desc, text.Render)
		kit.Guard(desc, func() { text.Render(w.area, &w.buf) })

		rows := min(len(text.Lines), w.vis.Height)
		cut, aligned := false, false
		for i := 0; i < rows; i++ {
			l := text.Lines[i]
			a := l.Alignment
			if a == bento.AlignmentNone {
				a = text.Alignment
			}
			_, lw := txt.LineClusters(l)
			aligned = aligned || (a > bento.AlignmentLeft && lw > 0 && lw < w.vis.Width)
			cut = w.expectLine(t, w.vis.Y+i, l, a, []bento.Style{text.Style}, desc) || cut
		}
		w.expectRest(t, rows, []bento.Style{text.Style}, desc)
		kit.Case(desc, rows > 0 && w.vis.Width > 0, kit.Cls(cut, "truncated"), kit.Cls(aligned, "indented"), kit.Cls(len(text.Lines) > rows, "lines dropped"))
	})
}

func TestLine(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := drawWorld(t)
		l := txt.Line(4, content()).Draw(t, "line")
		desc := fmt.Sprintf("area=%v in %v %s", w.area, w.buf.Area(), txt.DescribeLine(l))
		kit.Rehearse(t, desc, l.Render)
		kit.Guard(desc, func() { l.Render(w.area, &w.buf) })
		// its clusters, one by one
		base := txt.MaybeStyle().Draw(t, "base")
		var gs []textwidget.StyledGrapheme
		kit.Guard(desc, func() { gs = l.StyledGraphemes(base) })
		clusters, _ := txt.LineClusters(l)
		k := 0
		for _, g := range gs {
			if kit.Width(g.String()) == 0 {
				continue
			}
			if k == len(clusters) || g.String() != clusters[k].Sym || g.Width() != clusters[k].Width {
				t.Fatalf("cluster %d is %q of %d columns, want one of %v; %s", k, g.String(), g.Width(), clusters, desc)
			}
			blank := bento.NewEmptyCell()
			if got, want := txt.Styled(blank, g.Style), txt.Styled(txt.Styled(blank, base), clusters[k].Styles...); got != want {
				t.Fatalf("cluster %d (%q) is styled %+v over %s, want %+v; %s", k, g.String(), got, txt.Sty(base), want, desc)
			}
			k++
		}
		if k != len(clusters) {
			t.Fatalf("%d clusters, want %d; %s", k, len(clusters), desc)
		}
		cut := false
		if w.vis.Height > 0 {
			cut = w.expectLine(t, w.vis.Y, l, l.Alignment, nil, desc)
		}
		w.expectRest(t, min(1, w.vis.Height), nil, desc)
		kit.Case(desc, len(l.Spans) > 0 && !w.vis.IsEmpty(), kit.Cls(cut, "truncated"))
	})
}

func TestSpan(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := drawWorld(t)
		s := textwidget.NewSpan(content().Draw(t, "content")).WithStyle(txt.MaybeStyle().Draw(t, "style"))
		desc := fmt.Sprintf("area=%v in %v span %q %s", w.area, w.buf.Area(), s.Content, txt.Sty(s.Style))
		kit.Rehearse(t, desc, s.Render)
		kit.Guard(desc, func() { s.Render(w.area, &w.buf) })
		cut := false
		if w.vis.Height > 0 {
			cut = w.expectLine(t, w.vis.Y, textwidget.NewLine(s), bento.AlignmentLeft, nil, desc)
		}
		w.expectRest(t, min(1, w.vis.Height), nil, desc)
		kit.Case(desc, s.Content != "" && !w.vis.IsEmpty(), kit.Cls(cut, "truncated"))
	})
}

// Printing at a position with a budget: spans follow one another, each cut at
// what the budget leaves.
func TestPrint(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := drawWorld(t)
		ba := w.buf.Area()
		l := txt.Line(3, content()).Draw(t, "line")
		x := rapid.IntRange(ba.Left(), ba.Right()-1).Draw(t, "x")
		y := rapid.IntRange(ba.Top(), ba.Bottom()-1).Draw(t, "y")
		budget := kit.UpTo(14).Draw(t, "budget")
		asSpan := rapid.Bool().Draw(t, "asSpan")
		if asSpan && len(l.Spans) > 0 {
			l = textwidget.NewLine(l.Spans[0])
		}
		desc := fmt.Sprintf("print at (%d,%d) budget=%d in %v %s", x, y, budget, ba, txt.DescribeLine(l))

		want := w.before
		cx, left := x, min(budget, ba.Right()-x)
		for _, s := range l.Spans {
			for _, c := range kit.Clusters(s.Content) {
				cw := kit.Width(c)
				if cw == 0 {
					continue
				}
				if cw > left {
					break
				}
				cell := &want[y-ba.Y][cx-ba.X]
				cell.SetSymbol(c).SetStyle(l.Style).SetStyle(s.Style)
				for i := 1; i < cw; i++ {
					want[y-ba.Y][cx+i-ba.X] = bento.NewEmptyCell()
				}
				cx += cw
				left -= cw
			}
		}
		var gx, gy int
		kit.Guard(desc, func() {
			if asSpan && len(l.Spans) > 0 {
				gx, gy = l.Spans[0].Print(&w.buf, x, y, budget)
			} else {
				gx, gy = l.Print(&w.buf, x, y, budget)
			}
		})
		if gx != cx || gy != y {
			t.Fatalf("returned (%d,%d), want (%d,%d); %s", gx, gy, cx, y, desc)
		}
		for r, row := range kit.Grid(&w.buf) {
			for c, got := range row {
				if got != want[r][c] {
					t.Fatalf("cell (%d,%d) is %+v, want %+v; %s", ba.X+c, ba.Y+r, got, want[r][c], desc)
				}
			}
		}
		kit.Case(desc, cx > x)
	})
}

// A buffer made of lines holds them from its left edge, whatever their
// alignment, and is just as large as they need.
func TestBuffer(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		n := kit.UpTo(4).Draw(t, "lines")
		var ls []textwidget.Line
		var parts []string
		width := 0
		for i := 0; i < n; i++ {
			l := txt.Line(3, content()).Draw(t, "line")
			ls = append(ls, l)
			parts = append(parts, txt.DescribeLine(l))
			width = max(width, l.Width())
		}
		desc := fmt.Sprintf("buffer of %s", strings.Join(parts, " / "))
		var buf bento.Buffer
		kit.Guard(desc, func() { buf = textwidget.NewLines(ls...).NewBuffer() })
		if want := bento.NewRect(width, n); buf.Area() != want {
			t.Fatalf("the buffer covers %v, want %v; %s", buf.Area(), want, desc)
		}
		for y, l := range ls {
			var row []bento.Cell
			for _, s := range l.Spans {
				for _, c := range kit.Clusters(s.Content) {
					if kit.Width(c) == 0 {
						continue
					}
					cell := bento.NewEmptyCell()
					cell.SetSymbol(c).SetStyle(l.Style).SetStyle(s.Style)
					row = append(row, cell)
					for i := 1; i < kit.Width(c); i++ {
						row = append(row, bento.NewEmptyCell())
					}
				}
			}
			for x := 0; x < width; x++ {
				want := bento.NewEmptyCell()
				if x < len(row) {
					want = row[x]
				}
				if got := *buf.CellAt(bento.NewPosition(x, y)); got != want {
					t.Fatalf("cell (%d,%d) is %+v, want %+v; %s", x, y, got, want, desc)
				}
			}
		}
		kit.Case(desc, width > 0 && n > 0, kit.Cls(n > 1, "several lines"))
	})
}

// TestSetters: what a setter names is what it sets, and nothing else.
func TestSetters(t *testing.T) {
	align := func(t *rapid.T) (bento.Alignment, int) {
		how := rapid.IntRange(0, 6).Draw(t, "how")
		switch how {
		case 0:
			return bento.AlignmentLeft, how
		case 1:
			return bento.AlignmentCenter, how
		case 2:
			return bento.AlignmentRight, how
		}
		return txt.Alignment().Draw(t, "align"), how
	}
	rapid.Check(t, func(t *rapid.T) {
		span, wantSpan := textwidget.NewSpan("a"), textwidget.Span{Content: "a"}
		line, text := textwidget.NewLine(), textwidget.NewText()
		var wantLine textwidget.Line
		var wantText textwidget.Text
		var log []string
		check := func(f string, args ...any) {
			log = append(log, fmt.Sprintf(f, args...))
			desc := strings.Join(log, "; ")
			if span.Content != wantSpan.Content || line.Alignment != wantLine.Alignment || text.Alignment != wantText.Alignment || len(line.Spans) != len(wantLine.Spans) || len(text.Lines) != len(wantText.Lines) {
				t.Fatalf("span %q, line aligned %d with %d spans, text aligned %d with %d lines; after %s", span.Content, line.Alignment, len(line.Spans), text.Alignment, len(text.Lines), desc)
			}
			for _, s := range [][2]bento.Style{{span.Style, wantSpan.Style}, {line.Style, wantLine.Style}, {text.Style, wantText.Style}} {
				if got, want := txt.Styled(bento.NewEmptyCell(), s[0]), txt.Styled(bento.NewEmptyCell(), s[1]); got != want {
					t.Fatalf("the style gives %+v, want %+v; after %s", got, want, desc)
				}
			}
			for i, s := range line.Spans {
				if s.Content != wantLine.Spans[i].Content {
					t.Fatalf("span %d is %q; after %s", i, s.Content, desc)
				}
			}
		}
		n := rapid.IntRange(1, 8).Draw(t, "setters")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 7).Draw(t, "setter") {
			case 0:
				wantSpan.Style = kit.Style().Draw(t, "style")
				span = span.WithStyle(wantSpan.Style)
				check("span style %s", txt.Sty(wantSpan.Style))
			case 1:
				s := kit.Style().Draw(t, "style")
				wantSpan.Style = wantSpan.Style.Patched(s)
				span = span.WithStylePatch(s)
				check("span patch %s", txt.Sty(s))
			case 2:
				wantLine.Style = kit.Style().Draw(t, "style")
				line = line.WithStyle(wantLine.Style)
				check("line style %s", txt.Sty(wantLine.Style))
			case 3:
				a, how := align(t)
				wantLine.Alignment = a
				switch how {
				case 0:
					line = line.Left()
				case 1:
					line = line.Center()
				case 2:
					line = line.Right()
				default:
					line = line.WithAlignment(a)
				}
				check("line align %d", a)
			case 4:
				wantText.Style = kit.Style().Draw(t, "style")
				text = text.WithStyle(wantText.Style)
				check("text style %s", txt.Sty(wantText.Style))
			case 5:
				a, how := align(t)
				wantText.Alignment = a
				switch how {
				case 0:
					text = text.Left()
				case 1:
					text = text.Center()
				case 2:
					text = text.Right()
				default:
					text = text.WithAlignment(a)
				}
				check("text align %d", a)
			case 6:
				s := kit.Printable(3).Draw(t, "content")
				wantLine.Spans = append(wantLine.Spans, textwidget.Span{Content: s})
				if rapid.Bool().Draw(t, "str") {
					line = line.WithSpansStr(s)
				} else {
					line = line.WithSpans(textwidget.NewSpan(s))
				}
				check("span %q", s)
			case 7:
				wantText.Lines = append(wantText.Lines, wantLine)
				text = text.WithLines(line)
				check("line")
				if got := text.Lines[len(text.Lines)-1].Alignment; got != wantLine.Alignment {
					t.Fatalf("the line is aligned %d in the text", got)
				}
			}
		}
		kit.Case("setters: "+strings.Join(log, "; "), n > 2, "setters")
	})
}

// TestZeroWidth: clusters without width keep to the visible one before them, or
// to the first; each is shown once.
func TestZeroWidth(t *testing.T) {
	piece := rapid.SampledFrom([]string{"a", "b", "世", "é", "ñ", "👍", "\u200b", "\u2060", "\ufeff", "\u200b"})
	rapid.Check(t, func(t *rapid.T) {
		content := strings.Join(rapid.SliceOfN(piece, 0, 8).Draw(t, "pieces"), "")
		s := textwidget.NewSpan(content).WithStyle(txt.MaybeStyle().Draw(t, "style"))
		area := bento.NewRect(rapid.IntRange(0, 10).Draw(t, "w"), 1).Positioned(rapid.IntRange(0, 2).Draw(t, "x"), 0)
		buf := bento.NewBufferEmpty(bento.NewRect(14, 1))
		desc := fmt.Sprintf("area=%v span %q", area, content)
		kit.Guard(desc, func() { s.Render(area, &buf) })
		want := make([]string, 14)
		for x := range want {
			want[x] = " "
		}
		prefix, last, x := "", -1, area.X
		for _, c := range kit.Clusters(content) {
			w := kit.Width(c)
			if x+w > area.Right() {
				break
			}
			switch {
			case w > 0:
				want[x], last, prefix = prefix+c, x, ""
				x += w
			case last < 0:
				prefix += c
			default:
				want[last] += c
			}
		}
		for x, c := range want {
			if got := buf.CellAt(bento.NewPosition(x, 0)).Symbol; got != c {
				t.Fatalf("column %d shows %q, want %q; %s\n%s", x, got, c, desc, kit.Dump(&buf))
			}
		}
		kit.Case(desc, last >= 0 && strings.ContainsAny(content, "\u200b\u2060\ufeff"), "zero width")
	})
}
