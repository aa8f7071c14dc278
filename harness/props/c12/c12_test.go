// C12: paragraphs, wrapped and truncated.
package c12

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// cluster is one grapheme cluster of a line.
type cluster struct {
	sym   string
	width int
	space bool // a place to break at
}

// line is a line as clusters with cuts into spans.
type line struct {
	cs    []cluster
	cut   []bool // a span starts at the cluster
	spans []bento.Style
	style bento.Style
	align bento.Alignment
}

func drawClusters(t *rapid.T, long bool) []cluster {
	var cs []cluster
	add := func(sym string, space bool) {
		cs = append(cs, cluster{sym, kit.Width(sym), space})
	}
	word := func() {
		n := rapid.IntRange(1, 5).Draw(t, "word")
		if rapid.IntRange(0, 9).Draw(t, "longWord") == 5 {
			n += rapid.IntRange(4, 20).Draw(t, "extra")
		}
		for i := 0; i < n; i++ {
			sym := kit.Cluster().Draw(t, "sym")
			if rapid.IntRange(0, 14).Draw(t, "nbsp") == 7 {
				sym = "\u00a0"
			}
			add(sym, false)
		}
	}
	space := func() {
		n := 1
		if rapid.IntRange(0, 3).Draw(t, "spaces") == 2 {
			n = rapid.IntRange(2, 12).Draw(t, "more")
		}
		for i := 0; i < n; i++ {
			add(rapid.SampledFrom([]string{" ", " ", " ", " ", "\u3000", "\u2003", "\u200b"}).Draw(t, "space"), true)
		}
	}
	limit := 5
	if long {
		limit = 14
	}
	n := rapid.IntRange(0, limit).Draw(t, "tokens")
	spaceNext := rapid.IntRange(0, 2).Draw(t, "indent") == 1
	for i := 0; i < n; i++ {
		if spaceNext {
			space()
		} else {
			word()
		}
		spaceNext = !spaceNext
	}
	return cs
}

func drawLine(t *rapid.T, long bool) line {
	l := line{cs: drawClusters(t, long), style: txt.MaybeStyle().Draw(t, "lineStyle"), align: txt.Alignment().Draw(t, "align")}
	l.cut = make([]bool, len(l.cs))
	for i := range l.cs {
		if i == 0 || rapid.IntRange(0, 4).Draw(t, "cut") == 2 {
			l.cut[i] = true
			l.spans = append(l.spans, txt.MaybeStyle().Draw(t, "spanStyle"))
		}
	}
	return l
}

// textLine joins the clusters into the drawn spans.
func (l line) textLine() textwidget.Line {
	var spans []textwidget.Span
	for i, c := range l.cs {
		if l.cut[i] {
			spans = append(spans, textwidget.NewSpan("").WithStyle(l.spans[len(spans)]))
		}
		spans[len(spans)-1].Content += c.sym
	}
	return textwidget.NewLine(spans...).WithStyle(l.style).WithAlignment(l.align)
}

// marked gives every cluster its own span, coloured by its index.
func (l line) marked() textwidget.Line {
	var spans []textwidget.Span
	for i, c := range l.cs {
		spans = append(spans, textwidget.NewSpan(c.sym).WithStyle(mark(i)))
	}
	return textwidget.NewLine(spans...)
}

func mark(i int) bento.Style {
	return bento.NewStyle().WithForeground(termenv.RGBColor(fmt.Sprintf("#%06x", i+1)))
}

const endMark = 0xabcdef

func (l line) describe() string {
	return txt.DescribeLine(l.textLine())
}

// chain lists the styles over a cluster.
func (l line) chain(i int) []bento.Style {
	s := -1
	for j := 0; j <= i; j++ {
		if l.cut[j] {
			s++
		}
	}
	return []bento.Style{l.style, l.spans[s]}
}

// visible reports whether the cluster shows in rows of the width.
func (c cluster) visible(width int) bool { return c.width > 0 && c.width <= width }

// rowsOf renders one line alone, marked and left aligned, and reads back which
// clusters each of its rows shows.
func rowsOf(t *rapid.T, l line, width int, wrap *paragraphwidget.Wrap, desc string) [][]int {
	height := len(l.cs) + 4
	area := bento.NewRect(width, height)
	buf := bento.NewBufferEmpty(area)
	text := textwidget.NewText(l.marked(), textwidget.NewLine(textwidget.NewSpan("#").WithStyle(mark(endMark))))
	p := paragraphwidget.New(text)
	p.Wrap = wrap
	kit.Guard(desc, func() { p.Render(area, &buf) })

	var rows [][]int
	for y := 0; y < height; y++ {
		var row []int
		next := 0
		for x := 0; x < width; x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			if c.Fg == bento.Color(bento.ResetColor{}) || c.Fg == nil {
				if c.Symbol != " " {
					t.Fatalf("unmarked %q at (%d,%d): %s\n%s", c.Symbol, x, y, desc, kit.Dump(&buf))
				}
				continue
			}
			var id int
			if _, err := fmt.Sscanf(string(c.Fg.(termenv.RGBColor)), "#%06x", &id); err != nil {
				t.Fatalf("mark %v: %v", c.Fg, err)
			}
			id--
			if id == endMark {
				if x != 0 || len(row) > 0 {
					t.Fatalf("the next line starts in column %d of row %d: %s\n%s", x, y, desc, kit.Dump(&buf))
				}
				return rows
			}
			if id >= len(l.cs) || l.cs[id].sym != c.Symbol {
				t.Fatalf("%q at (%d,%d) is marked as cluster %d: %s\n%s", c.Symbol, x, y, id, desc, kit.Dump(&buf))
			}
			if x != next {
				t.Fatalf("row %d has a gap before column %d: %s\n%s", y, x, desc, kit.Dump(&buf))
			}
			next = x + l.cs[id].width
			row = append(row, id)
		}
		if next > width {
			t.Fatalf("row %d is %d wide in an area of %d: %s\n%s", y, next, width, desc, kit.Dump(&buf))
		}
		rows = append(rows, row)
	}
	t.Fatalf("the next line does not appear: %s\n%s", desc, kit.Dump(&buf))
	return nil
}

func (l line) width(ids []int) int {
	w := 0
	for _, i := range ids {
		w += l.cs[i].width
	}
	return w
}

// between sums the visible widths of clusters [from,to).
func (l line) between(from, to, width int) int {
	w := 0
	for i := from; i < to; i++ {
		if l.cs[i].visible(width) {
			w += l.cs[i].width
		}
	}
	return w
}

// wordEnd is the end of the word that contains cluster i, whose invisible
// clusters count as part of it.
func (l line) wordEnd(i int) int {
	for i < len(l.cs) && !l.cs[i].space {
		i++
	}
	return i
}

func (l line) wordStart(i int) int {
	for i > 0 && !l.cs[i-1].space {
		i--
	}
	return i
}

// checkWrapped checks the rows of a wrapped line against what wrapping promises.
func checkWrapped(t *rapid.T, l line, rows [][]int, width int, trim bool, desc string) (split, dropped bool) {
	fail := func(format string, args ...any) {
		t.Helper()
		var sb strings.Builder
		for _, r := range rows {
			sb.WriteString("|")
			for _, i := range r {
				sb.WriteString(l.cs[i].sym)
			}
			sb.WriteString("|\n")
		}
		t.Fatalf("%s: %s\n%s", fmt.Sprintf(format, args...), desc, sb.String())
	}

	if len(l.cs) == 0 && len(rows) != 1 {
		fail("an empty line takes %d rows", len(rows))
	}
	if len(rows) == 0 {
		fail("a line takes no row")
	}

	// In order, complete but for spaces at breaks.
	shown := make([]bool, len(l.cs))
	last := -1
	for _, r := range rows {
		for k, i := range r {
			if i <= last {
				fail("cluster %d after %d", i, last)
			}
			if k > 0 {
				for j := last + 1; j < i; j++ {
					if l.cs[j].visible(width) {
						fail("cluster %d (%q) is missing within a row", j, l.cs[j].sym)
					}
				}
			}
			last = i
			shown[i] = true
		}
	}
	for i, c := range l.cs {
		if !shown[i] && c.visible(width) {
			if !c.space {
				fail("cluster %d (%q) is lost", i, c.sym)
			}
			dropped = true
		}
	}

	// Row by row.
	prev := -1 // previous row with visible content
	blanks := 0
	for r, row := range rows {
		if len(row) == 0 {
			blanks++
			continue
		}
		if trim && l.cs[row[0]].space {
			fail("row %d starts with whitespace", r)
		}
		if !trim {
			// What is missing before this row fits into what was left of the
			// previous one, and the cluster that did not.
			from, left := 0, 0
			if prev >= 0 {
				pr := rows[prev]
				from, left = pr[len(pr)-1]+1, width-l.width(pr)
			}
			gone := 0
			for i := from; i < row[0]; i++ {
				if l.cs[i].visible(width) {
					gone += l.cs[i].width
				}
			}
			if prev < 0 && gone > 0 {
				fail("the indentation is cut")
			}
			if gone > left+2 {
				fail("%d columns of whitespace dropped before row %d", gone, r)
			}
		}
		prev = r
	}

	// Words.
	end := -1 // last non-space cluster of the rows so far
	endRow := 0
	for r, row := range rows {
		for _, i := range row {
			if l.cs[i].space {
				continue
			}
			if end < 0 || endRow == r {
				end, endRow = i, r
				continue
			}
			// i is the first non-space cluster after a break.
			er := rows[endRow]
			used := 0
			for _, j := range er {
				used += l.cs[j].width
				if j == end {
					break
				}
			}
			gap := l.between(end+1, i, width)
			spaces := 0
			for j := end + 1; j < i; j++ {
				if l.cs[j].space {
					spaces++
				}
			}
			if spaces == 0 {
				split = true
				// Within a word: only if it is longer than a row (with the
				// indentation, if that is kept), and the row is full.
				start := l.wordStart(i)
				ww := l.between(start, l.wordEnd(i), width)
				lead := 0
				if !trim {
					for _, j := range er {
						if !l.cs[j].space {
							break
						}
						lead += l.cs[j].width
					}
				}
				if lead+ww <= width {
					fail("the word at cluster %d is broken, but fits a row", start)
				}
				// (a wide cluster may already break a long word whose
				// indentation was trimmed)
				trimmed := trim && er[0] == start && start > 0 && l.cs[i].width == 2
				if used+l.cs[i].width <= width && !trimmed {
					fail("row %d has room for cluster %d", endRow, i)
				}
				if r != endRow+1 {
					fail("a blank row inside of a word")
				}
			} else {
				word := l.between(i, l.wordEnd(i), width)
				if used+gap+word <= width {
					fail("row %d has room for the word at cluster %d", endRow, i)
				}
				if r-endRow-1 > spaces {
					fail("%d rows for %d spaces", r-endRow-1, spaces)
				}
			}
			end, endRow = i, r
		}
	}
	spaces := 0
	for j := end + 1; j < len(l.cs); j++ {
		if l.cs[j].space {
			spaces++
		}
	}
	if after := len(rows) - 1 - endRow; after > spaces+1 || (after > 0 && spaces == 0) {
		fail("%d rows after the end of the text", after)
	}
	return split, dropped
}

type para struct {
	p     paragraphwidget.Paragraph
	lines []line
	text  textwidget.Text
	outer bento.Rect
	area  bento.Rect
	buf   bento.Buffer
	desc  string
	// as the setters were told
	align            bento.Alignment
	style, textStyle bento.Style
}

const outside = "~"

func drawPara(t *rapid.T) *para {
	w := &para{}
	width := kit.UpTo(12).Draw(t, "w")
	if rapid.IntRange(0, 3).Draw(t, "wide") == 2 {
		width = rapid.IntRange(10, 30).Draw(t, "w2")
	}
	height := kit.UpTo(8).Draw(t, "h")
	x, y := rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 2).Draw(t, "y")
	w.outer = bento.NewRect(width, height).Positioned(x, y)
	w.area = w.outer

	n := kit.UpTo(4).Draw(t, "lines")
	for i := 0; i < n; i++ {
		w.lines = append(w.lines, drawLine(t, width > 6))
	}
	var lines []textwidget.Line
	for _, l := range w.lines {
		lines = append(lines, l.textLine())
	}
	w.textStyle, w.style = txt.MaybeStyle().Draw(t, "textStyle"), txt.MaybeStyle().Draw(t, "style")
	w.text = textwidget.NewText(lines...).WithStyle(w.textStyle)

	w.p = paragraphwidget.New(w.text).WithStyle(w.style)
	w.align = bento.AlignmentLeft
	switch rapid.IntRange(0, 5).Draw(t, "pAlign") {
	case 3:
		w.p, w.align = w.p.Center(), bento.AlignmentCenter
	case 4:
		w.p, w.align = w.p.Right(), bento.AlignmentRight
	case 5:
		w.p, w.align = w.p.Right().Left(), bento.AlignmentLeft
	case 2:
		w.p.Alignment, w.align = bento.AlignmentNone, bento.AlignmentNone
	}
	if rapid.IntRange(0, 4).Draw(t, "block") == 2 {
		b := blockwidget.New().Bordered().WithPadding(bento.NewPadding(rapid.IntRange(0, 1).Draw(t, "pad")))
		w.p = w.p.WithBlock(b)
		w.area = b.Inner(w.outer)
	}

	bufArea := bento.NewRect(x+width+2, y+height+2)
	w.buf = bento.NewBufferEmpty(bufArea)
	for yy := 0; yy < bufArea.Height; yy++ {
		for xx := 0; xx < bufArea.Width; xx++ {
			if p := bento.NewPosition(xx, yy); !w.outer.Contains(p) {
				w.buf.CellAt(p).SetSymbol(outside)
			}
		}
	}
	return w
}

func (w *para) finish(wrap *paragraphwidget.Wrap, sy, sx int) {
	if wrap != nil {
		w.p = w.p.WithWrap(*wrap)
	}
	w.p = w.p.WithScroll(sy, sx)
	mode := "cut"
	if wrap != nil {
		mode = "wrap"
		if wrap.Trim {
			mode = "trim"
		}
	}
	w.desc = fmt.Sprintf("%s area=%v (in %v, block %v) align=%d style=%s scroll=(%d,%d) %s", mode, w.area, w.outer, w.p.Block != nil, w.align, txt.Sty(w.style), sy, sx, txt.Describe(w.text))
}

// shownRow is one expected row: the clusters of a line.
type shownRow struct {
	line int
	ids  []int
}

// expect compares the rendered area with the rows.
func (w *para) expect(t *rapid.T, rows []shownRow) {
	t.Helper()
	for y := 0; y < w.buf.Area().Height; y++ {
		for x := 0; x < w.buf.Area().Width; x++ {
			if p := bento.NewPosition(x, y); !w.outer.Contains(p) && w.buf.CellAt(p).Symbol != outside {
				t.Fatalf("(%d,%d) outside of the area was changed to %q: %s\n%s", x, y, w.buf.CellAt(p).Symbol, w.desc, kit.Dump(&w.buf))
			}
		}
	}
	base := txt.Styled(bento.NewEmptyCell(), w.style)
	for y := 0; y < w.area.Height; y++ {
		type want struct {
			sym    string
			styles []bento.Style
		}
		row := make([]want, w.area.Width)
		if y < len(rows) {
			sr := rows[y]
			l := w.lines[sr.line]
			align := l.align
			if align == bento.AlignmentNone {
				align = w.align
			}
			x, rw := 0, l.width(sr.ids)
			switch align {
			case bento.AlignmentCenter:
				x = w.area.Width/2 - rw/2
			case bento.AlignmentRight:
				x = w.area.Width - rw
			}
			// centring rounds both halves down
			x = max(0, x)
			for _, i := range sr.ids {
				row[x] = want{l.cs[i].sym, append([]bento.Style{w.textStyle}, l.chain(i)...)}
				x += l.cs[i].width
			}
		}
		for x, wt := range row {
			got := *w.buf.CellAt(bento.NewPosition(w.area.X+x, w.area.Y+y))
			exp := base
			exp.Symbol = " "
			if wt.sym != "" {
				exp = txt.Styled(base, wt.styles...)
				exp.Symbol = wt.sym
			}
			if got != exp {
				t.Fatalf("column %d of row %d is %+v, want %+v: %s\n%s", x, y, got, exp, w.desc, kit.Dump(&w.buf))
			}
		}
	}
}

func TestWrap(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := drawPara(t)
		trim := rapid.Bool().Draw(t, "trim")
		wrap := paragraphwidget.NewWrap().WithTrim(trim)
		w.finish(&wrap, 0, 0)

		var all []shownRow
		split, dropped, broken := false, false, false
		if w.area.Width > 0 {
			for i, l := range w.lines {
				rows := rowsOf(t, l, w.area.Width, &wrap, w.desc)
				s, d := checkWrapped(t, l, rows, w.area.Width, trim, w.desc)
				split, dropped = split || s, dropped || d
				broken = broken || len(rows) > 1
				for _, r := range rows {
					all = append(all, shownRow{i, r})
				}
			}
		}
		sy := 0
		if rapid.Bool().Draw(t, "scroll") {
			sy = rapid.IntRange(-2, len(all)+1).Draw(t, "sy")
		}
		w.finish(&wrap, sy, 0)
		kit.Rehearse(t, w.desc, w.p.Render)
		kit.Guard(w.desc, func() { w.p.Render(w.outer, &w.buf) })
		rest := all[min(max(0, sy), len(all)):]
		w.expect(t, rest)
		kit.Case(w.desc, broken && !w.area.IsEmpty(), kit.Cls(split, "word broken"), kit.Cls(dropped, "whitespace dropped"), kit.Cls(sy > 0, "scrolled"), kit.Cls(len(rest) > w.area.Height, "rows cut off"))
	})
}

func TestTruncate(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		w := drawPara(t)
		sx := 0
		if rapid.Bool().Draw(t, "scrollX") {
			// sideways only where every line is left aligned: alignment of
			// scrolled lines is not specified
			for i := range w.lines {
				w.lines[i].align = bento.AlignmentLeft
				w.text.Lines[i].Alignment = bento.AlignmentLeft
			}
			sx = rapid.IntRange(-2, 10).Draw(t, "sx")
			for again := true; again && sx > 0; {
				again = false
				for _, l := range w.lines {
					col := 0
					for _, c := range l.cs {
						if !c.visible(w.area.Width) {
							continue
						}
						if col < sx && sx < col+c.width {
							// not through the middle of a cluster
							sx--
							again = true
							break
						}
						col += c.width
					}
				}
			}
		}
		sy := 0
		if rapid.Bool().Draw(t, "scrollY") {
			sy = rapid.IntRange(-2, len(w.lines)+1).Draw(t, "sy")
		}
		w.finish(nil, sy, sx)

		var all []shownRow
		cut := false
		for i, l := range w.lines {
			var ids []int
			col, used := 0, 0
			for j, c := range l.cs {
				if !c.visible(w.area.Width) {
					continue
				}
				if col < sx {
					col += c.width
					continue
				}
				if used+c.width > w.area.Width {
					cut = true
					break
				}
				used += c.width
				ids = append(ids, j)
			}
			all = append(all, shownRow{i, ids})
		}
		kit.Rehearse(t, w.desc, w.p.Render)
		kit.Guard(w.desc, func() { w.p.Render(w.outer, &w.buf) })
		w.expect(t, all[min(max(0, sy), len(all)):])
		kit.Case(w.desc, len(w.lines) > 1 && !w.area.IsEmpty(), kit.Cls(cut, "truncated"), kit.Cls(sx > 0, "scrolled sideways"), kit.Cls(sy > 0, "scrolled"))
	})
}
