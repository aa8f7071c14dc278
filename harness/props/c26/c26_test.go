// C26: text built from a string keeps all of it, split at newlines.
package c26

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// content of one line, sometimes far longer than any buffer a reader may use.
func lineContent(t *rapid.T, messy bool) string {
	gen := kit.Printable(6)
	if messy {
		gen = kit.Messy(6)
	}
	s := gen.Draw(t, "content")
	// a carriage return inside a line belongs to it
	if messy && rapid.IntRange(0, 9).Draw(t, "cr") == 0 {
		s += "\rx"
	}
	switch k := rapid.IntRange(0, 199).Draw(t, "long"); {
	case k == 0:
		base := kit.NonEmptyPrintable(4).Draw(t, "unit")
		s = strings.Repeat(base, rapid.SampledFrom([]int{1000, 4095, 4097, 16384, 65535, 65536, 65537, 70001}).Draw(t, "times")/len(base)+1)
	case k < 6:
		s = strings.Repeat(s, 40)
	}
	return s
}

type source struct {
	raw   string
	lines []string
}

func genSource(t *rapid.T, messy bool) source {
	var s source
	n := rapid.IntRange(0, 6).Draw(t, "n")
	if rapid.IntRange(0, 49).Draw(t, "many") == 0 {
		n = rapid.IntRange(50, 300).Draw(t, "n2")
	}
	for i := 0; i < n; i++ {
		l := ""
		if n < 20 {
			l = lineContent(t, messy)
		} else {
			l = kit.Printable(2).Draw(t, "short")
		}
		s.lines = append(s.lines, l)
		s.raw += l
		last := i == n-1
		if !last || rapid.Bool().Draw(t, "trailing") {
			s.raw += rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol")
		} else if l == "" {
			// nothing after the previous newline: that is no line
			s.lines = s.lines[:len(s.lines)-1]
		}
	}
	if s.raw == "" {
		s.lines = []string{""}
	}
	return s
}

func show(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%.100q…%.30q (%d bytes)", s, s[len(s)-30:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func checkLines(t *rapid.T, what string, got []textwidget.Line, want []string) {
	if len(got) != len(want) {
		t.Fatalf("%s: %d lines, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i].String() != want[i] {
			t.Fatalf("%s: line %d is %s, want %s", what, i, show(got[i].String()), show(want[i]))
		}
		sum := ""
		for _, sp := range got[i].Spans {
			sum += sp.Content
		}
		if sum != want[i] {
			t.Fatalf("%s: spans of line %d hold %s, want %s", what, i, show(sum), show(want[i]))
		}
	}
}

func property(t *rapid.T) {
	messy := rapid.Bool().Draw(t, "messy")
	src := genSource(t, messy)
	style := txt.MaybeStyle().Draw(t, "style")
	align := txt.Alignment().Draw(t, "align")
	how := rapid.IntRange(0, 4).Draw(t, "how")

	desc := fmt.Sprintf("how=%d raw=%s style=%s align=%d", how, show(src.raw), txt.Sty(style), align)
	kit.Case(desc, len(src.lines) > 1 || len(src.raw) > 4096, map[bool]string{true: "longLine"}[len(src.raw) > 60000],
		map[bool]string{true: "crlf"}[strings.Contains(src.raw, "\r\n")])

	kit.Guard(desc, func() {
		var text textwidget.Text
		want := src.lines
		switch how {
		case 0:
			text = textwidget.NewTextStr(src.raw)
		case 1:
			text = textwidget.NewText(textwidget.NewLinesStr(src.raw)...)
		case 2:
			text = textwidget.NewText().WithLinesStr(src.raw)
		case 4:
			text = paragraphwidget.NewStr(src.raw).Text
		case 3:
			// lines given separately are lines of their own
			first := textwidget.NewLineStr("first")
			text = textwidget.NewText(first).WithLinesStr(src.lines...)
			want = append([]string{"first"}, src.lines...)
			if last := len(src.lines) - 1; last > 0 && src.lines[last] == "" {
				// joined with newlines this is a trailing newline
				want = want[:len(want)-1]
			}
		}
		text = text.WithStyle(style).WithAlignment(align)
		checkLines(t, "text", text.Lines, want)

		if got := text.Height(); got != len(want) {
			t.Fatalf("height %d, want %d", got, len(want))
		}
		widest := 0
		for _, l := range want {
			widest = max(widest, kit.Width(l))
		}
		if got := text.Width(); got != widest {
			t.Fatalf("width %d, want %d", got, widest)
		}
		if got := text.Lines.Height(); got != len(want) {
			t.Fatalf("height of the lines %d, want %d", got, len(want))
		}
		if got := text.String(); got != strings.Join(want, "\n") {
			t.Fatalf("string is %s, want %s", show(got), show(strings.Join(want, "\n")))
		}
		if messy {
			return
		}

		// a single line holds everything but the newlines
		if one := textwidget.NewLineStr(src.raw); one.String() != strings.Join(src.lines, "") || one.Width() != kit.Width(strings.Join(src.lines, "")) {
			// width of the concatenation may differ by clusters joining; the content may not
			if one.String() != strings.Join(src.lines, "") {
				t.Fatalf("line from the string is %s, want %s", show(one.String()), show(strings.Join(src.lines, "")))
			}
		}

		if widest*len(want) > 20000 || widest > 2000 {
			return
		}
		// rendered into its own size everything is there
		area := bento.NewRect(widest, len(want)).Positioned(2, 1)
		buf := bento.NewBufferEmpty(area)
		text.Render(area, &buf)
		for i, l := range want {
			indent, _ := txt.Window(kit.Width(l), widest, align)
			row := strings.Repeat(" ", indent) + l
			row += strings.Repeat(" ", widest-kit.Width(row))
			if got := kit.Row(&buf, area.Y+i); got != row {
				t.Fatalf("row %d shows %q, want %q", i, got, row)
			}
			for x := area.Left(); x < area.Right(); x++ {
				got := *buf.CellAt(bento.NewPosition(x, area.Y+i))
				blank := bento.NewEmptyCell()
				if wantCell := txt.Styled(blank, style); !txt.SameLook(got, wantCell) && got.Symbol != " " {
					t.Fatalf("cell %d,%d is %+v, want the look of %+v", x, i, got, wantCell)
				}
			}
		}

		if widest == 0 {
			return
		}
		own := text.Lines.NewBuffer()
		if own.Area() != bento.NewRect(widest, len(want)) {
			t.Fatalf("buffer of the lines covers %v, want %dx%d", own.Area(), widest, len(want))
		}
		for i, l := range want {
			row := l + strings.Repeat(" ", widest-kit.Width(l))
			if got := kit.Row(&own, i); got != row {
				t.Fatalf("row %d of the lines' buffer shows %q, want %q", i, got, row)
			}
		}
	})
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }

// appending goes on from a text, or a line, by adding to its end: lines, spans
// for a line, or spans for the last line of a text.
func appending(t *rapid.T) {
	var text textwidget.Text
	var want [][]string
	content := kit.Printable(4)
	some := func(label string) []string { return kit.Several(content, 0, 3).Draw(t, label) }
	spans := func(contents []string) []textwidget.Span {
		var ss []textwidget.Span
		for _, c := range contents {
			ss = append(ss, textwidget.NewSpan(c))
		}
		return ss
	}
	desc := "text"
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "steps"); i < n; i++ {
		add := some("contents")
		switch rapid.IntRange(0, 4).Draw(t, "step") {
		case 0, 1:
			desc += fmt.Sprintf(" spans%q", add)
			kit.Guard(desc, func() { textwidget.AppendTextSpans(&text, spans(add)...) })
			if len(want) == 0 {
				want = append(want, nil)
			}
			want[len(want)-1] = append(want[len(want)-1], add...)
		case 2:
			more := some("more")
			desc += fmt.Sprintf(" line%q%q", add, more)
			kit.Guard(desc, func() { text = text.WithLines(textwidget.NewLine(spans(add)...).WithSpans(spans(more)...)) })
			want = append(want, append(add, more...))
		case 3:
			more := some("more")
			desc += fmt.Sprintf(" lineStr%q%q", add, more)
			kit.Guard(desc, func() { text = text.WithLines(textwidget.NewLine(spans(add)...).WithSpansStr(more...)) })
			want = append(want, append(add, more...))
		case 4:
			desc += fmt.Sprintf(" linesStr%q", add)
			kit.Guard(desc, func() { text = text.WithLinesStr(add...) })
			if len(add) > 1 && add[len(add)-1] == "" {
				// joined with newlines this is a trailing newline
				add = add[:len(add)-1]
			}
			if len(add) == 0 {
				// nothing at all is an empty line, as it is for the empty string
				add = []string{""}
			}
			for _, c := range add {
				want = append(want, []string{c})
			}
		}
	}
	kit.Case(desc, len(want) > 1)

	widest := 0
	var lines []string
	for _, w := range want {
		sum := strings.Join(w, "")
		lines = append(lines, sum)
		wide := 0
		for _, c := range w {
			wide += kit.Width(c)
		}
		widest = max(widest, wide)
	}
	kit.Guard(desc, func() {
		checkLines(t, desc, text.Lines, lines)
		if text.Width() != widest || text.Height() != len(want) {
			t.Fatalf("%dx%d, want %dx%d: %s", text.Width(), text.Height(), widest, len(want), desc)
		}
		area := bento.NewRect(widest, len(want))
		buf := bento.NewBufferEmpty(area)
		text.Render(area, &buf)
		for i, l := range lines {
			if got, want := strings.TrimRight(kit.Row(&buf, i), " "), strings.TrimRight(l, " "); got != want {
				t.Fatalf("row %d shows %q, want %q: %s", i, got, want, desc)
			}
		}
	})
}

func TestAppending(t *testing.T) { rapid.Check(t, appending) }
