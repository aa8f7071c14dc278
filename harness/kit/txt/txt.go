// Package txt generates texts and predicts how they are laid out.
package txt

import (
	"fmt"
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

// Alignment draws any alignment.
func Alignment() *rapid.Generator[bento.Alignment] {
	return rapid.SampledFrom([]bento.Alignment{bento.AlignmentNone, bento.AlignmentLeft, bento.AlignmentCenter, bento.AlignmentRight})
}

// MaybeStyle draws no style half of the time.
func MaybeStyle() *rapid.Generator[bento.Style] {
	return rapid.Custom(func(t *rapid.T) bento.Style {
		if rapid.Bool().Draw(t, "plain") {
			return bento.NewStyle()
		}
		return kit.Style().Draw(t, "style")
	})
}

// Line draws a line of up to maxSpans spans of content.
func Line(maxSpans int, content *rapid.Generator[string]) *rapid.Generator[textwidget.Line] {
	return rapid.Custom(func(t *rapid.T) textwidget.Line {
		var spans []textwidget.Span
		for i, n := 0, rapid.IntRange(0, maxSpans).Draw(t, "spans"); i < n; i++ {
			spans = append(spans, textwidget.NewSpan(content.Draw(t, "content")).WithStyle(MaybeStyle().Draw(t, "spanStyle")))
		}
		l := textwidget.NewLine(spans...).WithStyle(MaybeStyle().Draw(t, "lineStyle")).WithAlignment(Alignment().Draw(t, "lineAlign"))
		Keep(textwidget.NewText(l))
		return l
	})
}

// Text draws a text.
func Text(maxLines, maxSpans int, content *rapid.Generator[string]) *rapid.Generator[textwidget.Text] {
	return rapid.Custom(func(t *rapid.T) textwidget.Text {
		var lines []textwidget.Line
		for i, n := 0, rapid.IntRange(0, maxLines).Draw(t, "lines"); i < n; i++ {
			lines = append(lines, Line(maxSpans, content).Draw(t, "line"))
		}
		x := textwidget.NewText(lines...).WithStyle(MaybeStyle().Draw(t, "textStyle")).WithAlignment(Alignment().Draw(t, "textAlign"))
		Keep(x)
		return x
	})
}

// Cluster is one visible cluster with its style chain and column.
type Cluster struct {
	Sym    string
	Width  int
	Col    int
	Styles []bento.Style
}

// LineClusters lists the visible clusters of a line with consecutive columns
// and returns the line's width.
func LineClusters(l textwidget.Line) ([]Cluster, int) {
	var out []Cluster
	col := 0
	for _, s := range l.Spans {
		for _, c := range kit.Clusters(s.Content) {
			w := kit.Width(c)
			if w == 0 {
				continue
			}
			out = append(out, Cluster{Sym: c, Width: w, Col: col, Styles: []bento.Style{l.Style, s.Style}})
			col += w
		}
	}
	return out, col
}

// Visible removes clusters without width.
func Visible(s string) string {
	var sb strings.Builder
	for _, c := range kit.Clusters(s) {
		if kit.Width(c) > 0 {
			sb.WriteString(c)
		}
	}
	return sb.String()
}

// HasControl reports a control character.
func HasControl(s string) bool {
	for _, r := range s {
		if unicode.IsControl(r) {
			return true
		}
	}
	return false
}

// Window is the placement of a line of the given width in a row of room
// columns: the indent of its first visible column and how many of its columns
// are skipped.
func Window(width, room int, a bento.Alignment) (indent, skip int) {
	switch a {
	case bento.AlignmentCenter:
		if width <= room {
			return (room - width) / 2, 0
		}
		return 0, (width - room) / 2
	case bento.AlignmentRight:
		if width <= room {
			return room - width, 0
		}
		return 0, width - room
	}
	return 0, 0
}

// Describe prints a text with its structure.
func Describe(t textwidget.Text) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "text(align=%d style=%s)", t.Alignment, Sty(t.Style))
	for _, l := range t.Lines {
		sb.WriteString(" ")
		sb.WriteString(DescribeLine(l))
	}
	return sb.String()
}

// DescribeLine prints a line with its structure.
func DescribeLine(l textwidget.Line) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "line(align=%d style=%s", l.Alignment, Sty(l.Style))
	for _, s := range l.Spans {
		fmt.Fprintf(&sb, " %q", s.Content)
		if s.Style != bento.NewStyle() {
			fmt.Fprintf(&sb, "{%s}", Sty(s.Style))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// Sty prints a style by its effect.
func Sty(s bento.Style) string {
	if s == bento.NewStyle() {
		return "-"
	}
	none, all := bento.NewEmptyCell(), bento.NewEmptyCell()
	all.Modifier = bento.ModifierAll
	none.SetStyle(s)
	all.SetStyle(s)
	out := ""
	if s.Foreground.IsSet() {
		out += fmt.Sprintf("fg%v", s.Foreground.Color())
	}
	if s.Background.IsSet() {
		out += fmt.Sprintf("bg%v", s.Background.Color())
	}
	return out + fmt.Sprintf("+%x-%x", uint16(none.Modifier), uint16(bento.ModifierAll&^all.Modifier))
}

// Styled applies styles in order.
func Styled(c bento.Cell, ss ...bento.Style) bento.Cell {
	for _, s := range ss {
		c.SetStyle(s)
	}
	return c
}

// SameLook compares everything but the symbol.
func SameLook(a, b bento.Cell) bool {
	a.Symbol, b.Symbol = "", ""
	return a == b
}

// Kept are generated texts (those of lines in a text of their own) with what
// they held when they were made, for checks that they are left as they are.
var (
	Keeping bool
	kept    []struct {
		text textwidget.Text
		was  string
	}
)

// Keep remembers a text.
func Keep(x textwidget.Text) {
	if Keeping {
		kept = append(kept, struct {
			text textwidget.Text
			was  string
		}{x, fmt.Sprintf("%#v", x)})
	}
}

// Forget forgets the texts that were kept.
func Forget() { kept = kept[:0] }

// Changed describes a kept text that isn't as it was.
func Changed() string {
	for _, k := range kept {
		if now := fmt.Sprintf("%#v", k.text); now != k.was {
			return "was " + k.was + "\nis now " + now
		}
	}
	return ""
}
