package kit

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
	"pgregory.net/rapid"
)

// Clusters by display width. Each entry is one grapheme cluster on its own and
// stays one next to any other entry (no entry starts with an extending or
// regional-indicator code point).
var (
	Width1 = []string{"a", "b", "c", "x", "Z", "0", "9", ".", "-", "é", "e\u0301", "ñ", "я", "█", "│", "╭", "·", "ü̈"}
	Width2 = []string{"世", "界", "あ", "가", "😀", "👩‍👩‍👧", "👍🏽", "ｗ", "한", "🇺🇦"}
	Spaces = []string{" "}
	// Zero-width clusters that form their own cluster.
	Width0 = []string{"\u200b", "\u200e", "\u2060", "\ufeff"}
	// Control characters (width 0 in uniseg).
	Controls = []string{"\x00", "\x01", "\x07", "\x1b", "\x7f", "\t", "\u0085"}
)

// Cluster draws a printable grapheme cluster of width 1 or 2.
func Cluster() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.SampledFrom(Width1),
		rapid.SampledFrom(Width1),
		rapid.SampledFrom(Width2),
	)
}

// Printable draws a string of printable clusters and spaces, all of width 1 or 2.
func Printable(maxLen int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return strings.Join(Several(rapid.OneOf(Cluster(), Cluster(), rapid.SampledFrom(Spaces)), 0, maxLen).Draw(t, "clusters"), "")
	})
}

// NonEmptyPrintable is Printable without the empty string.
func NonEmptyPrintable(maxLen int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return strings.Join(rapid.SliceOfN(rapid.OneOf(Cluster(), Cluster(), rapid.SampledFrom(Spaces)), 1, maxLen).Draw(t, "clusters"), "")
	})
}

// Messy draws a string that may also hold zero-width clusters and control
// characters (no newline).
func Messy(maxLen int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return strings.Join(Several(rapid.OneOf(
			Cluster(), Cluster(), Cluster(),
			rapid.SampledFrom(Spaces),
			rapid.SampledFrom(Width0),
			rapid.SampledFrom(Controls),
		), 0, maxLen).Draw(t, "clusters"), "")
	})
}

// Clusters splits into grapheme clusters.
func Clusters(s string) []string {
	var out []string
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		out = append(out, g.Str())
	}
	return out
}

// Width of a string in terminal columns, as uniseg (the measure the library
// and its users share) has it.
func Width(s string) int { return uniseg.StringWidth(s) }

// CWidth is the width of one cluster.
func CWidth(s string) int { return uniseg.StringWidth(s) }

// Color draws a colour of every kind a user may set.
func Color() *rapid.Generator[bento.Color] {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) bento.Color { return termenv.ANSIColor(rapid.IntRange(0, 15).Draw(t, "ansi")) }),
		rapid.Custom(func(t *rapid.T) bento.Color { return termenv.ANSI256Color(rapid.IntRange(0, 255).Draw(t, "ansi256")) }),
		rapid.Custom(func(t *rapid.T) bento.Color {
			return termenv.RGBColor(fmt.Sprintf("#%06x", rapid.IntRange(0, 0xffffff).Draw(t, "rgb")))
		}),
		rapid.Just[bento.Color](bento.ResetColor{}),
	)
}

// AllModifiers lists every text modifier.
var AllModifiers = []bento.Modifier{
	bento.ModifierBold, bento.ModifierDim, bento.ModifierItalic, bento.ModifierUnderlined,
	bento.ModifierSlowBlink, bento.ModifierRapidBlink, bento.ModifierReversed,
	bento.ModifierHidden, bento.ModifierCrossedOut,
}

// Modifiers draws any set of modifiers.
func Modifiers() *rapid.Generator[bento.Modifier] {
	return rapid.Custom(func(t *rapid.T) bento.Modifier {
		var m bento.Modifier
		for _, one := range rapid.SliceOfN(rapid.SampledFrom(AllModifiers), 0, 4).Draw(t, "modifiers") {
			m |= one
		}
		return m
	})
}

// Style draws a style, including the empty one.
func Style() *rapid.Generator[bento.Style] {
	return rapid.Custom(func(t *rapid.T) bento.Style {
		s := bento.NewStyle()
		if rapid.Bool().Draw(t, "hasFg") {
			s = s.WithForeground(Color().Draw(t, "fg"))
		}
		if rapid.Bool().Draw(t, "hasBg") {
			s = s.WithBackground(Color().Draw(t, "bg"))
		}
		for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nMods"); i < n; i++ {
			m := Modifiers().Draw(t, "mod")
			if rapid.Bool().Draw(t, "add") {
				s = s.WithModifier(m)
			} else {
				s = s.WithoutModifier(m)
			}
		}
		return s
	})
}

// Rect draws a rectangle with an origin up to maxPos and sides up to maxSide.
func Rect(maxPos, maxSide int) *rapid.Generator[bento.Rect] {
	return rapid.Custom(func(t *rapid.T) bento.Rect {
		return bento.NewRect(
			rapid.IntRange(0, maxSide).Draw(t, "w"),
			rapid.IntRange(0, maxSide).Draw(t, "h"),
		).Positioned(
			rapid.IntRange(0, maxPos).Draw(t, "x"),
			rapid.IntRange(0, maxPos).Draw(t, "y"),
		)
	})
}

// Sub draws a rectangle inside outer (possibly empty, possibly outer itself).
func Sub(outer bento.Rect) *rapid.Generator[bento.Rect] {
	return rapid.Custom(func(t *rapid.T) bento.Rect {
		if rapid.IntRange(0, 3).Draw(t, "whole") == 0 {
			return outer
		}
		x1 := rapid.IntRange(0, outer.Width).Draw(t, "x1")
		x2 := rapid.IntRange(x1, outer.Width).Draw(t, "x2")
		y1 := rapid.IntRange(0, outer.Height).Draw(t, "y1")
		y2 := rapid.IntRange(y1, outer.Height).Draw(t, "y2")
		return bento.NewRect(x2-x1, y2-y1).Positioned(outer.X+x1, outer.Y+y1)
	})
}

// --- buffers ------------------------------------------------------------------

// Grid copies the cells of a buffer row by row.
func Grid(b *bento.Buffer) [][]bento.Cell {
	area := b.Area()
	rows := make([][]bento.Cell, area.Height)
	for y := range rows {
		rows[y] = make([]bento.Cell, area.Width)
		for x := range rows[y] {
			rows[y][x] = *b.CellAt(bento.NewPosition(area.X+x, area.Y+y))
		}
	}
	return rows
}

// Row returns the text of one row of a buffer, skipping the blank half of
// wide clusters.
func Row(b *bento.Buffer, y int) string {
	area := b.Area()
	var sb strings.Builder
	for x := area.Left(); x < area.Right(); {
		c := b.CellAt(bento.NewPosition(x, y))
		sb.WriteString(c.Symbol)
		x += max(1, Width(c.Symbol))
	}
	return sb.String()
}

// Dump renders a buffer as text lines.
func Dump(b *bento.Buffer) string {
	var sb strings.Builder
	area := b.Area()
	for y := area.Top(); y < area.Bottom(); y++ {
		fmt.Fprintf(&sb, "%q\n", Row(b, y))
	}
	return sb.String()
}

// WellFormed draws a buffer satisfying what the library asks of one: a wide
// symbol is followed by a blank cell, and none starts in the last column.
// wide=false keeps to one-column symbols.
func FillWellFormed(t *rapid.T, b *bento.Buffer, density int) {
	area := b.Area()
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			if rapid.IntRange(0, 99).Draw(t, "paint") >= density {
				continue
			}
			c := b.CellAt(bento.NewPosition(x, y))
			sym := rapid.OneOf(Cluster(), rapid.SampledFrom(Spaces)).Draw(t, "symbol")
			style := Style().Draw(t, "style")
			if Width(sym) == 2 {
				if x+1 >= area.Right() {
					sym = "w"
				} else {
					c.SetSymbol(sym).SetStyle(style)
					// the continuation cell stays blank
					b.CellAt(bento.NewPosition(x+1, y)).Reset()
					if rapid.Bool().Draw(t, "styleTail") {
						b.CellAt(bento.NewPosition(x+1, y)).SetStyle(style)
					}
					x++
					continue
				}
			}
			c.SetSymbol(sym).SetStyle(style)
		}
	}
}

// CheckWellFormed reports the first cell at which a buffer is not well-formed.
func CheckWellFormed(b *bento.Buffer) error {
	area := b.Area()
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			c := b.CellAt(bento.NewPosition(x, y))
			w := Width(c.Symbol)
			if w == 2 {
				if x+1 >= area.Right() {
					return fmt.Errorf("wide symbol %q in the last column of row %d", c.Symbol, y)
				}
				if s := b.CellAt(bento.NewPosition(x+1, y)).Symbol; s != " " {
					return fmt.Errorf("wide symbol %q at (%d,%d) followed by %q", c.Symbol, x, y, s)
				}
			}
		}
	}
	return nil
}

// Rehearse draws something into other areas before it is drawn in earnest:
// that must leave no trace in it.
func Rehearse(t *rapid.T, desc string, draw func(area bento.Rect, buffer *bento.Buffer)) {
	for i, n := 0, max(0, rapid.IntRange(-2, 2).Draw(t, "rehearsals")); i < n; i++ {
		area := bento.NewRect(UpTo(30).Draw(t, "rehearsal width"), UpTo(8).Draw(t, "rehearsal height")).
			Positioned(rapid.IntRange(0, 3).Draw(t, "rehearsal x"), rapid.IntRange(0, 3).Draw(t, "rehearsal y"))
		Guard(desc, func() {
			buffer := bento.NewBufferEmpty(area)
			draw(area, &buffer)
		})
	}
}
