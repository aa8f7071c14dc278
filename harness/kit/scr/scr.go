// Package scr relates library buffers to the emulated screen.
package scr

import (
	"fmt"
	"strconv"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/vt"
	"github.com/muesli/termenv"
)

// ColorSGR is how a terminal names the colour it shows for c under a colour
// profile: "" for the default colour.
func ColorSGR(c bento.Color, p termenv.Profile) string {
	if p == termenv.Ascii {
		return ""
	}
	if rgb, ok := c.(termenv.RGBColor); ok {
		if _, err := colorful.Hex(string(rgb)); err != nil {
			return ""
		}
	}
	switch c.(type) {
	case termenv.ANSIColor, termenv.ANSI256Color, termenv.RGBColor:
		c = p.Convert(c)
	default:
		return ""
	}
	switch c := c.(type) {
	case termenv.ANSIColor:
		if c < 8 {
			return strconv.Itoa(30 + int(c))
		}
		return strconv.Itoa(90 + int(c) - 8)
	case termenv.ANSI256Color:
		return fmt.Sprintf("5;%d", int(c))
	case termenv.RGBColor:
		f, _ := colorful.Hex(string(c))
		return fmt.Sprintf("2;%d;%d;%d", uint8(f.R*255), uint8(f.G*255), uint8(f.B*255))
	}
	return ""
}

var attrs = map[bento.Modifier]vt.Attr{
	bento.ModifierBold:       vt.Bold,
	bento.ModifierDim:        vt.Dim,
	bento.ModifierItalic:     vt.Italic,
	bento.ModifierUnderlined: vt.Underline,
	bento.ModifierSlowBlink:  vt.SlowBlink,
	bento.ModifierRapidBlink: vt.RapidBlink,
	bento.ModifierReversed:   vt.Reverse,
	bento.ModifierHidden:     vt.Hidden,
	bento.ModifierCrossedOut: vt.Crossed,
}

// Attr translates modifiers.
func Attr(m bento.Modifier) vt.Attr {
	var a vt.Attr
	for k, v := range attrs {
		if m&k != 0 {
			a |= v
		}
	}
	return a
}

// Compare checks that the screen shows exactly the cells of grid, whose upper
// left corner is at (ox, oy).
func Compare(s *vt.Screen, grid [][]bento.Cell, ox, oy int, p termenv.Profile) error {
	for y, row := range grid {
		for x := 0; x < len(row); {
			c := row[x]
			if oy+y >= s.H || ox+x >= s.W {
				return fmt.Errorf("cell (%d,%d) is not on the %dx%d screen", ox+x, oy+y, s.W, s.H)
			}
			want := vt.Cell{Sym: c.Symbol, Fg: ColorSGR(c.Fg, p), Bg: ColorSGR(c.Bg, p), Attr: Attr(c.Modifier)}
			if got := s.Cells[oy+y][ox+x]; got != want {
				return fmt.Errorf("column %d of row %d shows %v, the frame has %v", ox+x, oy+y, got, want)
			}
			w := max(1, kit.Width(c.Symbol))
			for i := 1; i < w && x+i < len(row); i++ {
				if got := s.Cells[oy+y][ox+x+i]; !got.Tail {
					return fmt.Errorf("column %d of row %d shows %v, the frame has the second half of %q", ox+x+i, oy+y, got, c.Symbol)
				}
			}
			x += w
		}
	}
	return nil
}
