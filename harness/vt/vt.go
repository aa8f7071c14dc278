// Package vt is a small terminal emulator: the oracle for "what does the user
// see". It interprets the control sequences a program may send and keeps the
// resulting grid of cells, independently of the library under test.
package vt

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// Attr is a set of text attributes.
type Attr uint16

const (
	Bold Attr = 1 << iota
	Dim
	Italic
	Underline
	SlowBlink
	RapidBlink
	Reverse
	Hidden
	Crossed
)

// Cell is one column of the screen. Tail marks the second half of a wide
// cluster. Damaged marks a cell whose content a real terminal leaves to chance.
type Cell struct {
	Sym     string
	Fg, Bg  string // "" is the default colour, otherwise the SGR parameters
	Attr    Attr
	Tail    bool
	Damaged bool
}

func (c Cell) String() string {
	s := fmt.Sprintf("%q fg=%s bg=%s attr=%b", c.Sym, c.Fg, c.Bg, c.Attr)
	if c.Tail {
		s += " tail"
	}
	if c.Damaged {
		s += " damaged"
	}
	return s
}

// Screen is one display surface.
type Screen struct {
	W, H  int
	Cells [][]Cell
}

func newScreen(w, h int) *Screen {
	s := &Screen{W: w, H: h, Cells: make([][]Cell, h)}
	for y := range s.Cells {
		s.Cells[y] = make([]Cell, w)
		for x := range s.Cells[y] {
			s.Cells[y][x] = Cell{Sym: " "}
		}
	}
	return s
}

// Term is the terminal.
type Term struct {
	*Screen // the visible one
	main    *Screen
	alt     *Screen

	InAlt          bool
	CursorVisible  bool
	BracketedPaste bool
	X, Y           int
	pendingWrap    bool
	savedX, savedY int

	fg, bg string
	attr   Attr

	// Problems collects sequences no terminal would accept.
	Problems []string

	buf []byte

	// AltEnters and friends count mode switches.
	AltEnters, AltLeaves int
}

// New returns a terminal in its power-on state.
func New(w, h int) *Term {
	m := newScreen(w, h)
	return &Term{Screen: m, main: m, alt: newScreen(w, h), CursorVisible: true}
}

// Resize changes the window size. Real terminals reflow, crop or keep what was
// shown; the emulator makes no promise and fills the screen with garbage.
func (t *Term) Resize(w, h int) {
	t.main, t.alt = newScreen(w, h), newScreen(w, h)
	for _, s := range []*Screen{t.main, t.alt} {
		for y := range s.Cells {
			for x := range s.Cells[y] {
				s.Cells[y][x] = Cell{Sym: "?", Fg: "35", Attr: Crossed}
			}
		}
	}
	if t.InAlt {
		t.Screen = t.alt
	} else {
		t.Screen = t.main
	}
	t.X, t.Y = min(t.X, max(0, w-1)), min(t.Y, max(0, h-1))
	t.pendingWrap = false
}

// Main returns the primary screen.
func (t *Term) Main() *Screen { return t.main }

// Write feeds output of the program.
func (t *Term) Write(p []byte) (int, error) {
	t.buf = append(t.buf, p...)
	t.run(false)
	return len(p), nil
}

// Sync processes everything received; nothing more is pending.
func (t *Term) Sync() { t.run(true) }

func (t *Term) problem(format string, a ...any) {
	t.Problems = append(t.Problems, fmt.Sprintf(format, a...))
}

func (t *Term) run(final bool) {
	for len(t.buf) > 0 {
		b := t.buf[0]
		switch {
		case b == 0x1b:
			n, ok := t.escape(t.buf)
			if !ok {
				if final {
					t.problem("unfinished escape sequence %q", t.buf)
					t.buf = nil
				}
				return
			}
			t.buf = t.buf[n:]
		case b < 0x20 || b == 0x7f:
			t.control(b)
			t.buf = t.buf[1:]
		default:
			// Printable run up to the next control byte.
			end := 0
			for end < len(t.buf) && t.buf[end] >= 0x20 && t.buf[end] != 0x7f {
				end++
			}
			if end == len(t.buf) && !final {
				return // the last cluster may still grow
			}
			t.print(string(t.buf[:end]))
			t.buf = t.buf[end:]
		}
	}
}

func (t *Term) control(b byte) {
	switch b {
	case '\r':
		t.X, t.pendingWrap = 0, false
	case '\n', '\v', '\f':
		t.lineFeed()
	case '\b':
		if t.X > 0 {
			t.X--
		}
		t.pendingWrap = false
	case '\t':
		t.X = min(t.W-1, (t.X/8+1)*8)
	}
}

func (t *Term) lineFeed() {
	if t.Y == t.H-1 {
		if t.H > 0 {
			copy(t.Cells, t.Cells[1:])
			row := make([]Cell, t.W)
			for x := range row {
				row[x] = t.blank()
			}
			t.Cells[t.H-1] = row
		}
	} else {
		t.Y++
	}
}

func (t *Term) blank() Cell { return Cell{Sym: " ", Bg: t.bg} }

func (t *Term) print(s string) {
	if !utf8.ValidString(s) {
		t.problem("invalid UTF-8 printed: %q", s)
	}
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		t.put(g.Str(), g.Width())
	}
}

func (t *Term) put(sym string, width int) {
	if t.W == 0 || t.H == 0 || width == 0 {
		return
	}
	if t.pendingWrap || t.X+width > t.W {
		t.X, t.pendingWrap = 0, false
		t.lineFeed()
	}
	width = min(width, t.W)

	for i := 0; i < width; i++ {
		t.breakWide(t.X+i, t.Y)
	}
	t.Cells[t.Y][t.X] = Cell{Sym: sym, Fg: t.fg, Bg: t.bg, Attr: t.attr}
	for i := 1; i < width; i++ {
		t.Cells[t.Y][t.X+i] = Cell{Sym: "", Fg: t.fg, Bg: t.bg, Attr: t.attr, Tail: true}
	}
	t.X += width
	if t.X >= t.W {
		t.X = t.W - 1
		t.pendingWrap = true
	}
}

// breakWide is called before the cell at (x, y) is overwritten: should it be
// half of a wide cluster, the other half is left undefined.
func (t *Term) breakWide(x, y int) {
	if x < 0 || x >= t.W {
		return
	}
	if t.Cells[y][x].Tail {
		for i := x - 1; i >= 0; i-- {
			tail := t.Cells[y][i].Tail
			t.Cells[y][i].Damaged = true
			if !tail {
				break
			}
		}
	}
	for i := x + 1; i < t.W && t.Cells[y][i].Tail; i++ {
		c := &t.Cells[y][i]
		c.Sym, c.Tail, c.Damaged = " ", false, true
	}
}

// escape interprets the sequence at the head of b and returns its length.
func (t *Term) escape(b []byte) (int, bool) {
	if len(b) < 2 {
		return 0, false
	}
	switch b[1] {
	case '[':
		i := 2
		for i < len(b) && b[i] >= 0x20 && b[i] <= 0x3f {
			i++
		}
		if i >= len(b) {
			return 0, false
		}
		if b[i] < 0x40 || b[i] > 0x7e {
			t.problem("malformed control sequence %q", b[:i+1])
			return i, true
		}
		t.csi(string(b[2:i]), b[i])
		return i + 1, true
	case ']':
		for i := 2; i < len(b); i++ {
			if b[i] == 0x07 {
				return i + 1, true
			}
			if b[i] == 0x1b && i+1 < len(b) && b[i+1] == '\\' {
				return i + 2, true
			}
		}
		return 0, false
	case '7':
		t.savedX, t.savedY = t.X, t.Y
		return 2, true
	case '8':
		t.X, t.Y, t.pendingWrap = t.savedX, t.savedY, false
		return 2, true
	default:
		t.problem("unknown escape %q", b[:2])
		return 2, true
	}
}

func (t *Term) csi(params string, final byte) {
	if strings.HasPrefix(params, "?") {
		for _, p := range strings.Split(params[1:], ";") {
			t.mode(p, final)
		}
		return
	}

	nums := func(def int) []int {
		var out []int
		for _, p := range strings.Split(params, ";") {
			n, err := strconv.Atoi(p)
			if err != nil {
				n = def
				if p != "" {
					t.problem("bad parameter in CSI %q %q", params, final)
				}
			}
			out = append(out, n)
		}
		return out
	}

	switch final {
	case 'H', 'f':
		ns := nums(1)
		row := max(1, ns[0])
		col := 1
		if len(ns) > 1 {
			col = max(1, ns[1])
		}
		if row > t.H || col > t.W {
			t.problem("cursor sent to row %d column %d on a %dx%d screen", row, col, t.W, t.H)
		}
		t.Y, t.X = min(row, max(1, t.H))-1, min(col, max(1, t.W))-1
		t.pendingWrap = false
	case 'A', 'B', 'C', 'D', 'G', 'd':
		n := max(1, nums(1)[0])
		switch final {
		case 'A':
			t.Y = max(0, t.Y-n)
		case 'B':
			t.Y = min(t.H-1, t.Y+n)
		case 'C':
			t.X = min(t.W-1, t.X+n)
		case 'D':
			t.X = max(0, t.X-n)
		case 'G':
			t.X = min(t.W, n) - 1
		case 'd':
			t.Y = min(t.H, n) - 1
		}
		t.pendingWrap = false
	case 'J':
		switch nums(0)[0] {
		case 0:
			t.eraseRow(t.Y, t.X, t.W)
			for y := t.Y + 1; y < t.H; y++ {
				t.eraseRow(y, 0, t.W)
			}
		case 1:
			for y := 0; y < t.Y; y++ {
				t.eraseRow(y, 0, t.W)
			}
			t.eraseRow(t.Y, 0, t.X+1)
		case 2, 3:
			for y := 0; y < t.H; y++ {
				t.eraseRow(y, 0, t.W)
			}
		}
	case 'K':
		switch nums(0)[0] {
		case 0:
			t.eraseRow(t.Y, t.X, t.W)
		case 1:
			t.eraseRow(t.Y, 0, t.X+1)
		case 2:
			t.eraseRow(t.Y, 0, t.W)
		}
	case 'm':
		t.sgr(params)
	default:
		t.problem("unknown control sequence CSI %q %q", params, final)
	}
}

func (t *Term) eraseRow(y, from, to int) {
	if y < 0 || y >= t.H {
		return
	}
	for x := max(0, from); x < min(to, t.W); x++ {
		t.breakWide(x, y)
		t.Cells[y][x] = t.blank()
	}
}

func (t *Term) mode(p string, final byte) {
	set := final == 'h'
	if final != 'h' && final != 'l' {
		t.problem("unknown private sequence ?%s%c", p, final)
		return
	}
	switch p {
	case "25":
		t.CursorVisible = set
	case "1049":
		if set && !t.InAlt {
			t.AltEnters++
			t.savedX, t.savedY = t.X, t.Y
			t.alt = newScreen(t.W, t.H)
			t.Screen, t.InAlt = t.alt, true
		} else if !set && t.InAlt {
			t.AltLeaves++
			t.Screen, t.InAlt = t.main, false
			t.X, t.Y = t.savedX, t.savedY
		}
		t.pendingWrap = false
	case "2004":
		t.BracketedPaste = set
	}
}

func (t *Term) sgr(params string) {
	ps := strings.Split(params, ";")
	for i := 0; i < len(ps); i++ {
		p := ps[i]
		if strings.Contains(p, ":") {
			t.problem("unsupported SGR parameter %q", p)
			continue
		}
		n := 0
		if p != "" {
			v, err := strconv.Atoi(p)
			if err != nil {
				t.problem("bad SGR %q", params)
				return
			}
			n = v
		}
		switch {
		case n == 0:
			t.fg, t.bg, t.attr = "", "", 0
		case n == 1:
			t.attr |= Bold
		case n == 2:
			t.attr |= Dim
		case n == 3:
			t.attr |= Italic
		case n == 4:
			t.attr |= Underline
		case n == 5:
			t.attr |= SlowBlink
		case n == 6:
			t.attr |= RapidBlink
		case n == 7:
			t.attr |= Reverse
		case n == 8:
			t.attr |= Hidden
		case n == 9:
			t.attr |= Crossed
		case n == 22:
			t.attr &^= Bold | Dim
		case n == 23:
			t.attr &^= Italic
		case n == 24:
			t.attr &^= Underline
		case n == 25:
			t.attr &^= SlowBlink | RapidBlink
		case n == 27:
			t.attr &^= Reverse
		case n == 28:
			t.attr &^= Hidden
		case n == 29:
			t.attr &^= Crossed
		case n >= 30 && n <= 37, n >= 90 && n <= 97:
			t.fg = p
		case n == 39:
			t.fg = ""
		case n >= 40 && n <= 47:
			t.bg = strconv.Itoa(n - 10)
		case n >= 100 && n <= 107:
			t.bg = strconv.Itoa(n - 10)
		case n == 49:
			t.bg = ""
		case n == 38 || n == 48:
			var c string
			if i+2 < len(ps) && ps[i+1] == "5" {
				c = "5;" + ps[i+2]
				i += 2
			} else if i+4 < len(ps) && ps[i+1] == "2" {
				c = "2;" + strings.Join(ps[i+2:i+5], ";")
				i += 4
			} else {
				t.problem("bad extended colour in SGR %q", params)
				return
			}
			if n == 38 {
				t.fg = c
			} else {
				t.bg = c
			}
		default:
			t.problem("unknown SGR parameter %d in %q", n, params)
		}
	}
}

// DefaultRendition reports whether newly printed text would be plain.
func (t *Term) DefaultRendition() bool { return t.fg == "" && t.bg == "" && t.attr == 0 }

// Row returns the text of a row.
func (s *Screen) Row(y int) string {
	var sb strings.Builder
	for _, c := range s.Cells[y] {
		sb.WriteString(c.Sym)
	}
	return sb.String()
}

// Dump returns the screen as text.
func (s *Screen) Dump() string {
	var sb strings.Builder
	for y := range s.Cells {
		fmt.Fprintf(&sb, "%q\n", s.Row(y))
	}
	return sb.String()
}
