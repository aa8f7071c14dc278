// C14: the text input against a reference text field.
package c14

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/muesli/termenv"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const outside = "~"

// field is the reference text field.
type field struct {
	text   []string
	cursor int
}

func (f *field) value() string { return strings.Join(f.text, "") }

func (f *field) insert(cs ...string) {
	f.text = append(append(append([]string(nil), f.text[:f.cursor]...), cs...), f.text[f.cursor:]...)
	f.cursor += len(cs)
}

func (f *field) remove(from int) {
	f.text = append(append([]string(nil), f.text[:from]...), f.text[f.cursor:]...)
	f.cursor = from
}

func (f *field) move(to int) { f.cursor = min(max(0, to), len(f.text)) }

func space(c string) bool { return c == " " || c == "\u3000" || c == "\t" || c == "\u200b" }

func (f *field) word() {
	at := f.cursor
	for at > 0 && space(f.text[at-1]) {
		at--
	}
	for at > 0 && !space(f.text[at-1]) {
		at--
	}
	f.remove(at)
}

// width of the clusters [from,to).
func (f *field) width(from, to int) int {
	w := 0
	for _, c := range f.text[from:to] {
		w += kit.Width(c)
	}
	return w
}

type model struct {
	field
	input       inputwidget.Input
	state       inputwidget.State
	shown       bool // cursor
	style       bento.Style
	prompt      string
	promptStyle bento.Style
	placeholder string
	phStyle     bento.Style
	cursorStyle bento.Style
	align       bento.Alignment
	vertical    bento.Flex
	block       bool
	log         []string
	scrolled    bool // the text did not fit at some time
	renders     int
	partly      int
	zero        bool // the text may hold clusters without width
}

func (m *model) note(format string, args ...any) { m.log = append(m.log, fmt.Sprintf(format, args...)) }

func (m *model) desc() string {
	return fmt.Sprintf("input(%s prompt=%q placeholder=%q align=%d vertical=%d block=%v): %s", txt.Sty(m.style), m.prompt, m.placeholder, m.align, m.vertical, m.block, strings.Join(m.log, "; "))
}

func newModel(t *rapid.T) *model {
	m := &model{
		state:       inputwidget.NewState(),
		shown:       true,
		style:       bento.NewStyle(),
		promptStyle: txt.MaybeStyle().Draw(t, "promptStyle"),
		phStyle:     txt.MaybeStyle().Draw(t, "placeholderStyle"),
		cursorStyle: bento.NewStyle().WithBackground(termenv.RGBColor("#0c0c0c")),
		align:       txt.Alignment().Draw(t, "align"),
		vertical:    rapid.SampledFrom([]bento.Flex{bento.FlexLegacy, bento.FlexStart, bento.FlexCenter, bento.FlexEnd}).Draw(t, "vertical"),
		block:       rapid.IntRange(0, 4).Draw(t, "block") == 2,
	}
	if rapid.Bool().Draw(t, "prompted") {
		m.prompt = kit.Printable(4).Draw(t, "prompt")
	}
	if rapid.Bool().Draw(t, "held") {
		m.placeholder = kit.Printable(6).Draw(t, "placeholder")
	}
	m.input = inputwidget.New().WithPrompt(m.prompt).WithPromptStyle(m.promptStyle).WithPlaceholder(m.placeholder).WithPlaceholderStyle(m.phStyle).WithCursorStyle(m.cursorStyle)
	switch m.align {
	case bento.AlignmentLeft:
		m.input = m.input.Left()
	case bento.AlignmentCenter:
		m.input = m.input.Center()
	case bento.AlignmentRight:
		m.input = m.input.Right()
	default:
		m.input = m.input.WithAlignment(m.align)
	}
	switch m.vertical {
	case bento.FlexStart:
		m.input = m.input.Top()
	case bento.FlexCenter:
		m.input = m.input.Middle()
	case bento.FlexEnd:
		m.input = m.input.Bottom()
	}
	if m.block {
		m.input = m.input.WithBlock(blockwidget.New().Bordered())
	}
	return m
}

func (m *model) cluster() *rapid.Generator[string] {
	gs := []*rapid.Generator[string]{
		rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"}),
		kit.Cluster(),
		rapid.SampledFrom([]string{" ", " ", "\u3000", "\u00a0"}),
	}
	if m.zero {
		gs = append(gs, rapid.SampledFrom([]string{"\u200b", "\t", "\u2060"}))
	}
	return rapid.OneOf(gs...)
}

// step performs one operation on both.
func (m *model) step(t *rapid.T) {
	send := func(k bento.Key, want bool) {
		kit.Guard(m.desc(), func() {
			if cmd, used := m.state.TryUpdate(bento.KeyMsg(k)); used != want || cmd != nil {
				t.Fatalf("key consumed: %v, want %v; %s", used, want, m.desc())
			}
		})
	}
	times := func() int { return rapid.SampledFrom([]int{1, 1, 1, 2, 3, 5}).Draw(t, "times") }
	direct := rapid.IntRange(0, 3).Draw(t, "direct") == 2
	switch rapid.IntRange(0, 13).Draw(t, "op") {
	case 0, 1, 2:
		cs := rapid.SliceOfN(m.cluster(), 1, 3).Draw(t, "typed")
		m.note("type %q", cs)
		for _, c := range cs {
			m.insert(c)
			typ := bento.KeyRunes
			if c == " " {
				typ = bento.KeySpace
			}
			send(bento.Key{Type: typ, Runes: []rune(c)}, true)
		}
	case 3:
		cs := kit.Several(m.cluster(), 0, 14).Draw(t, "pasted")
		s := strings.Join(cs, "")
		m.note("paste %q", s)
		m.insert(kit.Clusters(s)...)
		if direct {
			kit.Guard(m.desc(), func() { m.state.Append(s) })
		} else {
			send(bento.Key{Type: bento.KeyRunes, Runes: []rune(s), Paste: true}, true)
		}
	case 4, 5:
		for i, n := 0, times(); i < n; i++ {
			m.note("left")
			m.move(m.cursor - 1)
			if direct {
				m.state.MoveCursorLeft()
			} else {
				send(bento.Key{Type: bento.KeyLeft}, true)
			}
		}
	case 6:
		for i, n := 0, times(); i < n; i++ {
			m.note("right")
			m.move(m.cursor + 1)
			if direct {
				m.state.MoveCursorRight()
			} else {
				send(bento.Key{Type: bento.KeyRight}, true)
			}
		}
	case 7:
		m.note("begin")
		m.move(0)
		if direct {
			m.state.MoveCursorBegin()
		} else {
			send(bento.Key{Type: bento.KeyCtrlA}, true)
		}
	case 8:
		m.note("end")
		m.move(len(m.text))
		if direct {
			m.state.MoveCursorEnd()
		} else {
			send(bento.Key{Type: bento.KeyCtrlE}, true)
		}
	case 9:
		for i, n := 0, times(); i < n; i++ {
			m.note("backspace")
			m.remove(max(0, m.cursor-1))
			if direct {
				m.state.DeleteUnderCursor()
			} else {
				send(bento.Key{Type: rapid.SampledFrom([]bento.KeyType{bento.KeyBackspace, bento.KeyBackspace, bento.KeyDelete}).Draw(t, "erase")}, true)
			}
		}
	case 10:
		m.note("delete word")
		m.word()
		if direct {
			kit.Guard(m.desc(), m.state.DeleteWordUnderCursor)
		} else {
			send(bento.Key{Type: bento.KeyCtrlW}, true)
		}
	case 11:
		if rapid.IntRange(0, 2).Draw(t, "really") == 1 {
			m.note("delete line")
			m.text, m.cursor = nil, 0
			m.state.DeleteLine()
		} else {
			m.note("other key")
			send(bento.Key{Type: rapid.SampledFrom([]bento.KeyType{bento.KeyEnter, bento.KeyTab, bento.KeyUp, bento.KeyF1, bento.KeyEscape, bento.KeyCtrlC}).Draw(t, "otherKey")}, false)
		}
	case 12:
		m.shown = rapid.Bool().Draw(t, "show")
		m.note("show cursor %v", m.shown)
		m.state.ShowCursor(m.shown)
	case 13:
		msg := rapid.SampledFrom([]bento.Msg{
			nil, "a", 'a', bento.MouseMsg{Action: bento.MouseActionPress}, bento.WindowSizeMsg{Width: 9, Height: 9},
			bento.FocusMsg{}, bento.BlurMsg{}, bento.Key{Type: bento.KeyRunes, Runes: []rune("a")}, bento.Key{Type: bento.KeyBackspace},
		}).Draw(t, "other")
		m.note("%T %v", msg, msg)
		if cmd, used := m.state.TryUpdate(msg); used || cmd != nil {
			t.Fatalf("%T %v consumed: %s", msg, msg, m.desc())
		}
	}
	if got, want := m.state.String(), m.value(); got != want {
		t.Fatalf("value is %q, want %q: %s", got, want, m.desc())
	}
}

// glyph is one expected cluster on the row.
type glyph struct {
	sym    string
	styles []bento.Style
}

func glyphs(cs []string, ss ...bento.Style) []glyph {
	var out []glyph
	for _, c := range cs {
		out = append(out, glyph{c, ss})
	}
	return out
}

func glyphsWidth(gs []glyph) int {
	w := 0
	for _, g := range gs {
		w += kit.Width(g.sym)
	}
	return w
}

// match compares the row with the glyphs at their alignment.
func (m *model) match(buf *bento.Buffer, row bento.Rect, gs []glyph) error {
	width := glyphsWidth(gs)
	x, _ := txt.Window(width, row.Width, m.align)
	base := txt.Styled(bento.NewEmptyCell(), m.style)
	at := func(x int) bento.Cell { return *buf.CellAt(bento.NewPosition(row.X+x, row.Y)) }
	for i := 0; i < x; i++ {
		if got := at(i); got != base {
			return fmt.Errorf("column %d before the text is %+v", i, got)
		}
	}
	for _, g := range gs {
		w := kit.Width(g.sym)
		if x+w > row.Width {
			return nil // cut
		}
		exp := txt.Styled(base, g.styles...)
		exp.Symbol = g.sym
		if got := at(x); got != exp {
			return fmt.Errorf("column %d is %+v, want %+v", x, got, exp)
		}
		for i := 1; i < w; i++ {
			if got := at(x + i); got.Symbol != " " {
				return fmt.Errorf("column %d behind a wide cluster is %+v", x+i, got)
			}
		}
		x += w
	}
	for ; x < row.Width; x++ {
		if got := at(x); got != base {
			return fmt.Errorf("column %d after the text is %+v", x, got)
		}
	}
	return nil
}

func (m *model) render(t *rapid.T) {
	width := kit.UpTo(16).Draw(t, "w")
	if rapid.IntRange(0, 2).Draw(t, "small") == 1 {
		width = rapid.IntRange(1, 6).Draw(t, "w2") + kit.Width(m.prompt)
	}
	height := kit.AtLeast(1, 4).Draw(t, "h")
	if rapid.IntRange(0, 9).Draw(t, "flat") == 7 {
		height = 0
	}
	if m.block {
		width, height = width+2, height+2
	}
	area := bento.NewRect(width, height).Positioned(1, 1)
	m.note("render %dx%d", width, height)
	desc := m.desc()

	bufArea := bento.NewRect(width+2, height+2)
	buf := bento.NewBufferEmpty(bufArea)
	for y := 0; y < bufArea.Height; y++ {
		for x := 0; x < bufArea.Width; x++ {
			if p := bento.NewPosition(x, y); !area.Contains(p) {
				buf.CellAt(p).SetSymbol(outside)
			}
		}
	}
	kit.Rehearse(t, desc, func(a bento.Rect, b *bento.Buffer) {
		state := m.state
		m.input.RenderStateful(a, b, &state)
	})
	kit.Guard(desc, func() { m.input.RenderStateful(area, &buf, &m.state) })
	m.renders++
	fail := func(format string, args ...any) {
		t.Helper()
		t.Fatalf("%s; text %q cursor %d: %s\n%s", fmt.Sprintf(format, args...), m.value(), m.cursor, desc, kit.Dump(&buf))
	}
	if m.state.String() != m.value() {
		fail("rendering changed the value to %q", m.state.String())
	}
	for y := 0; y < bufArea.Height; y++ {
		for x := 0; x < bufArea.Width; x++ {
			if p := bento.NewPosition(x, y); !area.Contains(p) && *buf.CellAt(p) != bento.NewCell(outside) {
				fail("(%d,%d) outside of the area changed", x, y)
			}
		}
	}
	inner := area
	if m.block {
		b := blockwidget.New().Bordered()
		inner = b.Inner(area)
		framed := bento.NewBufferEmpty(bufArea)
		framed.SetStyle(area, m.style)
		b.Render(area, &framed)
		for y := area.Top(); y < area.Bottom(); y++ {
			for x := area.Left(); x < area.Right(); x++ {
				if p := bento.NewPosition(x, y); !inner.Contains(p) && *buf.CellAt(p) != *framed.CellAt(p) {
					fail("(%d,%d) of the block is %+v, want %+v", x, y, *buf.CellAt(p), *framed.CellAt(p))
				}
			}
		}
	}
	pw := kit.Width(m.prompt)
	room := inner.Width - pw
	whole := m.width(0, len(m.text)) + 1
	if whole > room {
		m.scrolled = true
	}
	if inner.IsEmpty() || room <= 0 || m.zero {
		return
	}

	// The other rows are blank, and the row of the text is where it belongs.
	base := txt.Styled(bento.NewEmptyCell(), m.style)
	rows := []int{}
	switch m.vertical {
	case bento.FlexLegacy, bento.FlexStart:
		rows = append(rows, 0)
	case bento.FlexEnd:
		rows = append(rows, inner.Height-1)
	case bento.FlexCenter:
		rows = append(rows, (inner.Height-1)/2)
		if inner.Height%2 == 0 {
			rows = append(rows, inner.Height/2)
		}
	}
	blank := func(y int) bool {
		for x := inner.Left(); x < inner.Right(); x++ {
			if *buf.CellAt(bento.NewPosition(x, y)) != base {
				return false
			}
		}
		return true
	}
	y := inner.Y + rows[0]
	if len(rows) > 1 && blank(y) {
		y = inner.Y + rows[1]
	}
	for yy := inner.Top(); yy < inner.Bottom(); yy++ {
		if yy != y && !blank(yy) {
			fail("row %d is not blank, but row %d holds the text", yy, y)
		}
	}
	row := bento.NewRect(inner.Width, 1).Positioned(inner.X, y)

	prompt := glyphs(kit.Clusters(m.prompt), m.promptStyle)
	cursor := func(base ...bento.Style) []bento.Style {
		if m.shown {
			return append(base, m.cursorStyle)
		}
		return base
	}

	if len(m.text) == 0 {
		gs := prompt
		ph := kit.Clusters(m.placeholder)
		if len(ph) > 0 {
			gs = append(gs, glyph{ph[0], cursor(m.phStyle)})
			gs = append(gs, glyphs(ph[1:], m.phStyle)...)
		} else if m.shown {
			gs = append(gs, glyph{" ", cursor()})
		}
		if glyphsWidth(gs) > inner.Width && m.align > bento.AlignmentLeft {
			return // cut on both sides
		}
		if err := m.match(&buf, row, gs); err != nil {
			fail("empty input: %v", err)
		}
		return
	}

	cw := 1
	if m.cursor < len(m.text) {
		cw = max(1, kit.Width(m.text[m.cursor]))
	}
	if cw > room {
		return // no room for what is under the cursor
	}
	m.partly++
	if whole <= room {
		m.partly--
	}

	// Some window around the cursor must be shown, with nothing left out
	// that had room.
	var last error
	for f := 0; f <= m.cursor; f++ {
		if f > 0 && !m.scrolled {
			break
		}
		for l := m.cursor; l <= len(m.text); l++ {
			if l == m.cursor && l < len(m.text) {
				continue
			}
			gs := append(append([]glyph(nil), prompt...), glyphs(m.text[f:m.cursor])...)
			if m.cursor < len(m.text) {
				gs = append(gs, glyph{m.text[m.cursor], cursor()})
				gs = append(gs, glyphs(m.text[m.cursor+1:l])...)
			} else if m.shown {
				gs = append(gs, glyph{" ", cursor()})
			}
			w := glyphsWidth(gs)
			if w > inner.Width {
				break
			}
			if l < len(m.text) && w+kit.Width(m.text[l]) < inner.Width {
				continue // wasteful
			}
			err := m.match(&buf, row, gs)
			if err == nil {
				return
			}
			last = err
		}
	}
	fail("no part of the text around the cursor is shown (%v)", last)
}

func run(t *testing.T, zero bool) {
	rapid.Check(t, func(t *rapid.T) {
		m := newModel(t)
		m.zero = zero
		for i, n := 0, kit.AtLeast(1, 25).Draw(t, "ops"); i < n; i++ {
			m.step(t)
			if rapid.IntRange(0, 3).Draw(t, "render") > 0 {
				m.render(t)
			}
		}
		m.render(t)
		kit.Case(m.desc(), m.renders > 1 && (m.partly > 0 || zero), kit.Cls(m.prompt != "", "with prompt"), kit.Cls(m.align > bento.AlignmentLeft, "centred or right"))
		kit.Events("renders of a part", m.partly)
	})
}

func TestProperty(t *testing.T) { run(t, false) }

// TestZeroWidth types clusters without width as well; only the value, and that
// rendering is safe, are checked then.
func TestZeroWidth(t *testing.T) { run(t, true) }
