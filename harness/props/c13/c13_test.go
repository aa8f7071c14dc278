// C13: lists over histories of selections, scrolls, item changes and renders.
package c13

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/txt"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/textwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const outside = "~"

type settings struct {
	style, highlight bento.Style
	symbol           string
	repeat           bool
	spacing          listwidget.HighlightSpacing
	direction        listwidget.Direction
	padding          int
	block            bool
	replaced         bool
}

func (s settings) list(items []textwidget.Text) listwidget.List {
	l := listwidget.New(items...)
	if s.replaced {
		l = listwidget.New(textwidget.NewTextStr("replaced"), textwidget.NewTextStr("too")).WithItems(items...)
	}
	l = l.WithStyle(s.style).WithHighlightStyle(s.highlight).WithHighlightSymbol(s.symbol).
		WithRepeatHighlightSymbol(s.repeat).WithHighlightSpacing(s.spacing).WithDirection(s.direction).WithScrollPadding(s.padding)
	if s.block {
		l = l.WithBlock(blockwidget.New().Bordered())
	}
	return l
}

func drawSettings(t *rapid.T) settings {
	return settings{
		style:     txt.MaybeStyle().Draw(t, "style"),
		highlight: txt.MaybeStyle().Draw(t, "highlight"),
		symbol:    rapid.SampledFrom([]string{">", "", ">>", "世", "→ ", "é›", "e\u0301", "👩\u200d🚀 "}).Draw(t, "symbol"),
		repeat:    rapid.Bool().Draw(t, "repeat"),
		replaced:  rapid.IntRange(0, 5).Draw(t, "replaced") == 3,
		spacing:   rapid.SampledFrom([]listwidget.HighlightSpacing{listwidget.HighlightSpacingWhenSelected, listwidget.HighlightSpacingAlways, listwidget.HighlightSpacingNever}).Draw(t, "spacing"),
		direction: rapid.SampledFrom([]listwidget.Direction{listwidget.DirectionTopToBottom, listwidget.DirectionBottomToTop}).Draw(t, "direction"),
		padding:   max(0, rapid.IntRange(-2, 3).Draw(t, "padding")),
		block:     rapid.IntRange(0, 4).Draw(t, "block") == 2,
	}
}

// model is a list with its state as the harness sees it.
type model struct {
	settings
	items   []textwidget.Text
	serial  int
	state   listwidget.State
	offset  int
	hasSel  bool
	sel     int
	size    bento.Rect // area of the list
	log     []string
	renders int
	scrolls int
	moved   bool
}

func (m *model) note(format string, args ...any) {
	m.log = append(m.log, fmt.Sprintf(format, args...))
}

func (m *model) desc() string {
	return fmt.Sprintf("list(%s hl=%s symbol=%q repeat=%v spacing=%d dir=%d padding=%d block=%v) in %v: %s",
		txt.Sty(m.style), txt.Sty(m.highlight), m.symbol, m.repeat, m.spacing, m.direction, m.padding, m.block, m.size, strings.Join(m.log, "; "))
}

func (m *model) newItem(t *rapid.T) textwidget.Text {
	h := 1
	switch rapid.IntRange(0, 9).Draw(t, "itemKind") {
	case 2, 3, 4:
		h = 2
	case 5, 6:
		h = 3
	case 7:
		h = 0
	case 8:
		h = rapid.IntRange(4, 9).Draw(t, "tall")
	}
	m.serial++
	var lines []textwidget.Line
	for j := 0; j < h; j++ {
		content := fmt.Sprintf("%d%c%s", m.serial, 'a'+j, rapid.SampledFrom([]string{"", "x", "世", " y"}).Draw(t, "rest"))
		l := textwidget.NewLine(textwidget.NewSpan(content).WithStyle(txt.MaybeStyle().Draw(t, "spanStyle")))
		if rapid.IntRange(0, 5).Draw(t, "aligned") == 3 {
			l = l.WithAlignment(txt.Alignment().Draw(t, "align"))
		}
		lines = append(lines, l)
	}
	return textwidget.NewText(lines...).WithStyle(txt.MaybeStyle().Draw(t, "itemStyle"))
}

func add(a, b int) int {
	if b > 0 && a > math.MaxInt-b {
		return math.MaxInt
	}
	return a + b
}

func (m *model) choose(i int) { m.hasSel, m.sel = true, max(0, i) }

func key(s string) bento.KeyMsg {
	switch s {
	case "up":
		return bento.KeyMsg{Type: bento.KeyUp}
	case "down":
		return bento.KeyMsg{Type: bento.KeyDown}
	case "ctrl+u":
		return bento.KeyMsg{Type: bento.KeyCtrlU}
	case "ctrl+d":
		return bento.KeyMsg{Type: bento.KeyCtrlD}
	}
	return bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(s)}
}

func (m *model) op(t *rapid.T) {
	current := func() int {
		if m.hasSel {
			return m.sel
		}
		return 0
	}
	next := func() {
		if m.hasSel {
			m.choose(add(m.sel, 1))
		} else {
			m.choose(0)
		}
	}
	prev := func() {
		if m.hasSel {
			m.choose(m.sel - 1)
		} else {
			m.choose(math.MaxInt)
		}
	}
	switch op := rapid.IntRange(0, 14).Draw(t, "op"); op {
	case 0, 1:
		n := rapid.IntRange(1, 3).Draw(t, "times")
		m.note("next x%d", n)
		for i := 0; i < n; i++ {
			m.state.SelectNext()
			next()
		}
	case 2, 3:
		n := rapid.IntRange(1, 3).Draw(t, "times")
		m.note("previous x%d", n)
		for i := 0; i < n; i++ {
			m.state.SelectPrevious()
			prev()
		}
	case 4:
		m.note("first")
		m.state.SelectFirst()
		m.choose(0)
	case 5:
		m.note("last")
		m.state.SelectLast()
		m.choose(math.MaxInt)
	case 6:
		n := kit.AtLeast(-1, 14).Draw(t, "index")
		m.note("select %d", n)
		m.state.Select(n)
		m.choose(n)
	case 7:
		n := kit.UpTo(9).Draw(t, "amount")
		m.note("down by %d", n)
		m.state.ScrollDownBy(n)
		m.choose(add(current(), n))
	case 8:
		n := kit.UpTo(9).Draw(t, "amount")
		m.note("up by %d", n)
		m.state.ScrollUpBy(n)
		m.choose(current() - n)
	case 9:
		if rapid.IntRange(0, 2).Draw(t, "really") != 1 {
			return
		}
		m.note("unselect")
		m.state.Unselect()
		m.hasSel, m.offset = false, 0
	case 10:
		n := kit.AtLeast(-3, 14).Draw(t, "offset")
		m.note("offset %d", n)
		m.state.SetOffset(n)
		m.offset = max(0, n)
	case 11:
		k := rapid.SampledFrom([]string{"j", "k", "down", "up", "g", "G", "ctrl+u", "ctrl+d", "x", "J"}).Draw(t, "key")
		m.note("key %s", k)
		_, used := m.state.TryUpdate(key(k))
		want := true
		switch k {
		case "j", "down":
			next()
		case "k", "up":
			prev()
		case "g":
			m.choose(0)
		case "G":
			m.choose(math.MaxInt)
		case "ctrl+u":
			m.choose(current() - 8)
		case "ctrl+d":
			m.choose(add(current(), 8))
		default:
			want = false
		}
		if used != want {
			t.Fatalf("key %s consumed: %v; %s", k, used, m.desc())
		}
	case 12:
		n := rapid.IntRange(0, 3).Draw(t, "count")
		if rapid.Bool().Draw(t, "drop") {
			n = min(n, len(m.items))
			at := rapid.IntRange(0, len(m.items)-n).Draw(t, "at")
			m.note("remove %d..%d", at, at+n)
			m.items = append(append([]textwidget.Text(nil), m.items[:at]...), m.items[at+n:]...)
		} else {
			at := rapid.IntRange(0, len(m.items)).Draw(t, "at")
			items := append([]textwidget.Text(nil), m.items[:at]...)
			for i := 0; i < n; i++ {
				items = append(items, m.newItem(t))
			}
			m.note("insert %d at %d: %s", n, at, describe(items[at:]))
			m.items = append(items, m.items[at:]...)
		}
	case 13:
		m.resize(t)
		m.note("resize %v", m.size)
	case 14:
		// nothing that moves the selection
		msg := rapid.SampledFrom([]bento.Msg{
			nil, "j", 106, bento.MouseMsg{Action: bento.MouseActionPress, Button: bento.MouseButtonWheelDown},
			bento.WindowSizeMsg{Width: 9, Height: 9}, bento.FocusMsg{}, bento.Key{Type: bento.KeyDown},
			bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune("j"), Paste: true},
			bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune("G"), Paste: true},
			bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune("k"), Alt: true},
			bento.KeyMsg{Type: bento.KeyDown, Alt: true},
			bento.KeyMsg{Type: bento.KeyCtrlDown}, bento.KeyMsg{Type: bento.KeyShiftUp},
		}).Draw(t, "other")
		m.note("%T %v", msg, msg)
		if cmd, used := m.state.TryUpdate(msg); used || cmd != nil {
			t.Fatalf("%T %v consumed: %v", msg, msg, m.desc())
		}
	}
	if got, ok := m.state.Selected(20); ok != m.hasSel || (ok && got != min(20, m.sel)) {
		t.Fatalf("selected is %d,%v, want %d,%v: %s", got, ok, min(20, m.sel), m.hasSel, m.desc())
	}
}

func describe(items []textwidget.Text) string {
	var parts []string
	for _, i := range items {
		parts = append(parts, txt.Describe(i))
	}
	return strings.Join(parts, ",")
}

func (m *model) resize(t *rapid.T) {
	h := kit.AtLeast(1, 9).Draw(t, "h")
	if rapid.IntRange(0, 8).Draw(t, "flat") == 5 {
		h = 0
	}
	m.size = bento.NewRect(kit.UpTo(9).Draw(t, "w"), h).Positioned(1, 1)
}

func (m *model) heights(from, to int) int {
	h := 0
	for i := from; i < to; i++ {
		h += m.items[i].Height()
	}
	return h
}

func (m *model) render(t *rapid.T) {
	m.note("render")
	desc := m.desc()
	bufArea := bento.NewRect(m.size.Width+2, m.size.Height+2)
	buf := bento.NewBufferEmpty(bufArea)
	for y := 0; y < bufArea.Height; y++ {
		for x := 0; x < bufArea.Width; x++ {
			if p := bento.NewPosition(x, y); !m.size.Contains(p) {
				buf.CellAt(p).SetSymbol(outside)
			}
		}
	}
	exp := bento.NewBufferEmpty(bufArea)
	copyBuf(&exp, &buf)

	l := m.list(m.items)
	kit.Rehearse(t, desc, func(a bento.Rect, b *bento.Buffer) {
		state := m.state
		l.RenderStateful(a, b, &state)
	})
	if m.renders == 0 && rapid.Bool().Draw(t, "stateless") {
		// without a state of its own a list is drawn as with a new one
		plain, fresh, state := bento.NewBufferEmpty(bufArea), bento.NewBufferEmpty(bufArea), listwidget.NewState()
		kit.Guard(desc, func() {
			l.Render(m.size, &plain)
			l.RenderStateful(m.size, &fresh, &state)
		})
		same(t, &plain, &fresh, "drawn without a state: "+desc)
	}
	kit.Guard(desc, func() { l.RenderStateful(m.size, &buf, &m.state) })
	m.renders++

	// What must be seen.
	exp.SetStyle(m.size, m.style)
	area := m.size
	if m.block {
		b := blockwidget.New().Bordered()
		b.Render(area, &exp)
		area = b.Inner(area)
	}
	if area.IsEmpty() || len(m.items) == 0 {
		same(t, &buf, &exp, desc)
		return
	}
	if m.hasSel {
		m.sel = min(m.sel, len(m.items)-1)
	}
	if got, ok := m.state.Selected(math.MaxInt); ok != m.hasSel || (ok && got != m.sel) {
		t.Fatalf("after rendering selected is %d,%v, want %d,%v: %s", got, ok, m.sel, m.hasSel, desc)
	}

	offset := min(m.offset, len(m.items)-1)
	first := offset
	end := offset
	for end < len(m.items) && m.heights(first, end+1) <= area.Height {
		end++
	}
	full := end // all that fits from the offset
	if m.hasSel {
		p := m.padding
		lo, hi := 0, 0
		for ; ; p-- {
			lo, hi = max(0, m.sel-p), min(len(m.items)-1, m.sel+p)
			if p == 0 || m.heights(lo, hi+1) <= area.Height {
				break
			}
		}
		if m.heights(lo, hi+1) > area.Height {
			// The selected item alone is too tall: what is shown then is not
			// promised. Start over from a known offset.
			kit.Class("selected item too tall")
			m.offset = rapid.IntRange(0, len(m.items)).Draw(t, "newOffset")
			m.state.SetOffset(m.offset)
			m.note("offset %d", m.offset)
			return
		}
		switch {
		case hi >= end:
			m.scrolls++
			// scrolled down: as few items as possible are hidden; at least
			// everything up to hi is shown
			first = offset
			for m.heights(first, hi+1) > area.Height {
				first++
			}
			if lo < first {
				first = lo
			}
			end = hi + 1
		case lo < first:
			m.scrolls++
			first = lo
			end = first
			for end < len(m.items) && m.heights(first, end+1) <= area.Height {
				end++
			}
		}
		full = first
		for full < len(m.items) && m.heights(first, full+1) <= area.Height {
			full++
		}
	}
	m.offset = first

	// After scrolling down the room below may stay unused until the next
	// rendering.
	var err error
	for last := end; last <= full; last++ {
		e := bento.NewBufferEmpty(bufArea)
		copyBuf(&e, &exp)
		m.draw(&e, area, first, last)
		if err = diff(&buf, &e); err == nil {
			return
		}
	}
	t.Fatalf("items %d..%d of %d should be shown: %v: %s\n%s", first, full-1, len(m.items), err, desc, kit.Dump(&buf))
}

// draw shows the items [first,last).
func (m *model) draw(b *bento.Buffer, area bento.Rect, first, last int) {
	hw := 0
	switch m.spacing {
	case listwidget.HighlightSpacingAlways:
		hw = kit.Width(m.symbol)
	case listwidget.HighlightSpacingWhenSelected:
		if m.hasSel {
			hw = kit.Width(m.symbol)
		}
	}
	y := area.Top()
	if m.direction == listwidget.DirectionBottomToTop {
		y = area.Bottom()
	}
	for i := first; i < last; i++ {
		item := m.items[i]
		h := item.Height()
		if m.direction == listwidget.DirectionBottomToTop {
			y -= h
		}
		row := bento.NewRect(area.Width, h).Positioned(area.X, y)
		b.SetStyle(row, m.style)
		b.SetStyle(row, item.Style)
		item.Render(bento.NewRect(max(0, area.Width-hw), h).Positioned(area.X+hw, y), b)
		for j := 0; j < h; j++ {
			x := area.X
			marked := hw > 0 && m.hasSel && i == m.sel && (j == 0 || m.repeat)
			if !marked {
				continue
			}
			for _, c := range kit.Clusters(m.symbol) {
				w := kit.Width(c)
				if x+w > area.Right() {
					break
				}
				b.CellAt(bento.NewPosition(x, y+j)).SetSymbol(c)
				x += w
			}
		}
		// the gutter behind the tail of a wide symbol keeps no style of its own
		if m.hasSel && i == m.sel {
			b.SetStyle(row, m.highlight)
		}
		if m.direction == listwidget.DirectionTopToBottom {
			y += h
		}
	}
}

func copyBuf(dst, src *bento.Buffer) {
	a := src.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			p := bento.NewPosition(x, y)
			*dst.CellAt(p) = *src.CellAt(p)
		}
	}
}

func diff(got, want *bento.Buffer) error {
	a := got.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		tail := 0
		for x := a.Left(); x < a.Right(); x++ {
			p := bento.NewPosition(x, y)
			g, w := *got.CellAt(p), *want.CellAt(p)
			if tail > 0 {
				// hidden by a wide cluster: only blankness matters
				tail--
				if g.Symbol != " " {
					return fmt.Errorf("cell (%d,%d) behind a wide cluster is %q", x, y, g.Symbol)
				}
				continue
			}
			if g != w {
				return fmt.Errorf("cell (%d,%d) is %+v, want %+v", x, y, g, w)
			}
			tail = kit.Width(g.Symbol) - 1
		}
	}
	return nil
}

func same(t *rapid.T, got, want *bento.Buffer, desc string) {
	if err := diff(got, want); err != nil {
		t.Fatalf("%v: %s\n%s", err, desc, kit.Dump(got))
	}
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		m := &model{settings: drawSettings(t), state: listwidget.NewState()}
		m.resize(t)
		n := kit.UpTo(12).Draw(t, "items")
		for i := 0; i < n; i++ {
			m.items = append(m.items, m.newItem(t))
		}
		m.note("items %s", describe(m.items))
		for i, n := 0, kit.AtLeast(1, 14).Draw(t, "ops"); i < n; i++ {
			m.op(t)
			if rapid.IntRange(0, 2).Draw(t, "render") > 0 {
				m.render(t)
			}
		}
		m.render(t)
		kit.Case(m.desc(), m.renders > 1 && len(m.items) > 1 && m.scrolls > 0,
			kit.Cls(m.padding > 0, "scroll padding"), kit.Cls(m.direction == listwidget.DirectionBottomToTop, "bottom to top"))
		kit.Events("renders that scrolled", m.scrolls)
	})
}
