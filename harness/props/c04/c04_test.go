// C04: style algebra.
package c04

import (
	"fmt"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/muesli/termenv"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

// model of a style: colours and, per modifier, +1 added, -1 removed.
type model struct {
	fg, bg bento.Color
	mods   map[bento.Modifier]int
}

func (m model) apply(c bento.Cell) bento.Cell {
	if m.fg != nil {
		c.Fg = m.fg
	}
	if m.bg != nil {
		c.Bg = m.bg
	}
	for k, v := range m.mods {
		switch v {
		case 1:
			c.Modifier |= k
		case -1:
			c.Modifier &^= k
		}
	}
	return c
}

func (m model) clone() model {
	n := model{fg: m.fg, bg: m.bg, mods: map[bento.Modifier]int{}}
	for k, v := range m.mods {
		n.mods[k] = v
	}
	return n
}

func (m model) then(p model) model {
	n := m.clone()
	if p.fg != nil {
		n.fg = p.fg
	}
	if p.bg != nil {
		n.bg = p.bg
	}
	for k, v := range p.mods {
		n.mods[k] = v
	}
	return n
}

type setter struct {
	name string
	do   func(bento.Style) bento.Style
	fg   bento.Color
	bg   bento.Color
	add  bento.Modifier
}

type S = bento.Style

var named = []setter{
	{name: "Reversed", do: S.Reversed, add: bento.ModifierReversed},
	{name: "CrossedOut", do: S.CrossedOut, add: bento.ModifierCrossedOut},
	{name: "Italic", do: S.Italic, add: bento.ModifierItalic},
	{name: "Bold", do: S.Bold, add: bento.ModifierBold},
	{name: "Underlined", do: S.Underlined, add: bento.ModifierUnderlined},
	{name: "Dim", do: S.Dim, add: bento.ModifierDim},
	{name: "Black", do: S.Black, fg: termenv.ANSIColor(0)}, {name: "OnBlack", do: S.OnBlack, bg: termenv.ANSIColor(0)},
	{name: "Red", do: S.Red, fg: termenv.ANSIColor(1)}, {name: "OnRed", do: S.OnRed, bg: termenv.ANSIColor(1)},
	{name: "Green", do: S.Green, fg: termenv.ANSIColor(2)}, {name: "OnGreen", do: S.OnGreen, bg: termenv.ANSIColor(2)},
	{name: "Yellow", do: S.Yellow, fg: termenv.ANSIColor(3)}, {name: "OnYellow", do: S.OnYellow, bg: termenv.ANSIColor(3)},
	{name: "Blue", do: S.Blue, fg: termenv.ANSIColor(4)}, {name: "OnBlue", do: S.OnBlue, bg: termenv.ANSIColor(4)},
	{name: "Magenta", do: S.Magenta, fg: termenv.ANSIColor(5)}, {name: "OnMagenta", do: S.OnMagenta, bg: termenv.ANSIColor(5)},
	{name: "Cyan", do: S.Cyan, fg: termenv.ANSIColor(6)}, {name: "OnCyan", do: S.OnCyan, bg: termenv.ANSIColor(6)},
	{name: "White", do: S.White, fg: termenv.ANSIColor(7)}, {name: "OnWhite", do: S.OnWhite, bg: termenv.ANSIColor(7)},
	{name: "BrightBlack", do: S.BrightBlack, fg: termenv.ANSIColor(8)}, {name: "OnBrightBlack", do: S.OnBrightBlack, bg: termenv.ANSIColor(8)},
	{name: "BrightRed", do: S.BrightRed, fg: termenv.ANSIColor(9)}, {name: "OnBrightRed", do: S.OnBrightRed, bg: termenv.ANSIColor(9)},
	{name: "BrightGreen", do: S.BrightGreen, fg: termenv.ANSIColor(10)}, {name: "OnBrightGreen", do: S.OnBrightGreen, bg: termenv.ANSIColor(10)},
	{name: "BrightYellow", do: S.BrightYellow, fg: termenv.ANSIColor(11)}, {name: "OnBrightYellow", do: S.OnBrightYellow, bg: termenv.ANSIColor(11)},
	{name: "BrightBlue", do: S.BrightBlue, fg: termenv.ANSIColor(12)}, {name: "OnBrightBlue", do: S.OnBrightBlue, bg: termenv.ANSIColor(12)},
	{name: "BrightMagenta", do: S.BrightMagenta, fg: termenv.ANSIColor(13)}, {name: "OnBrightMagenta", do: S.OnBrightMagenta, bg: termenv.ANSIColor(13)},
	{name: "BrightCyan", do: S.BrightCyan, fg: termenv.ANSIColor(14)}, {name: "OnBrightCyan", do: S.OnBrightCyan, bg: termenv.ANSIColor(14)},
	{name: "BrightWhite", do: S.BrightWhite, fg: termenv.ANSIColor(15)}, {name: "OnBrightWhite", do: S.OnBrightWhite, bg: termenv.ANSIColor(15)},
}

// drawStyle builds a style through a generated chain of setters, with its model.
func drawStyle(t *rapid.T, label string) (bento.Style, model, string) {
	s, m, desc := bento.NewStyle(), model{mods: map[bento.Modifier]int{}}, "new"
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, label+"Len"); i < n; i++ {
		m = m.clone()
		switch kit.UpTo(6).Draw(t, "setter") {
		case 0:
			c := kit.Color().Draw(t, "fg")
			s, m.fg = s.WithForeground(c), c
			desc += fmt.Sprintf(".fg(%v)", c)
		case 1:
			c := kit.Color().Draw(t, "bg")
			s, m.bg = s.WithBackground(c), c
			desc += fmt.Sprintf(".bg(%v)", c)
		case 2:
			mod := kit.Modifiers().Draw(t, "add")
			s = s.WithModifier(mod)
			for _, one := range kit.AllModifiers {
				if mod&one != 0 {
					m.mods[one] = 1
				}
			}
			desc += fmt.Sprintf(".add(%x)", uint16(mod))
		case 3:
			mod := kit.Modifiers().Draw(t, "sub")
			s = s.WithoutModifier(mod)
			for _, one := range kit.AllModifiers {
				if mod&one != 0 {
					m.mods[one] = -1
				}
			}
			desc += fmt.Sprintf(".sub(%x)", uint16(mod))
		case 4, 5:
			k := rapid.SampledFrom(named).Draw(t, "named")
			s = k.do(s)
			if k.fg != nil {
				m.fg = k.fg
			}
			if k.bg != nil {
				m.bg = k.bg
			}
			if k.add != 0 {
				m.mods[k.add] = 1
			}
			desc += "." + k.name
		case 6:
			v := rapid.IntRange(0, 0xffffff).Draw(t, "rgb")
			r, g, b := uint8(v>>16), uint8(v>>8), uint8(v)
			c := bento.Color(termenv.RGBColor(fmt.Sprintf("#%06x", v)))
			if rapid.Bool().Draw(t, "on") {
				s, m.bg = s.OnRGB(r, g, b), c
			} else {
				s, m.fg = s.RGB(r, g, b), c
			}
			desc += fmt.Sprintf(".rgb(%06x)", v)
		}
	}
	return s, m, desc
}

func drawCell(t *rapid.T) bento.Cell {
	c := bento.NewCell(kit.Cluster().Draw(t, "symbol"))
	c.Fg, c.Bg = kit.Color().Draw(t, "cellFg"), kit.Color().Draw(t, "cellBg")
	switch rapid.IntRange(0, 3).Draw(t, "cellMods") {
	case 0:
	case 1:
		c.Modifier = bento.ModifierAll
	default:
		c.Modifier = kit.Modifiers().Draw(t, "cellModifier")
	}
	c.Skip = rapid.Bool().Draw(t, "skip")
	return c
}

func styled(c bento.Cell, ss ...bento.Style) bento.Cell {
	for _, s := range ss {
		c.SetStyle(s)
	}
	return c
}

func TestAlgebra(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		a, ma, da := drawStyle(t, "a")
		b, mb, db := drawStyle(t, "b")
		c, mc, dc := drawStyle(t, "c")
		cell := drawCell(t)
		desc := fmt.Sprintf("a=%s b=%s c=%s cell=%+v", da, db, dc, cell)

		eq := func(what string, got, want bento.Cell) {
			if got != want {
				t.Fatalf("%s: got %+v, want %+v; %s", what, got, want, desc)
			}
		}
		eq("applying a style", styled(cell, a), ma.apply(cell))
		eq("one after the other", styled(cell, a, b), mb.apply(ma.apply(cell)))
		eq("patched", styled(cell, a.Patched(b)), styled(cell, a, b))
		eq("patched twice", styled(cell, a.Patched(b).Patched(c)), mc.apply(mb.apply(ma.apply(cell))))
		eq("associativity", styled(cell, a.Patched(b.Patched(c))), styled(cell, a, b, c))
		eq("idempotence", styled(cell, a, a), styled(cell, a))
		eq("empty style", styled(cell, bento.NewStyle()), cell)
		eq("empty patch", styled(cell, a.Patched(bento.NewStyle())), styled(cell, a))
		eq("patched empty", styled(cell, bento.NewStyle().Patched(a)), styled(cell, a))
		eq("setters after a patch", styled(cell, a.Patched(b).Bold()), ma.then(mb).then(model{mods: map[bento.Modifier]int{bento.ModifierBold: 1}}).apply(cell))

		p := a.Patched(b)
		mp := ma.then(mb)
		if p.Foreground.IsSet() != (mp.fg != nil) || p.Background.IsSet() != (mp.bg != nil) {
			t.Fatalf("colours set: %v %v; %s", p.Foreground.IsSet(), p.Background.IsSet(), desc)
		}
		if mp.fg != nil && p.Foreground.Color() != mp.fg {
			t.Fatalf("foreground %v, want %v; %s", p.Foreground.Color(), mp.fg, desc)
		}
		if mp.bg != nil && p.Background.Color() != mp.bg {
			t.Fatalf("background %v, want %v; %s", p.Background.Color(), mp.bg, desc)
		}
		for _, m := range kit.AllModifiers {
			if cell.Modifier.Contains(m) != (cell.Modifier&m == m) {
				t.Fatalf("contains(%x) of %x", m, cell.Modifier)
			}
		}
		both := false
		for k, v := range ma.mods {
			if w, ok := mb.mods[k]; ok && v != w {
				both = true
			}
		}
		kit.Case(desc, da != "new" && db != "new", kit.Cls(both, "opposing modifiers"))
	})
}

func TestRegion(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		area := bento.NewRect(kit.UpTo(6).Draw(t, "w"), kit.UpTo(4).Draw(t, "h")).
			Positioned(rapid.IntRange(0, 4).Draw(t, "ax"), rapid.IntRange(0, 4).Draw(t, "ay"))
		buf := bento.NewBufferEmpty(area)
		kit.FillWellFormed(t, &buf, 40)
		before := kit.Grid(&buf)
		style, m, d := drawStyle(t, "style")
		region := bento.NewRect(kit.UpTo(12).Draw(t, "rw"), kit.UpTo(10).Draw(t, "rh")).
			Positioned(rapid.IntRange(-3, 12).Draw(t, "rx"), rapid.IntRange(-3, 10).Draw(t, "ry"))
		desc := fmt.Sprintf("area=%v region=%v style=%s", area, region, d)
		kit.Guard(desc, func() { buf.SetStyle(region, style) })
		inside := 0
		for y, row := range kit.Grid(&buf) {
			for x, got := range row {
				want := before[y][x]
				px, py := area.X+x, area.Y+y
				if px >= region.X && px < region.X+region.Width && py >= region.Y && py < region.Y+region.Height {
					want = m.apply(want)
					inside++
				}
				if got != want {
					t.Fatalf("cell (%d,%d) is %+v, want %+v; %s", px, py, got, want, desc)
				}
			}
		}
		kit.Case(desc, inside > 0 && d != "new", kit.Cls(inside > 0 && inside < area.Area(), "partial"))
	})
}

// TestCell: each setter of a cell changes what it names and nothing else.
func TestCell(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		cell := drawCell(t)
		want := cell
		desc := fmt.Sprintf("cell %+v", cell)
		calls := kit.AtLeast(1, 5).Draw(t, "calls")
		for i := 0; i < calls; i++ {
			var ret *bento.Cell
			switch rapid.IntRange(0, 5).Draw(t, "call") {
			case 0:
				c := kit.Color().Draw(t, "color")
				desc += fmt.Sprintf(" fg %v", c)
				ret, want.Fg = cell.SetFg(c), c
			case 1:
				c := kit.Color().Draw(t, "color")
				desc += fmt.Sprintf(" bg %v", c)
				ret, want.Bg = cell.SetBg(c), c
			case 2:
				s := kit.Cluster().Draw(t, "symbol")
				desc += fmt.Sprintf(" symbol %q", s)
				ret, want.Symbol = cell.SetSymbol(s), s
			case 3:
				s := kit.Cluster().Draw(t, "symbol")
				desc += fmt.Sprintf(" append %q", s)
				ret, want.Symbol = cell.AppendSymbol(s), want.Symbol+s
			case 4:
				s, m, d := drawStyle(t, "style")
				desc += " style " + d
				ret, want = cell.SetStyle(s), m.apply(want)
			case 5:
				if rapid.IntRange(0, 3).Draw(t, "reset") > 0 {
					continue
				}
				desc += " reset"
				cell.Reset()
				ret, want = &cell, bento.NewEmptyCell()
			}
			if ret != &cell {
				t.Fatalf("the setter returned another cell; %s", desc)
			}
			if cell != want {
				t.Fatalf("cell is %+v, want %+v; %s", cell, want, desc)
			}
		}
		// one modifier says nothing of another
		one, other := rapid.SampledFrom(modifiers).Draw(t, "one"), rapid.SampledFrom(modifiers).Draw(t, "other")
		styled := bento.NewEmptyCell()
		styled.SetStyle(bento.NewStyle().WithModifier(one.mod))
		if got := styled.Modifier.Contains(other.mod); got != (one.name == other.name) {
			t.Fatalf("a cell that is %s is %s: %v", one.name, other.name, got)
		}
		if styled.SetStyle(bento.NewStyle().WithoutModifier(other.mod)); styled.Modifier.Contains(one.mod) != (one.name != other.name) {
			t.Fatalf("a cell that is %s is %+v without %s", one.name, styled, other.name)
		}
		// the colour of a style
		var sc bento.StyleColor
		color := kit.Color().Draw(t, "styleColor")
		sc.Set(color)
		if !sc.IsSet() || sc.Color() != color {
			t.Fatalf("set to %v the colour is %v (set: %v)", color, sc.Color(), sc.IsSet())
		}
		if sc.Reset(); sc.IsSet() {
			t.Fatalf("reset, the colour is set: %v", sc.Color())
		}
		if e := bento.NewEmptyCell(); e != (bento.Cell{Symbol: " ", Fg: bento.ResetColor{}, Bg: bento.ResetColor{}}) {
			t.Fatalf("an empty cell is %+v", e)
		}
		kit.Case(desc, calls > 1)
	})
}

var modifiers = []struct {
	name string
	mod  bento.Modifier
}{
	{"bold", bento.ModifierBold}, {"dim", bento.ModifierDim}, {"italic", bento.ModifierItalic},
	{"underlined", bento.ModifierUnderlined}, {"slowly blinking", bento.ModifierSlowBlink}, {"rapidly blinking", bento.ModifierRapidBlink},
	{"reversed", bento.ModifierReversed}, {"hidden", bento.ModifierHidden}, {"crossed out", bento.ModifierCrossedOut},
}
