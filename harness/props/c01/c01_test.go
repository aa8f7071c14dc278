// C01: after every completed draw the terminal shows exactly the frame.
package c01

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/scr"
	"github.com/metafates/bento/verif/pty"
	"github.com/metafates/bento/verif/vt"
	"github.com/muesli/termenv"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const marker = "\x1b]777;sync\x07"

var thePty *pty.Pair

func term(t *rapid.T, w, h int) *pty.Pair {
	if thePty == nil {
		p, err := pty.Open(w, h)
		if err != nil {
			panic(err)
		}
		if err := p.Raw(); err != nil {
			panic(err)
		}
		thePty = p
	}
	thePty.SetSize(w, h)
	return thePty
}

type scene [][]bento.Cell

func newScene(w, h int) scene {
	s := make(scene, h)
	for y := range s {
		s[y] = make([]bento.Cell, w)
		for x := range s[y] {
			s[y][x] = bento.NewEmptyCell()
		}
	}
	return s
}

func (s scene) clone() scene {
	c := make(scene, len(s))
	for y := range s {
		c[y] = append([]bento.Cell(nil), s[y]...)
	}
	return c
}

// put writes one cluster keeping the scene well-formed.
func (s scene) put(x, y int, sym string, style bento.Style, mod bento.Modifier, styleTail bool) {
	row := s[y]
	if kit.Width(sym) == 2 && x+1 >= len(row) {
		sym = "w"
	}
	if x > 0 && kit.Width(row[x-1].Symbol) == 2 {
		row[x-1].SetSymbol("v")
	}
	row[x].SetSymbol(sym).SetStyle(style)
	row[x].Modifier = mod
	if kit.Width(sym) == 2 {
		row[x+1].Reset()
		if styleTail {
			row[x+1].SetStyle(style)
		}
	}
}

type painter struct {
	panics bool // once half of it is painted
	scene  scene
	skip   map[bento.Position]bool // cells left to the terminal
	err    error
	area   bento.Rect
}

func (p *painter) Render(area bento.Rect, buffer *bento.Buffer) {
	p.area = area
	if buffer.Area() != area {
		p.err = fmt.Errorf("frame buffer covers %v, the frame area is %v", buffer.Area(), area)
		return
	}
	if area.Height != len(p.scene) || (area.Height > 0 && area.Width != len(p.scene[0])) {
		p.err = fmt.Errorf("frame area %v, expected %d rows", area, len(p.scene))
		return
	}
	for y, row := range p.scene {
		if p.panics && y >= len(p.scene)/2 {
			panic(panicked{})
		}
		for x, c := range row {
			cell := buffer.CellAt(bento.NewPosition(area.X+x, area.Y+y))
			if *cell != bento.NewEmptyCell() {
				p.err = fmt.Errorf("a new frame starts with %#v at (%d,%d)", *cell, x, y)
			}
			*cell = c
			cell.Skip = p.skip[bento.NewPosition(x, y)]
		}
	}
}

// flaky is a backend that fails at one call, having done part of it at most.
type flaky struct {
	*bento.DefaultBackend
	countdown int // calls until the one that fails
	part      int // how much of that one is done
	failed    bool
}

var errFlaky = errors.New("the terminal is out of order")

// out counts a call, and is true if it fails.
func (f *flaky) out() bool {
	f.countdown--
	if f.countdown == 0 {
		f.failed = true
	}
	return f.countdown == 0
}

func (f *flaky) either(do func() error) error {
	if !f.out() {
		return do()
	}
	if f.part%2 == 1 {
		_ = do()
	}
	return errFlaky
}

func (f *flaky) Draw(cells []bento.PositionedCell) error {
	if !f.out() {
		return f.DefaultBackend.Draw(cells)
	}
	_ = f.DefaultBackend.Draw(cells[:min(f.part, len(cells))])
	return errFlaky
}

func (f *flaky) Flush() error            { return f.either(f.DefaultBackend.Flush) }
func (f *flaky) HideCursor() error       { return f.either(f.DefaultBackend.HideCursor) }
func (f *flaky) ClearAll() error         { return f.either(f.DefaultBackend.ClearAll) }
func (f *flaky) ClearAfterCursor() error { return f.either(f.DefaultBackend.ClearAfterCursor) }
func (f *flaky) SetCursorPosition(p bento.Position) error {
	return f.either(func() error { return f.DefaultBackend.SetCursorPosition(p) })
}

// check tells whether an operation went wrong, which it must say if the
// terminal did, and must not otherwise.
func (f *flaky) check(t *rapid.T, what string, err error, history []string) bool {
	if f.failed && !errors.Is(err, errFlaky) {
		t.Fatalf("%s returned %v although the terminal failed\nhistory: %s", what, err, strings.Join(history, "; "))
	}
	if !f.failed && err != nil {
		t.Fatalf("%s: %v\nhistory: %s", what, err, strings.Join(history, "; "))
	}
	wrong := f.failed
	f.countdown, f.failed = 0, false
	return wrong
}

type panicked struct{}

var badColors = []bento.Color{termenv.NoColor{}, termenv.RGBColor("nonsense"), termenv.RGBColor("")}

func drawStyle(t *rapid.T) (bento.Style, bento.Modifier) {
	s := bento.NewStyle()
	switch rapid.IntRange(0, 5).Draw(t, "colouring") {
	case 0, 1:
	case 2:
		s = s.WithForeground(kit.Color().Draw(t, "fg"))
	case 3:
		s = s.WithBackground(kit.Color().Draw(t, "bg"))
	case 4:
		s = s.WithForeground(kit.Color().Draw(t, "fg")).WithBackground(kit.Color().Draw(t, "bg"))
	case 5:
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			s = s.WithForeground(rapid.SampledFrom(badColors).Draw(t, "oddFg"))
		}
	}
	var m bento.Modifier
	if rapid.IntRange(0, 2).Draw(t, "mods") > 0 {
		m = kit.Modifiers().Draw(t, "modifiers")
	}
	return s, m
}

func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		profile := rapid.SampledFrom([]termenv.Profile{
			termenv.TrueColor, termenv.TrueColor, termenv.TrueColor, termenv.ANSI256, termenv.ANSI, termenv.Ascii,
		}).Draw(t, "profile")
		os.Setenv("COLORTERM", "")
		os.Setenv("CI", "")
		os.Setenv("GOOGLE_CLOUD_SHELL", "")
		switch profile {
		case termenv.TrueColor:
			os.Setenv("TERM", "xterm-256color")
			os.Setenv("COLORTERM", "truecolor")
		case termenv.ANSI256:
			os.Setenv("TERM", "xterm-256color")
		case termenv.ANSI:
			os.Setenv("TERM", "linux")
		case termenv.Ascii:
			os.Setenv("TERM", "dumb")
		}

		w := rapid.IntRange(1, 12).Draw(t, "w")
		h := rapid.IntRange(1, 6).Draw(t, "h")
		if rapid.IntRange(0, 199).Draw(t, "large") == 77 {
			w, h = rapid.IntRange(13, 300).Draw(t, "largeW"), rapid.IntRange(7, 110).Draw(t, "largeH")
		}
		p := term(t, w, h)
		emu := vt.New(w, h)

		backend := bento.NewDefaultBackend(p.Slave, p.Slave)
		var viewport bento.Viewport = bento.ViewportFullscreen{}
		area := bento.NewRect(w, h)
		fixed := rapid.IntRange(0, 3).Draw(t, "fixed") == 0
		if fixed {
			// A fixed viewport inside a larger window.
			emuW, emuH := w+rapid.IntRange(0, 4).Draw(t, "marginX"), h+rapid.IntRange(0, 3).Draw(t, "marginY")
			area = area.Positioned(rapid.IntRange(0, emuW-w).Draw(t, "vx"), rapid.IntRange(0, emuH-h).Draw(t, "vy"))
			emu = vt.New(emuW, emuH)
			p.SetSize(emuW, emuH)
			viewport = bento.ViewportFixed(area)
		}
		f := &flaky{DefaultBackend: &backend}
		terminal, err := bento.NewTerminal(f, viewport)
		if err != nil {
			t.Fatalf("new terminal: %v", err)
		}

		var history []string
		sync := func(what string) {
			p.Slave.WriteString(marker)
			b, err := p.TakeUntil(marker, 30*time.Second)
			if err != nil {
				panic(err)
			}
			emu.Write(b)
			emu.Sync()
			if len(emu.Problems) > 0 {
				t.Fatalf("%s: terminal received %v\nhistory: %s", what, emu.Problems, strings.Join(history, "; "))
			}
		}

		cur := newScene(area.Width, area.Height)
		shown := cur // what the terminal shows
		skipped := 0
		draws, resizes, wides, styled, failures := 0, 0, 0, 0, 0
		known := true // whether what the terminal shows is
		mishaps := rapid.IntRange(0, 2).Draw(t, "mishaps") == 1

		n := rapid.IntRange(1, 8).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"draw", "draw", "draw", "draw", "redraw", "resize", "clear", "garbageClear", "blank"}).Draw(t, "op")
			if mishaps && rapid.IntRange(0, 2).Draw(t, "mishap") == 1 {
				f.countdown, f.part = rapid.IntRange(1, 5).Draw(t, "failing call"), rapid.IntRange(0, 9).Draw(t, "part of it")
				history = append(history, fmt.Sprintf("call %d fails after %d:", f.countdown, f.part))
			}
			switch op {
			case "resize":
				nw := rapid.IntRange(1, 12).Draw(t, "newW")
				nh := rapid.IntRange(1, 6).Draw(t, "newH")
				narea := bento.NewRect(nw, nh)
				if fixed {
					narea = narea.Positioned(rapid.IntRange(0, 3).Draw(t, "nvx"), rapid.IntRange(0, 3).Draw(t, "nvy"))
				}
				// what a failed draw left behind belongs to the former size
				if err := backend.Flush(); err != nil {
					t.Fatalf("flush: %v", err)
				}
				sync("flush")
				emu.Resize(narea.Right(), narea.Bottom())
				p.SetSize(narea.Right(), narea.Bottom())
				area = narea
				history = append(history, fmt.Sprintf("resize %v", area))
				kit.Guard(strings.Join(history, ";"), func() { err = terminal.Resize(area) })
				wrong := f.check(t, "resize", err, history)
				sync("resize")
				cur = newScene(nw, nh)
				shown, known = cur, !wrong
				resizes++
				if wrong {
					failures++
				}
			case "garbageClear", "clear":
				if op == "garbageClear" {
					emu.Resize(emu.W, emu.H)
				}
				history = append(history, op)
				wrong := f.check(t, "clear", terminal.Clear(), history)
				sync("clear")
				shown, known = newScene(area.Width, area.Height), !wrong
				if wrong {
					failures++
					continue
				}
				if err := scr.Compare(emu.Screen, newScene(area.Width, area.Height), area.X, area.Y, profile); err != nil {
					t.Fatalf("after clearing: %v\nhistory: %s", err, strings.Join(history, "; "))
				}
			default:
				next := cur.clone()
				switch op {
				case "redraw":
				case "blank":
					next = newScene(area.Width, area.Height)
				default:
					if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
						next = newScene(area.Width, area.Height)
					}
					k := rapid.IntRange(1, 10).Draw(t, "writes")
					for j := 0; j < k; j++ {
						x := rapid.IntRange(0, area.Width-1).Draw(t, "x")
						y := rapid.IntRange(0, area.Height-1).Draw(t, "y")
						// a run of neighbouring cells, so that adjacent styles meet
						run := rapid.IntRange(1, 3).Draw(t, "run")
						for r := 0; r < run && x < area.Width; r++ {
							sym := rapid.OneOf(kit.Cluster(), rapid.SampledFrom(kit.Spaces)).Draw(t, "sym")
							st, m := drawStyle(t)
							next.put(x, y, sym, st, m, rapid.Bool().Draw(t, "styleTail"))
							if kit.Width(sym) == 2 {
								wides++
							}
							if st != bento.NewStyle() || m != 0 {
								styled++
							}
							x += max(1, kit.Width(next[y][x].Symbol))
						}
					}
				}
				pa := &painter{scene: next}
				if mishaps && rapid.IntRange(0, 9).Draw(t, "panic") == 7 {
					pa.panics = true
				}
				if known && rapid.IntRange(0, 3).Draw(t, "skipping") == 2 {
					pa.skip = same(shown, next)
					for p := range pa.skip {
						if (p.X+p.Y)%2 == 0 {
							delete(pa.skip, p)
						}
					}
					skipped += len(pa.skip)
				}
				history = append(history, fmt.Sprintf("%s skipping %d", describe(op, next), len(pa.skip)))
				fell := false
				kit.Guard(strings.Join(history, ";"), func() {
					defer func() {
						if pa.panics {
							fell = recover() == panicked{}
						}
					}()
					_, err = terminal.Draw(pa)
				})
				if fell {
					history = append(history, "panicked")
					sync("draw")
					f.countdown, f.failed, known = 0, false, false
					failures++
					continue
				}
				if f.check(t, "draw", err, history) {
					history = append(history, "failed")
					sync("draw")
					known = false
					failures++
					continue
				}
				known = true
				if pa.err != nil {
					t.Fatalf("%v\nhistory: %s", pa.err, strings.Join(history, "; "))
				}
				if pa.panics {
					t.Fatalf("a panic while drawing got lost\nhistory: %s", strings.Join(history, "; "))
				}
				if pa.area != area {
					t.Fatalf("the frame area is %v, the viewport is %v", pa.area, area)
				}
				sync("draw")
				cur, shown = next, next
				draws++
				if err := scr.Compare(emu.Screen, cur, area.X, area.Y, profile); err != nil {
					t.Fatalf("screen differs from the frame: %v\nprofile %v, screen:\n%s\nhistory: %s", err, profile, emu.Dump(), strings.Join(history, "\n  "))
				}
				if emu.CursorVisible {
					t.Fatalf("cursor visible after a draw of a frame without cursor")
				}
				if !emu.DefaultRendition() {
					t.Fatalf("a draw leaves colours or attributes switched on")
				}
			}
		}

		kit.Case(fmt.Sprintf("profile=%v %v fixed=%v %s", profile, area, fixed, strings.Join(history, " | ")), draws >= 2,
			fmt.Sprintf("profile:%d", profile), cls(draws >= 2, "two or more draws"), cls(resizes > 0, "with resize"),
			cls(resizes > 0 && draws >= 2, "resize and draws"), cls(wides > 0, "wide clusters"), cls(styled > 0, "styled"), cls(fixed, "fixed viewport"), cls(skipped > 0, "cells skipped"), cls(failures > 0, "failures"), cls(area.Width > 12, "large"))
	})
}

// same returns single cells, not covered by or next to a wide one, alike in both.
func same(a, b scene) map[bento.Position]bool {
	out := map[bento.Position]bool{}
	for y := range a {
		for x := range a[y] {
			if a[y][x] == b[y][x] && kit.Width(a[y][x].Symbol) == 1 && (x == 0 || kit.Width(a[y][x-1].Symbol) == 1 && kit.Width(b[y][x-1].Symbol) == 1) {
				out[bento.NewPosition(x, y)] = true
			}
		}
	}
	return out
}

func cls(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func describe(op string, s scene) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s[", op)
	for y, row := range s {
		if y > 0 {
			sb.WriteString("/")
		}
		for x := 0; x < len(row); {
			c := row[x]
			sb.WriteString(c.Symbol)
			if c.Fg != (bento.ResetColor{}) || c.Bg != (bento.ResetColor{}) || c.Modifier != 0 {
				fmt.Fprintf(&sb, "{%v,%v,%x}", c.Fg, c.Bg, uint16(c.Modifier))
			}
			x += max(1, kit.Width(c.Symbol))
		}
	}
	sb.WriteString("]")
	return sb.String()
}
