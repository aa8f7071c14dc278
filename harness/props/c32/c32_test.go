// C32: every operation of the terminal backend has its effect, and no other.
package c32

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/scr"
	"github.com/metafates/bento/verif/pty"
	"github.com/metafates/bento/verif/vt"
	"github.com/muesli/termenv"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const marker = "\x1b]777;sync\x07"

// screen is what one of the two screens should show. Columns covered by a wide
// cluster hold no symbol.
type screen [][]bento.Cell

func blank(w, h int) screen {
	s := make(screen, h)
	for y := range s {
		s[y] = make([]bento.Cell, w)
		for x := range s[y] {
			s[y][x] = bento.NewEmptyCell()
		}
	}
	return s
}

// wide tells whether a column is part of a wide cluster.
func (s screen) wide(x, y int) bool {
	return s[y][x].Symbol == "" || kit.Width(s[y][x].Symbol) > 1
}

func (s screen) erase(y, from, to int) {
	for x := from; x < to; x++ {
		s[y][x] = bento.NewEmptyCell()
	}
}

type model struct {
	w, h      int
	main, alt screen
	inAlt     bool
	hidden    bool
	paste     bool
	raw       bool
	cursor    *bento.Position // if known
}

func (m *model) shown() *screen {
	if m.inAlt {
		return &m.alt
	}
	return &m.main
}

// place draws a column where a narrow cell may be put, or none.
func (m *model) place(t *rapid.T) (bento.Position, bool) {
	p := bento.NewPosition(rapid.IntRange(0, m.w-1).Draw(t, "x"), rapid.IntRange(0, m.h-1).Draw(t, "y"))
	return p, !(*m.shown()).wide(p.X, p.Y)
}

// cells draws updates in any order and keeps the model in step. The column
// after a wide cluster is not updated.
func (m *model) cells(t *rapid.T) []bento.PositionedCell {
	s := *m.shown()
	var out []bento.PositionedCell
	for i, n := 0, kit.UpTo(6).Draw(t, "cells"); i < n; i++ {
		p, ok := m.place(t)
		for run := rapid.IntRange(1, 4).Draw(t, "run"); ok && run > 0 && p.X < m.w; run-- {
			sym := rapid.OneOf(kit.Cluster(), rapid.SampledFrom(kit.Spaces)).Draw(t, "symbol")
			if s.wide(p.X, p.Y) {
				break
			}
			if kit.Width(sym) == 2 && (p.X+1 >= m.w || s.wide(p.X+1, p.Y)) {
				sym = "n"
			}
			c := bento.NewCell(sym)
			if rapid.Bool().Draw(t, "styled") {
				c.SetStyle(kit.Style().Draw(t, "style"))
			}
			s[p.Y][p.X] = c
			if kit.Width(sym) == 2 {
				s[p.Y][p.X+1] = bento.Cell{}
			}
			out = append(out, bento.PositionedCell{Cell: c, Position: p})
			p.X += kit.Width(sym)
		}
	}
	return out
}

// file is an output that is no terminal and takes so many bytes only.
type file struct {
	bytes.Buffer
	room   int
	failed bool
}

var errFull = errors.New("no room left")

func (f *file) Write(p []byte) (int, error) {
	if len(p) > f.room {
		f.failed = true
		n, _ := f.Buffer.Write(p[:f.room])
		f.room = 0
		return n, errFull
	}
	f.room -= len(p)
	return f.Buffer.Write(p)
}

type rig struct {
	pair    *pty.Pair
	plain   *file // the output, if it is no terminal
	emu     *vt.Term
	before  unix.Termios
	profile termenv.Profile
}

var thePair *pty.Pair

func property(t *rapid.T) {
	m := &model{w: rapid.IntRange(1, 12).Draw(t, "w"), h: rapid.IntRange(1, 6).Draw(t, "h")}
	m.main, m.alt = blank(m.w, m.h), blank(m.w, m.h)
	r := &rig{emu: vt.New(m.w, m.h), profile: termenv.TrueColor}
	os.Setenv("TERM", "xterm-256color")
	os.Setenv("COLORTERM", "truecolor")
	os.Unsetenv("CI")
	os.Unsetenv("NO_COLOR")
	os.Unsetenv("CLICOLOR_FORCE")

	history := []string{fmt.Sprintf("%dx%d", m.w, m.h)}
	var backend bento.DefaultBackend
	typed := ""
	if rapid.IntRange(0, 3).Draw(t, "plain") == 2 {
		history[0] += " no terminal"
		r.plain, r.profile = &file{room: 1 << 30}, termenv.Ascii
		if rapid.IntRange(0, 2).Draw(t, "fills") == 1 {
			r.plain.room = rapid.IntRange(0, 200).Draw(t, "room")
		}
		typed = kit.Printable(9).Draw(t, "input")
		backend = bento.NewDefaultBackend(strings.NewReader(typed), r.plain)
	} else {
		if thePair == nil {
			p, err := pty.Open(m.w, m.h)
			if err != nil {
				panic(err)
			}
			thePair = p
		}
		r.pair = thePair
		r.pair.SetSize(m.w, m.h)
		r.settings(rapid.Uint16().Draw(t, "settings"))
		backend = bento.NewDefaultBackend(r.pair.Slave, r.pair.Slave)
	}

	fail := func(format string, args ...any) {
		t.Helper()
		t.Fatalf("%s\nscreen:\n%s\nhistory: %s", fmt.Sprintf(format, args...), r.emu.Dump(), strings.Join(history, "; "))
	}
	toggles, clears, drawn := 0, 0, 0
	pending := false

	for i, n := 0, kit.AtLeast(1, 12).Draw(t, "operations"); i < n; i++ {
		s := m.shown()
		var err error
		do := func(what string, f func() error) {
			history = append(history, what)
			kit.Guard(strings.Join(history, "; "), func() { err = f() })
			if r.plain != nil && r.plain.failed {
				if !errors.Is(err, errFull) {
					fail("%s returned %v although the output failed", what, err)
				}
				return
			}
			if err != nil {
				fail("%s: %v", what, err)
			}
		}
		flushes := true
		switch op := rapid.IntRange(0, 18).Draw(t, "operation"); op {
		default:
			cs := m.cells(t)
			given := append([]bento.PositionedCell(nil), cs...)
			do(fmt.Sprintf("draw %v", cs), func() error { return backend.Draw(cs) })
			if fmt.Sprint(given) != fmt.Sprint(cs) {
				fail("drawing changed the cells it was given from %v to %v", given, cs)
			}
			m.cursor = nil
			drawn++
			pending = true
			flushes = rapid.IntRange(0, 3).Draw(t, "flush") > 0
			if flushes {
				do("flush", backend.Flush)
			}
		case 0, 1, 2, 3:
			p, ok := m.place(t)
			if !ok {
				continue
			}
			do(fmt.Sprintf("cursor to %v", p), func() error { return backend.SetCursorPosition(p) })
			m.cursor = &p
		case 4:
			do("clear", backend.ClearAll)
			*s = blank(m.w, m.h)
			clears++
		case 5, 6, 7, 8:
			if m.cursor == nil || s.wide(m.cursor.X, m.cursor.Y) {
				continue
			}
			clears++
			x, y := m.cursor.X, m.cursor.Y
			switch op {
			case 5:
				do("clear after", backend.ClearAfterCursor)
				s.erase(y, x, m.w)
				for y++; y < m.h; y++ {
					s.erase(y, 0, m.w)
				}
			case 6:
				do("clear before", backend.ClearBeforeCursor)
				s.erase(y, 0, x+1)
				for y--; y >= 0; y-- {
					s.erase(y, 0, m.w)
				}
			case 7:
				do("clear line", backend.ClearCurrentLine)
				s.erase(y, 0, m.w)
			case 8:
				do("clear rest of line", backend.ClearUntilNewLine)
				s.erase(y, x, m.w)
			}
		case 9:
			toggles++
			m.hidden = rapid.Bool().Draw(t, "hide")
			if m.hidden {
				do("hide", backend.HideCursor)
			} else {
				do("show", backend.ShowCursor)
			}
		case 10:
			toggles++
			m.paste = rapid.Bool().Draw(t, "paste")
			if m.paste {
				do("paste on", backend.EnableBracketedPaste)
			} else {
				do("paste off", backend.DisableBracketedPaste)
			}
		case 11:
			toggles++
			m.cursor = nil
			m.inAlt = !m.inAlt
			if m.inAlt {
				do("alternate screen", backend.EnableAlternateScreen)
				m.alt = blank(m.w, m.h)
			} else {
				do("main screen", backend.LeaveAlternateScreen)
			}
		case 12, 16:
			toggles++
			m.raw = !m.raw
			if m.raw {
				do("raw", backend.EnableRawMode)
			} else {
				do("cooked", backend.DisableRawMode)
			}
			flushes = false
		case 15:
			if r.pair == nil || m.raw {
				continue
			}
			history = append(history, "settings")
			r.settings(rapid.Uint16().Draw(t, "settings"))
			flushes = false
		case 13:
			var size bento.Size
			var ok bool
			do("size", func() (err error) { size, ok, err = backend.GetSize(); return err })
			if want := (bento.Size{Width: m.w, Height: m.h}); r.pair != nil && (!ok || size != want) || r.pair == nil && ok {
				fail("size is %v, %v, want %v", size, ok, want)
			}
			flushes = false
		case 14:
			flushes = false
			if r.pair != nil {
				if !m.raw {
					continue
				}
				typed = kit.NonEmptyPrintable(4).Draw(t, "typed")
				if _, err := r.pair.Master.WriteString(typed); err != nil {
					panic(err)
				}
			}
			p := make([]byte, rapid.IntRange(1, 40).Draw(t, "room"))
			for typed != "" {
				var n int
				do(fmt.Sprintf("read %q", typed), func() (err error) { n, err = backend.Read(p); return err })
				if n < 1 || n > len(typed) || string(p[:n]) != typed[:n] {
					fail("read %q of %q", p[:max(0, n)], typed)
				}
				typed = typed[n:]
			}
		}

		if r.plain != nil && r.plain.failed {
			history = append(history, "failed")
			break
		}
		if r.pair != nil {
			if got, err := r.pair.Termios(); err != nil {
				panic(err)
			} else if !m.raw && *got != r.before {
				fail("line settings are %+v, were %+v", *got, r.before)
			} else if m.raw && !raw(got) {
				fail("line settings are not raw: %+v", *got)
			}
		}
		if pending = pending && !flushes; pending {
			// drawn cells are due with the next flush, which every other output is
			continue
		}
		r.sync()
		if len(r.emu.Problems) > 0 {
			fail("the terminal received %v", r.emu.Problems)
		}
		if r.emu.InAlt != m.inAlt || r.emu.CursorVisible == m.hidden || r.emu.BracketedPaste != m.paste {
			fail("alternate screen %v, cursor visible %v, bracketed paste %v; want %v, %v, %v", r.emu.InAlt, r.emu.CursorVisible, r.emu.BracketedPaste, m.inAlt, !m.hidden, m.paste)
		}
		if !r.emu.DefaultRendition() {
			fail("colours or attributes are left switched on")
		}
		if m.cursor != nil && (r.emu.X != m.cursor.X || r.emu.Y != m.cursor.Y) {
			fail("the cursor is at %d,%d, want %v", r.emu.X, r.emu.Y, *m.cursor)
		}
		if err := scr.Compare(r.emu.Screen, *m.shown(), 0, 0, r.profile); err != nil {
			fail("%v", err)
		}
		if err := scr.Compare(r.emu.Main(), m.main, 0, 0, r.profile); err != nil {
			fail("main screen: %v", err)
		}
	}
	if m.raw {
		if err := backend.DisableRawMode(); err != nil {
			fail("cooked: %v", err)
		}
	}
	_ = backend.Flush()
	r.sync()
	kit.Case(strings.Join(history, "; "), drawn > 0 && clears > 0 && toggles > 0, kit.Cls(r.plain != nil, "no terminal"), kit.Cls(r.plain != nil && r.plain.failed, "output failed"), kit.Cls(clears > 1, "several clears"))
}

// settings gives the terminal line settings other than usual.
func (r *rig) settings(flags uint16) {
	tio, err := r.pair.Termios()
	if err != nil {
		panic(err)
	}
	for i, f := range []struct {
		field *uint32
		bit   uint32
	}{
		{&tio.Lflag, unix.ECHO}, {&tio.Lflag, unix.ICANON}, {&tio.Lflag, unix.ISIG}, {&tio.Iflag, unix.ICRNL},
		{&tio.Oflag, unix.OPOST}, {&tio.Iflag, unix.IXON}, {&tio.Lflag, unix.IEXTEN}, {&tio.Iflag, unix.ISTRIP},
	} {
		*f.field &^= f.bit
		if flags&(1<<i) != 0 {
			*f.field |= f.bit
		}
	}
	tio.Cc[unix.VMIN], tio.Cc[unix.VTIME] = 1, uint8(flags>>8&1)
	if err := unix.IoctlSetTermios(int(r.pair.Slave.Fd()), unix.TCSETS, tio); err != nil {
		panic(err)
	}
	tio, err = r.pair.Termios()
	if err != nil {
		panic(err)
	}
	r.before = *tio
}

// raw tells whether every byte typed reaches the program as it is, at once and
// unechoed, and every byte written reaches the terminal as it is.
func raw(tio *unix.Termios) bool {
	return tio.Lflag&(unix.ECHO|unix.ECHONL|unix.ICANON|unix.ISIG|unix.IEXTEN) == 0 &&
		tio.Iflag&(unix.IGNBRK|unix.BRKINT|unix.PARMRK|unix.ISTRIP|unix.INLCR|unix.IGNCR|unix.ICRNL|unix.IXON) == 0 &&
		tio.Oflag&unix.OPOST == 0 && tio.Cflag&unix.CSIZE == unix.CS8 && tio.Cc[unix.VMIN] == 1 && tio.Cc[unix.VTIME] == 0
}

// sync lets the emulator catch up.
func (r *rig) sync() {
	if r.plain != nil {
		r.emu.Write(r.plain.Bytes())
		r.plain.Reset()
		r.emu.Sync()
		return
	}
	r.pair.Slave.WriteString(marker)
	b, err := r.pair.TakeUntil(marker, 30*time.Second)
	if err != nil {
		panic(err)
	}
	r.emu.Write(b)
	r.emu.Sync()
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
