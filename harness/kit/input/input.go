// Package input generates what users do at a terminal: the bytes it sends for
// each action and the messages these stand for.
package input

import (
	"fmt"
	"sort"
	"strings"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"pgregory.net/rapid"
)

// Event is one action of a user.
type Event struct {
	Kind  string
	Bytes string
	Msg   bento.Msg // nil: nothing is to be delivered
}

// Sorted sequences, for drawing them.
var sequenceList = func() []string {
	var out []string
	for s := range Sequences {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}()

var typed = func() []string {
	out := []string{"\ufffd", "\U0010ffff", "\u0080", "\u009b", "\u00a0", "\u200b", "\u0301", "\U0001f1fa", "[", "O", "A", "M", "<", ";", "~", "I", "1", "P", "m", "0"}
	out = append(out, kit.Width1...)
	return append(out, kit.Width2...)
}()

// Rune draws a printable character.
func Rune() *rapid.Generator[rune] {
	return rapid.Custom(func(t *rapid.T) rune {
		if rapid.IntRange(0, 9).Draw(t, "any") == 0 {
			r := rune(rapid.IntRange(0x21, 0x10ffff).Draw(t, "rune"))
			if r != 0x7f && (r < 0xd800 || r > 0xdfff) {
				return r
			}
		}
		rs := []rune(rapid.SampledFrom(typed).Draw(t, "typed"))
		return rs[rapid.IntRange(0, len(rs)-1).Draw(t, "which")]
	})
}

// Text draws some printable characters.
func Text(most int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return string(rapid.SliceOfN(Rune(), 1, most).Draw(t, "text"))
	})
}

func control(t *rapid.T) int {
	c := rapid.IntRange(0, 32).Draw(t, "control")
	switch c {
	case 27:
		return 28
	case 32:
		return 127
	}
	return c
}

// paste draws the content of a paste: text, control characters and sequences.
func paste(t *rapid.T) string {
	var sb strings.Builder
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "parts"); i < n; i++ {
		switch rapid.IntRange(0, 4).Draw(t, "part") {
		case 0:
			sb.WriteByte(byte(control(t)))
		case 1:
			sb.WriteString(rapid.SampledFrom(sequenceList).Draw(t, "sequence"))
		case 2:
			sb.WriteString(rapid.SampledFrom([]string{"\x1b[200~", "\x1b", "\x1b[", "\x1b[201", "\x1b[<0;1;1M", "\n", " "}).Draw(t, "odd"))
		case 3:
			sb.WriteString(strings.Repeat(Text(3).Draw(t, "long"), rapid.IntRange(1, 150).Draw(t, "times")))
		default:
			sb.WriteString(Text(6).Draw(t, "text"))
		}
	}
	if kit.Rarely(t, 6, "a document") {
		sb.WriteString(strings.Repeat("p"+Text(5).Draw(t, "page"), rapid.IntRange(700, 4000).Draw(t, "pages")))
	}
	p := sb.String()
	for strings.Contains(p, "\x1b[201~") {
		p = strings.ReplaceAll(p, "\x1b[201~", "")
	}
	return p
}

func mouse(t *rapid.T) Event {
	m := bento.MouseEvent{
		Shift: rapid.Bool().Draw(t, "shift"), Alt: rapid.Bool().Draw(t, "alt"), Ctrl: rapid.Bool().Draw(t, "ctrl"),
	}
	code := 0
	if m.Shift {
		code += 4
	}
	if m.Alt {
		code += 8
	}
	if m.Ctrl {
		code += 16
	}
	sgr := rapid.IntRange(0, 2).Draw(t, "sgr") > 0
	final := "M"
	wheel := false
	switch b := rapid.IntRange(0, 10).Draw(t, "button"); {
	case b < 3: // left, middle, right
		m.Button = bento.MouseButtonLeft + bento.MouseButton(b)
		code += b
	case b < 7: // wheel: up, down, left, right
		wheel = true
		m.Button = bento.MouseButtonWheelUp + bento.MouseButton(b-3)
		code += 64 + b - 3
	default: // backward, forward, 10, 11
		m.Button = bento.MouseButtonBackward + bento.MouseButton(b-7)
		code += 128 + b - 7
	}
	if !wheel {
		switch rapid.IntRange(0, 3).Draw(t, "action") {
		case 0:
			m.Action = bento.MouseActionRelease
			if sgr {
				final = "m"
			} else {
				m.Button, code = bento.MouseButtonNone, code&0x1c+3
			}
		case 1:
			m.Action = bento.MouseActionMotion
			code += 32
		case 2: // no button held
			m.Action, m.Button = bento.MouseActionMotion, bento.MouseButtonNone
			code = code&0x1c + 32 + 3
		}
	}
	if !sgr && code > 223 {
		sgr = true
	}
	// Some terminals end reports of motion or of the wheel with an m.
	if sgr && m.Action != bento.MouseActionRelease && (wheel || m.Action == bento.MouseActionMotion) && rapid.IntRange(0, 3).Draw(t, "m") == 0 {
		final = "m"
	}
	if sgr {
		g := rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 100000))
		m.X, m.Y = g.Draw(t, "x"), g.Draw(t, "y")
		return Event{"mouse", fmt.Sprintf("\x1b[<%d;%d;%d%s", code, m.X+1, m.Y+1, final), bento.MouseMsg(m)}
	}
	g := rapid.OneOf(rapid.IntRange(0, 94), rapid.IntRange(0, 222))
	m.X, m.Y = g.Draw(t, "x"), g.Draw(t, "y")
	return Event{"x10", "\x1b[M" + string([]byte{byte(32 + code), byte(33 + m.X), byte(33 + m.Y)}), bento.MouseMsg(m)}
}

// One draws an action.
func One() *rapid.Generator[Event] {
	return rapid.Custom(func(t *rapid.T) Event {
		key := func(kind, bytes string, k bento.Key) Event { return Event{kind, bytes, bento.KeyMsg(k)} }
		switch rapid.IntRange(0, 13).Draw(t, "event") {
		case 0, 1:
			s := Text(5).Draw(t, "text")
			return key("text", s, bento.Key{Type: bento.KeyRunes, Runes: []rune(s)})
		case 2:
			return key("space", " ", bento.Key{Type: bento.KeySpace, Runes: []rune{' '}})
		case 3:
			c := control(t)
			return key("control", string([]byte{byte(c)}), bento.Key{Type: bento.KeyType(c)})
		case 4:
			r := Rune().Draw(t, "rune")
			return key("alt+text", "\x1b"+string(r), bento.Key{Type: bento.KeyRunes, Runes: []rune{r}, Alt: true})
		case 5:
			switch rapid.IntRange(0, 3).Draw(t, "alt") {
			case 0:
				return key("alt+space", "\x1b ", bento.Key{Type: bento.KeySpace, Runes: []rune{' '}, Alt: true})
			case 1:
				return key("alt+esc", "\x1b\x1b", bento.Key{Type: bento.KeyEscape, Alt: true})
			}
			c := control(t)
			return key("alt+control", "\x1b"+string([]byte{byte(c)}), bento.Key{Type: bento.KeyType(c), Alt: true})
		case 6, 7:
			s := rapid.SampledFrom(sequenceList).Draw(t, "sequence")
			k := Sequences[s]
			if !k.Alt && rapid.IntRange(0, 3).Draw(t, "alt") == 0 {
				k.Alt = true
				return key("alt+sequence", "\x1b"+s, k)
			}
			return key("sequence", s, k)
		case 8:
			p := paste(t)
			if p == "" {
				// nothing, or nothing pasted
				return Event{"empty paste", "\x1b[200~\x1b[201~", nil}
			}
			return key("paste", "\x1b[200~"+p+"\x1b[201~", bento.Key{Type: bento.KeyRunes, Paste: true, Runes: []rune(p)})
		case 9:
			return Event{"focus", "\x1b[I", bento.FocusMsg{}}
		case 10:
			return Event{"blur", "\x1b[O", bento.BlurMsg{}}
		case 11:
			return key("esc", "\x1b", bento.Key{Type: bento.KeyEscape})
		}
		return mouse(t)
	})
}

// Joined reports whether b sent right behind a in one piece reads as something
// else: a terminal's encodings are not free of such pairs.
func Joined(a, b Event) bool {
	next := b.Bytes[0]
	switch {
	case a.Kind == "esc":
		return true
	case a.Bytes == "\x1b[":
		return next >= 0x20 && next < 0x7f
	case a.Bytes == "\x1bO":
		return strings.IndexByte("ABCDPQRS", next) >= 0
	case a.Bytes == "\x1b\x1b":
		return next == '[' || next == 'O'
	case a.Kind == "blur":
		return strings.IndexByte("ABCDabcd", next) >= 0
	}
	return false
}

// Late reports whether what was sent so far reads as something else with
// more of anything.
func Late(a Event) bool {
	return a.Kind == "esc" || a.Kind == "blur" || a.Bytes == "\x1b[" || a.Bytes == "\x1bO" || a.Bytes == "\x1b\x1b"
}

// Describe renders events.
func Describe(es []Event) string {
	var out []string
	for _, e := range es {
		b := fmt.Sprintf("%q", e.Bytes)
		if len(b) > 60 {
			b = fmt.Sprintf("%s…(%d bytes)", b[:60], len(e.Bytes))
		}
		out = append(out, e.Kind+" "+b)
	}
	return strings.Join(out, ", ")
}

// Known reports whether a message stands for an action of the user.
func Known(m bento.Msg) bool {
	switch m.(type) {
	case bento.KeyMsg, bento.MouseMsg, bento.FocusMsg, bento.BlurMsg:
		return true
	}
	return false
}

// Normal renders messages one per line, adjacent text joined and empty pastes
// left out. all includes reports of what was not understood.
func Normal(msgs []bento.Msg, all bool) []string {
	var out []string
	text := []rune(nil)
	flush := func() {
		if len(text) > 0 {
			out = append(out, fmt.Sprintf("text %q", string(text)))
			text = nil
		}
	}
	for _, m := range msgs {
		if k, ok := m.(bento.KeyMsg); ok && k.Type == bento.KeyRunes && !k.Alt && !k.Paste {
			text = append(text, k.Runes...)
			continue
		}
		if m == nil || !Known(m) && !all {
			continue
		}
		if k, ok := m.(bento.KeyMsg); ok && k.Paste && len(k.Runes) == 0 {
			continue
		}
		flush()
		switch m := m.(type) {
		case bento.KeyMsg:
			runes := ""
			if m.Type == bento.KeyRunes || m.Type == bento.KeySpace {
				runes = fmt.Sprintf(" %q", string(m.Runes))
			}
			out = append(out, fmt.Sprintf("key %s(%d)%s alt=%v paste=%v", Names[m.Type], m.Type, runes, m.Alt, m.Paste))
		case bento.MouseMsg:
			out = append(out, fmt.Sprintf("mouse button %d action %d at %d,%d shift=%v alt=%v ctrl=%v", m.Button, m.Action, m.X, m.Y, m.Shift, m.Alt, m.Ctrl))
		default:
			out = append(out, fmt.Sprintf("%T %v", m, m))
		}
	}
	flush()
	return out
}

// Expected renders the messages events stand for.
func Expected(es []Event) []string {
	var msgs []bento.Msg
	for _, e := range es {
		msgs = append(msgs, e.Msg)
	}
	return Normal(msgs, false)
}

// Look is how far decoding got: bytes read, messages delivered, and whether
// the last read filled the buffer.
type Look struct {
	Bytes, Msgs int
	Full        bool
}

// Behind finds a look at which actions read completely were not delivered. The
// last one may be missing after a read that filled the buffer: more of it may
// follow.
func Behind(events []Event, got []bento.Msg, looks []Look) error {
	k, at := 0, 0
	for _, l := range looks {
		for k < len(events) && at+len(events[k].Bytes) <= l.Bytes {
			at += len(events[k].Bytes)
			k++
		}
		if !l.Full && at < l.Bytes {
			continue
		}
		want, g := Expected(events[:k]), Normal(got[:min(l.Msgs, len(got))], true)
		least := len(want)
		if l.Full {
			least--
		}
		if len(g) < least {
			return fmt.Errorf("after reading %d bytes only %d of %d messages were delivered", l.Bytes, len(g), len(want))
		}
	}
	return nil
}
