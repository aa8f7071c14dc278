// C21: any bytes in any pieces are decoded, buffer boundaries do not show.
package c21

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/input"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	input.Setup(m)
	kit.Main(m)
}

func first(a, b []string) string {
	for i := 0; i < max(len(a), len(b)); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("message %d is %s, want %s", i+1, x, y)
		}
	}
	return "same"
}

func decode(t *rapid.T, desc string, chunks []string) (got []bento.Msg, full int) {
	t.Helper()
	got, full, _ = decodeLooking(t, desc, chunks)
	return got, full
}

func decodeLooking(t *rapid.T, desc string, chunks []string) (got []bento.Msg, full int, looks []input.Look) {
	t.Helper()
	var err error
	kit.Guard(desc, func() { got, full, looks, err = input.DecodeLooking(chunks) })
	if err != nil {
		t.Fatalf("%v\n%s", err, desc)
	}
	return got, full, looks
}

// pad draws text that fills buffers up to a little before the end of one.
func pad(t *rapid.T, near int) string {
	n := rapid.IntRange(1, 3).Draw(t, "buffers")*input.BufferSize - rapid.IntRange(0, near).Draw(t, "before the end")
	n = max(n, 0)
	switch rapid.IntRange(0, 2).Draw(t, "padding") {
	case 0:
		return strings.Repeat("\r", n)
	case 1:
		return strings.Repeat("é", n/2) + strings.Repeat("y", n%2)
	}
	return strings.Repeat("y", n)
}

// TestBoundary: actions around the end of a full buffer.
func TestBoundary(t *testing.T) {
	if !input.Exact {
		t.Skip("reads cannot be controlled")
	}
	rapid.Check(t, func(t *rapid.T) {
		p := pad(t, 40)
		var events []input.Event
		if p != "" {
			msg := bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(p)}
			events = append(events, input.Event{Kind: "text", Bytes: p, Msg: msg})
			if p[0] == '\r' {
				events = events[:0]
				for range p {
					events = append(events, input.Event{Kind: "control", Bytes: "\r", Msg: bento.KeyMsg{Type: bento.KeyEnter}})
				}
			}
		}
		var shown []input.Event
		last := input.Event{Kind: "none", Bytes: "none"}
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "events"); i < n; i++ {
			e := input.One().Draw(t, "event")
			if e.Kind == "esc" || input.Joined(last, e) {
				continue
			}
			events, shown, last = append(events, e), append(shown, e), e
		}
		if rapid.Bool().Draw(t, "end") || input.Late(last) {
			events = append(events, input.Event{Kind: "control", Bytes: "\r", Msg: bento.KeyMsg{Type: bento.KeyEnter}})
		}
		var sb strings.Builder
		for _, e := range events {
			sb.WriteString(e.Bytes)
		}
		if rapid.IntRange(0, 3).Draw(t, "ends with the buffer") == 0 {
			// nothing but the end of the input behind a full buffer
			fill := strings.Repeat("\t", (input.BufferSize-sb.Len()%input.BufferSize)%input.BufferSize)
			for range fill {
				events = slices.Insert(events, 0, input.Event{Kind: "control", Bytes: "\t", Msg: bento.KeyMsg{Type: bento.KeyTab}})
			}
			s := fill + sb.String()
			sb.Reset()
			sb.WriteString(s)
			p = fill + p
		}
		desc := fmt.Sprintf("%d bytes %.1q, then %s", len(p), p, input.Describe(shown))
		got, full, looks := decodeLooking(t, desc, []string{sb.String()})
		kit.Case(desc, full > 0 && len(shown) > 0, kit.Cls(full > 1, "many buffers"))
		want := input.Expected(events)
		if g := input.Normal(got, true); !slices.Equal(g, want) {
			t.Fatalf("%s\n%s", first(g, want), desc)
		}
		if err := input.Behind(events, got, looks); err != nil {
			t.Fatalf("%v\n%s", err, desc)
		}
	})
}

var fragments = []string{
	"\x1b", "\x1b[", "\x1bO", "\x1b\x1b", "\x1b[<", "\x1b[<0;1", "\x1b[<0;1;", "\x1b[<35;2;3", "\x1b[<0;1;2", "\x1b[<99999999999999999999;1;2M", "\x1b[<0;0;0M", "\x1b[<;;M",
	"\x1b[M", "\x1b[M  ", "\x1b[M\xff\xff\xff", "\x1b[M\x00\x00\x00", "\x1b[1", "\x1b[1;", "\x1b[1;5", "\x1b[1;99A", "\x1b[?25h", "\x1b[12;40R", "\x1b[[", "\x1b[7", "\x1b[ ", "\x1b[!p", "\x1b]0;x\a",
	"\x1b[201~", "\x1b[200", "\x1b[20", "\x1b[I", "\x1b[O", "\x1b[O\x1b", "\x1b\x1b[", "\x1b\x1b[1;2",
	"\xff", "\x80", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xc0\xaf", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\x1b\xff", "\x1b\xc3", "\x1b\xf0\x9f", "\x00", "\x1b\x00", "\x7f",
}

// garbage draws bytes of any kind. Without paste it holds no start of a paste.
func garbage(t *rapid.T, most int, paste bool) string {
	var sb strings.Builder
	for i, n := 0, rapid.IntRange(1, most).Draw(t, "parts"); i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "part") {
		case 0:
			sb.WriteString(input.One().Draw(t, "event").Bytes)
		case 1:
			sb.Write(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "bytes"))
		case 2:
			if paste && rapid.IntRange(0, 5).Draw(t, "start") == 0 {
				sb.WriteString("\x1b[200~")
			}
			sb.WriteString(rapid.SampledFrom([]string{"x", " ", "世", ";", "1", "M", "~", "A"}).Draw(t, "text"))
		default:
			sb.WriteString(rapid.SampledFrom(fragments).Draw(t, "fragment"))
		}
	}
	s := sb.String()
	for !paste && strings.Contains(s, "\x1b[200~") {
		s = strings.ReplaceAll(s, "\x1b[200~", "")
	}
	return s
}

// TestTotal: any bytes in any pieces, to the end.
func TestTotal(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var chunks []string
		var desc []string
		size := 0
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "chunks"); i < n; i++ {
			g := garbage(t, 8, true)
			if input.Exact && rapid.IntRange(0, 3).Draw(t, "long") == 0 {
				p := pad(t, len(g))
				desc = append(desc, fmt.Sprintf("%d bytes %.1q", len(p), p))
				g = p + g
				chunks = append(chunks, g)
			} else {
				chunks = append(chunks, g)
			}
			size += len(g)
			desc = append(desc, fmt.Sprintf("%q", g[max(0, len(g)-200):]))
		}
		// A paste may be open, and a piece that fills the buffer may continue
		// with the next one; what comes alone after that is what it is.
		chunks = append(chunks, "\x1b[201~", "\r", "\x1b[201~", "\r", "Q")
		d := strings.Join(desc, " | ")
		got, full := decode(t, d, chunks)
		kit.Case(d, size > 8, kit.Cls(full > 0, "full buffers"))
		n := input.Normal(got, false)
		if len(n) == 0 || n[len(n)-1] != `text "Q"` {
			t.Fatalf("the input behind is lost: %v\n%s", n, d)
		}
	})
}

// TestShift: where the buffer ends makes no difference to any input.
func TestShift(t *testing.T) {
	if !input.Exact {
		t.Skip("reads cannot be controlled")
	}
	rapid.Check(t, func(t *rapid.T) {
		g := garbage(t, 10, true)
		p := pad(t, len(g)+4)
		// the end of a pending paste and of everything else
		end := "\r\x1b[201~\r"
		desc := fmt.Sprintf("%d bytes %.1q, then %q", len(p), p, g)
		got, full := decode(t, desc, []string{p + "\r" + g + end})
		if len(g)+len(end) >= input.BufferSize {
			t.Skip("too long")
		}
		alone, _ := decode(t, desc, []string{"\r" + g + end})
		head, _ := decode(t, desc, []string{p, "\x00"})
		kit.Case(desc, full > 0 && len(g) > 1, kit.Cls(full > 1, "many buffers"))
		want := append(input.Normal(head[:len(head)-1], true), input.Normal(alone, true)...)
		if n := input.Normal(got, true); !slices.Equal(n, want) {
			t.Fatalf("%s\n%s", first(n, want), desc)
		}
	})
}

// invalid bytes, none of which starts anything.
var invalid = []string{"\xff", "\x80", "\xbf", "\xc0", "\xc1", "\xf5", "\xfe", "\xc3", "\xe4", "\xe4\xb8", "\xf0\x9f\x98", "\xf0\x9f", "\xed\xa0\x80", "\x1b\xff", "\x1b\x80", "\x1b\xc3",
	"\x1b[?25h", "\x1b[99;99~", "\x1b[>0;276;0c", "\x1b[1;99A", "\x1b[!p"}

var truncated = []string{"\x1b[", "\x1b[1", "\x1b[1;5", "\x1b[<", "\x1b[<0", "\x1b[<0;1", "\x1b[<0;1;2", "\x1b[200", "\x1b[3;", "\x1b[?2", "\x1b[ ", "\x1bO", "\x1b[12;40"}

// TestNoise: what is invalid is skipped, and no more than that.
func TestNoise(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var events []input.Event
		var sb strings.Builder
		var desc []string
		if input.Exact && rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			p := strings.Repeat("y", rapid.IntRange(1, 2).Draw(t, "buffers")*input.BufferSize-rapid.IntRange(0, 30).Draw(t, "before the end"))
			events = append(events, input.Event{Kind: "text", Bytes: p, Msg: bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(p)}})
			sb.WriteString(p)
			desc = append(desc, fmt.Sprintf("%d bytes", len(p)))
		}
		last := input.Event{Kind: "none", Bytes: "none"}
		noisy := 0
		for i, n := 0, rapid.IntRange(2, 8).Draw(t, "parts"); i < n; i++ {
			e := input.One().Draw(t, "event")
			noise := rapid.Bool().Draw(t, "noise")
			if noise {
				e = input.Event{Kind: "noise", Bytes: rapid.SampledFrom(invalid).Draw(t, "bytes")}
			}
			if e.Kind == "esc" || input.Joined(last, e) || last.Kind == "noise" && e.Bytes[0] >= 0x80 && e.Bytes[0] < 0xc0 {
				continue
			}
			if !input.Exact && sb.Len()+len(e.Bytes) > 150 {
				continue
			}
			if noise {
				noisy++
			} else {
				events = append(events, e)
			}
			desc = append(desc, input.Describe([]input.Event{e}))
			sb.WriteString(e.Bytes)
			last = e
		}
		sb.WriteString("\r")
		events = append(events, input.Event{Kind: "control", Bytes: "\r", Msg: bento.KeyMsg{Type: bento.KeyEnter}})
		d := strings.Join(desc, ", ")
		got, full := decode(t, d, []string{sb.String()})
		kit.Case(d, noisy > 0 && len(events) > 1, kit.Cls(full > 0, "full buffers"))
		want := input.Expected(events)
		if n := input.Normal(got, false); !slices.Equal(n, want) {
			t.Fatalf("%s\n%s", first(n, want), d)
		}
	})
}

// TestTruncated: a sequence that never ends does not take the next one with it.
func TestTruncated(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		p := ""
		if input.Exact && rapid.Bool().Draw(t, "long") {
			p = pad(t, 20)
		}
		cut := rapid.SampledFrom(truncated).Draw(t, "cut")
		var events []input.Event
		size := 0
		last := input.Event{Kind: "none", Bytes: "none"}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "events"); i < n; i++ {
			e := input.One().Draw(t, "event")
			if e.Kind == "esc" || e.Kind == "empty paste" || input.Joined(last, e) || len(e.Bytes) > 150 {
				continue
			}
			if size += len(e.Bytes); !input.Exact && size > 150 {
				break
			}
			if len(events) == 0 && e.Bytes[0] >= 0x20 && e.Bytes[0] != 0x7f {
				continue // it might complete the sequence or join what is left of it
			}
			events, last = append(events, e), e
		}
		end := input.Event{Kind: "control", Bytes: "\r", Msg: bento.KeyMsg{Type: bento.KeyEnter}}
		events = append(events, end)
		s := p + cut
		for _, e := range events {
			s += e.Bytes
		}
		desc := fmt.Sprintf("%d bytes %.1q, %q, %s", len(p), p, cut, input.Describe(events))
		got, full := decode(t, desc, []string{s})
		kit.Case(desc, true, kit.Cls(full > 0, "full buffers"))
		want := input.Expected(events)
		n := input.Normal(got, false)
		if len(n) < len(want) || !slices.Equal(n[len(n)-len(want):], want) {
			t.Fatalf("got %v, want it to end with %v\n%s", n[max(0, len(n)-len(want)-3):], want, desc)
		}
	})
}

// unknown draws a control sequence that stands for no action.
func unknown(t *rapid.T) string {
	some := func(from, to byte, most int, label string) string {
		return string(kit.Several(rapid.ByteRange(from, to), 0, most).Draw(t, label))
	}
	s := "\x1b["
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		// as terminals answer
		s += rapid.SampledFrom([]string{"?", ">", "=", "<"}).Draw(t, "private")
		for i, n := 0, kit.UpTo(4).Draw(t, "parameters"); i < n; i++ {
			s += fmt.Sprintf("%d;", kit.UpTo(4000).Draw(t, "parameter"))
		}
	case 1:
		s += fmt.Sprint(kit.AtLeast(300, 70000).Draw(t, "number"))
		s += some(0x30, 0x3f, 8, "parameters")
	default:
		s += some(0x30, 0x3f, 8, "parameters")
	}
	s += some(0x20, 0x2f, 1, "intermediates")
	s += string(rapid.OneOf(rapid.ByteRange(0x40, 0x7e), rapid.SampledFrom([]byte("cnRtyuMm~"))).Draw(t, "final"))
	for i := 3; i <= len(s); i++ {
		if _, ok := input.Sequences[s[:i]]; ok {
			return "\x1b[?1$y"
		}
	}
	for _, p := range []string{"\x1b[M", "\x1b[I", "\x1b[O", "\x1b[200~", "\x1b[201~"} {
		if strings.HasPrefix(s, p) {
			return "\x1b[?62;c"
		}
	}
	if strings.HasPrefix(s, "\x1b[<") {
		return "\x1b[<1;2" + s[len(s)-1:]
	}
	return s
}

// TestUnknown: control sequences that stand for nothing are reported whole, and
// the reports keep what they say.
func TestUnknown(t *testing.T) {
	if !input.Exact {
		t.Skip("reads cannot be controlled")
	}
	rapid.Check(t, func(t *rapid.T) {
		var chunks, parts, want []string
		var events []input.Event
		flush := func() {
			want = append(want, input.Expected(events)...)
			events = nil
		}
		last := input.Event{Kind: "none", Bytes: "none"}
		reports := 0
		if rapid.IntRange(0, 2).Draw(t, "pad") == 0 {
			p := "\t" + strings.Repeat("y", max(0, input.BufferSize-rapid.IntRange(0, 20).Draw(t, "before the end")))
			last = input.Event{Kind: "text", Bytes: p, Msg: bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(p[1:])}}
			events = append(events, input.Event{Kind: "control", Bytes: "\t", Msg: bento.KeyMsg{Type: bento.KeyTab}}, last)
			parts, chunks = append(parts, fmt.Sprintf("%d times y", len(p)-1)), append(chunks, p)
		}
		add := func(s string) {
			if !input.Late(last) && len(chunks) > 0 && rapid.Bool().Draw(t, "at once") {
				chunks[len(chunks)-1] += s
			} else {
				chunks = append(chunks, s)
			}
		}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "pieces"); i < n; i++ {
			if rapid.Bool().Draw(t, "report") {
				s := unknown(t)
				alone, _ := decode(t, fmt.Sprintf("%q", s), []string{s})
				if len(alone) != 1 || input.Known(alone[0]) || alone[0] == nil {
					t.Fatalf("%q gives %d messages (%s), want one that is no action", s, len(alone), input.Normal(alone, true))
				}
				flush()
				want = append(want, input.Normal(alone, true)...)
				parts = append(parts, fmt.Sprintf("%q", s))
				add(s)
				last = input.Event{Kind: "report", Bytes: s}
				reports++
				continue
			}
			e := input.One().Draw(t, "event")
			if input.Joined(last, e) || input.Late(e) && len(strings.Join(chunks, "")) > 200 {
				// at the end of a full buffer more is expected
				continue
			}
			add(e.Bytes)
			events, parts, last = append(events, e), append(parts, input.Describe([]input.Event{e})), e
		}
		flush()
		desc := fmt.Sprintf("%s in %d reads", strings.Join(parts, ", "), len(chunks))
		got, full := decode(t, desc, chunks)
		kit.Case(desc, reports > 0 && len(parts) > 1, kit.Cls(full > 0, "full buffer"), kit.Cls(reports > 1, "several reports"))
		if n := input.Normal(got, true); !slices.Equal(n, want) {
			t.Fatalf("%s\n%s", first(n, want), desc)
		}
	})
}
