// C20: keys, pastes, focus and mouse actions.
package c20

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/input"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	input.Setup(m)
	kit.Main(m)
}

func name(t *rapid.T, e input.Event) {
	switch m := e.Msg.(type) {
	case bento.KeyMsg:
		want := input.Names[m.Type]
		if m.Type == bento.KeyRunes {
			want = string(m.Runes)
			if m.Paste {
				want = "[" + want + "]"
			}
		}
		if m.Alt {
			want = "alt+" + want
		}
		if m.String() != want || bento.Key(m).String() != want {
			t.Fatalf("%s is named %q, want %q", input.Describe([]input.Event{e}), m.String(), want)
		}
		if w, ok := input.Names[m.Type]; ok && m.Type.String() != w {
			t.Fatalf("key %d is named %q, want %q", m.Type, m.Type.String(), w)
		}
	case bento.MouseMsg:
		want := ""
		if m.Ctrl {
			want += "ctrl+"
		}
		if m.Alt {
			want += "alt+"
		}
		if m.Shift {
			want += "shift+"
		}
		action := []string{"press", "release", "motion"}[m.Action]
		button := []string{"", "left", "middle", "right", "wheel up", "wheel down", "wheel left", "wheel right", "backward", "forward", "button 10", "button 11"}[m.Button]
		wheel := strings.HasPrefix(button, "wheel")
		if bento.MouseEvent(m).IsWheel() != wheel {
			t.Fatalf("%s is of the wheel: %v", input.Describe([]input.Event{e}), !wheel)
		}
		switch {
		case m.Button == bento.MouseButtonNone:
			want += action
		case wheel:
			want += button
		default:
			want += button + " " + action
		}
		if m.String() != want || bento.MouseEvent(m).String() != want {
			t.Fatalf("%s is named %q, want %q", input.Describe([]input.Event{e}), m.String(), want)
		}
	}
}

func first(a, b []string) string {
	for i := 0; i < max(len(a), len(b)); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("message %d is %s, want %s", i+1, x, y)
		}
	}
	return "same"
}

// TestProperty: the messages of a history of actions arriving in pieces that
// end between actions.
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var events []input.Event
		var chunks []string
		kinds := map[string]bool{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "chunks"); i < n; i++ {
			var sb strings.Builder
			var last *input.Event
			for j, m := 0, rapid.IntRange(1, 7).Draw(t, "events"); j < m; j++ {
				e := input.One().Draw(t, "event")
				if last != nil && input.Joined(*last, e) {
					continue
				}
				if !input.Exact && (e.Kind == "esc" || sb.Len()+len(e.Bytes) > 150) {
					continue
				}
				sb.WriteString(e.Bytes)
				events = append(events, e)
				last = &events[len(events)-1]
				kinds[e.Kind] = true
				if e.Kind == "esc" {
					break
				}
			}
			if last != nil && (sb.Len()%input.BufferSize == 0 || !input.Exact) && input.Late(*last) {
				// the end of the piece is not to be told from a pause
				e := input.Event{Kind: "space", Bytes: " ", Msg: bento.KeyMsg{Type: bento.KeySpace, Runes: []rune{' '}}}
				if input.Joined(*last, e) {
					e = input.Event{Kind: "control", Bytes: "\r", Msg: bento.KeyMsg{Type: bento.KeyEnter}}
				}
				if input.Joined(*last, e) {
					t.Skip("esc at the end of a full buffer")
				}
				sb.WriteString(e.Bytes)
				events = append(events, e)
			}
			if sb.Len() > 0 {
				chunks = append(chunks, sb.String())
			}
		}
		desc := fmt.Sprintf("%d pieces: %s", len(chunks), input.Describe(events))
		var got []bento.Msg
		var err error
		full := 0
		var looks []input.Look
		kit.Guard(desc, func() { got, full, looks, err = input.DecodeLooking(chunks) })
		classes := []string{kit.Cls(full > 0, "more than a buffer")}
		for k := range kinds {
			classes = append(classes, k)
		}
		kit.Case(desc, len(events) > 1 && len(kinds) > 1, classes...)
		if err != nil {
			t.Fatalf("%v\n%s", err, desc)
		}
		want := input.Expected(events)
		if g := input.Normal(got, true); !slices.Equal(g, want) {
			t.Fatalf("%s\n%s", first(g, want), desc)
		}
		if err := input.Behind(events, got, looks); err != nil {
			t.Fatalf("%v\n%s", err, desc)
		}
		for _, e := range events {
			name(t, e)
		}
	})
}
