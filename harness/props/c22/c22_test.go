// C22: however the app ends, the terminal is given back as it was found.
package c22

import (
	"fmt"
	"strings"
	"testing"

	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/app"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	app.Setup(m)
	kit.Main(m)
}

// diff names the settings that differ.
func diff(a, b unix.Termios) string {
	var out []string
	for _, f := range []struct {
		name string
		a, b uint32
	}{{"iflag", a.Iflag, b.Iflag}, {"oflag", a.Oflag, b.Oflag}, {"cflag", a.Cflag, b.Cflag}, {"lflag", a.Lflag, b.Lflag}, {"ispeed", a.Ispeed, b.Ispeed}, {"ospeed", a.Ospeed, b.Ospeed}} {
		if f.a != f.b {
			out = append(out, fmt.Sprintf("%s %#o, was %#o", f.name, f.b, f.a))
		}
	}
	for i := range a.Cc {
		if a.Cc[i] != b.Cc[i] {
			out = append(out, fmt.Sprintf("cc[%d] %d, was %d", i, b.Cc[i], a.Cc[i]))
		}
	}
	return strings.Join(out, ", ")
}

// TestProperty: modes, screen, settings and input of the terminal after an app
// ended in any way.
func TestProperty(t *testing.T) {
	stuck := 0
	rapid.Check(t, func(t *rapid.T) {
		if stuck > 2 {
			return
		}
		s := app.Draw(t, "quit", "quit", "cancel", "cancel", "panic", "panic", "output", "input")
		desc := s.String()
		first := s.Causes[0]
		kit.Case(desc, first.At != "before", first.Kind, kit.Cls(len(s.Causes) > 1, "more than one cause"), kit.Cls(s.Loaded(), "loaded"))
		kit.Journal(desc)
		r := s.Play(func(s *app.Session) { _, _ = s.Pair.Slave.WriteString("before it") })
		defer r.Close()
		if !r.Ended {
			// C24 is about that.
			stuck++
			kit.Class("still running")
			return
		}
		what := r.First
		if r.Panic != nil {
			what += fmt.Sprintf(" (run panicked: %v)", r.Panic)
		}

		now, err := r.Pair.Termios()
		if err != nil {
			t.Fatalf("%v\n%s", err, desc)
		}
		// A terminal that can no longer be reached for reading keeps its settings.
		if d := diff(r.Before, *now); d != "" && !s.Has("input") {
			t.Fatalf("settings changed after %s: %s\n%s", what, d, desc)
		}

		if !s.Has("output") {
			r.Sync()
			e := r.Emu
			switch {
			case e.InAlt:
				t.Fatalf("in the alternate screen after %s\n%s", what, desc)
			case !e.CursorVisible:
				t.Fatalf("no cursor after %s\n%s", what, desc)
			case e.BracketedPaste:
				t.Fatalf("bracketed paste after %s\n%s", what, desc)
			case !e.DefaultRendition():
				t.Fatalf("still styled after %s\n%s", what, desc)
			case !s.Has("panic") && !s.Has("input") && s.Typing == 0 && !strings.HasPrefix(e.Row(0), "before it"):
				t.Fatalf("the screen was changed after %s:\n%s\n%s", what, e.Dump(), desc)
			case len(e.Problems) > 0:
				t.Fatalf("%v\n%s", e.Problems, desc)
			}
		}

		if r.Piped {
			kit.Class("piped")
			if left, was := r.Session.Piped(); left != was {
				t.Fatalf("of the data piped in, %q, only %q is left after %s\n%s", was, left, what, desc)
			}
		}

		if line := "typed later"; !s.Has("input") {
			if ok, got := r.Leftover(line); !ok {
				t.Fatalf("of %q only %q is left for the next reader after %s\n%s", line, got, what, desc)
			}
		}
	})
}
