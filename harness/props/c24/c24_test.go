// C24: running an app always ends.
package c24

import (
	"errors"
	"testing"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/app"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	app.Setup(m)
	kit.Main(m)
}

// TestProperty: whatever ends an app, it returns, with the error it ought to.
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		s := app.Draw(t, "quit", "quit", "cancel", "cancel", "panic", "panic", "output", "input", "hangup", "notty")
		desc := s.String()
		first := s.Causes[0]
		kit.Case(desc, first.At != "before" && s.Loaded(), first.Kind, kit.Cls(len(s.Causes) > 1, "more than one cause"), kit.Cls(s.Loaded(), "loaded"))
		kit.Journal(desc)
		r := s.Play(nil)
		defer r.Close()
		if r.Piped {
			kit.Class("piped")
		}
		if !r.Ended {
			t.Fatalf("still running after %s; at %s\n%s", r.First, r.Where, desc)
		}
		if r.Panic != nil {
			t.Fatalf("run panics: %v\n%s", r.Panic, desc)
		}
		for _, c := range s.Causes {
			if c.Kind != first.Kind {
				return
			}
		}
		switch first.Kind {
		case "quit":
			if r.Err != nil {
				t.Fatalf("error after quit: %v\n%s", r.Err, desc)
			}
		case "cancel":
			if !errors.Is(r.Err, bento.ErrKilled) {
				t.Fatalf("error after cancelling: %v, want %v\n%s", r.Err, bento.ErrKilled, desc)
			}
		default:
			if r.Err == nil {
				t.Fatalf("no error after %s\n%s", first.Kind, desc)
			}
		}
	})
}
