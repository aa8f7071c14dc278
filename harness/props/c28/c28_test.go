// C28: a throbber advances only on its own ticks and wraps around its symbols.
package c28

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/widget/throbberwidget"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { kit.Main(m) }

const maxTypes = 9

type throbber struct {
	state *throbberwidget.State
	typ   throbberwidget.Type
	step  int
	begun bool
}

// tick is a message in flight: whose it is and the step it was made for.
type tick struct {
	msg  bento.Msg
	of   int
	step int
}

func shown(th throbber) string {
	area := bento.NewRect(9, 3)
	buf := bento.NewBufferEmpty(area)
	throbberwidget.New().WithType(th.typ).RenderStateful(area, &buf, *th.state)
	out := ""
	for y := 0; y < 3; y++ {
		out += strings.TrimRight(kit.Row(&buf, y), " ") + "\n"
	}
	return strings.TrimSpace(out)
}

// eldest is the first throbber of the process: it is only ever started, and its
// ticks reach others.
var eldest = throbberwidget.NewState()

func property(t *rapid.T) {
	var ths []throbber
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "throbbers"); i < n; i++ {
		st := throbberwidget.NewState()
		pause := time.Duration(rapid.IntRange(0, 2).Draw(t, "fps"))
		if kit.Rarely(t, 6, "slow") {
			pause = time.Duration(rapid.IntRange(1, 3).Draw(t, "pause")) * time.Millisecond
		}
		if st.WithFPS(pause) != &st || st.FPS != pause {
			t.Fatalf("told to pause %v between ticks a throbber pauses %v", pause, st.FPS)
		}
		ths = append(ths, throbber{state: &st, typ: throbberwidget.Type(rapid.IntRange(0, maxTypes-1).Draw(t, "type"))})
		for _, other := range ths[:i] {
			if other.state.ID() == st.ID() {
				t.Fatalf("two throbbers share the identity %d", st.ID())
			}
		}
	}
	var flight []tick
	var hist []string
	consumed, ignored := 0, 0

	verify := func() {
		for i, th := range ths {
			set := th.typ.Set()
			want := strings.TrimSpace(string(set[th.step%len(set)]))
			if got := shown(th); got != want {
				t.Fatalf("throbber %d shows %q after %d steps, want %q; history: %s", i, got, th.step, want, strings.Join(hist, " "))
			}
		}
	}

	deliver := func(m tick, to int) {
		th := &ths[to]
		mine := m.of == to && m.step == th.step
		begun := time.Now()
		cmd, ok := th.state.TryUpdate(m.msg)
		hist = append(hist, fmt.Sprintf("tick(%d@%d)->%d:%v", m.of, m.step, to, ok))
		if ok != mine {
			t.Fatalf("throbber %d at step %d, tick of %d for its step %d: consumed=%v; history: %s", to, th.step, m.of, m.step, ok, strings.Join(hist, " "))
		}
		if !ok {
			ignored++
			if cmd != nil {
				t.Fatalf("throbber %d returned a command for a tick that is not its own", to)
			}
			return
		}
		consumed++
		th.step++
		if cmd == nil {
			t.Fatalf("throbber %d scheduled no next tick; history: %s", to, strings.Join(hist, " "))
		}
		msg := cmd()
		if passed := time.Since(begun); passed < th.state.FPS {
			t.Fatalf("the next tick of throbber %d comes after %v, not %v", to, passed, th.state.FPS)
		}
		tm, is := msg.(throbberwidget.TickMsg)
		if !is || tm.ID() != th.state.ID() {
			t.Fatalf("the next tick of throbber %d is %#v", to, msg)
		}
		flight = append(flight, tick{msg, to, th.step})
	}

	verify()
	for k, n := 0, rapid.IntRange(1, 40).Draw(t, "ops"); k < n; k++ {
		switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
		case op == 0:
			// start, or ask for another tick for the present step
			i := rapid.IntRange(0, len(ths)-1).Draw(t, "who")
			if ths[i].step == 0 && ths[i].begun {
				continue
			}
			ths[i].begun = true
			m := ths[i].state.Tick()
			if tm, is := m.(throbberwidget.TickMsg); !is || tm.ID() != ths[i].state.ID() {
				t.Fatalf("first tick of throbber %d is %#v", i, m)
			}
			hist = append(hist, fmt.Sprintf("start(%d)", i))
			flight = append(flight, tick{m, i, ths[i].step})
		case op == 1:
			i := rapid.IntRange(0, len(ths)-1).Draw(t, "who")
			other := rapid.SampledFrom([]bento.Msg{eldest.Tick(), bento.QuitMsg{}, bento.Key{}, "tick", 1, nil}).Draw(t, "msg")
			cmd, ok := ths[i].state.TryUpdate(other)
			hist = append(hist, fmt.Sprintf("%T->%d", other, i))
			if ok || cmd != nil {
				t.Fatalf("throbber %d consumed %#v", i, other)
			}
			ignored++
		case len(flight) > 0 && op < 8:
			// the app hands a message to one throbber after the other until it is consumed
			j := rapid.IntRange(0, len(flight)-1).Draw(t, "tick")
			if rapid.Bool().Draw(t, "latest") {
				j = len(flight) - 1
			}
			m := flight[j]
			flight = append(flight[:j:j], flight[j+1:]...)
			for i := range ths {
				before := len(flight)
				deliver(m, i)
				if len(flight) > before {
					break
				}
			}
		case len(flight) > 0:
			// a message handed to a single throbber, be it right or wrong; it stays in
			// flight unless it was the first tick of all
			j := rapid.IntRange(0, len(flight)-1).Draw(t, "tick")
			m := flight[j]
			if m.step == 0 {
				flight = append(flight[:j:j], flight[j+1:]...)
			}
			deliver(m, rapid.IntRange(0, len(ths)-1).Draw(t, "to"))
		}
		if k%4 == 3 {
			verify()
		}
	}
	if i := rapid.IntRange(0, len(ths)-1).Draw(t, "who"); ths[i].step > 0 && kit.Rarely(t, 5, "long run") {
		// what is in flight last for its present step, if anything
		for n := rapid.IntRange(100, 600).Draw(t, "steps"); n > 0; n-- {
			j := len(flight) - 1
			for j >= 0 && (flight[j].of != i || flight[j].step != ths[i].step) {
				j--
			}
			if j < 0 {
				break
			}
			m := flight[j]
			flight = append(flight[:j:j], flight[j+1:]...)
			deliver(m, i)
			verify()
		}
	}
	verify()
	wrapped := ""
	for _, th := range ths {
		if th.step > len(th.typ.Set()) {
			wrapped = "wrapped"
		}
	}
	kit.Case(strings.Join(hist, " "), consumed > 0 && ignored > 0, wrapped)
}

func TestProperty(t *testing.T) { rapid.Check(t, property) }
