// C29: the app follows the size of its terminal.
package c29

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/app"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	app.Setup(m)
	kit.Main(m)
}

var limit atomic.Int64

func init() { limit.Store(int64(20 * time.Second)) }

type size struct{ w, h int }

type world struct {
	mu       sync.Mutex
	told     []size
	now      size // the last size told, or the first one
	frames   int
	last     bento.Rect
	problems []string
	yields   int
	slow     time.Duration
	cells    func(w, h, x, y int) string
}

type model struct{ w *world }

func (m model) Init() bento.Cmd { return nil }

func (m model) Render(area bento.Rect, buffer *bento.Buffer) {
	w := m.w
	for i := 0; i < w.yields; i++ {
		runtime.Gosched()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.frames++
	w.last = area
	if area != bento.NewRect(w.now.w, w.now.h) || buffer.Area() != area {
		w.problems = append(w.problems, fmt.Sprintf("frame %d is rendered into %v of a buffer of %v, the size told is %v", w.frames, area, buffer.Area(), w.now))
	}
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			buffer.SetString(x, y, w.cells(area.Width, area.Height, x, y), bento.Style{})
		}
	}
}

func (m model) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	w := m.w
	if w.slow > 0 {
		time.Sleep(w.slow)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	switch msg := msg.(type) {
	case bento.WindowSizeMsg:
		w.now = size{msg.Width, msg.Height}
		w.told = append(w.told, w.now)
	case bento.KeyMsg:
		if msg.Type == bento.KeyEscape {
			return m, bento.Quit
		}
	}
	return m, nil
}

// patterns of what a frame shows.
var patterns = []func(w, h, x, y int) string{
	func(w, h, x, y int) string { return string(rune('a' + (x+3*y+5*w+7*h)%26)) },
	func(w, h, x, y int) string { return " " },
	func(w, h, x, y int) string {
		if x == w-1 || y == h-1 {
			return "#"
		}
		return " "
	},
	func(w, h, x, y int) string { return "x" },
}

// TestProperty: histories of resizes, from before the first frame on.
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		one := func() size {
			if kit.Rarely(t, 4, "nothing") {
				return size{rapid.IntRange(0, 1).Draw(t, "w"), rapid.IntRange(0, 1).Draw(t, "h")}
			}
			return size{rapid.IntRange(1, 40).Draw(t, "w"), rapid.IntRange(1, 12).Draw(t, "h")}
		}
		first := one()
		sizes := []size{first}
		type change struct {
			pause time.Duration
			to    size
			text  string
		}
		early := rapid.Bool().Draw(t, "early")
		var changes []change
		var desc []string
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "changes"); i < n; i++ {
			c := change{time.Duration(rapid.SampledFrom([]int{0, 0, 5, 20, 100, 400}).Draw(t, "µs")) * time.Microsecond, size{}, ""}
			if rapid.IntRange(0, 4).Draw(t, "text") == 4 {
				c.text = "abc"
			} else {
				c.to = one()
				if len(sizes) > 0 && rapid.Bool().Draw(t, "back") {
					c.to = rapid.SampledFrom(sizes).Draw(t, "to")
				}
				sizes = append(sizes, c.to)
			}
			changes = append(changes, c)
			desc = append(desc, fmt.Sprintf("%v later %dx%d %q", c.pause, c.to.w, c.to.h, c.text))
		}
		pattern := rapid.IntRange(0, len(patterns)-1).Draw(t, "pattern")
		w := &world{now: first, cells: patterns[pattern], yields: rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "yields")}
		w.slow = time.Duration(rapid.SampledFrom([]int{0, 0, 0, 50, 300}).Draw(t, "slow")) * time.Microsecond
		procs := rapid.SampledFrom([]int{1, 2, 2, 4}).Draw(t, "procs")
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		d := fmt.Sprintf("%dx%d (early %v), %v, pattern %d, updates take %v, %d yields, %d processors", first.w, first.h, early, desc, pattern, w.slow, w.yields, procs)
		kit.Case(d, len(changes) > 1, kit.Cls(early, "from the start"), kit.Cls(w.slow > 0, "slow updates"))
		kit.Journal(d)

		s := app.Open(first.w, first.h, 0)
		defer s.Close()
		s.Start(model{w}, nil)
		await := func(what string, until func() bool) {
			for start := time.Now(); ; {
				w.mu.Lock()
				ok, problems := until(), strings.Join(w.problems, "\n")
				told, last := fmt.Sprint(w.told), w.last
				w.mu.Unlock()
				if problems != "" {
					t.Fatalf("%s\n%s", problems, d)
				}
				if ok {
					return
				}
				select {
				case <-s.Done:
					t.Fatalf("run returned %v (panic %v) before %s\n%s", s.Err, s.Panic, what, d)
				default:
				}
				if time.Since(start) > time.Duration(limit.Load()) {
					limit.Store(int64(time.Second))
					s.Wait(0)
					t.Fatalf("%s did not happen: told %s, last frame rendered into %v; at %s\n%s", what, told, last, s.Where(), d)
				}
				time.Sleep(20 * time.Microsecond)
			}
		}
		if !early {
			await("the first size", func() bool { return len(w.told) > 0 && w.frames > 1 })
			w.mu.Lock()
			if w.told[0] != first {
				w.problems = append(w.problems, fmt.Sprintf("told %v first, the terminal is %v", w.told[0], first))
			}
			w.mu.Unlock()
		}
		now, shown := first, first
		began := false
		for _, c := range changes {
			time.Sleep(c.pause)
			if c.text != "" {
				// typed once the app listens
				if !began {
					await("the first size", func() bool { return len(w.told) > 0 })
				}
				began = true
				s.Type(c.text)
				continue
			}
			now = c.to
			w.mu.Lock()
			if w.frames == 0 {
				// It may or may not be seen by the first frame.
				w.mu.Unlock()
				await("the first frame", func() bool { return w.frames > 0 })
				w.mu.Lock()
			}
			w.mu.Unlock()
			if now != shown {
				s.Shake(now.w, now.h)
			}
			shown = now
		}
		// Nothing else is told once it has settled, and the screen, which lost what
		// it showed with each change, shows the last frame alone. An earlier time
		// the terminal had this size may pass for the last: hence the second look.
		for start, before := time.Now(), -1; ; {
			count := 0
			await(fmt.Sprintf("the size %dx%d", now.w, now.h), func() bool {
				count = len(w.told) + w.frames
				return len(w.told) > 0 && w.told[len(w.told)-1] == now && w.last == bento.NewRect(now.w, now.h)
			})
			s.Sync()
			diff := ""
			for y := 0; y < now.h && diff == ""; y++ {
				want := ""
				for x := 0; x < now.w; x++ {
					want += w.cells(now.w, now.h, x, y)
				}
				if got := s.Emu.Row(y); got != want {
					diff = fmt.Sprintf("row %d shows %q, want %q", y, got, want)
				}
			}
			if diff == "" && count == before {
				break
			}
			before = count
			if time.Since(start) > time.Duration(limit.Load()) {
				limit.Store(int64(time.Second))
				t.Fatalf("%s\n%s", diff, d)
			}
			if diff == "" {
				time.Sleep(2 * time.Millisecond)
			} else {
				time.Sleep(20 * time.Microsecond)
			}
		}
		s.Type("\x1b")
		if !s.Wait(time.Duration(limit.Load())) {
			limit.Store(int64(time.Second))
			t.Fatalf("still running after quit, at %s\n%s", s.Where(), d)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.problems) > 0 {
			t.Fatalf("%s\n%s", strings.Join(w.problems, "\n"), d)
		}
	})
}
