// C30: an ended app leaves nothing running and nothing open.
package c30

import (
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/app"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	app.Setup(m)
	kit.Main(m)
}

// files lists what is open.
func files() []string {
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	names, err := d.Readdirnames(0)
	d.Close()
	if err != nil {
		panic(err)
	}
	var out []string
	for _, n := range names {
		if to, err := os.Readlink("/proc/self/fd/" + n); err == nil {
			out = append(out, to)
		}
	}
	sort.Strings(out)
	return out
}

var number = regexp.MustCompile(`[0-9]+`)

// more names what is in b more often than in a.
func more(a, b []string) (out []string) {
	count := map[string]int{}
	for _, n := range a {
		count[number.ReplaceAllString(n, "")]++
	}
	for _, n := range b {
		n = number.ReplaceAllString(n, "")
		if count[n]--; count[n] < 0 {
			out = append(out, n)
		}
	}
	return out
}

// alive counts goroutines. It stops the world to do so: runtime.NumGoroutine may
// be off any way while goroutines come and go.
func alive() int {
	n, _ := runtime.GoroutineProfile(make([]runtime.StackRecord, 1))
	return n
}

// running describes the goroutines of apps.
func running() string {
	var sb strings.Builder
	_ = pprof.Lookup("goroutine").WriteTo(&sb, 1)
	var out []string
	for _, g := range strings.Split(sb.String(), "\n\n") {
		if strings.Contains(g, "bento.") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n")
}

// TestProperty: goroutines and files before and after an app.
func TestProperty(t *testing.T) {
	// What is started once and for all is started now.
	app.Scenario{Causes: []app.Cause{{Kind: "quit", At: "update", N: 1}}, Resizes: 1, Procs: 1}.Play(nil).Close()
	stuck := 0
	rapid.Check(t, func(t *rapid.T) {
		if stuck > 2 {
			return
		}
		s := app.Draw(t, "quit", "quit", "cancel", "cancel", "panic", "panic", "output", "input", "hangup")
		desc := s.String()
		first := s.Causes[0]
		kit.Case(desc, first.At != "before" && s.Loaded(), first.Kind, kit.Cls(len(s.Causes) > 1, "more than one cause"), kit.Cls(s.Blocked > 0, "blocked commands"))
		kit.Journal(desc)
		// Files that nobody closed would be closed by the garbage collector. The
		// cancelreader package leaves a pipe to it when the input can't be waited
		// for.
		collected := s.Has("input")
		if !collected {
			defer debug.SetGCPercent(debug.SetGCPercent(-1))
		}
		goroutines, open := 0, []string(nil)
		r := s.Play(func(*app.Session) { goroutines, open = alive(), files() })
		defer r.Close()
		if r.Piped {
			kit.Class("piped")
		}
		if !r.Ended {
			// C24 is about that.
			stuck++
			kit.Class("still running")
			return
		}
		r.Release()
		for start := time.Now(); alive() > goroutines; time.Sleep(50 * time.Microsecond) {
			if time.Since(start) > time.Duration(app.Patience.Load()) {
				app.Patience.Store(int64(time.Second))
				t.Fatalf("after %s %d goroutines are left of %d before:\n%s\n%s", r.First, alive(), goroutines, running(), desc)
			}
		}
		for start := time.Now(); ; time.Sleep(50 * time.Microsecond) {
			now := files()
			if len(now) <= len(open) {
				break
			}
			if collected {
				runtime.GC()
			}
			if time.Since(start) > time.Duration(app.Patience.Load()) {
				app.Patience.Store(int64(time.Second))
				t.Fatalf("after %s there are still open: %s\n%s", r.First, strings.Join(more(open, now), ", "), desc)
			}
		}
	})
}
