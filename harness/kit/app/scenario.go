package app

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// Patience is how long an app may take to end. It shrinks once that was too
// little, so that the case can be reduced.
var Patience atomic.Int64

func init() { Patience.Store(int64(20 * time.Second)) }

// Cause is what ends an app.
type Cause struct {
	Kind string // quit, cancel, panic, output, input, hangup, notty
	At   string // where: before, init, render, update, command, sequence, batch, nested, tick, key, time
	N    int    // the how manieth update or render, or how long after the start
	What int    // the kind of panic
}

func (c Cause) String() string { return fmt.Sprintf("%s at %s %d (%d)", c.Kind, c.At, c.N, c.What) }

// Scenario is a run of an app with all that happens to it.
type Scenario struct {
	Causes    []Cause
	Producers int // commands that are started again with every message
	Pause     time.Duration
	Blocked   int // commands that do not return before the app does
	Trees     int // sequences and batches of commands
	Typing    int // bytes typed meanwhile
	Resizes   int
	Yields    int
	Procs     int
	Flags     uint
	Look      int  // the style of frames
	Piped     bool // the standard input is a pipe
}

var looks = []bento.Style{
	bento.NewStyle().Red().OnBlue().Bold().Underlined(),
	bento.NewStyle().Red(), bento.NewStyle().OnBlue(), bento.NewStyle().Bold(), bento.NewStyle().Underlined(), bento.NewStyle().Reversed(),
	bento.NewStyle().WithModifier(bento.ModifierHidden), bento.NewStyle().RGB(1, 2, 3), bento.NewStyle(),
}

func (s Scenario) String() string { return fmt.Sprintf("%+v", struct{ Scenario }{s}.Scenario.fields()) }

func (s Scenario) fields() map[string]any {
	return map[string]any{
		"causes": fmt.Sprint(s.Causes), "producers": s.Producers, "pause": s.Pause, "blocked": s.Blocked, "trees": s.Trees,
		"typing": s.Typing, "resizes": s.Resizes, "yields": s.Yields, "procs": s.Procs, "flags": s.Flags, "look": s.Look, "piped": s.Piped,
	}
}

// Kinds of causes, each with the places it can happen at.
var places = map[string][]string{
	"quit":   {"init", "update", "command", "sequence", "batch", "nested", "tick", "key"},
	"cancel": {"before", "init", "update", "render", "command", "sequence", "time", "deadline"},
	"panic":  {"init", "update", "render", "command", "sequence", "batch", "nested", "tick"},
	"output": {"before", "init", "update", "render", "command", "time"},
	"input":  {"before", "init", "update", "render", "command", "time"},
	"hangup": {"update", "render", "command", "time"},
	"notty":  {"before"},
}

// Draw draws a scenario with causes of the kinds given.
func Draw(t *rapid.T, kinds ...string) Scenario {
	cause := func() Cause {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		c := Cause{Kind: k, At: rapid.SampledFrom(places[k]).Draw(t, "at"), What: rapid.IntRange(0, 4).Draw(t, "what")}
		switch c.At {
		case "time", "deadline":
			c.N = rapid.SampledFrom([]int{0, 20, 100, 300, 1000, 3000}).Draw(t, "µs")
		case "render":
			c.N = rapid.IntRange(0, 5).Draw(t, "n")
		default:
			c.N = rapid.IntRange(1, 5).Draw(t, "n")
		}
		return c
	}
	s := Scenario{Causes: []Cause{cause()}}
	if rapid.IntRange(0, 4).Draw(t, "another") == 2 {
		s.Causes = append(s.Causes, cause())
	}
	if rapid.Bool().Draw(t, "loaded") {
		s.Producers = rapid.SampledFrom([]int{0, 1, 2, 5, 20}).Draw(t, "producers")
		s.Pause = time.Duration(rapid.SampledFrom([]int{0, 0, 20, 100}).Draw(t, "µs")) * time.Microsecond
		s.Blocked = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "blocked")
		s.Trees = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "trees")
		s.Typing = rapid.SampledFrom([]int{0, 0, 10, 600}).Draw(t, "typing")
		s.Resizes = rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "resizes")
	}
	s.Yields = rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "yields")
	s.Procs = rapid.SampledFrom([]int{1, 2, 2, 4}).Draw(t, "procs")
	s.Flags = uint(rapid.IntRange(0, 1<<9-1).Draw(t, "terminal"))
	s.Look = rapid.IntRange(0, len(looks)-1).Draw(t, "look")
	if !s.Has("input") && !s.Has("notty") {
		s.Piped = rapid.IntRange(0, 2).Draw(t, "piped") == 2
	}
	return s
}

// Has reports whether a cause of the kind is among the causes.
func (s Scenario) Has(kind string) bool {
	for _, c := range s.Causes {
		if c.Kind == kind {
			return true
		}
	}
	return false
}

// Loaded reports whether anything goes on besides the cause.
func (s Scenario) Loaded() bool {
	return s.Producers+s.Blocked+s.Trees+s.Typing+s.Resizes > 0
}

// Result is what came of a scenario.
type Result struct {
	*Session
	Ended   bool
	Fired   bool // the first cause took place
	First   string
	Where   string
	Piped   bool // the standard input was a pipe
	release func()
	close   func()
}

// Release lets the commands return that were blocked.
func (r *Result) Release() { r.release() }

// Close ends everything that was left.
func (r *Result) Close() {
	r.release()
	r.close()
}

type theater struct {
	s       Scenario
	session *Session
	cancel  context.CancelFunc
	release chan struct{}

	mu      sync.Mutex
	updates int
	renders int
	fired   []string
	busy    bool
}

type (
	driven   struct{}
	produced struct{}
)

// Panics of different kinds.
func blow(what int) {
	switch what {
	case 0:
		panic("a string")
	case 1:
		panic(errors.New("an error"))
	case 2:
		var m map[string]int
		m["x"] = 1
	case 3:
		var p *Cause
		_ = p.Kind
	default:
		panic(struct{ x int }{what})
	}
}

func (x *theater) fire(c Cause) {
	x.mu.Lock()
	x.fired = append(x.fired, c.Kind)
	x.mu.Unlock()
	switch c.Kind {
	case "cancel":
		x.cancel()
	case "panic":
		blow(c.What)
	case "output":
		x.session.BreakOutput()
	case "input":
		x.session.BreakInput()
	case "hangup":
		x.session.Pair.Master.Close()
	}
}

// at fires what is to happen at a place; it returns a command for quitting.
func (x *theater) at(place string, n int) (cmd bento.Cmd) {
	for _, c := range x.s.Causes {
		if c.At != place || c.N != n {
			continue
		}
		if c.Kind == "quit" {
			x.mu.Lock()
			x.fired = append(x.fired, c.Kind)
			x.mu.Unlock()
			cmd = bento.Quit
			continue
		}
		x.fire(c)
	}
	return cmd
}

// started is a command returned by the nth update that does what is to happen
// in one.
func (x *theater) started(n int) bento.Cmd {
	var cmds []bento.Cmd
	for _, c := range x.s.Causes {
		if c.N != n {
			continue
		}
		do := func() bento.Msg {
			if c.Kind == "quit" {
				x.mu.Lock()
				x.fired = append(x.fired, c.Kind)
				x.mu.Unlock()
				return bento.QuitMsg{}
			}
			x.fire(c)
			return nil
		}
		quick := func() bento.Msg { return produced{} }
		switch c.At {
		case "command":
			cmds = append(cmds, do)
		case "sequence":
			cmds = append(cmds, bento.Sequence(quick, quick, do, quick))
		case "batch":
			cmds = append(cmds, bento.Batch(quick, do, quick))
		case "nested":
			cmds = append(cmds, bento.Sequence(quick, bento.Batch(quick, bento.Sequence(quick, bento.Batch(quick, do)), quick), quick))
		case "tick":
			cmds = append(cmds, bento.Tick(50*time.Microsecond, func(time.Time) bento.Msg { return do() }))
		case "key":
			x.mu.Lock()
			x.fired = append(x.fired, c.Kind)
			x.mu.Unlock()
			// Not ctrl+c: it makes a terminal that is no longer raw drop its output.
			x.session.Type("\x14")
		}
	}
	if len(cmds) == 1 {
		return cmds[0]
	}
	return bento.Batch(cmds...)
}

func (x *theater) drive() bento.Msg { return driven{} }

func (x *theater) produce() bento.Msg {
	if x.s.Pause > 0 {
		time.Sleep(x.s.Pause)
	}
	return produced{}
}

type actor struct{ x *theater }

func (a actor) Init() bento.Cmd {
	x := a.x
	if cmd := x.at("init", x.initN()); cmd != nil {
		return cmd
	}
	cmds := []bento.Cmd{x.drive}
	for i := 0; i < x.s.Producers; i++ {
		cmds = append(cmds, x.produce)
	}
	for i := 0; i < x.s.Blocked; i++ {
		blocked := func() bento.Msg { <-x.release; return produced{} }
		cmds = append(cmds, blocked, bento.Sequence(blocked, blocked), bento.Batch(blocked, blocked))
	}
	for i := 0; i < x.s.Trees; i++ {
		var many []bento.Cmd
		for j := 0; j < 12; j++ {
			many = append(many, x.produce)
		}
		cmds = append(cmds, bento.Sequence(many...), bento.Batch(many...), bento.Sequence(bento.Batch(many...), bento.Sequence(many...)))
	}
	return bento.Batch(cmds...)
}

// initN is what causes in init are numbered with.
func (x *theater) initN() int {
	for _, c := range x.s.Causes {
		if c.At == "init" {
			return c.N
		}
	}
	return 0
}

func (a actor) yield() {
	for i := 0; i < a.x.s.Yields; i++ {
		runtime.Gosched()
	}
}

func (a actor) Render(area bento.Rect, buffer *bento.Buffer) {
	x := a.x
	x.mu.Lock()
	n := x.renders
	x.renders++
	x.mu.Unlock()
	a.yield()
	buffer.SetString(area.Left(), area.Top(), fmt.Sprintf("frame %d", n), looks[x.s.Look])
	x.at("render", n)
}

func (a actor) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	x := a.x
	a.yield()
	switch msg := msg.(type) {
	case driven:
		x.mu.Lock()
		x.updates++
		n := x.updates
		x.mu.Unlock()
		if cmd := x.at("update", n); cmd != nil {
			return a, bento.Batch(cmd, x.drive)
		}
		return a, bento.Batch(x.started(n), x.drive)
	case produced:
		return a, x.again()
	case bento.KeyMsg:
		if msg.Type == bento.KeyCtrlT {
			return a, bento.Quit
		}
	}
	return a, nil
}

// again restarts a producer, as long as there are that many.
func (x *theater) again() bento.Cmd {
	if x.s.Producers == 0 {
		return nil
	}
	return x.produce
}

// Play runs a scenario to its end.
func (s Scenario) Play(before func(*Session)) *Result {
	old := runtime.GOMAXPROCS(s.Procs)
	session := Open(20, 4, s.Flags)
	s.Piped = s.Piped && session.Pipe()
	x := &theater{s: s, session: session, release: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	x.cancel = cancel
	for _, c := range s.Causes {
		if c.At == "deadline" {
			var stop context.CancelFunc
			ctx, stop = context.WithTimeout(ctx, time.Duration(c.N)*time.Microsecond)
			defer stop()
			x.fired = append(x.fired, c.Kind)
		}
	}
	if before != nil {
		before(session)
	}
	for _, c := range s.Causes {
		if c.At != "before" {
			continue
		}
		if c.Kind == "notty" {
			x.fired = append(x.fired, c.Kind)
			if err := unix.Dup3(int(devNull.Fd()), int(session.In.Fd()), unix.O_CLOEXEC); err != nil {
				panic(err)
			}
			continue
		}
		x.fire(c)
	}

	stop := make(chan struct{})
	var wg sync.WaitGroup
	beside := func(fn func()) {
		wg.Add(1)
		go func() { defer wg.Done(); fn() }()
	}
	pause := func(d time.Duration) bool {
		select {
		case <-stop:
			return false
		case <-time.After(d):
			return true
		}
	}
	session.Start(actor{x}, ctx)
	for _, c := range s.Causes {
		if c.At == "time" {
			beside(func() {
				if pause(time.Duration(c.N) * time.Microsecond) {
					x.fire(c)
				}
			})
		}
	}
	if s.Typing > 0 {
		beside(func() {
			for i := 0; i < s.Typing; i += 10 {
				if _, err := session.Pair.Master.WriteString("abc\x1b[Adefg"); err != nil || !pause(10*time.Microsecond) {
					return
				}
			}
		})
	}
	if s.Resizes > 0 {
		beside(func() {
			for i := 0; i < s.Resizes; i++ {
				if session.Pair.SetSize(20+i%2, 4) != nil || unix.Kill(os.Getpid(), unix.SIGWINCH) != nil || !pause(50*time.Microsecond) {
					return
				}
			}
		})
	}
	r := &Result{Session: session, Piped: s.Piped}
	r.Ended = session.Wait(time.Duration(Patience.Load()))
	close(stop)
	wg.Wait()
	if !r.Ended {
		Patience.Store(int64(2 * time.Second))
		r.Where = session.Where()
	}
	x.mu.Lock()
	r.First = strings.Join(x.fired, ", ")
	r.Fired = len(x.fired) > 0
	x.mu.Unlock()
	r.release = sync.OnceFunc(func() { close(x.release) })
	r.close = func() {
		cancel()
		session.Close()
		runtime.GOMAXPROCS(old)
	}
	return r
}
