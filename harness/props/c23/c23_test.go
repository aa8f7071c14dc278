// C23: the app delivers every message exactly once, to one update at a time.
package c23

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/verif/kit"
	"github.com/metafates/bento/verif/kit/app"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	app.Setup(m)
	kit.Main(m)
}

// limit is how long nothing may happen while something is due.
var limit atomic.Int64

func init() { limit.Store(int64(20 * time.Second)) }

type kind int

const (
	leaf kind = iota
	gate      // a leaf that waits for the message of another one to be delivered
	tick      // a leaf made by bento.Tick
	none      // a nil command
	batch
	raw // a command that returns a BatchMsg with whatever is in it
	sequence
)

type node struct {
	kind  kind
	id    int
	delay time.Duration
	quiet bool // no message
	waits *node
	kids  []*node
	then  *node // what update returns for the message
	twice bool  // another command is made of the same slice before, and dropped
}

func (n *node) String() string {
	if n == nil {
		return "-"
	}
	switch n.kind {
	case none:
		return "nil"
	case batch, raw, sequence:
		var ks []string
		for _, k := range n.kids {
			ks = append(ks, k.String())
		}
		return n.name() + "(" + strings.Join(ks, " ") + ")"
	}
	s := fmt.Sprint(n.id)
	switch n.kind {
	case tick:
		s += "t"
	case gate:
		s += fmt.Sprintf("<%d", n.waits.id)
	}
	if n.delay > 0 {
		s += fmt.Sprintf("~%d", n.delay.Microseconds())
	}
	if n.quiet {
		s += "q"
	}
	if n.then != nil {
		s += "→" + n.then.String()
	}
	return s
}

func (n *node) name() string {
	s := map[kind]string{batch: "batch", raw: "batchmsg", sequence: "seq"}[n.kind]
	if n.twice {
		s += "²"
	}
	return s
}

// direct appends the leaves of the tree itself, without what updates return.
func (n *node) direct(out []*node) []*node {
	if n == nil {
		return out
	}
	switch n.kind {
	case leaf, gate, tick:
		out = append(out, n)
	}
	for _, k := range n.kids {
		out = k.direct(out)
	}
	return out
}

// every appends all leaves and sequences, those returned later included.
func (n *node) every(leaves, seqs []*node) ([]*node, []*node) {
	if n == nil {
		return leaves, seqs
	}
	switch n.kind {
	case leaf, gate, tick:
		leaves = append(leaves, n)
	case sequence:
		seqs = append(seqs, n)
	}
	for _, k := range append(append([]*node(nil), n.kids...), n.then) {
		leaves, seqs = k.every(leaves, seqs)
	}
	return leaves, seqs
}

type plan struct {
	t     *rapid.T
	next  int
	spare int  // leaves still to be made
	reuse bool // commands run more than once: no timers
}

func (p *plan) leaf(plain bool) *node {
	n := &node{kind: leaf, id: p.next}
	p.next++
	p.spare--
	if rapid.IntRange(0, 3).Draw(p.t, "slow") == 3 {
		n.delay = time.Duration(rapid.SampledFrom([]int{1, 50, 200, 700}).Draw(p.t, "µs")) * time.Microsecond
	}
	if rapid.IntRange(0, 7).Draw(p.t, "tick") == 7 && !p.reuse {
		n.kind = tick
	}
	if !plain && rapid.IntRange(0, 5).Draw(p.t, "quiet") == 5 {
		n.quiet = true
	} else if !plain && p.spare > 0 && rapid.IntRange(0, 4).Draw(p.t, "more") == 4 {
		n.then = p.tree(2)
	}
	return n
}

func (p *plan) tree(depth int) *node {
	k := rapid.IntRange(0, 9).Draw(p.t, "kind")
	switch {
	case k == 9:
		return &node{kind: none}
	case k < 3 || depth == 0 || p.spare <= 0:
		return p.leaf(false)
	}
	n := &node{kind: []kind{batch, batch, raw, sequence, sequence, sequence}[k-3]}
	n.twice = n.kind != raw && rapid.IntRange(0, 2).Draw(p.t, "twice") == 2
	for i, m := 0, rapid.IntRange(0, 4).Draw(p.t, "kids"); i < m; i++ {
		if n.kind != sequence && i+1 < m && rapid.IntRange(0, 6).Draw(p.t, "gate") == 6 {
			// One that cannot end before another one was delivered.
			l := p.leaf(true)
			g := &node{kind: gate, id: p.next, waits: l}
			p.next++
			pair := []*node{g, l}
			if rapid.Bool().Draw(p.t, "first") {
				pair = []*node{l, g}
			}
			n.kids = append(n.kids, pair...)
			i++
			continue
		}
		n.kids = append(n.kids, p.tree(depth-1))
	}
	return n
}

type done struct{ id int }

// world is what happened.
type world struct {
	mu       sync.Mutex
	clock    int
	started  map[int]int
	ended    map[int]int
	got      map[int]int
	seen     map[int]chan struct{}
	typed    []string
	updates  int
	rendered int // the last version rendered
	problems []string
	leaves   map[int]*node
	keys     map[bento.KeyType]*node
	made     map[*node]bento.Cmd // commands to be used again, if not nil

	busy   atomic.Int32
	plain  int // touched by updates and renders only
	yields int
}

func (w *world) problem(format string, args ...any) {
	w.problems = append(w.problems, fmt.Sprintf(format, args...))
	w.clock++
}

// alone reports anything that runs at the same time.
func (w *world) alone(what string) func() {
	if w.busy.Add(1) != 1 {
		w.mu.Lock()
		w.problem("%s while another call of the model runs", what)
		w.mu.Unlock()
	}
	w.plain++
	for i := 0; i < w.yields; i++ {
		runtime.Gosched()
	}
	return func() { w.busy.Add(-1) }
}

func (w *world) cmd(n *node) bento.Cmd {
	if n == nil {
		return nil
	}
	if c, ok := w.made[n]; ok {
		return c
	}
	c := w.fresh(n)
	if w.made != nil {
		w.made[n] = c
	}
	return c
}

func (w *world) fresh(n *node) bento.Cmd {
	var kids []bento.Cmd
	for _, k := range n.kids {
		kids = append(kids, w.cmd(k))
	}
	if n.twice {
		_ = bento.Batch(kids...)
		_ = bento.Sequence(kids...)
	}
	switch n.kind {
	case none:
		return nil
	case batch:
		return bento.Batch(kids...)
	case raw:
		return func() bento.Msg { return bento.BatchMsg(kids) }
	case sequence:
		return bento.Sequence(kids...)
	case tick:
		return bento.Tick(n.delay, func(time.Time) bento.Msg { return w.run(n) })
	}
	return func() bento.Msg { return w.run(n) }
}

func (w *world) run(n *node) bento.Msg {
	w.mu.Lock()
	if w.started[n.id] > 0 {
		w.problem("command %d runs again", n.id)
	}
	w.clock++
	w.started[n.id] = w.clock
	w.mu.Unlock()
	if n.kind == leaf && n.delay > 0 {
		time.Sleep(n.delay)
	}
	if n.waits != nil {
		w.mu.Lock()
		seen := w.seen[n.waits.id]
		w.mu.Unlock()
		<-seen
	}
	w.mu.Lock()
	w.clock++
	w.ended[n.id] = w.clock
	w.mu.Unlock()
	if n.quiet {
		return nil
	}
	return done{n.id}
}

// model is a value: its version tells which update made it.
type model struct {
	w       *world
	version int
}

func (m model) Init() bento.Cmd {
	defer m.w.alone("init")()
	return m.w.cmd(m.w.leaves[-1])
}

func (m model) Render(area bento.Rect, buffer *bento.Buffer) {
	defer m.w.alone("render")()
	m.w.mu.Lock()
	if m.version != m.w.updates {
		m.w.problem("render of version %d, but the last update returned version %d", m.version, m.w.updates)
	}
	m.w.rendered = m.version
	m.w.clock++
	m.w.mu.Unlock()
	buffer.SetString(area.Left(), area.Top(), fmt.Sprintf("v%d.", m.version), bento.Style{})
}

func (m model) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	defer m.w.alone("update")()
	w := m.w
	w.mu.Lock()
	defer w.mu.Unlock()
	w.clock++
	if m.version != w.updates {
		w.problem("update of version %d with %T, but the last update returned version %d", m.version, msg, w.updates)
	}
	if w.updates > 0 && w.rendered != w.updates {
		w.problem("version %d was not rendered before the next update", w.updates)
	}
	w.updates++
	next := model{w, m.version + 1}
	switch msg := msg.(type) {
	case nil:
		w.problem("update with nil")
	case done:
		if w.got[msg.id] > 0 {
			w.problem("the message of command %d was delivered again", msg.id)
			return next, nil
		}
		w.got[msg.id] = w.clock
		close(w.seen[msg.id])
		return next, w.cmd(w.leaves[msg.id].then)
	case bento.BatchMsg:
		w.problem("update with a batch")
	case bento.KeyMsg:
		w.typed = append(w.typed, msg.String())
		switch {
		case msg.Type == bento.KeyEscape:
			return next, bento.Quit
		case msg.Type != bento.KeyRunes:
			return next, w.cmd(w.keys[msg.Type])
		}
	case bento.WindowSizeMsg:
	default:
		w.problem("update with a %T that nothing made: %v", msg, msg)
	}
	return next, nil
}

// place is a model that its updates change in place.
type place struct{ model }

func (m *place) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	next, cmd := m.model.Update(msg)
	m.model = next.(model)
	return m, cmd
}

// odd is a value that can't be compared, nor be a key.
type odd struct {
	model
	_ []func()
}

func (m odd) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	next, cmd := m.model.Update(msg)
	m.model = next.(model)
	return m, cmd
}

// turncoat is of another type after each update.
type turncoat struct{ model }

func (m turncoat) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	next, cmd := m.model.Update(msg)
	if m.version%2 == 0 {
		return odd{model: next.(model)}, cmd
	}
	return &place{next.(model)}, cmd
}

// version is that of a model of any kind, or -1.
func version(m bento.Model) int {
	switch m := m.(type) {
	case model:
		return m.version
	case *place:
		return m.version
	case odd:
		return m.version
	case turncoat:
		return m.version
	}
	return -1
}

type action struct {
	pause time.Duration
	text  string
	w, h  int
}

// TestProperty: trees of commands from init, updates and keys, with text typed
// and the terminal resized meanwhile.
func TestProperty(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		p := &plan{t: t, spare: rapid.IntRange(1, 24).Draw(t, "commands")}
		w := &world{started: map[int]int{}, ended: map[int]int{}, got: map[int]int{}, seen: map[int]chan struct{}{}, leaves: map[int]*node{}, keys: map[bento.KeyType]*node{}}
		rounds := max(1, rapid.IntRange(-3, 3).Draw(t, "rounds"))
		p.reuse = rounds > 1
		var keyTrees []*node
		first := p.tree(3)
		keys := rapid.IntRange(0, 3).Draw(t, "keys")
		for i := 0; i < keys; i++ {
			keyTrees = append(keyTrees, p.tree(3))
		}
		if rounds > 1 {
			keyTrees, first = append(keyTrees, first), nil
			keys++
			w.made = map[*node]bento.Cmd{}
		}
		// What is done at the terminal.
		var actions []action
		var want strings.Builder
		used, resized := 0, false
		for i, n := 0, rapid.IntRange(0, 8).Draw(t, "actions"); i < n || used < keys; i++ {
			a := action{pause: time.Duration(rapid.SampledFrom([]int{0, 0, 30, 300}).Draw(t, "µs")) * time.Microsecond}
			switch k := rapid.IntRange(0, 3).Draw(t, "action"); {
			case i >= n || k == 3 && used < keys:
				used++
				a.text = string(rune(used))
				want.WriteString("ctrl+" + string(rune('a'+used-1)))
			case k == 2:
				a.w, a.h = rapid.IntRange(10, 30).Draw(t, "w"), rapid.IntRange(1, 6).Draw(t, "h")
				resized = true
			default:
				for range rapid.IntRange(1, 4).Draw(t, "length") {
					a.text += string(rune('a' + want.Len()%26))
					want.WriteString(string(rune('a' + want.Len()%26)))
				}
			}
			actions = append(actions, a)
		}
		w.yields = rapid.SampledFrom([]int{0, 0, 1, 5, 40}).Draw(t, "yields")
		procs := rapid.SampledFrom([]int{1, 2, 2, 4}).Draw(t, "procs")
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)

		leaves, seqs := first.every(nil, nil)
		for i, k := range keyTrees {
			w.keys[bento.KeyType(i+1)] = k
			leaves, seqs = k.every(leaves, seqs)
		}
		for _, l := range leaves {
			w.leaves[l.id], w.seen[l.id] = l, make(chan struct{})
		}
		w.leaves[-1] = first

		var acts []string
		for _, a := range actions {
			acts = append(acts, fmt.Sprintf("%d µs later %q %dx%d", a.pause.Microseconds(), a.text, a.w, a.h))
		}
		kind := rapid.SampledFrom([]string{"value", "in place", "incomparable", "changing"}).Draw(t, "model")
		piped := rapid.IntRange(0, 3).Draw(t, "piped") == 3
		desc := fmt.Sprintf("%s piped=%v, init %v, keys %v, actions %v, %d rounds, %d processors, %d yields", kind, piped, first, keyTrees, acts, rounds, procs, w.yields)
		kit.Case(desc, len(leaves) > 1 && len(seqs) > 0, kind, kit.Cls(rounds > 1, "commands used again"), kit.Cls(resized, "resized"), kit.Cls(keys > 0, "commands by key"), kit.Cls(len(leaves) > 10, "more than ten commands"))
		kit.Journal(desc)
		kit.Events("commands", len(leaves))
		kit.Events("sequences", len(seqs))

		s := app.Open(20, 4, 0)
		defer s.Close()
		if piped && s.Pipe() {
			kit.Class("piped")
		}
		switch kind {
		case "value":
			s.Start(model{w, 0}, nil)
		case "in place":
			s.Start(&place{model{w, 0}}, nil)
		case "incomparable":
			s.Start(odd{model: model{w, 0}}, nil)
		case "changing":
			s.Start(turncoat{model{w, 0}}, nil)
		}

		type state struct{ clock int }
		idle := func(until func() bool, what func() string) {
			last, since := -1, time.Now()
			for {
				w.mu.Lock()
				clock, problems := w.clock, append([]string(nil), w.problems...)
				ok := until()
				w.mu.Unlock()
				if len(problems) > 0 {
					t.Fatalf("%s\n%s", strings.Join(problems, "\n"), desc)
				}
				select {
				case <-s.Done:
					w.mu.Lock()
					ok = until()
					w.mu.Unlock()
					if !ok {
						t.Fatalf("run returned %v (panic %v) before %s\n%s", s.Err, s.Panic, what(), desc)
					}
				default:
				}
				if ok {
					return
				}
				if clock != last {
					last, since = clock, time.Now()
				} else if time.Since(since) > time.Duration(limit.Load()) {
					limit.Store(int64(2 * time.Second))
					s.Wait(0)
					w.mu.Lock()
					defer w.mu.Unlock()
					t.Fatalf("nothing happens: %s\nat %s\n%s", what(), s.Where(), desc)
				}
				time.Sleep(20 * time.Microsecond)
			}
		}

		idle(func() bool { return w.clock > 0 }, func() string { return "the first render" })
		raw := time.Now()
		for {
			if now, err := s.Pair.Termios(); err == nil && now.Lflag&2 == 0 {
				break
			}
			if time.Since(raw) > app.Limit {
				t.Fatalf("no raw mode\n%s", desc)
			}
			time.Sleep(20 * time.Microsecond)
		}
		// rounds is one, or the commands of all keys are asked for once more.
		for round := 0; round < rounds; round++ {
			if round > 0 {
				actions = nil
				w.mu.Lock()
				for i := range keyTrees {
					actions = append(actions, action{text: string(rune(i + 1))})
					want.WriteString("ctrl+" + string(rune('a'+i)))
				}
				clear(w.started)
				clear(w.ended)
				clear(w.got)
				for _, l := range leaves {
					w.seen[l.id] = make(chan struct{})
				}
				w.mu.Unlock()
			}
			for _, a := range actions {
				time.Sleep(a.pause)
				if a.text != "" {
					s.Type(a.text)
				} else {
					s.Resize(a.w, a.h)
				}
			}

			missing := func() string {
				var out []string
				for _, l := range leaves {
					switch {
					case w.started[l.id] == 0:
						out = append(out, fmt.Sprintf("command %d did not run", l.id))
					case w.ended[l.id] == 0:
						out = append(out, fmt.Sprintf("command %d did not end", l.id))
					case !l.quiet && w.got[l.id] == 0:
						out = append(out, fmt.Sprintf("the message of command %d did not arrive", l.id))
					}
				}
				if g := strings.Join(w.typed, ""); g != want.String() {
					out = append(out, fmt.Sprintf("typed %q, of that arrived %q", want.String(), g))
				}
				return strings.Join(out, ", ")
			}
			idle(func() bool {
				g := strings.Join(w.typed, "")
				return missing() == "" || len(g) >= want.Len() && g != want.String()
			}, missing)
			w.mu.Lock()
			m := missing()
			w.mu.Unlock()
			if m != "" {
				t.Fatalf("%s\n%s", m, desc)
			}

			// The order of sequences.
			w.mu.Lock()
			for _, q := range seqs {
				var before []*node
				for _, k := range q.kids {
					now := k.direct(nil)
					for _, a := range before {
						for _, b := range now {
							if w.ended[a.id] > w.started[b.id] {
								w.problem("%v: command %d started before command %d ended", q, b.id, a.id)
							}
							if !a.quiet && !b.quiet && w.got[a.id] > w.got[b.id] {
								w.problem("%v: the message of command %d arrived before that of command %d", q, b.id, a.id)
							}
						}
					}
					before = append(before, now...)
				}
			}
			problems := strings.Join(w.problems, "\n")
			w.mu.Unlock()
			if problems != "" {
				t.Fatalf("%s\n%s", problems, desc)
			}
		}

		// What is on the screen is the last model.
		if rapid.IntRange(0, 3).Draw(t, "look") == 0 && !resized {
			for start := time.Now(); ; {
				w.mu.Lock()
				version := fmt.Sprintf("v%d.", w.updates)
				w.mu.Unlock()
				s.Sync()
				if strings.HasPrefix(s.Emu.Row(0), version) {
					break
				}
				if time.Since(start) > time.Duration(limit.Load()) {
					t.Fatalf("the screen shows %q, the last model is %s\n%s", s.Emu.Row(0), version, desc)
				}
			}
		}

		s.Type("\x1b")
		if !s.Wait(time.Duration(limit.Load())) {
			limit.Store(int64(2 * time.Second))
			t.Fatalf("still running after quit, at %s\n%s", s.Where(), desc)
		}
		if s.Err != nil || s.Panic != nil {
			t.Fatalf("run returned %v, panic %v\n%s", s.Err, s.Panic, desc)
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.problems) > 0 {
			t.Fatalf("%s\n%s", strings.Join(w.problems, "\n"), desc)
		}
		if version(s.Model) != w.updates {
			t.Fatalf("run returned version %v, the last update returned %d\n%s", version(s.Model), w.updates, desc)
		}
		if w.rendered != w.updates {
			t.Fatalf("the last model, version %d, was not rendered (but %d)\n%s", w.updates, w.rendered, desc)
		}
	})
}
